"""Endpoint groups: several routes with one endpoint, for building and
redirecting.  Every route starts with a static segment of its own, so a path
made from a route can only be matched by that route."""
import uuid

from hypothesis import strategies as st

from harness.models import routing as R


def value(conv, args, raw):
    return R.to_python(conv, args, raw)


def _uniq(l):
    out = []
    for x in l:
        if x not in out:
            out.append(x)
    return out


@st.composite
def group(draw, idx, cfg, start, max_routes=4, allow_alias=False):
    """Returns a group dict: endpoint, vars {name: [conv, args, raws]} and the
    routes; defaults and values are raw text."""
    names = draw(st.lists(
        st.sampled_from(R.NAMES), max_size=3, unique=True))
    dom = None
    if cfg.get('host_matching') or (
        cfg.get('use_domain') and draw(st.booleans())
    ):
        dom = draw(st.sampled_from(['static', 'var']))
    gvars = {}
    for n in names:
        # two path variables in one route would be ambiguous
        convs = [c for c in R.var_args if c != 'path' or not any(
            v[0] == 'path' for v in gvars.values())]
        _, _, conv, args = draw(R.variable(n, convs))
        raws = draw(st.lists(R.valid_raw(conv, args), min_size=1, max_size=3))
        gvars[n] = [conv, args, _uniq(raws)]
    if dom == 'var':
        gvars['dom'] = ['default', {}, _uniq(draw(st.lists(
            st.sampled_from(['a', 'en', 'de', 'x1']), min_size=1,
            max_size=2)))]
    if draw(st.integers(0, 2)) == 0:
        # never in a URL, only in defaults
        gvars['opt'] = ['opt', {}, _uniq(draw(st.lists(
            st.sampled_from(['', 'x', '0']), min_size=1, max_size=2)))]
    routes = []
    for r in range(draw(st.integers(1, max_routes))):
        order = list(draw(st.permutations(names)))
        defaults = {}
        segs = [[('s', 'r%d%s' % (start + r, draw(st.sampled_from(
            ['', '-x', ' é', '+', '.html', ':', '%25', '?q', '|', ';p'])))) ]]
        for n in order:
            conv, args, raws = gvars[n]
            k = draw(st.integers(0, 3))
            if k == 0:
                defaults[n] = draw(st.sampled_from(raws))
                continue
            if k == 1 and draw(st.integers(0, 4)) == 3:
                continue        # this route does not know about it
            seg = [('v', n, conv, args)]
            if k == 2 and draw(st.booleans()):
                seg.insert(0, ('s', 'p-'))
            segs.append(seg)
            if k == 3 and draw(st.booleans()):
                segs.append([('s', draw(st.sampled_from(
                    ['tail', 'é', 'a b', 'edit'])))])
        if 'opt' in gvars and draw(st.booleans()):
            defaults['opt'] = draw(st.sampled_from(gvars['opt'][2]))
        domain = None
        if dom == 'static':
            domain = [('s', draw(st.sampled_from(['www', 'api'])))]
        elif dom == 'var':
            if draw(st.integers(0, 3)) == 0:
                defaults['dom'] = draw(st.sampled_from(gvars['dom'][2]))
                domain = [('s', 'www')]
            else:
                domain = [('v', 'dom', 'default', {})]
        if domain and cfg.get('host_matching'):
            domain = R.merge_static(domain + [('s', '.example.org')])
        routes.append({
            'segs': segs, 'leaf': draw(st.booleans()),
            'endpoint': 'e%d' % idx, 'domain': domain,
            'defaults': defaults or None,
            'strict': draw(st.sampled_from([None, None, True, False])),
            'build_only': draw(st.integers(0, 11)) == 7,
            'alias': allow_alias and draw(st.integers(0, 3)) == 0,
        })
    return {'endpoint': 'e%d' % idx, 'vars': gvars, 'routes': routes}


@st.composite
def config(draw, redirect_defaults=None):
    cfg = {
        'strict_slashes': draw(st.booleans()),
        'redirect_defaults': draw(st.booleans())
        if redirect_defaults is None else redirect_defaults,
        'host_matching': draw(st.integers(0, 4)) == 0,
        'use_domain': draw(st.booleans()),
    }
    if draw(st.integers(0, 5)) == 0:
        cfg['charset'] = 'latin-1'
    return cfg


def spec_of(group, route):
    """The route spec with python values as defaults."""
    spec = dict(route)
    if route['defaults']:
        spec['defaults'] = {
            k: value(group['vars'][k][0], group['vars'][k][1], v)
            for k, v in route['defaults'].items()}
    return spec


def build_order(specs):
    return sorted(specs, key=lambda s: (
        1 if s.get('alias') else 0, -len(R.arguments(s)),
        -len(s.get('defaults') or ())))


def suitable(spec, values):
    defaults = spec.get('defaults') or {}
    for k in R.arguments(spec):
        if k not in defaults and k not in values:
            return False
    for k, v in defaults.items():
        if k in values and values[k] != v:
            return False
    return True


def url_text(conv, args, v):
    if conv == 'int' and args.get('fixed_digits'):
        return '%0*d' % (args['fixed_digits'], v)
    if conv == 'yesno':
        return 'yes' if v else 'no'
    return str(v)


def fill(items, values, gvars):
    out = []
    for i in items:
        if i[0] == 's':
            out.append(i[1])
        else:
            out.append(url_text(i[2], i[3], values[i[1]]))
    return ''.join(out)


def path_text(spec, values, gvars):
    s = fill(R.flat_items(spec), values, gvars)
    if not R.is_leaf(spec):
        s = s + '/' if spec['segs'] else '/'
    return s


def domain_text(spec, cfg, values, gvars):
    if spec.get('domain') is None:
        return ''
    return fill(spec['domain'], values, gvars)


def latin1(obj):
    """Everything in the case can be written in latin-1."""
    return all(ord(c) < 256 for c in _texts(obj))


def _texts(obj):
    if isinstance(obj, str):
        yield from obj
    elif isinstance(obj, dict):
        for k, v in obj.items():
            yield from _texts(k)
            yield from _texts(v)
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            yield from _texts(v)
