"""Reference model of the routing rules, and generators of route tables.

Nothing here looks at the implementation: a route is a list of items, a path
is matched against it by trying every split, and precedence is the documented
ordering.  A route spec is a plain dict:

    segs       list of segments; a segment is a list of items
               ('s', text) or ('v', name, converter, args)
    leaf       True if the route does not end in a slash
    endpoint   str
    defaults   None or dict
    domain     None or list of items (subdomain, or host with host matching)
    strict     None, True or False
    build_only, alias, redirect_to
"""
import uuid
from urllib.parse import unquote, urlsplit, parse_qsl

from hypothesis import strategies as st


# -- rendering ---------------------------------------------------------------

def render_args(conv, args):
    if not args:
        return ''
    if conv == 'any':
        return '(%s)' % ', '.join('"%s"' % a for a in args['items'])
    return '(%s)' % ', '.join('%s=%s' % kv for kv in sorted(args.items()))


def render_item(item):
    if item[0] == 's':
        return item[1]
    _, name, conv, args = item
    if conv == 'default':
        return '<%s>' % name
    return '<%s%s:%s>' % (conv, render_args(conv, args), name)


def render_items(items):
    return ''.join(render_item(i) for i in items)


def render_path(spec):
    s = '/' + '/'.join(render_items(seg) for seg in spec['segs'])
    if not spec['leaf'] and spec['segs']:
        s += '/'
    return s


def make_route(spec, host_matching=False):
    from verktyg.routing import Route
    kw = {}
    if spec.get('domain') is not None:
        kw['host' if host_matching else 'subdomain'] = render_items(
            spec['domain'])
    if spec.get('defaults') is not None:
        kw['defaults'] = dict(spec['defaults'])
    for key, name in (
        ('strict', 'strict_slashes'), ('build_only', 'build_only'),
        ('alias', 'alias'), ('redirect_to', 'redirect_to'),
    ):
        if spec.get(key) is not None:
            kw[name] = spec[key]
    return Route(render_path(spec), endpoint=spec['endpoint'], **kw)


# -- matching ----------------------------------------------------------------

def shape_ok(conv, args, raw):
    """Could `raw` be the text of a variable of this converter?"""
    if raw == '':
        return False
    if conv in ('default', 'string'):
        if '/' in raw:
            return False
        n = len(raw)
        if 'length' in args:
            return n == args['length']
        if n < args.get('minlength', 1):
            return False
        return n <= args.get('maxlength', n)
    if conv == 'path':
        return raw[0] != '/' and '\n' not in raw[1:]
    if conv == 'int':
        return raw.isdecimal()
    if conv == 'float':
        a, dot, b = raw.partition('.')
        return dot == '.' and a.isdecimal() and b.isdecimal()
    if conv == 'any':
        return raw in args['items']
    if conv == 'uuid':
        parts = raw.split('-')
        return [len(p) for p in parts] == [8, 4, 4, 4, 12] and all(
            c in '0123456789abcdefABCDEF' for p in parts for c in p)
    if conv == 'yesno':
        return raw in ('yes', 'no')
    raise AssertionError(conv)


class Invalid(Exception):
    pass


def to_python(conv, args, raw):
    if conv == 'int' or conv == 'float':
        if args.get('fixed_digits') and len(raw) != args['fixed_digits']:
            raise Invalid()
        v = int(raw) if conv == 'int' else float(raw)
        if 'min' in args and v < args['min']:
            raise Invalid()
        if 'max' in args and v > args['max']:
            raise Invalid()
        return v
    if conv == 'uuid':
        return uuid.UUID(raw)
    if conv == 'yesno':
        return raw == 'yes'
    return raw


def assignments(items, text):
    """Every way of splitting `text` over `items` (name -> raw text)."""
    if not items:
        return [{}] if text == '' else []
    item, rest = items[0], items[1:]
    if item[0] == 's':
        if not text.startswith(item[1]):
            return []
        return assignments(rest, text[len(item[1]):])
    _, name, conv, args = item
    out = []
    for n in range(1, len(text) + 1):
        if shape_ok(conv, args, text[:n]):
            for a in assignments(rest, text[n:]):
                a = dict(a)
                a[name] = text[:n]
                out.append(a)
    return out


def flat_items(spec):
    items = []
    for seg in spec['segs']:
        items.append(('s', '/'))
        items.extend(seg)
    if not spec['segs'] and spec['leaf']:
        items.append(('s', '/'))
    return items


def is_leaf(spec):
    # '/' on its own ends in a slash, it is a branch
    return bool(spec['leaf'] and spec['segs'])


def variables(spec):
    out = {}
    for item in (spec.get('domain') or []) + [
        i for seg in spec['segs'] for i in seg
    ]:
        if item[0] == 'v':
            out[item[1]] = (item[2], item[3])
    return out


def arguments(spec):
    return set(variables(spec)) | set(spec.get('defaults') or ())


def route_match(spec, cfg, domain, path):
    """Returns (kind, [values, ...]) where kind is 'no', 'slash' or 'match'.

    The values are those of the assignments that pass the converters, and
    the third element says whether all of the assignments do.
    """
    if spec.get('build_only'):
        return 'no', [], True
    strict = spec.get('strict')
    if strict is None:
        strict = cfg.get('strict_slashes', True)
    leaf = is_leaf(spec)
    ditems = spec.get('domain')
    if ditems is None:
        ditems = [('s', cfg.get('default_subdomain', ''))] if (
            cfg.get('default_subdomain') and not cfg.get('host_matching')
        ) else []
    douts = assignments(ditems, domain)
    if not douts:
        return 'no', [], True
    items = flat_items(spec)
    if not spec['segs']:
        items = []
    slash = False
    if leaf and strict:
        pouts = assignments(items, path)
    else:
        core = path[:-1] if path.endswith('/') else path
        if core.endswith('/'):
            return 'no', [], True
        pouts = assignments(items, core)
        slash = strict and not path.endswith('/')
    if not pouts:
        return 'no', [], True
    if slash:
        return 'slash', [], True
    conv = variables(spec)
    outs = []
    clean = True
    for d in douts:
        for p in pouts:
            raw = dict(d)
            raw.update(p)
            try:
                vals = {k: to_python(conv[k][0], conv[k][1], v)
                        for k, v in raw.items()}
            except Invalid:
                clean = False
                continue
            vals.update(spec.get('defaults') or {})
            outs.append(vals)
    if not outs:
        return 'no', [], True
    return 'match', outs, clean


CONV_WEIGHT = {
    'default': 100, 'string': 100, 'any': 100, 'uuid': 100, 'yesno': 100,
    'path': 200, 'int': 50, 'float': 50,
}


def precedence_key(spec, cfg):
    """Argument free routes first, then the ones with more parts, then part by
    part: static before variable, longer static first, lighter converter
    first."""
    ditems = spec.get('domain')
    if ditems is None:
        ditems = [('s', cfg.get('default_subdomain', ''))] if (
            cfg.get('default_subdomain') and not cfg.get('host_matching')
        ) else []

    def weigh(items):
        out = []
        text = ''
        for item in list(items) + [None]:
            if item is not None and item[0] == 's':
                text += item[1]
                continue
            out.extend((0, -len(p)) for p in text.split('/') if p)
            text = ''
            if item is not None:
                out.append((1, CONV_WEIGHT[item[2]]))
        return out

    weights = weigh(ditems) + weigh(flat_items(spec))
    return (bool(arguments(spec)), -len(weights), weights)


def in_order(specs, cfg):
    return sorted(specs, key=lambda s: precedence_key(s, cfg))


# -- generators --------------------------------------------------------------

STATIC_CHARS = 'abAB1-._+~ é|:%?=&;,@(*$\\^[]{}#\u4e2d'
static_text = st.one_of(
    st.sampled_from(['a', 'b', 'ab', 'abc', 'a.b', 'a1', '1', '12', 'foo',
                     'foo.html', 'page', 'é', 'x y', 'a+b', 'no', 'yes']),
    st.text(alphabet=STATIC_CHARS, min_size=1, max_size=4),
).filter(lambda s: s not in ('.', '..'))

host_label = st.sampled_from(['a', 'b', 'en', 'de', 'www', 'api', 'a1', '12'])

var_args = {
    'default': st.just({}),
    'string': st.one_of(
        st.just({}),
        st.integers(1, 3).map(lambda n: {'length': n}),
        st.tuples(st.integers(1, 3), st.integers(0, 2)).map(
            lambda p: {'minlength': p[0], 'maxlength': p[0] + p[1]}),
        st.integers(1, 3).map(lambda n: {'minlength': n}),
        st.integers(1, 3).map(lambda n: {'maxlength': n}),
    ),
    'path': st.just({}),
    'uuid': st.just({}),
    'yesno': st.just({}),
    'int': st.one_of(
        st.just({}),
        st.integers(1, 3).map(lambda n: {'fixed_digits': n}),
        st.tuples(st.integers(0, 20), st.integers(0, 20)).map(
            lambda p: {'min': p[0], 'max': p[0] + p[1]}),
        st.integers(0, 20).map(lambda n: {'min': n}),
        st.integers(0, 20).map(lambda n: {'max': n}),
        st.sampled_from([{'max': 0}, {'min': 1}, {'max': 1},
                         {'fixed_digits': 2, 'min': 10},
                         {'fixed_digits': 2, 'max': 10}]),
    ),
    'float': st.one_of(
        st.just({}),
        st.sampled_from([
            {'min': 1.5}, {'max': 2.25}, {'min': 0.5, 'max': 10.75},
            {'max': 0}, {'min': 1}]),
    ),
    'any': st.lists(
        st.one_of(
            st.sampled_from(['a', 'b', 'ab', 'about', 'help', 'x.y', '1',
                             'x,y', 'a b', 'é']),
            st.text(alphabet='ab.+*,:', min_size=1, max_size=3)),
        min_size=1, max_size=3, unique=True,
    ).map(lambda l: {'items': l}).filter(
        lambda a: all(i not in ('.', '..') for i in a['items'])),
}

NAMES = ['x', 'Y', 'id_', 'page_name', '_lang', 'w2']


@st.composite
def variable(draw, name, convs=None):
    conv = draw(st.sampled_from(convs or (
        'default', 'string', 'int', 'float', 'path', 'any', 'uuid', 'yesno')))
    return ('v', name, conv, draw(var_args[conv]))


@st.composite
def segments(draw, names, max_segs=3, allow_multi=True):
    """names: list of still unused variable names (consumed)."""
    segs = []
    for _ in range(draw(st.integers(0, max_segs))):
        kind = draw(st.integers(0, 9))
        if kind <= 4 or not names:
            segs.append([('s', draw(static_text))])
        elif kind <= 7 or not allow_multi:
            segs.append([draw(variable(names.pop(0)))])
        elif kind == 8:
            seg = [draw(variable(names.pop(0)))]
            if draw(st.booleans()):
                seg.insert(0, ('s', draw(static_text)))
            else:
                seg.append(('s', draw(static_text)))
            segs.append(seg)
        else:
            seg = [draw(variable(names.pop(0)))]
            if names:
                seg.append(('s', draw(static_text)))
                seg.append(draw(variable(names.pop(0))))
            segs.append(seg)
    return segs


def domain_items(draw, names, host=False):
    kind = draw(st.integers(0, 5))
    if kind <= 2:
        items = [('s', draw(host_label))]
    elif kind <= 4 and names:
        items = [draw(variable(
            names.pop(0), ('default', 'string', 'any')))]
        if items[0][2] == 'any':
            items = [('v', items[0][1], 'any',
                      {'items': ['en', 'de', 'a1']})]
    else:
        items = [('s', draw(host_label)), ('s', '.')]
        if names and draw(st.booleans()):
            items.append(draw(variable(names.pop(0), ('default', 'int'))))
        else:
            items.append(('s', draw(host_label)))
    if host:
        items.append(('s', '.example.org'))
    return merge_static(items)


def merge_static(items):
    out = []
    for i in items:
        if out and out[-1][0] == 's' and i[0] == 's':
            out[-1] = ('s', out[-1][1] + i[1])
        else:
            out.append(i)
    return out


# raw text of a variable: valid, or close to valid

def nice_text(chars='abcAB12-._~ é:%?&=+;,\u4e2d', max_size=4):
    return st.text(alphabet=chars, min_size=1, max_size=max_size).filter(
        lambda s: s not in ('.', '..'))


@st.composite
def valid_raw(draw, conv, args):
    """Text the converter accepts, in the canonical form build() produces."""
    if conv in ('default', 'string'):
        lo = args.get('length', args.get('minlength', 1))
        hi = args.get('length', args.get('maxlength', max(lo, 1) + 3))
        return draw(st.text(
            alphabet='abAB12-_~ é:%?&=+;,.\u4e2d', min_size=lo, max_size=hi,
        ).filter(lambda s: s not in ('.', '..')))
    if conv == 'path':
        return '/'.join(draw(st.lists(
            nice_text(), min_size=1, max_size=3)))
    if conv == 'int':
        if args.get('fixed_digits'):
            n = args['fixed_digits']
            return '%0*d' % (n, draw(st.integers(
                args.get('min', 0), args.get('max', 10 ** n - 1))))
        lo = args.get('min', 0)
        return str(draw(st.integers(lo, args.get('max', lo + 200))))
    if conv == 'float':
        lo = args.get('min', 0.0)
        hi = args.get('max', lo + 50)
        k = draw(st.integers(int(lo * 4), int(hi * 4)))
        return str(k / 4.0)
    if conv == 'any':
        return draw(st.sampled_from(args['items']))
    if conv == 'uuid':
        return str(uuid.UUID(int=draw(st.integers(0, 2 ** 128 - 1))))
    if conv == 'yesno':
        return draw(st.sampled_from(['yes', 'no']))
    raise AssertionError(conv)


@st.composite
def near_raw(draw, conv, args):
    k = draw(st.integers(0, 4))
    if k <= 1:
        return draw(valid_raw(conv, args))
    if k == 4 and args and conv != 'any':
        # right at the limits, or just outside
        limit = draw(st.sampled_from(sorted(args.values())))
        off = draw(st.sampled_from([-1, 0, 1]))
        if conv == 'float':
            return '%.2f' % max(limit + off / 4.0, 0)
        if conv == 'int' and limit not in (args.get('min'), args.get('max')):
            return draw(st.text('0123', min_size=max(limit + off, 1),
                                max_size=max(limit + off, 1)))
        if conv == 'int':
            return str(max(limit + off, 0))
        return 'b' * max(limit + off, 1)
    if k == 2:
        return draw(st.sampled_from([
            '0', '7', '07', '007', '100', '9999', '1.0', '1.', '.5', '-1',
            '+1', '1e3', '1_0', 'a', 'ab', 'abcd', 'yes', 'no', 'nope',
            'about', 'x.y', 'xzy', '\u0663', '\u0663.\u0664', '\xb2',
            '00000000-0000-0000-0000-000000000000',
            '00000000-0000-0000-0000-00000000000g',
            'ABCDEF12-0000-0000-0000-abcdefabcdef',
            'a/b', 'a//b', 'a/', '1/2', 'A', 'EN',
        ]))
    return draw(nice_text())


@st.composite
def path_for(draw, spec, near=True):
    """A path that matches, or almost matches, the route.  May contain '/'
    at the end."""
    out = []
    for item in flat_items(spec):
        if item[0] == 's':
            out.append(item[1])
        else:
            out.append(draw(
                (near_raw if near else valid_raw)(item[2], item[3])))
    if not is_leaf(spec) and spec['segs']:
        out.append('/')
    path = ''.join(out) or '/'
    if near:
        k = draw(st.integers(0, 11))
        if k == 0:
            path = path + '/'
        elif k in (1, 8) and len(path) > 1 and path.endswith('/'):
            path = path[:-1]
        elif k == 2:
            path = '/' + path
        elif k == 3 and len(path) > 1:
            i = draw(st.integers(1, len(path) - 1))
            path = path[:i] + path[i + 1:]
        elif k == 4:
            i = draw(st.integers(1, len(path)))
            c = draw(st.sampled_from(list('a1/.-|')))
            path = path[:i] + c + path[i:]
        elif k == 5:
            path = path.swapcase()
        elif k == 6 and len(path) > 1:
            path = path.rstrip('/') or '/'
        elif k == 7:
            path = path[1:]
    return path


@st.composite
def domain_for(draw, spec, cfg):
    items = spec.get('domain')
    if items is None:
        return cfg.get('default_subdomain', '')
    out = []
    for item in items:
        if item[0] == 's':
            out.append(item[1])
        elif item[2] == 'int':
            out.append(str(draw(st.integers(0, 99))))
        elif item[2] == 'any':
            out.append(draw(st.sampled_from(item[3]['items'] + ['zz'])))
        else:
            a = item[3]
            lo = a.get('length', a.get('minlength', 1))
            hi = a.get('length', a.get('maxlength', lo + 2))
            out.append(draw(st.text(
                alphabet='abz1', min_size=lo, max_size=max(lo, hi))))
    return ''.join(out)


def yesno_converter():
    from verktyg.routing import BaseConverter, ValidationError

    class YesNo(BaseConverter):
        regex = '(?:yes|no|maybe)'

        def to_python(self, value):
            if value == 'maybe':
                raise ValidationError()
            return value == 'yes'

        def to_url(self, value):
            return 'yes' if value else 'no'
    return YesNo


def make_map(specs, cfg, routes=None):
    from verktyg.routing import URLMap
    kw = {}
    for key in ('default_subdomain', 'strict_slashes', 'redirect_defaults',
                'host_matching', 'charset', 'sort_key'):
        if key in cfg:
            kw[key] = cfg[key]
    if routes is None:
        routes = [make_route(s, cfg.get('host_matching', False))
                  for s in specs]
    return URLMap(routes, converters={'yesno': yesno_converter()}, **kw)


def bind(m, cfg, domain, script_name=None, scheme='http', **kw):
    if cfg.get('host_matching'):
        return m.bind(domain, script_name, url_scheme=scheme, **kw)
    return m.bind('example.org', script_name, subdomain=domain,
                  url_scheme=scheme, **kw)


def full_host(cfg, domain):
    if cfg.get('host_matching'):
        return domain
    return (domain + '.' if domain else '') + 'example.org'


def domain_of(cfg, host):
    if cfg.get('host_matching'):
        return host
    if host == 'example.org':
        return ''
    assert host.endswith('.example.org'), host
    return host[:-len('.example.org')]


# -- tables of the size of an application ------------------------------------

SMALL_ARGS = {
    'default': {}, 'string': {'minlength': 1, 'maxlength': 400}, 'path': {},
    'int': {}, 'float': {}, 'any': {'items': ['en', 'de', 'about']},
    'uuid': {}, 'yesno': {},
}


@st.composite
def large_table(draw):
    """(cfg, specs, seed): 20-70 routes of up to 14 segments"""
    import random
    texts = draw(st.lists(static_text, min_size=2, max_size=6))
    convs = draw(st.lists(st.sampled_from(sorted(SMALL_ARGS)), min_size=1,
                          max_size=5))
    n = draw(st.integers(20, 70))
    deep = draw(st.sampled_from([2, 4, 8, 14]))
    groups = draw(st.sampled_from([1, 5, 100]))
    endpoints = draw(st.sampled_from([1000, 1000, 7]))
    seed = draw(st.integers(0, 9999))
    rng = random.Random(seed)
    specs = []
    for i in range(n):
        segs, path = [[('s', 'g%d' % (i % groups))]], False
        for k in range(rng.randint(1, deep)):
            conv = rng.choice(convs)
            if rng.random() < .5 or (conv == 'path' and path):
                segs.append([('s', rng.choice(texts))])
                continue
            path = path or conv == 'path'
            segs.append([('v', 'v%d' % k, conv, SMALL_ARGS[conv])])
        specs.append({
            'segs': segs, 'leaf': rng.random() < .5, 'strict': None,
            'endpoint': 'e%d' % (i % endpoints), 'domain': None,
            'number': i,
        })
    return {'strict_slashes': draw(st.booleans()),
            'redirect_defaults': False}, specs, seed


def large_raw(rng, conv):
    """text for a variable, some of it long"""
    if conv in ('default', 'string', 'path'):
        s = rng.choice(['a', 'é', 'a b', '%', 'x.y', '-', '+', 'about'])
        s = (s * rng.choice([1, 1, 2, 60, 130]))[:300]
        if conv == 'path':
            s = '/'.join([s[:20].strip()] * rng.choice([1, 2, 9]))
        return s
    if conv == 'int':
        return str(rng.randrange(10 ** rng.choice([1, 3, 12, 30])))
    if conv == 'float':
        return str(rng.randrange(4 * 10 ** rng.choice([1, 3, 9])) / 4.0)
    if conv == 'any':
        return rng.choice(['en', 'de', 'about'])
    if conv == 'uuid':
        return str(uuid.UUID(int=rng.randrange(2 ** 128)))
    return rng.choice(['yes', 'no'])
