"""C04: route factories and incremental registration do not change routing."""
import random

from hypothesis import strategies as st

from harness.core import Sub
from harness.models import routing as R
from harness.props import c01

ID = 'C04'
RULE = (
    'Trees of Submount, Subdomain, EndpointPrefix and RouteTemplate '
    'around generated routes, and histories that add routes in batches '
    'between matching, building and inspecting. Oracle: the flat list of '
    'routes the tree stands for, registered at once; the reference '
    'matcher of C01; the set of arguments each endpoint declares. The '
    'factories are used twice, once for each of two maps. Histories also '
    'hold additions that fail half way. large: 20-70 routes in up to 50 '
    'layers of factories, added in many steps. Non-trivial: a factory '
    'around a route that is reached by a query, or routes added after a '
    'query.'
)
ASSUMPTIONS = ['see C01']

MOUNTS = st.sampled_from([
    '/blog', '/blog/', '/a/b', '/<lang>', '/<int:n1>/x', '/', '/é'])
STATIC = st.sampled_from(['a', 'b', 'foo', 'x.y', 'é', 'a b', '12'])


def parse_mount(path):
    """The segments of a mount path."""
    segs = []
    for p in path.strip('/').split('/'):
        if not p:
            continue
        if p == '<lang>':
            segs.append([('v', 'lang', 'default', {})])
        elif p == '<int:n1>':
            segs.append([('v', 'n1', 'int', {})])
        else:
            segs.append([('s', p)])
    return segs


@st.composite
def route(draw, template=False):
    segs = []
    names = ['x', 'y']
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.integers(0, 4))
        if template and k == 0:
            segs.append([('s', '{name}')])
        elif k <= 2 or not names:
            segs.append([('s', draw(STATIC))])
        else:
            segs.append([draw(R.variable(names.pop(0), (
                'default', 'int', 'string', 'path')
                if names else ('default', 'int', 'string')))])
    spec = {
        'segs': segs, 'leaf': draw(st.booleans()),
        'endpoint': draw(st.sampled_from(
            ['ep', 'list', '{name}.show', ('{name}', 1)] if template
            else ['ep', 'list', 'show', ('ep', 2)])),
        'domain': None,
        'strict': draw(st.sampled_from([None, True, False])),
        'defaults': draw(st.sampled_from(
            [None, None, {'d': 1}, {'d': '{name}'}] if template
            else [None, None, {'d': 1}])),
        'build_only': draw(st.integers(0, 9)) == 5,
        'redirect_to': draw(st.sampled_from([None] * 6 + ['elsewhere'])),
        'alias': draw(st.integers(0, 7)) == 5,
    }
    if draw(st.integers(0, 3)) == 2:
        # an empty subdomain is not the default subdomain of the map
        spec['domain'] = [('s', '{name}' if template and draw(st.booleans())
                           else draw(st.one_of(
                               st.just(''), R.host_label, R.host_label)))]
    return spec


def texts(node):
    """Only text can get a prefix."""
    if node[0] == 'route':
        if isinstance(node[1]['endpoint'], str):
            return node
        return 'route', dict(node[1], endpoint='pair')
    return node[:2] + ([texts(kid) for kid in node[2]],)


def template_node(depth):
    """What can be inside of a template."""
    leaf = route(template=True).map(lambda s: ('route', s))
    if depth == 1:
        return leaf
    kids = st.lists(leaf, min_size=1, max_size=2)
    return st.one_of(
        leaf, leaf,
        st.tuples(st.just('mount'), st.one_of(
            MOUNTS, st.just('/{name}'), st.just('/v/{name}/')), kids),
        st.tuples(st.just('domain'), st.sampled_from(['a', '{name}']), kids),
        st.tuples(st.just('prefix'), st.sampled_from(['p.', '{name}/']),
                  kids).map(texts))


def nodes(depth):
    leaf = route().map(lambda s: ('route', s))
    if depth == 0:
        return leaf
    kids = st.lists(nodes(depth - 1), min_size=1, max_size=3)
    return st.one_of(
        leaf,
        st.tuples(st.just('mount'), MOUNTS, kids),
        st.tuples(st.just('domain'), st.one_of(
            R.host_label, R.host_label, st.just('<sub>')), kids),
        st.tuples(st.just('prefix'), st.sampled_from(['p.', 'blog/', '']),
                  kids).map(texts),
        st.tuples(
            st.just('template'), st.sampled_from(['user', 'page', 'a']),
            st.lists(template_node(depth), min_size=1, max_size=2)),
    )


def fmt(x, name):
    return x.replace('{name}', name) if isinstance(x, str) else x


def flatten(node, host=False):
    """The specs the node stands for, in order."""
    kind = node[0]
    if kind == 'route':
        return [dict(node[1])]
    out = []
    for kid in node[2]:
        for s in flatten(kid, host):
            s = dict(s)
            if kind == 'mount':
                s['segs'] = parse_mount(node[1]) + s['segs']
                if not s['segs'] or s['segs'] == parse_mount(node[1]):
                    # '/blog' + '/' is a branch
                    s['leaf'] = False
            elif kind == 'domain' and not host:
                s['domain'] = [('v', 'sub', 'default', {})
                               if node[1] == '<sub>' else ('s', node[1])]
            elif kind == 'prefix':
                s['endpoint'] = node[1] + s['endpoint']
            elif kind == 'template':
                n = node[1]
                s['segs'] = [[('s', fmt(i[1], n)) if i[0] == 's' else i
                              for i in seg] for seg in s['segs']]
                s['endpoint'] = fmt(s['endpoint'], n)
                if s['defaults']:
                    s['defaults'] = {
                        k: fmt(v, n) for k, v in s['defaults'].items()}
                if s['domain'] and not host:
                    s['domain'] = [('s', fmt(i[1], n)) if i[0] == 's' else i
                                   for i in s['domain']]
            out.append(s)
    return out


def realise(node, host=False):
    from verktyg.routing import (
        Submount, Subdomain, EndpointPrefix, RouteTemplate)
    kind = node[0]
    if kind == 'route':
        return R.make_route(node[1], host)
    kids = [realise(k, host) for k in node[2]]
    if kind == 'mount':
        return Submount(node[1], kids)
    if kind == 'domain':
        return Subdomain(node[1], kids)
    if kind == 'prefix':
        return EndpointPrefix(node[1], kids)
    if kind == 'template':
        return RouteTemplate(kids)(name=node[1])


def twice(spec):
    """Does a variable name occur twice (malformed)?"""
    seen = []
    for item in (spec['domain'] or []) + [
        i for s in spec['segs'] for i in s
    ]:
        if item[0] == 'v':
            seen.append(item[1])
    return len(seen) != len(set(seen))


@st.composite
def tree_cases(draw):
    tree = draw(st.lists(nodes(3), min_size=1, max_size=3))
    cfg = {'strict_slashes': draw(st.booleans()),
           'redirect_defaults': draw(st.booleans()),
           'host_matching': draw(st.integers(0, 4)) == 3}
    if not cfg['host_matching'] and draw(st.integers(0, 2)) == 1:
        cfg['default_subdomain'] = draw(R.host_label)
    specs = [s for n in tree for s in flatten(n, cfg['host_matching'])]
    queries = []
    for _ in range(draw(st.integers(1, 3))):
        s = draw(st.sampled_from(specs))
        d = draw(R.domain_for(s, cfg))
        if cfg['host_matching'] and not d:
            d = 'other.example'     # a host is never empty
        queries.append((d, draw(R.path_for(s, near=draw(st.booleans())))))
    vals = {n: draw(st.sampled_from(['a', 'bc'])) for n in ('x', 'y', 'lang')}
    return cfg, tree, queries, vals


def outcome(adapter, path):
    from verktyg.routing import RequestRedirect, BuildError
    from verktyg.exceptions import NotFound
    try:
        return ('match',) + tuple(adapter.match(path))
    except NotFound:
        return ('notfound',)
    except RequestRedirect as e:
        return ('redirect', e.new_url)
    except (BuildError, ValueError):
        return ('alias of nothing',)


def build_outcome(adapter, endpoint, values):
    from verktyg.routing import BuildError
    try:
        return adapter.build(endpoint, values)
    except BuildError:
        return 'BuildError'
    except ValueError:
        return 'ValueError'     # int() of text


def check_tree(case, t):
    cfg, tree, queries, vals = case
    specs = [s for n in tree for s in flatten(n, cfg['host_matching'])]
    if any(twice(s) for s in specs):
        t.label('malformed')
        t.raises(ValueError, R.make_map, specs, cfg)
        t.raises(ValueError, R.make_map, None, cfg,
                 [realise(n, cfg['host_matching']) for n in tree])
        return
    flat = R.make_map(specs, cfg)
    factories = [realise(n, cfg['host_matching']) for n in tree]
    real = R.make_map(None, cfg, factories)
    # a factory can be used for a second map, a bare route is bound once
    if all(n[0] != 'route' for n in tree):
        second = R.make_map(None, cfg, factories)
    else:
        second = None
        t.raises(RuntimeError, R.make_map, None, cfg, factories)
    for domain, path in queries:
        want = outcome(R.bind(flat, cfg, domain), path)
        got = outcome(R.bind(real, cfg, domain), path)
        t.eq(got, want, 'matching %r on %r' % (path, domain))
        if second is not None:
            t.eq(outcome(R.bind(second, cfg, domain), path), want,
                 'matching %r on %r, second map' % (path, domain))
        if got[0] == 'redirect' and any(s['redirect_to'] for s in specs):
            t.label('redirect_to')
        elif cfg['redirect_defaults']:
            t.label('redirect_defaults')    # modelled in C03
        else:
            plain = [dict(s) for s in specs]
            allowed = c01.expected(plain, cfg, domain, path)
            if got[0] == 'match':
                t.ok(any(a[0] == 'match' and a[1]['endpoint'] == got[1] and
                         a[2] == got[2] for a in allowed),
                     'matching %r on %r: %r, expected %r',
                     path, domain, got, allowed)
            else:
                kinds = [a[0].replace('slash', 'redirect') for a in allowed]
                t.ok(got[0] in kinds, 'matching %r on %r: %r, expected %r',
                     path, domain, got, allowed)
        t.label(got[0])
        t.nontrivial(got[0] != 'notfound' and any(
            n[0] != 'route' for n in tree))
    endpoints = {s['endpoint'] for s in specs}
    for e in endpoints:
        for v in ({}, vals, {'x': 3, 'y': 4, 'lang': 'en', 'n1': 5}):
            want = build_outcome(R.bind(flat, cfg, 'a'), e, v)
            t.eq(build_outcome(R.bind(real, cfg, 'a'), e, v), want,
                 'building %r' % (e,))
    inspect(t, real, specs)


def inspect(t, m, specs):
    """iter_routes and is_endpoint_expecting describe the registered routes"""
    t.eq(sorted((repr(r.endpoint), str(r)) for r in m.iter_routes()),
         sorted((repr(s['endpoint']), R.render_path(s)) for s in specs),
         'iter_routes')
    for e in {s['endpoint'] for s in specs}:
        mine = [s for s in specs if s['endpoint'] == e]
        t.eq(sorted(str(r) for r in m.iter_routes(e)),
             sorted(R.render_path(s) for s in mine), 'iter_routes(%r)' % (e,))
        for args in ((), ('x',), ('y',), ('x', 'y'), ('d',), ('lang', 'x')):
            t.eq(m.is_endpoint_expecting(e, *args),
                 any(set(args) <= R.arguments(s) for s in mine),
                 'is_endpoint_expecting(%r, %r)' % (e, args))


def broken(how):
    from verktyg.routing import Route, RouteFactory, URLMap
    if how == 'bound':
        route = Route('/x', endpoint='x')
        URLMap([route])
        return route
    if how == 'raising':
        class Factory(RouteFactory):
            def get_routes(self, router):
                raise LookupError()
        return Factory()
    # not well formed, which shows when it is made or when it is bound
    class Factory(RouteFactory):
        def get_routes(self, router):
            yield Route(how, endpoint='x')
    return Factory()


@st.composite
def history_cases(draw):
    cfg = {'strict_slashes': draw(st.booleans()),
           'redirect_defaults': draw(st.booleans())}
    if draw(st.integers(0, 2)) == 1:
        cfg['default_subdomain'] = draw(R.host_label)
    ops = []
    specs = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.integers(0, 5))
        if k in (0, 3) or not specs:
            batch = draw(st.lists(route(), min_size=1, max_size=3))
            specs.extend(batch)
            ops.append(('add', batch))
        elif k == 5:
            # the last one of them can not be added
            batch = draw(st.lists(route(), min_size=1, max_size=3))
            specs.extend(batch)
            ops.append(('bad', batch, draw(st.sampled_from(
                ['/<x>/<x>', '/<nothing:x>', '/<int(x', '/<a>/<a>',
                 'bound', 'raising']))))
        elif k in (1, 4):
            s = draw(st.sampled_from(specs))
            ops.append(('match', draw(R.domain_for(s, cfg)),
                        draw(R.path_for(s, near=draw(st.booleans())))))
        else:
            ops.append(('build', draw(st.sampled_from(specs))['endpoint'],
                        draw(st.sampled_from([
                            {}, {'x': 'a'}, {'x': 'a', 'y': 'b'},
                            {'d': 1, 'q': 'z'}, {'x': '7', 'd': 2}]))))
    return cfg, ops


def check_history(case, t):
    cfg, ops = case
    m = R.make_map([], cfg)
    bound = R.bind(m, cfg, '')      # adapters see routes added later
    specs = []
    asked = False
    for op in ops:
        if op[0] == 'add':
            m.add_routes(*[R.make_route(s) for s in op[1]])
            specs.extend(op[1])
            if asked:
                t.nontrivial()
            continue
        if op[0] == 'bad':
            good = [R.make_route(s) for s in op[1]]
            n = len(list(m.iter_routes()))
            try:
                m.add_routes(*(good + [broken(op[2])]))
            except Exception:
                pass
            else:
                t.ok(False, 'added %r', op[2])
            # which of those given before it are there is open
            n = len(list(m.iter_routes())) - n
            t.ok(0 <= n <= len(good), '%r routes added', n)
            specs.extend(op[1][:n])
            t.label('bad')
            continue
        asked = True
        fresh = R.make_map(specs, cfg)
        if op[0] == 'match':
            want = outcome(R.bind(fresh, cfg, op[1]), op[2])
            a = bound if op[1] == '' else R.bind(m, cfg, op[1])
            t.eq(outcome(a, op[2]), want, 'matching %r after additions'
                 % (op[1:],))
            t.label(want[0])
        else:
            want = build_outcome(R.bind(fresh, cfg, ''), op[1], op[2])
            t.eq(build_outcome(bound, op[1], op[2]), want,
                 'building %r after additions' % (op[1:],))
    inspect(t, m, specs)


def wrap(rng, spec):
    """a tree with many layers that stands for one route, and the route"""
    from verktyg.routing import Submount, EndpointPrefix, Subdomain
    spec = dict(spec)
    depth = rng.randrange(len(spec['segs']))
    inner = dict(spec, segs=spec['segs'][depth:])
    names = ['n%d.' % i for i in range(rng.choice([0, 1, 3, 12, 40]))]
    tree = [R.make_route(inner)]
    layers = [(Submount, '/' + R.render_items(seg))
              for seg in spec['segs'][:depth][::-1]]
    for name in names:
        layers.insert(rng.randrange(len(layers) + 1), (EndpointPrefix, name))
    order = [a for cls, a in layers if cls is EndpointPrefix]
    if rng.random() < .2:
        layers.insert(rng.randrange(len(layers) + 1), (Subdomain, 'api'))
        spec['domain'] = [('s', 'api')]
    for cls, argument in layers:
        tree = [cls(argument, tree)]
    spec['endpoint'] = ''.join(order[::-1]) + spec['endpoint']
    return tree, spec


def check_large(case, t):
    """Many routes in many layers, added in many steps."""
    cfg, specs, seed = case
    rng = random.Random(seed)
    trees, flat = [], []
    for spec in specs:
        tree, spec = wrap(rng, spec)
        trees.append(tree)
        flat.append(spec)
    m = R.make_map([], cfg)
    bound = {d: R.bind(m, cfg, d) for d in ('', 'api')}
    done = 0
    while done < len(flat):
        n = rng.choice([1, 1, 2, 10, 60])
        m.add_routes(*[r for tree in trees[done:done + n] for r in tree])
        done = min(done + n, len(flat))
        if rng.random() < .7 and done < len(flat):
            continue
        fresh = R.make_map(flat[:done], cfg)
        for spec in [flat[done - 1], flat[0]] + rng.sample(
                flat[:done], min(done, 3)):
            path = ''.join(
                item[1] if item[0] == 's' else R.large_raw(rng, item[2])
                for item in R.flat_items(spec))
            if not spec['leaf'] and rng.random() < .8:
                path += '/'
            d = 'api' if spec['domain'] else ''
            want = outcome(R.bind(fresh, cfg, d), path)
            t.eq(outcome(bound[d], path), want, 'matching %r' % path)
            t.label(want[0])
            t.eq(m.is_endpoint_expecting(spec['endpoint'], *R.variables(
                spec)), True, 'is_endpoint_expecting')
            values = {}
            for k, (conv, args) in sorted(R.variables(spec).items()):
                values[k] = R.to_python(conv, args, R.large_raw(rng, conv))
            t.eq(build_outcome(bound[d], spec['endpoint'], dict(values)),
                 build_outcome(R.bind(fresh, cfg, d), spec['endpoint'],
                               dict(values)), 'building')
    t.nontrivial()
    t.eq([(repr(r.endpoint), str(r)) for r in m.iter_routes()],
         [(repr(r.endpoint), str(r)) for r in fresh.iter_routes()],
         'iter_routes')
    inspect(t, m, flat)


SUBS = [
    Sub('large', R.large_table(), check_large, quick=100),
    Sub('tree', tree_cases(), check_tree, quick=2000),
    Sub('history', history_cases(), check_history, quick=2000),
]
