"""C03: redirects issued by the router lead to the same resource."""
import random
from urllib.parse import unquote, urlsplit, parse_qsl, urlencode

from hypothesis import strategies as st

from harness.core import Sub, Skip
from harness.models import routing as R, groups as G

ID = 'C03'
RULE = (
    'Endpoint groups as in C02, with aliases, defaults, branch routes and '
    'redirect_to. A path is made for one route from valid values (with or '
    'without its trailing slash), matched with a query given as text or '
    'mapping, and every redirect is followed the way a client would. '
    'Oracle: a model of which redirect each route owes (slash, alias, '
    'default), the decoded target, the untouched query, and the endpoint '
    'and values at the end of the chain. The same path is matched again '
    'without the query. large: long paths and queries of up to 200 '
    'parameters. Non-trivial: at least one redirect happened.'
)
ASSUMPTIONS = ['see C01 and C02', 'redirect_to targets start with static text and have no query']

QUERIES = st.one_of(
    st.none(), st.just(''),
    st.sampled_from(['a=b', 'a=1&a=2&b', 'q=%C3%A9&x=+', 'x', 'a=/?b=:']),
    st.dictionaries(
        st.sampled_from(['q', 'x', 'é k']),
        st.one_of(st.text(alphabet='ab &=é', max_size=3), st.lists(
            st.text(alphabet='abé', max_size=2), min_size=1, max_size=2)),
        max_size=2))


@st.composite
def cases(draw):
    cfg = draw(G.config(redirect_defaults=draw(
        st.sampled_from([True, True, True, False]))))
    groups = []
    start = 0
    for i in range(draw(st.integers(1, 2))):
        g = draw(G.group(i, cfg, start, allow_alias=True))
        start += len(g['routes'])
        groups.append(g)
    query = draw(QUERIES)
    if cfg.get('charset') and not G.latin1([groups, query]):
        del cfg['charset']
    gi = draw(st.integers(0, len(groups) - 1))
    g = groups[gi]
    ri = draw(st.integers(0, len(g['routes']) - 1))
    values = {}
    other = draw(st.sampled_from(g['routes']))['defaults'] or {}
    for n, (c, a, raws) in sorted(g['vars'].items()):
        values[n] = other[n] if n in other and draw(
            st.integers(0, 3)) else draw(st.sampled_from(raws))
    return {
        'cfg': cfg, 'groups': groups, 'at': (gi, ri), 'values': values,
        'slash': draw(st.booleans()), 'query': query,
        'bound_query': draw(st.booleans()),
        'script': draw(st.sampled_from([None, '/', '/app', '/a/b/'])),
        'scheme': draw(st.sampled_from(['http', 'https'])),
    }


def owes(spec, cfg, mine, values, has_slash):
    """What the router owes a client that asked for this route."""
    strict = spec['strict']
    if strict is None:
        strict = cfg['strict_slashes']
    if not R.is_leaf(spec) and strict and not has_slash:
        return 'slash', spec
    if not cfg['redirect_defaults']:
        return None, spec
    order = G.build_order(mine)
    if spec.get('alias'):
        for s in order:
            if G.suitable(s, values):
                return 'alias', s
        raise AssertionError('unreachable')
    for s in order:
        if s is spec:
            break
        if (
            not s.get('build_only') and s.get('defaults') and
            R.arguments(s) == R.arguments(spec) and G.suitable(s, values)
        ):
            return 'default', s
    return None, spec


def check_chain(case, t):
    from verktyg.routing import RequestRedirect
    cfg = case['cfg']
    charset = cfg.get('charset', 'utf-8')
    gi, ri = case['at']
    g = case['groups'][gi]
    specs = []
    for k, gr in enumerate(case['groups']):
        for j, r in enumerate(gr['routes']):
            s = G.spec_of(gr, r)
            if (k, j) == (gi, ri):
                spec = s
            specs.append(s)
    if spec.get('build_only'):
        raise Skip()
    mine = [s for s in specs if s['endpoint'] == g['endpoint']]
    m = R.make_map(specs, cfg)
    values = {}
    for n in R.arguments(spec):
        d = spec.get('defaults') or {}
        conv, args, _ = g['vars'][n]
        values[n] = d[n] if n in d else G.value(
            conv, args, case['values'][n])
    has_slash = bool(case['slash'])
    path = G.path_text(spec, values, g['vars'])
    strict = spec['strict'] if spec['strict'] is not None else \
        cfg['strict_slashes']
    if R.is_leaf(spec):
        has_slash = has_slash and not strict
        if has_slash:
            path += '/'
    elif not has_slash and spec['segs']:
        path = path[:-1]
    if not spec['segs']:
        has_slash = True
    domain = G.domain_text(spec, cfg, values, g['vars'])
    if cfg['host_matching'] and not domain:
        raise Skip()

    query = case['query']
    if isinstance(query, dict):
        pairs = [(k, x) for k, v in query.items()
                 for x in (v if isinstance(v, list) else [v])]
    hops = 0
    while True:
        kind, target = owes(spec, cfg, mine, values, has_slash)
        if kind in ('alias', 'default') and target.get('build_only'):
            final_only = True
        else:
            final_only = False
        if kind == 'alias' and (
            target.get('alias') or
            R.arguments(target) != R.arguments(spec)
        ):
            # an alias must have a canonical route with the same endpoint
            # and arguments: a configuration error
            t.label('alias of nothing')
            raise Skip()
        kw = {}
        if case['bound_query']:
            adapter = R.bind(m, cfg, domain, case['script'], case['scheme'],
                             path_info=path, query_args=query)
            call = adapter.match
        else:
            adapter = R.bind(m, cfg, domain, case['script'], case['scheme'])

            def call(adapter=adapter, path=path):
                return adapter.match(path, query_args=query)
        t.eq(adapter.test(path), True, 'test(%r)' % path)
        if kind is None:
            endpoint, got = call()
            t.eq(endpoint, g['endpoint'], 'endpoint after %d hops' % hops)
            t.eq(got, values, 'values after %d hops' % hops)
            break
        e = t.raises(RequestRedirect, call)
        if not case['bound_query']:
            # the next match knows nothing of the query of this one
            bare = t.raises(RequestRedirect, adapter.match, path)
            t.eq(urlsplit(bare.new_url).query, '', 'query of a match without')
            t.eq(bare.new_url, e.new_url.partition('?')[0], 'without query')
            t.eq(t.raises(RequestRedirect, call).new_url, e.new_url,
                 'matching again')
        hops += 1
        t.label(kind)
        t.nontrivial()
        t.eq(e.code, 301, 'code')
        u = urlsplit(e.new_url)
        # where to
        values2 = dict(values)
        values2.update(target.get('defaults') or {})
        domain = G.domain_text(target, cfg, values2, g['vars'])
        want = path + '/' if kind == 'slash' else G.path_text(
            target, values2, g['vars'])
        t.eq((u.scheme, u.netloc),
             (case['scheme'], R.full_host(cfg, domain)),
             '%s redirect %r' % (kind, e.new_url))
        root = (case['script'] or '/').rstrip('/')
        t.eq(unquote(u.path, encoding=charset, errors='strict'), root + want,
             '%s redirect' % kind)
        t.eq(u.fragment, '', 'fragment')
        # with which query
        if isinstance(query, dict):
            t.eq(sorted(parse_qsl(
                u.query, keep_blank_values=True, encoding=charset)),
                sorted(pairs), '%s redirect, query' % kind)
        else:
            t.eq(u.query, query or '', '%s redirect, query' % kind)
        if final_only:
            t.label('to build_only')
            break
        t.ok(hops < 5, 'redirect loop')
        path, has_slash, spec, values = want, True, target, values2
        if R.is_leaf(target):
            has_slash = False
    if hops > 1:
        t.label('several hops')


@st.composite
def to_cases(draw):
    n = draw(st.integers(0, 2))
    vs = []
    for name in R.NAMES[:n]:
        convs = [c for c in R.var_args if c != 'path' or not any(
            v[1] == 'path' for v in vs)]
        _, _, conv, args = draw(R.variable(name, convs))
        vs.append((name, conv, args, draw(R.valid_raw(conv, args))))
    target = [draw(st.sampled_from(['new', 'a/b', 'é', '/root', 'x y']))]
    for v in draw(st.permutations(vs)):
        target.append(v)
    return {
        'vars': vs, 'target': target, 'callable': draw(st.booleans()),
        'slash': draw(st.booleans()), 'domain': draw(st.sampled_from(
            ['', 'en', 'a.b'])),
        'domain rule': draw(st.sampled_from(
            ['static', 'variable', 'host', 'host variable'])),
        'scheme': draw(st.sampled_from(['http', 'https'])),
        'port': draw(st.sampled_from(['', ':8080'])),
        'script': draw(st.sampled_from([None, '/', '/app', '/a/b/'])),
        'query': draw(st.sampled_from([None, 'a=b'])),
    }


def check_redirect_to(case, t):
    from verktyg.routing import URLMap, Route, RequestRedirect
    vs = case['vars']
    python = {n: R.to_python(c, a, raw) for n, c, a, raw in vs}
    route = '/old/' + ''.join(
        R.render_item(('v', n, c, a)) + '/' for n, c, a, raw in vs)
    path = '/old/' + ''.join(raw + '/' for n, c, a, raw in vs)
    parts = []
    text = []
    for p in case['target']:
        if isinstance(p, str):
            parts.append(p)
            text.append(p)
        else:
            parts.append('/<%s>' % p[0])
            text.append('/' + G.url_text(p[1], p[2], python[p[0]]))
    text = ''.join(text)
    seen = []
    if case['callable']:
        def target(adapter, **kw):
            seen.append((adapter, kw))
            return 'fixed'
        text = 'fixed'
    else:
        target = ''.join(parts)
    kind, domain, port = case['domain rule'], case['domain'], case['port']
    host = R.full_host({}, domain) + port
    kw, mkw = {}, {}
    if kind == 'static' or (kind == 'variable' and not domain):
        kw['subdomain'] = domain
    elif kind == 'variable':
        kw['subdomain'] = '<sub>'
        python['sub'] = domain
    else:
        mkw['host_matching'] = True
        kw['host'] = host if kind == 'host' else '<sub>' + port
        if kind == 'host variable':
            python['sub'] = R.full_host({}, domain)
    m = URLMap([Route(route, redirect_to=target, endpoint='old', **kw),
                Route('/other', endpoint='x')],
               converters={'yesno': R.yesno_converter()}, **mkw)
    if mkw:
        a = m.bind(host, case['script'], url_scheme=case['scheme'],
                   query_args=case['query'])
    else:
        a = m.bind('example.org' + port, case['script'], subdomain=domain,
                   url_scheme=case['scheme'], query_args=case['query'])
    e = t.raises(RequestRedirect, a.match, path)
    u = urlsplit(e.new_url)
    t.eq((u.scheme, u.netloc), (
        case['scheme'], host), 'origin of the target')
    root = (case['script'] or '/')
    root = root if root.endswith('/') else root + '/'
    want = text if text.startswith('/') else root + text
    t.eq(unquote(u.path), want, 'target of redirect_to')
    if seen:
        t.ok(seen[0][0] is a, 'callable got another adapter')
        t.eq(seen[0][1], python, 'arguments of the callable')
    t.nontrivial()
    t.label('callable' if case['callable'] else 'string', kind)


@st.composite
def large_cases(draw):
    cfg, specs, seed = draw(R.large_table())
    return dict(cfg, strict_slashes=True), specs, seed, draw(
        st.sampled_from([0, 1, 30, 200])), draw(st.booleans())


def check_large(case, t):
    """Long paths and queries survive a redirect."""
    from verktyg.routing import RequestRedirect
    cfg, specs, seed, count, mapping = case
    rng = random.Random(seed)
    m = R.make_map([dict(s, domain=[('s', 'en')]) for s in specs], cfg)
    adapter = R.bind(m, cfg, 'en', '/app', 'https')
    pairs = [('q%d' % i, rng.choice(['', 'a', 'é', '&='])
              * rng.choice([1, 1, 40])) for i in range(count)]
    for spec in rng.sample(specs, 5):
        if spec['leaf']:
            continue
        path = ''.join(
            item[1] if item[0] == 's' else R.large_raw(rng, item[2])
            for item in R.flat_items(spec))
        query = dict(pairs) if mapping else urlencode(pairs)
        try:
            endpoint, values = adapter.match(path, query_args=query)
        except RequestRedirect as e:
            u = urlsplit(e.new_url)
        else:
            t.label('another route')
            continue
        t.eq((u.scheme, u.netloc, u.fragment),
             ('https', 'en.example.org', ''), 'origin')
        t.eq(unquote(u.path, errors='strict'), '/app' + path + '/', 'path')
        t.eq(sorted(parse_qsl(u.query, keep_blank_values=True)),
             sorted(pairs), 'query')
        if not mapping:
            t.eq(u.query, query, 'query')
        adapter.match(path + '/')
        t.nontrivial()
        t.label('%d parameters' % count)


SUBS = [
    Sub('large', large_cases(), check_large, quick=200),
    Sub('chain', cases(), check_chain, quick=4000),
    Sub('redirect-to', to_cases(), check_redirect_to, quick=800),
]
