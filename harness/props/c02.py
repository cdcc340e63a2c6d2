"""C02: building a URL is the inverse of matching it."""
import random
from urllib.parse import unquote, urlsplit, parse_qsl

from hypothesis import strategies as st

from harness.core import Sub
from harness.models import routing as R, groups as G

ID = 'C02'
RULE = (
    'Tables of 1-3 endpoints with 1-4 routes each (same variables spread '
    'differently over path, subdomain/host and defaults; all converters; '
    'build_only; charset utf-8 or latin-1), bound with generated script '
    'name, scheme and domain; values are generated for a chosen endpoint, '
    'with missing ones, None, extra ones (also lists), as dict or '
    'MultiDict. Oracle: which route must be used, the decoded text of the '
    'URL, its query, and that matching the URL gives back the endpoint '
    'and the values. values: the order of the query, list values and the '
    'attributes of BuildError, numbers of any size, segments that are '
    'empty or dots. refused: converters that cannot express every value. '
    'Several URLs are built on one map, some '
    'differing in one thing only. large: tables of 20-70 routes, long '
    'values and up to 40 extra ones. Non-trivial: a URL was built for an '
    'endpoint with at least one variable or default, or with extra '
    'values.'
)
ASSUMPTIONS = [
    'values are of the kind the converter produces',
]

EXTRA = st.dictionaries(
    st.sampled_from(['q', 'next', 'e', 'sort key', 'k&', 'ü']),
    st.one_of(st.integers(0, 99), st.text(
        alphabet='ab &=+%#?/é;', max_size=4), st.none(), st.lists(
            st.one_of(st.integers(0, 9), st.sampled_from(
                ['b', 'a', '', 'é'])), max_size=3)), max_size=3)
SORT = {'': None, 'value': lambda p: (str(p[1]), p[0]),
        'reverse': lambda p: [-ord(c) for c in p[0]] + [1]}


@st.composite
def cases(draw):
    cfg = draw(G.config())
    groups = []
    start = 0
    for i in range(draw(st.integers(1, 3))):
        g = draw(G.group(i, cfg, start, allow_alias=True))
        start += len(g['routes'])
        groups.append(g)
    if cfg.get('charset') and not G.latin1(groups):
        del cfg['charset']
    first = draw(builds(groups))
    more = []
    for _ in range(draw(st.integers(0, 2))):
        more.append(draw(builds(groups)))
    if draw(st.booleans()):
        # the same again with one thing changed
        other = draw(builds(groups))
        change = draw(st.sampled_from(
            ['values', 'extra', 'script', 'scheme', 'domain', 'external',
             'append']))
        if change != 'values' or other['which'] == first['which']:
            more.insert(0, dict(first, **{change: other[change]}))
    return dict(first, cfg=cfg, groups=groups, more=more, sort=draw(
        st.sampled_from(['', '', 'value', 'reverse'])))


@st.composite
def builds(draw, groups):
    """one call to build"""
    gi = draw(st.integers(0, len(groups) - 1))
    g = groups[gi]
    values = {}
    for n, (conv, args, raws) in sorted(g['vars'].items()):
        k = draw(st.integers(0, 9))
        if k == 0:
            continue
        if k == 1:
            values[n] = None
            continue
        values[n] = draw(st.sampled_from(raws))
    return {
        'which': gi, 'values': values, 'extra': draw(EXTRA),
        'script': draw(st.sampled_from([None, '/', '/app', '/app/', '/a/b'])),
        'scheme': draw(st.sampled_from(['http', 'https'])),
        'domain': draw(st.sampled_from(['', 'www', 'api', 'a', 'en'])),
        'external': draw(st.booleans()),
        'append': draw(st.integers(0, 3)) > 0,
        'multidict': draw(st.integers(0, 3)) == 0,
    }


def follow(m, cfg, url, script, scheme, hops, t):
    """match a URL the way a server would, following redirects."""
    from verktyg.routing import RequestRedirect
    charset = cfg.get('charset', 'utf-8')
    n = 0
    while True:
        u = urlsplit(url)
        t.eq(u.scheme, scheme, 'scheme of %r' % url)
        path = unquote(u.path, encoding=charset, errors='strict')
        root = (script or '/').rstrip('/')
        t.ok(path.startswith(root + '/'), '%r is not below %r', path, root)
        path = path[len(root):]
        adapter = R.bind(m, cfg, R.domain_of(cfg, u.netloc), script, scheme)
        try:
            return adapter.match(path) + (n,)
        except RequestRedirect as e:
            n += 1
            t.ok(n <= hops, 'more than %d redirects, last %r', hops, url)
            url = e.new_url


def check_build(case, t):
    cfg = case['cfg']
    specs = [G.spec_of(g, r) for g in case['groups'] for r in g['routes']]
    m = R.make_map(specs, dict(cfg, sort_key=SORT[case['sort']]))
    for build in [{}] + case['more']:
        check_one(m, specs, dict(case, **build), t)


def check_one(m, specs, case, t):
    from verktyg.routing import BuildError
    from verktyg.datastructures import MultiDict
    cfg = case['cfg']
    charset = cfg.get('charset', 'utf-8')
    g = case['groups'][case['which']]
    gvars = g['vars']
    values = {}
    for n, raw in case['values'].items():
        values[n] = None if raw is None else G.value(
            gvars[n][0], gvars[n][1], raw)
    extra = {k: v for k, v in case['extra'].items() if k not in values}
    if case['multidict']:
        # which of several values in a multi dict is used is left open
        extra = {k: v for k, v in extra.items() if not isinstance(v, list)}
    passed = dict(values)
    passed.update(extra)
    effective = {k: v for k, v in passed.items() if v is not None}

    mine = [s for s in specs if s['endpoint'] == g['endpoint']]
    chosen = None
    for s in G.build_order(mine):
        if G.suitable(s, effective):
            chosen = s
            break

    domain = case['domain']
    if cfg['host_matching']:
        domain = (domain or 'www') + '.example.org'
    adapter = R.bind(m, cfg, domain, case['script'], case['scheme'])
    arg = MultiDict(passed) if case['multidict'] else dict(passed)

    def build():
        return adapter.build(
            g['endpoint'], arg, force_external=case['external'],
            append_unknown=case['append'])

    if chosen is None:
        t.label('BuildError')
        e = t.raises(BuildError, build)
        t.eq(e.endpoint, g['endpoint'], 'BuildError.endpoint')
        t.eq(dict(e.values), effective, 'BuildError.values')
        return
    url = build()
    t.ok(all(ord(c) < 128 for c in url), 'not ascii: %r', url)
    if not case['multidict']:
        t.eq(arg, passed, 'build changed the values it was given')

    full = dict(effective)
    full.update(chosen.get('defaults') or {})
    target_domain = G.domain_text(chosen, cfg, full, gvars)
    u = urlsplit(url)
    host = R.full_host(cfg, target_domain)
    if case['external'] or target_domain != domain:
        t.eq((u.scheme, u.netloc), (case['scheme'], host),
             'origin of %r' % url)
        t.label('absolute')
    else:
        t.eq((u.scheme, u.netloc), ('', ''), 'origin of %r' % url)
        t.label('relative')
    root = (case['script'] or '/').rstrip('/')
    t.eq(unquote(u.path, encoding=charset, errors='strict'),
         root + G.path_text(chosen, full, gvars), 'path of %r' % url)
    t.eq(u.fragment, '', 'fragment of %r' % url)

    args = R.arguments(chosen)
    left = [(k, x) for k, v in effective.items() if k not in args
            for x in (v if isinstance(v, list) else [v])]
    if not case['append']:
        left = []
    got = parse_qsl(u.query, keep_blank_values=True, encoding=charset)
    # repeated parameters keep their order
    left.sort(key=SORT[case['sort']] or (lambda p: p[0]))
    t.eq(got, [(k, str(v)) for k, v in left], 'query of %r' % url)
    t.nontrivial(bool(args or left))
    if left:
        t.label('query')

    if chosen.get('build_only'):
        t.label('build_only')
        return
    if chosen.get('alias'):
        t.label('alias')
        if cfg['redirect_defaults']:
            # an alias of nothing cannot be matched
            return
    absolute = '%s://%s%s' % (case['scheme'], host, u.path)
    want = {k: v for k, v in full.items() if k in args}
    endpoint, vals, hops = follow(
        m, cfg, absolute, case['script'], case['scheme'], 4, t)
    t.eq(endpoint, g['endpoint'], 'endpoint of %r' % url)
    t.eq(vals, want, 'values of %r' % url)
    if all(k in effective for k in args):
        t.eq(hops, 0, 'a fully specified URL is canonical: redirects of %r'
             % url)
        t.label('canonical')


@st.composite
def float_cases(draw):
    return (draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(
        [1, 2, 4, 8, 10, 16])), draw(st.integers(0, 10 ** 12)),
        draw(st.text(alphabet=st.characters(
            blacklist_categories=['Cs'], blacklist_characters='/\n'),
            min_size=1, max_size=8)),
        draw(st.one_of(
            st.floats(0, 1e300), st.floats(0, 1e-4), st.sampled_from(
                [1e16, 1e15, 1e22, 1e-5, 1e-4, 5e-324, 1e300, 123e14]))),
        draw(st.lists(st.sampled_from(['', '.', '..', 'a', 'é', '...']),
                      max_size=4)))


def check_values(case, t):
    """Any text, any non-negative integer, any finite float."""
    from verktyg.routing import URLMap, Route, BuildError
    from verktyg.exceptions import NotFound
    num, den, big, text, number, parts = case
    m = URLMap([
        Route('/f/<float:v>', endpoint='f'),
        Route('/i/<int:v>', endpoint='i'),
        Route('/s/<v>', endpoint='s'),
        Route('/p/<path:v>/', endpoint='p'),
    ])
    a = m.bind('example.org', '/app')
    vals = [('f', num / den), ('f', number), ('i', big), ('s', text),
            ('p', 'x/%s/y' % text), ('p', '/'.join(['a'] + parts + ['b']))]
    vals.extend(('s', part) for part in parts if part)
    for endpoint, v in vals:
        for external in False, True:
            url = a.build(endpoint, {'v': v}, force_external=external)
            path = unquote(urlsplit(url).path, errors='strict')
            t.ok(path.startswith('/app/'), 'script name lost in %r', url)
            t.eq(a.match(path[4:]), (endpoint, {'v': v}), url)
    # a number the converter has no room for: if there is a URL at all, it is
    # not that of another number
    for digits in 1, 2, 3:
        m = URLMap([Route('/<int(fixed_digits=%d):v>' % digits,
                          endpoint='e')])
        a = m.bind('example.org', '/app')
        for v in (big, big % 10 ** digits):
            try:
                url = a.build('e', {'v': v})
            except (BuildError, ValueError):
                t.ok(len(str(v)) > digits, 'no URL for %d', v)
                continue
            try:
                got = a.match(unquote(urlsplit(url).path)[4:])
            except NotFound:
                t.ok(len(str(v)) > digits, 'no match for %r', url)
                continue
            t.eq(got, ('e', {'v': v}), url)
    t.nontrivial()


def check_large(case, t):
    """As many routes as an application has."""
    from verktyg.routing import RequestRedirect
    cfg, specs, seed, count = case
    rng = random.Random(seed)
    m = R.make_map(specs, cfg)
    adapter = R.bind(m, cfg, '', '/app')
    for spec in rng.sample(specs, 3) + specs[-1:]:
        conv = R.variables(spec)
        raw = {k: R.large_raw(rng, conv[k][0]) for k in sorted(conv)}
        values = {k: R.to_python(conv[k][0], conv[k][1], v)
                  for k, v in raw.items()}
        extra = {'q%03d' % i: rng.choice([i, 'é&' * 9, list(range(i % 30))])
                 for i in range(count)}
        passed = dict(values)
        passed.update(extra)
        mine = [s for s in specs if s['endpoint'] == spec['endpoint']]
        for s in G.build_order(mine):
            if G.suitable(s, passed):
                break
        used = R.variables(s)
        if any(used[k] != conv[k] for k in used):
            # the value is meant for another converter
            t.label('other converter')
            continue
        url = adapter.build(spec['endpoint'], dict(passed))
        u = urlsplit(url)
        path = ''.join(item[1] if item[0] == 's' else raw[item[1]]
                       for item in R.flat_items(s))
        if not s['leaf']:
            path += '/'
        t.eq(unquote(u.path, errors='strict'), '/app' + path, 'path')
        left = [(k, str(x)) for k, v in sorted(passed.items())
                if k not in used
                for x in (v if isinstance(v, list) else [v])]
        t.eq(parse_qsl(u.query, keep_blank_values=True, max_num_fields=None),
             left, 'query')
        try:
            endpoint, got = adapter.match(path)
        except RequestRedirect as e:
            # of another route that is like it
            t.ok(e.new_url.endswith('/'), e.new_url)
            continue
        first = [x for x in specs if x['endpoint'] == endpoint]
        t.ok(spec in first or any(
            R.route_match(x, cfg, '', path)[0] == 'match' for x in first),
            '%r gave %r', path, endpoint)
        t.nontrivial()
        t.label('%d0 parameters' % (len(left) // 10))


def check_refused(case, t):
    """A converter which cannot express a value leaves it to the next
    route of the endpoint."""
    from verktyg.routing import (
        URLMap, Route, BaseConverter, ValidationError, BuildError)

    class Mod(BaseConverter):
        regex = '[0-9]+'

        def __init__(self, router, n=2, rest=0):
            BaseConverter.__init__(self, router)
            self.n = n
            self.rest = rest

        def to_python(self, value):
            value = int(value)
            if value % self.n != self.rest:
                raise ValidationError()
            return value

        def to_url(self, value):
            if value % self.n != self.rest:
                raise ValidationError()
            return str(value)

    routes, numbers, external, also = case
    rules = []
    for i, (n, rest, two) in enumerate(routes):
        rule = '/r%d/<mod(n=%d, rest=%d):x>' % (i, n, rest % n)
        if two:
            rule += '/<mod(n=%d, rest=%d):y>' % (two, rest % two)
        rules.append(Route(rule, endpoint='e'))
    if also:
        rules.append(Route('/x/<int:x>', endpoint='other'))
    adapter = URLMap(rules, converters={'mod': Mod}).bind('h')
    refused = 0
    for x in numbers:
        y = x // 3
        ok = set()
        for i, (n, rest, two) in enumerate(routes):
            if x % n == rest % n and (not two or y % two == rest % two):
                ok.add('/r%d/%d%s' % (i, x, '/%d' % y if two else ''))
            else:
                refused += 1
        build = lambda: adapter.build(
            'e', {'x': x, 'y': y}, append_unknown=False,
            force_external=external)
        if not ok:
            t.raises(BuildError, build)
            t.label('BuildError')
            continue
        url = build()
        u = urlsplit(url)
        t.eq(u.netloc, 'h' if external else '', 'origin')
        t.ok(u.path in ok, '%r is not one of %r', url, ok)
        want = {'x': x}
        if u.path.count('/') == 3:
            want['y'] = y
        t.eq(adapter.match(u.path), ('e', want), url)
        t.nontrivial(refused > 0)


SUBS = [
    Sub('refused', st.tuples(
        st.lists(st.tuples(
            st.integers(1, 4), st.integers(0, 3),
            st.sampled_from([0, 0, 0, 2, 3])), min_size=1, max_size=8),
        st.lists(st.integers(0, 40), min_size=1, max_size=5),
        st.booleans(), st.booleans()), check_refused, quick=500),
    Sub('large', st.tuples(R.large_table(), st.sampled_from(
        [0, 1, 5, 20, 40])).map(lambda p: p[0] + (p[1],)),
        check_large, quick=300),
    Sub('build', cases(), check_build, quick=4000),
    Sub('values', float_cases(), check_values, quick=1000),
]
