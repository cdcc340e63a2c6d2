"""C01: URL matching is sound, complete and follows the precedence rules."""
import random
from urllib.parse import unquote, urlsplit

from hypothesis import strategies as st

from harness.core import Sub
from harness.models import routing as R

ID = 'C01'
RULE = (
    'Route tables of 1-6 generated routes (static text with regex '
    'metacharacters, every built-in converter with arguments, a user '
    'defined converter that rejects, several variables per segment, leaf '
    'and branch, strict and lax slashes, defaults, build_only, subdomains '
    'or hosts) are matched against paths derived from the routes and then '
    'mutated. Oracle: a reference matcher that tries every split of the '
    'path, and the documented precedence order. binding: the arguments of '
    'bind and bind_to_environ against the URL they stand for. bad-rules: '
    'rules that are not well formed raise. converters: every built-in '
    'converter with odd arguments, and its texts read and written, '
    'against an independent statement of its language. newline: line '
    'breaks in paths are characters like any other. foreign-host: hosts '
    'outside of the server name reach nothing. long: numbers of thousands '
    'of digits. large: tables of 20-70 routes of up to 14 segments. '
    'deep: the tables of match below up to 30 common segments. A '
    'case is non-trivial when at least one queried path is matched by, or '
    'slash-redirected by, a route that has a competitor: another route in '
    'the table, tried or matching as well.'
)
ASSUMPTIONS = [
    'no newlines inside path-converter text',
    'when a path can be split over one route in several ways any valid split '
    'is accepted',
]


@st.composite
def table(draw, cfg, max_routes=6, defaults=True):
    specs = []
    n = draw(st.integers(1, max_routes))
    for i in range(n):
        names = list(draw(st.permutations(R.NAMES)))
        use_domain = cfg.get('use_domain') and draw(st.booleans())
        domain = None
        if use_domain or cfg.get('host_matching'):
            domain = R.domain_items(
                draw, names, cfg.get('host_matching', False))
        if specs and draw(st.integers(0, 3)) == 0:
            # same shape as an earlier one, to provoke competition
            import copy
            segs = copy.deepcopy(draw(st.sampled_from(specs))['segs'])
            if segs and draw(st.booleans()):
                j = draw(st.integers(0, len(segs) - 1))
                used = {it[1] for k, s in enumerate(segs) if k != j
                        for it in s if it[0] == 'v'}
                free = [x for x in R.NAMES if x not in used and not any(
                    d[0] == 'v' and d[1] == x for d in domain or [])]
                segs[j] = [draw(R.variable(free[0]))]
            taken = {d[1] for d in domain or [] if d[0] == 'v'}
            if any(it[0] == 'v' and it[1] in taken
                   for s in segs for it in s):
                domain = None if not cfg.get('host_matching') else [
                    ('s', 'a.example.org')]
        else:
            segs = draw(R.segments(names))
        spec = {
            'segs': [[tuple(i) for i in s] for s in segs],
            'leaf': draw(st.booleans()),
            'endpoint': 'e%d' % i,
            'domain': domain,
            'strict': draw(st.sampled_from([None, None, None, True, False])),
        }
        if draw(st.integers(0, 7)) == 0:
            spec['build_only'] = True
        if defaults and draw(st.integers(0, 3)) == 0:
            spec['defaults'] = draw(st.dictionaries(
                st.sampled_from(['d1', 'd2']),
                st.sampled_from([1, 'v', None]), max_size=2))
            # a default for a variable of the route itself
            mine = sorted(R.variables(spec))
            if mine and draw(st.integers(0, 2)) == 0:
                spec['defaults'][draw(st.sampled_from(mine))] = draw(
                    st.sampled_from([1, 'v', '', None]))
        specs.append(spec)
    return specs


@st.composite
def cases(draw):
    cfg = {
        'strict_slashes': draw(st.booleans()),
        'redirect_defaults': False,
        'host_matching': draw(st.integers(0, 3)) == 0,
    }
    cfg['use_domain'] = draw(st.integers(0, 2)) == 0
    if not cfg['host_matching'] and draw(st.integers(0, 4)) == 0:
        cfg['default_subdomain'] = draw(R.host_label)
    specs = draw(table(cfg))
    queries = []
    for _ in range(draw(st.integers(1, 4))):
        s = draw(st.sampled_from(specs))
        d = draw(R.domain_for(draw(st.sampled_from(specs))
                              if draw(st.integers(0, 4)) == 0 else s, cfg))
        if cfg['host_matching'] and s['domain'] is None:
            d = 'a.example.org'
        queries.append((d, draw(R.path_for(s))))
    return cfg, specs, queries


@st.composite
def deep_cases(draw):
    """the same tables far below the root"""
    cfg, specs, queries = draw(cases())
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 30)))
    pre = [[('s', 'p%d' % (i % 7))] for i in range(n)]
    for s in specs:
        s['segs'] = pre + s['segs']
    path = '/' + '/'.join(s[0][1] for s in pre)
    return cfg, specs, [(d, path + '/' + p.lstrip('/')) for d, p in queries]


def expected(specs, cfg, domain, path):
    """('notfound',), ('slash',) or a list of allowed outcomes."""
    norm = '/' + path.lstrip('/')
    allowed = []
    for spec in R.in_order(specs, cfg):
        kind, outs, clean = R.route_match(spec, cfg, domain, norm)
        if kind == 'no':
            continue
        if kind == 'slash':
            allowed.append(('slash', spec))
            return allowed
        for o in outs:
            allowed.append(('match', spec, o))
        if clean:
            return allowed
    allowed.append(('notfound',))
    return allowed


def observe(adapter, *args, **kw):
    from verktyg.routing import RequestRedirect
    from verktyg.exceptions import NotFound
    try:
        return ('match',) + tuple(adapter.match(*args, **kw))
    except NotFound:
        return ('notfound',)
    except RequestRedirect as e:
        return ('slash', e.new_url)


def same_values(a, b):
    return a == b and all(
        type(a[k]) is type(b[k]) for k in a)


def judge(t, got, allowed, cfg, specs, domain, path, route=False):
    kinds = [a[0] for a in allowed]
    if got[0] not in kinds:
        t.fail('table %r: %r on %r gave %r, expected %r', [
            R.render_path(s) for s in specs], path, domain, got, allowed)
    if got[0] == 'match':
        for a in allowed:
            if a[0] == 'match' and a[1]['endpoint'] == got[1] and \
                    same_values(a[2], got[2]):
                break
        else:
            t.fail('table %r: %r on %r matched %r, expected %r', [
                R.render_path(s) for s in specs], path, domain, got, allowed)
    elif got[0] == 'slash':
        u = urlsplit(got[1])
        t.eq(u.netloc, R.full_host(cfg, domain), 'redirect host')
        t.eq(unquote(u.path), '/' + path.lstrip('/') + '/',
             'slash redirect of %r' % path)


def check_match(case, t):
    cfg, specs, queries = case
    m = R.make_map(specs, cfg)
    # more than one question to the same map, some of them asked twice
    for domain, path in queries + queries[:1]:
        allowed = expected(specs, cfg, domain, path)
        adapter = R.bind(m, cfg, domain)
        got = observe(adapter, path)
        judge(t, got, allowed, cfg, specs, domain, path)
        t.label('got ' + got[0])
        if len(allowed) > 1:
            t.label('ambiguous')
        if got[0] != 'notfound' and len(specs) > 1:
            t.nontrivial()
        # the other ways of asking agree
        t.eq(adapter.test(path), got[0] != 'notfound', 'test(%r)' % path)
        if got[0] == 'match':
            route, values = adapter.match(path, return_route=True)
            t.eq((route.endpoint, values), got[1:], 'return_route')
            values['scribble'] = values.pop(next(iter(values), ''), None)
            t.eq(adapter.match(path), got[1:], 'matching twice')
        t.eq(observe(R.bind(m, cfg, domain, path_info=path)), got,
             'path_info given to bind')


@st.composite
def environ_cases(draw):
    cfg, specs, queries = draw(cases())
    cfg = dict(cfg)
    if draw(st.integers(0, 3)) == 0 and not any(
        ord(c) > 255 for _, p in queries for c in p
    ):
        cfg['charset'] = 'latin-1'
    domain, path = queries[0]
    return (cfg, specs, domain, path, draw(st.sampled_from(
        ['host', 'host-port', 'server', 'server-port'])),
        draw(st.booleans()), draw(st.sampled_from(['', '/app', '/a/b'])),
        draw(st.sampled_from(['http', 'https'])))


def check_environ(case, t):
    """bind_to_environ sees what bind would have been told."""
    cfg, specs, domain, path, how, upper, script, scheme = case
    m = R.make_map(specs, cfg)
    host = R.full_host(cfg, domain)
    hint = None if cfg['host_matching'] else (
        'Example.ORG' if script == '/app' else 'example.org')
    environ = {
        'wsgi.url_scheme': scheme,
        'SCRIPT_NAME': script,
        'PATH_INFO': path.encode(cfg.get('charset', 'utf-8')).decode(
            'latin-1'),
        'QUERY_STRING': '',
        'SERVER_NAME': 'ignored.invalid',
        'SERVER_PORT': '443' if scheme == 'https' else '80',
    }
    shown = host.upper() if upper else host
    port = ''
    if how.endswith('port'):
        port = ':8080'
        if hint:
            hint += port
    if how.startswith('host'):
        environ['HTTP_HOST'] = shown + port
        if port:
            environ['SERVER_PORT'] = '8080'
    else:
        environ['SERVER_NAME'] = shown
        if port:
            environ['SERVER_PORT'] = '8080'
    if cfg['host_matching'] and port:
        # the host includes the port, none of the routes does
        t.eq(observe(m.bind_to_environ(environ))[0], 'notfound', 'port')
        return
    adapter = m.bind_to_environ(environ, server_name=hint)
    got = observe(adapter)
    if port and got[0] == 'slash':
        t.ok((host + port) in got[1], 'port lost in %r', got)
        got = ('slash', got[1].replace(port, ''))
    allowed = expected(specs, cfg, domain, path)
    kinds = [a[0] for a in allowed]
    t.ok(got[0] in kinds, '%r gave %r, expected %r', environ, got, allowed)
    if got[0] == 'match':
        t.ok(any(
            a[0] == 'match' and a[1]['endpoint'] == got[1] and
            same_values(a[2], got[2]) for a in allowed),
            '%r gave %r, expected %r', environ, got, allowed)
        t.nontrivial(len(specs) > 1)
    elif got[0] == 'slash':
        u = urlsplit(got[1])
        t.eq(u.netloc, host, 'redirect host')
        t.eq(u.scheme, scheme, 'redirect scheme')
        t.eq(unquote(u.path, encoding=cfg.get('charset', 'utf-8')),
             script + '/' + path.lstrip('/') + '/', 'redirect path')
        t.nontrivial()
    t.label(got[0], how)


@st.composite
def foreign_cases(draw):
    host = draw(st.sampled_from([
        'example.com', 'evilexample.org', 'example.org.evil.com', 'localhost',
        '127.0.0.1', 'org', 'a.example.com', 'xexample.org', 'en.exampleXorg',
        'example.org.', 'b.evilexample.org']))
    cfg = {'strict_slashes': True, 'redirect_defaults': False,
           'host_matching': False, 'use_domain': draw(st.booleans())}
    specs = draw(table(cfg))
    return cfg, specs, host, draw(R.path_for(draw(st.sampled_from(specs))))


def check_foreign(case, t):
    """A host outside of the configured server name never reaches a route of
    the application's (sub)domains."""
    cfg, specs, host, path = case
    m = R.make_map(specs, cfg)
    environ = {
        'wsgi.url_scheme': 'http', 'SCRIPT_NAME': '', 'QUERY_STRING': '',
        'PATH_INFO': path.encode('utf-8').decode('latin-1'),
        'SERVER_NAME': 'example.org', 'SERVER_PORT': '80',
        'HTTP_HOST': host,
    }
    a = m.bind_to_environ(environ, server_name='example.org')
    t.eq(observe(a), ('notfound',), 'foreign host %r' % host)
    t.eq(a.test(), False, 'foreign host %r: test()' % host)
    t.nontrivial()


@st.composite
def newline_cases(draw):
    cfg = {'strict_slashes': draw(st.booleans()), 'redirect_defaults': False}
    specs = draw(table(cfg, max_routes=3))
    s = draw(st.sampled_from(specs))
    return cfg, specs, draw(R.path_for(s, near=False)) + '\n'


def check_newline(case, t):
    """A line break is a character like any other: never ignored."""
    cfg, specs, path = case
    if any(v[0] == 'path' for s in specs
           for v in R.variables(s).values()):
        return
    m = R.make_map(specs, cfg)
    allowed = expected(specs, cfg, '', path)
    got = observe(R.bind(m, cfg, ''), path)
    t.nontrivial()
    if got[0] == 'slash':
        t.ok(any(a[0] == 'slash' for a in allowed), 'slash %r', path)
        return
    judge(t, got, allowed, cfg, specs, '', path)


# what an adapter is bound to

SUBDOMAINS = ['', 'en', 'a.b', 'xn--mnchen-3ya', 'dflt']
SAID = [None, '', 'en', 'EN', 'En', 'a.b', 'A.b', 'München', 'MÜNCHEN',
        'xn--mnchen-3ya', 'zz', 'dflt']
SERVERS = ['example.org', 'EXAMPLE.org', 'bücher.example', 'Bücher.Example',
           'example.org:8080', 'localhost', '127.0.0.1:5000']


@st.composite
def binding_cases(draw):
    host_matching = draw(st.integers(0, 3)) == 0
    return {
        'host_matching': host_matching,
        'default': draw(st.sampled_from(['', '', 'dflt', 'en'])),
        'server': draw(st.sampled_from(SERVERS + [None, ''])),
        'subdomain': draw(st.sampled_from(SAID)),
        'scheme': draw(st.sampled_from(['http', 'https'])),
        'script': draw(st.sampled_from([None, '/', '/app', '/app/', '/a/b'])),
        'way': draw(st.sampled_from(['bind', 'environ', 'request'])),
        # how the request came in
        'host': draw(st.sampled_from([None, 'example.org', 'en.example.org',
                                      'a.b.EXAMPLE.org', 'en.example.org:8080',
                                      'elsewhere.com', 'localhost'])),
        'name': draw(st.sampled_from(['example.org', 'En.example.org',
                                      'localhost', 'en.localhost'])),
        'port': draw(st.sampled_from(['80', '443', '8080', '5000'])),
        'query': draw(st.sampled_from(['', 'a=b&c=%20'])),
    }


def ascii_host(s):
    return s.lower().encode('idna').decode('ascii')


def check_binding(case, t):
    """The server name, subdomain, script name and scheme an adapter ends up
    with, seen through what it matches, redirects to and builds."""
    from verktyg.routing import URLMap, Route
    from verktyg.requests import Request
    hm = case['host_matching']
    server, subdomain = case['server'], case['subdomain']
    way = case['way']
    if hm:
        hosts = sorted(set(
            ascii_host(h) for h in SERVERS + [
                'elsewhere.com', 'en.example.org', 'en.example.org:8080',
                'a.b.example.org']))
        routes = [Route('/d/', endpoint=h, host=h) for h in hosts]
    else:
        routes = [Route('/d/', endpoint='sub ' + d, subdomain=d)
                  for d in SUBDOMAINS]
    m = URLMap(routes, host_matching=hm, default_subdomain=case['default'])
    environ = {
        'wsgi.url_scheme': case['scheme'], 'PATH_INFO': '/d/',
        'QUERY_STRING': case['query'], 'SERVER_NAME': case['name'],
        'SERVER_PORT': case['port'],
    }
    if case['script'] is not None:
        environ['SCRIPT_NAME'] = case['script']
    if case['host'] is not None:
        environ['HTTP_HOST'] = case['host']
    where = case['host']
    if where is None:
        where = case['name']
        if (case['scheme'], case['port']) not in (
                ('http', '80'), ('https', '443')):
            where += ':' + case['port']

    def bind(path):
        if way == 'bind':
            return m.bind(server, case['script'], subdomain, case['scheme'],
                          path, case['query'])
        e = dict(environ, PATH_INFO=path)
        return m.bind_to_environ(
            Request(e) if way == 'request' else e,
            server_name=server, subdomain=subdomain)
    # what should come out
    if hm:
        error = subdomain is not None and RuntimeError
        want_sub = None
        want_server = server if server is not None or way == 'bind' else where
    elif way == 'bind' or subdomain is not None:
        want_sub = case['default'] if subdomain is None else subdomain
        want_server = server if server is not None or way == 'bind' else where
        error = bool(want_sub) and not want_server and TypeError
    elif server is None:
        want_server, want_sub, error = where, case['default'], False
    else:
        want_server, error = server, not server and TypeError
        a, b = where.lower().split('.'), server.lower().split('.')
        want_sub = '.'.join(a[:-len(b)]) if a[-len(b):] == b else '<invalid>'
    if error:
        try:
            bind('/d/')
        except error:
            pass
        else:
            t.fail('%r accepted', case)
        t.label('refused')
        t.nontrivial()
        return
    want_sub = want_sub and ascii_host(want_sub)
    want_server = want_server and ascii_host(want_server)
    if hm:
        endpoint = want_server
        known = want_server in hosts
        full = want_server
    else:
        endpoint = 'sub ' + want_sub
        known = want_sub in SUBDOMAINS
        full = (want_sub + '.' if want_sub else '') + (want_server or '')
    if not want_server:
        t.label('no server name')
        if not hm:
            t.eq(observe(bind('/d/')), ('match', endpoint, {}), 'match')
        return
    script = (case['script'] or '').rstrip('/')
    if known:
        t.eq(observe(bind('/d/')), ('match', endpoint, {}), 'match')
        t.eq(observe(bind('/d')), ('slash', '%s://%s%s/d/%s' % (
            case['scheme'], full, script,
            '?' + case['query'] if case['query'] else '')), 'redirect')
        a = bind('/zz')
        t.eq(observe(a), ('notfound',), 'unknown path')
        t.eq(observe(a, '/d/'), ('match', endpoint, {}), 'path given')
        t.eq(observe(a, '/d', query_args='z=1'), (
            'slash', '%s://%s%s/d/?z=1' % (case['scheme'], full, script)),
            'redirect with another query')
        t.eq(a.build(endpoint), script + '/d/', 'build')
        t.eq(a.build(endpoint, force_external=True), '%s://%s%s/d/' % (
            case['scheme'], full, script), 'build external')
        other = 'sub a.b' if not hm else 'elsewhere.com'
        if other != endpoint:
            t.eq(a.build(other), '%s://%s%s/d/' % (
                case['scheme'],
                other if hm else 'a.b.' + want_server, script),
                'build on another host')
        t.nontrivial()
    else:
        t.eq(observe(bind('/d/')), ('notfound',), 'unknown host')
    t.label(way, 'known' if known else 'unknown')


# rules that are no rules

@st.composite
def bad_rules(draw):
    part = st.sampled_from(['/a', '/<x>', '/b/', '/<int:n>', '/c-<y>.html'])
    good = ''.join(draw(st.lists(part, min_size=1, max_size=3, unique=True)))
    kind = draw(st.sampled_from(
        ['twice', 'open', 'close', 'slash', 'unknown', 'empty', 'ok']))
    return kind, good, draw(st.sampled_from(['/z', '', '/zz/']))


def check_bad_rule(case, t):
    """A rule that cannot be understood is refused when it is made, not
    matched as something else."""
    from verktyg.routing import URLMap, Route
    kind, good, tail = case
    rule, error = good + tail, ValueError
    if kind == 'twice':
        rule = good + '/<q>/m/<int:q>' + tail
    elif kind == 'open':
        rule = good + '/<q' + tail
    elif kind == 'close':
        rule = good + '/q>' + tail
    elif kind == 'slash':
        rule = good.lstrip('/') + tail
    elif kind == 'unknown':
        rule, error = good + '/<nosuch:q>' + tail, LookupError
    elif kind == 'empty':
        rule = good + '/<>' + tail
    try:
        URLMap([Route(rule, endpoint='e')])
    except error as e:
        t.ok(kind != 'ok', '%r refused: %r', rule, e)
    else:
        t.ok(kind == 'ok', '%r (%s) accepted', rule, kind)
    t.nontrivial(kind != 'ok')
    t.label(kind)


# one variable, looked at closely

LIMIT = st.sampled_from([0, 0, 1, 2, 3, 9, 10, 11, 99, 100])


@st.composite
def converter_cases(draw):
    conv = draw(st.sampled_from(
        ['int', 'int', 'float', 'string', 'default', 'any', 'uuid', 'path']))
    args = draw(R.var_args[conv])
    if conv in ('int', 'float') and draw(st.booleans()):
        args = {}
        for k in draw(st.lists(st.sampled_from(
                ['min', 'max'] + ['fixed_digits'] * (conv == 'int')),
                unique=True, max_size=3)):
            args[k] = draw(LIMIT) if k != 'fixed_digits' else draw(
                st.integers(1, 3))
    near = []
    for k, v in sorted(args.items()):
        if isinstance(v, list):
            near += v + [x + v[0][:1] for x in v] + [x[:-1] for x in v]
        elif conv == 'float':
            near += ['%.2f' % max(v + d, 0) for d in (-.25, 0, .25, 100)]
        elif k in ('min', 'max'):
            near += [str(max(v + d, 0)) for d in (-1, 0, 1, 100)]
            near += ['0' + x for x in near]
        else:
            near += [c * max(v + d, 1) for d in (-1, 0, 1) for c in '10']
    raws = draw(st.lists(R.near_raw(
        conv, args if conv == 'any' else {}), max_size=4))
    if near:
        raws += draw(st.lists(st.sampled_from(near), min_size=2, max_size=6))
    return conv, args, draw(st.booleans()), [
        r for r in raws if r and '/' not in r]


def check_converter(case, t):
    conv, args, leaf, raws = case
    spec_items = [('v', 'x', conv, args)]
    rule = '/p/' + R.render_item(spec_items[0]) + ('' if leaf else '/')
    from verktyg.routing import URLMap, Route
    m = URLMap([Route(rule, endpoint='e')])
    adapter = m.bind('h')
    for raw in raws:
        want = ('notfound',)
        if R.shape_ok(conv, args, raw):
            try:
                want = ('match', 'e', {'x': R.to_python(conv, args, raw)})
            except R.Invalid:
                pass
        got = observe(adapter, '/p/' + raw + ('' if leaf else '/'))
        t.eq(got, want, '%r of %s' % (raw, rule))
        t.label(want[0], conv)
    t.nontrivial(len(raws) > 2)


def check_long(case, t):
    """Numbers python has no wish to convert do not match a number."""
    from verktyg.routing import URLMap, Route
    digit, n, lead, conv, other, slash = case
    raw = '0' * lead + digit * n
    if conv == 'float':
        raw += '.5'
    end = '/' if slash else ''
    routes = [Route('/p/<%s:x>' % conv + end, endpoint='e')]
    if other:
        routes.append(Route('/p/<%s:y>' % other + end, endpoint='o'))
    adapter = URLMap(routes).bind('h')
    got = observe(adapter, '/p/' + raw + end)
    want = [('match', 'o', {'y': raw}) if other else ('notfound',)]
    number = 0
    try:
        number = float(raw) if conv == 'float' else int(raw)
    except ValueError:
        pass
    else:
        want = [('match', 'e', {'x': number})]
    if number == float('inf') or len(raw) > 4000:
        # as good as no number
        want += [('match', 'o', {'y': raw}) if other else ('notfound',)]
    t.ok(got in want, '%d digits gave %.200r', len(raw), got)
    t.eq(adapter.test('/p/' + raw + end), got[0] == 'match', 'test')
    t.nontrivial(len(raw) > 4300)
    t.label(got[0])


def check_large(case, t):
    """As many routes as an application has."""
    cfg, specs, seed = case
    rng = random.Random(seed)
    m = R.make_map(specs, cfg)
    adapter = R.bind(m, cfg, '')
    for spec in rng.sample(specs, 4) + specs[-1:]:
        path = ''.join(
            item[1] if item[0] == 's' else R.large_raw(rng, item[2])
            for item in R.flat_items(spec))
        if not spec['leaf']:
            path += '/'
        how = rng.randrange(6)
        if how == 0:
            path = path[:-1]
        elif how == 1:
            path += '/' if spec['leaf'] else 'x'
        elif how == 2:
            i = rng.randrange(1, len(path))
            path = path[:i] + rng.choice('a1/-') + path[i:]
        if spec['leaf'] and path.endswith('/'):
            # only slashes at the end of branches are of interest
            path = path.rstrip('/') + '/'
        allowed = expected(specs, cfg, '', path)
        got = observe(adapter, path)
        judge(t, got, allowed, cfg, specs, '', path)
        t.eq(adapter.test(path), got[0] != 'notfound', 'test(%r)' % path)
        t.label(got[0], 'changed' if how < 3 else 'as it is')
        t.nontrivial(got[0] != 'notfound')


SUBS = [
    Sub('large', R.large_table(), check_large, quick=300),
    Sub('long', st.tuples(
        st.sampled_from('193'), st.one_of(
            st.integers(1, 400), st.integers(4200, 4400),
            st.integers(4000, 9000)), st.sampled_from([0, 0, 1, 300]),
        st.sampled_from(['int', 'int', 'float']), st.sampled_from(
            [None, 'string', 'default', 'path']), st.booleans()),
        check_long, quick=200),
    Sub('converters', converter_cases(), check_converter, quick=2000),
    Sub('binding', binding_cases(), check_binding, quick=2500),
    Sub('bad-rules', bad_rules(), check_bad_rule, quick=200),
    Sub('match', cases(), check_match, quick=4000),
    Sub('deep', deep_cases(), check_match, quick=1000),
    Sub('environ', environ_cases(), check_environ, quick=2000),
    Sub('foreign-host', foreign_cases(), check_foreign, quick=500),
    Sub('newline', newline_cases(), check_newline, quick=500),
]
