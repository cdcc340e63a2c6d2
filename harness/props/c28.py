"""C28: requests served at the same time do not affect each other."""
import json
from io import BytesIO

from hypothesis import strategies as st

from harness import sched
from harness.core import Sub
from harness.props import c08

ID = 'C28'
RULE = (
    'app: a freshly made application with generated routes, views (values '
    'from the URL, query, body, cookies, url_for, JSON, raising), exception '
    'handlers and mounts, to which 2-4 requests are made in as many threads '
    'under a generated schedule: every line of the package is a possible '
    'switching point and up to 8 of them are chosen, weighted to the '
    'beginning, where the first request sets things up; and schedules that '
    'interrupt the first request right after a line that stored something, '
    'let another run, and come back (after it or in the middle).  map: the same with '
    'match, build, test and is_endpoint_expecting on a URL map to which '
    'routes have just been added.  Oracle: each thread gets what it gets from '
    'an equal application when it is the only one.  Non-trivial: the schedule '
    'switched at least once between two threads that were both under way.'
)
ASSUMPTIONS = [
    'routes, bindings and handlers are not added while requests are served; '
    'each request has its own environ'
]

TEXT = st.text('abé ', max_size=4)
SWITCHES = st.tuples(
    st.lists(st.tuples(st.integers(0, 999), st.integers(0, 2)),
             min_size=1, max_size=8),
    # of the points after changes made by the first thread, these many
    # thousandths in; and there and back
    st.lists(st.integers(0, 999), min_size=2, max_size=14),
    st.lists(st.integers(0, 300), max_size=2))
DO = st.sampled_from(['echo', 'echo', 'echo', 'json', 'stream', 'ValueError',
                      'NotFound', 'conditional'])


@st.composite
def app_cases(draw):
    views = []
    for p, e in c08.ROUTES:
        for ct in draw(st.sampled_from(
                [[None], ['text/html'], ['text/html', 'text/plain'], []])):
            views.append((e, ct, draw(st.sampled_from(
                [['GET'], ['GET', 'POST'], ['POST', 'PUT']])), draw(DO)))
    reqs = []
    for _ in range(draw(st.integers(2, 4))):
        reqs.append({
            'method': draw(st.sampled_from(['GET', 'GET', 'HEAD', 'POST'])),
            'target': draw(c08.target()), 'accept': draw(c08.ACCEPT),
            'query': draw(st.sampled_from(['', 'x=1', 'x=2&x=3', 'y=%C3%A9'])),
            'body': draw(st.sampled_from([b'', b'abc', b'\xff' * 5])),
            'cookie': draw(st.sampled_from(['', 'a=1', 'a=2; b="x y"'])),
            'mount': draw(st.booleans()),
        })
    how = draw(st.sampled_from(['any', 'equal', 'alike', 'alike']))
    if how == 'alike':
        # to the same route with other values
        if draw(st.booleans()):
            n = draw(st.integers(0, 99))
            reqs[0]['target'] = '/item/%d' % n, '/item/<int:n>', {'n': n}, None
        path, template, kw, redirect = reqs[0]['target']
        for i, r in enumerate(reqs):
            for var, value in kw.items():
                other = value + i if template == '/item/<int:n>' else \
                    value + 'x' * i
                stem = template.partition('<')[0]
                end = '/' if template.endswith('/') else ''
                r['target'] = ('%s%s%s' % (stem, other, end), template,
                               {var: other}, None)
            r['method'], r['mount'] = reqs[0]['method'], reqs[0]['mount']
    elif how == 'equal':
        # equal requests, at the same time
        reqs = [reqs[0]] + [draw(st.sampled_from(reqs)) for _ in reqs[1:]]
    return (
        draw(st.permutations(c08.ROUTES)), views,
        draw(st.lists(st.tuples(st.sampled_from(
            ['NotFound', 'HTTPException', 'ValueError', 'Exception']),
            st.sampled_from([None, 'text/html'])), max_size=3)),
        reqs, draw(SWITCHES))


def make_app(case):
    from verktyg import exceptions
    from verktyg.application import ApplicationBuilder
    from verktyg.responses import Response
    from verktyg.routing import Route
    from verktyg.views import View, JsonView
    from verktyg.wsgi import DispatcherMiddleware
    routes, views, handlers, reqs, _ = case
    builder = ApplicationBuilder()
    builder.add_routes(*[Route(p, endpoint=e) for p, e in routes])

    def facts(app, request, kw):
        return [sorted(kw.items()), request.method, request.path,
                request.query_string, sorted(request.args.lists()),
                sorted(request.cookies.items()), repr(request.get_data()),
                request.script_root, request.url,
                sorted(request.headers.items()),
                app.url_for('item', n=3), app.url_for('user', name='é/'),
                request.binding.name]

    def make_view(e, ct, do, n):
        def action(app, request, **kw):
            if do == 'ValueError':
                raise ValueError(request.path)
            if do == 'NotFound':
                raise exceptions.NotFound(request.path)
            f = [n, e, ct] + facts(app, request, kw)
            if do == 'json':
                return f
            if do == 'stream':
                return Response(json.dumps(x) for x in f)
            r = Response(json.dumps(f), status=201)
            r.set_cookie('c', request.path)
            r.headers['X-Path'] = repr(request.path.encode('utf-8'))
            if do == 'conditional':
                r.set_etag('tag')
                r.cache_control.max_age = n
                r.make_conditional(request)
            return r
        return action
    for n, (e, ct, methods, do) in enumerate(views):
        f = make_view(e, ct, do, n)
        if do == 'json':
            builder.add_bindings(JsonView(e, f, methods=methods))
        else:
            builder.add_bindings(View(e, f, methods=methods,
                                      content_type=ct))
    for n, (cls, ct) in enumerate(handlers):
        c = {'ValueError': ValueError, 'Exception': Exception}.get(cls) or \
            getattr(exceptions, cls)

        def handler(app, request, exc_type, exc_value, tb, n=n):
            return Response('%d %s %s %s' % (
                n, exc_type.__name__, exc_value, request.path), status=500)
        builder.add_exception_handler(c, handler, content_type=ct)
    app = builder('http://example.com')

    return DispatcherMiddleware(app, {'/mnt': app})


def environ(req):
    env = c08.environ_for('http://example.com', req)
    env['wsgi.input'] = BytesIO(req['body'])
    env['CONTENT_LENGTH'] = str(len(req['body']))
    if req['cookie']:
        env['HTTP_COOKIE'] = req['cookie']
    if req['mount']:
        env['PATH_INFO'] = '/mnt' + env['PATH_INFO']
    return env


def call(app, req):
    env = environ(req)
    started = []

    def start_response(status, headers, exc_info=None):
        # the Date is that of the moment
        started.append((status, [h for h in headers if h[0] != 'Date']))
        return None
    try:
        it = app(env, start_response)
        body = b''.join(it)
        if hasattr(it, 'close'):
            it.close()
    except Exception as e:
        return type(e).__name__, str(e), started
    return started, body


def scaled(switches, steps):
    # weighted to the beginning
    return [(1 + int(steps * (s / 1000.0) ** 2), k) for s, k in switches]


def compare(t, make, jobs, plan):
    """make() -> fresh object; jobs: functions of it"""
    switches, after, back = plan
    alone = []
    first = []
    total = 0
    for j in jobs:
        fresh = make()
        r, steps, _, points = sched.run([lambda: j(fresh)], [])
        if not alone:
            first = points
        alone.append(r[0])
        total += steps
    schedules = [scaled(switches, total)]
    if first:
        schedules += [[(first[x * len(first) // 1000], 0)] for x in after]
        # and back again a little later
        schedules += [[(first[x * len(first) // 1000], 0),
                       (first[x * len(first) // 1000] + 1 + y, 0)]
                      for x, y in zip(after, back)]
    n = 0
    for schedule in schedules:
        fresh = make()
        got, steps, taken, _ = sched.run(
            [lambda j=j: j(fresh) for j in jobs], schedule)
        for i, (g, w) in enumerate(zip(got, alone)):
            t.ok(g[:2] == w[:2],
                 'thread %d got %r, alone it gets %r, with switches %r', i,
                 g[:2], w[:2], schedule)
        n += taken
    t.nontrivial(n > 0)
    t.label('%d switches' % min(n, 8))


def check_app(case, t):
    reqs, plan = case[3], case[4]
    compare(t, lambda: make_app(case),
            [lambda app, r=r: call(app, r) for r in reqs], plan)


@st.composite
def map_cases(draw):
    routes = draw(st.lists(st.tuples(
        st.sampled_from(['/', '/a', '/a/', '/a/b', '/<x>', '/<x>/', '/a/<x>',
                         '/<path:x>', '/<int:x>', '/<int:x>/<y>', '/z']),
        st.sampled_from(['e', 'f', 'g'])), min_size=2, max_size=8,
        unique_by=lambda r: r[0]))
    ops = st.one_of(
        st.tuples(st.sampled_from(['match', 'match', 'test']),
                  st.sampled_from(['/', '/a', '/a/', '/a/b', '/b', '/1',
                                   '/1/2', '/z', '/q/w/e'])),
        st.tuples(st.just('build'), st.sampled_from(['e', 'f', 'g']),
                  st.dictionaries(st.sampled_from(['x', 'y', 'q']),
                                  st.sampled_from(['1', 'a', 2]))),
        st.tuples(st.just('expecting'), st.sampled_from(['e', 'f', 'g']),
                  st.sampled_from(['x', 'y'])))
    return routes, draw(st.lists(st.lists(ops, min_size=1, max_size=3),
                                 min_size=2, max_size=3)), draw(SWITCHES)


def check_map(case, t):
    from verktyg.routing import (
        URLMap, Route, RequestRedirect, BuildError)
    from verktyg.exceptions import NotFound
    routes, threads, plan = case

    def make():
        m = URLMap([Route(p, endpoint=e) for p, e in routes[:-1]])
        a = m.bind('example.com')
        list(m.iter_routes())
        m.add_routes(Route(routes[-1][0], endpoint=routes[-1][1]))
        return m, a

    def job(ops):
        def run(ma):
            m, a = ma
            out = []
            for op in ops:
                try:
                    if op[0] == 'match':
                        out.append(a.match(op[1]))
                    elif op[0] == 'test':
                        out.append(a.test(op[1]))
                    elif op[0] == 'build':
                        out.append(a.build(op[1], dict(op[2])))
                    else:
                        out.append(m.is_endpoint_expecting(op[1], op[2]))
                except RequestRedirect as e:
                    out.append(('redirect', e.new_url))
                except (NotFound, BuildError) as e:
                    out.append(type(e).__name__)
            return repr(out)
        return run
    compare(t, make, [job(ops) for ops in threads], plan)


SUBS = [
    Sub('app', app_cases(), check_app, quick=700),
    Sub('map', map_cases(), check_map, quick=900),
]
