"""C08: an application answers every request with the right handler."""
import json
import random
from urllib.parse import unquote, urlsplit, parse_qsl

from hypothesis import strategies as st

from harness.core import Sub
from harness.models import negotiation as N

ID = 'C08'
RULE = (
    'Applications are assembled with ApplicationBuilder from generated '
    'routes, views (plain, JSON, several methods, several '
    'representations), exception handlers for a hierarchy of classes and '
    'middleware, and serve a generated sequence of WSGI requests, each '
    'consumed completely, partially or not at all and then closed. '
    'Oracle: tables of what was registered, the negotiation model of C05, '
    'and counters of the close callbacks. url-for: URLs and redirects '
    'made from inside a view. large: up to 60 views, layers and handlers, '
    'long bodies and paths. Non-trivial: a request that reaches a view or '
    'an exception handler that was chosen among several, or ends in an '
    'error or redirect, or is abandoned half way.'
)
ASSUMPTIONS = [
    'the server closes the iterable it was given, as WSGI requires',
]

# template, endpoint
ROUTES = [('/', 'root'), ('/a', 'a'), ('/b/', ''), ('/item/<int:n>', 'item'),
          ('/u/<name>/', 'user'), ('/f/<path:p>', 'file')]
ENDPOINTS = [e for _, e in ROUTES]
EXC = ['ValueError', 'KeyError', 'NotFound', 'BadRequest', 'Gone', 'Custom',
       'SubCustom', 'Base']
HANDLED = ['ValueError', 'LookupError', 'NotFound', 'HTTPException',
           'Exception', 'MethodNotAllowed', 'NotAcceptable', 'Custom',
           'Base', 'BaseException', 'NotImplemented']
SEG = st.text('abé-_.% +~中', min_size=1, max_size=5).filter(
    lambda s: s.strip('.') and s != '.')
TEXT = st.text('abé中<>&"\n ', max_size=6)


@st.composite
def target(draw):
    """(path, route template or None, kwargs, redirect path or None)"""
    k = draw(st.integers(0, 11))
    if k == 0:
        return '/', '/', {}, None
    if k <= 2:
        return '/a', '/a', {}, None
    if k == 3:
        return '/b', '/b/', {}, '/b/'
    if k == 4:
        return '/b/', '/b/', {}, None
    if k <= 6:
        n = draw(st.integers(0, 10 ** 6))
        return '/item/%d' % n, '/item/<int:n>', {'n': n}, None
    if k == 7:
        s = draw(SEG)
        return '/u/%s' % s, '/u/<name>/', {}, '/u/%s/' % s
    if k == 8:
        s = draw(SEG)
        return '/u/%s/' % s, '/u/<name>/', {'name': s}, None
    if k <= 10:
        p = '/'.join(draw(st.lists(SEG, min_size=1, max_size=3)))
        return '/f/' + p, '/f/<path:p>', {'p': p}, None
    return draw(st.sampled_from(['/nope', '/a/', '/item/x', '/A'])), \
        None, {}, None


@st.composite
def json_value(draw):
    return draw(st.recursive(
        st.one_of(st.booleans(), st.integers(-10 ** 6, 10 ** 6), TEXT,
                  st.floats(-1e6, 1e6)),
        lambda c: st.one_of(
            st.lists(c, max_size=3),
            st.dictionaries(TEXT, st.one_of(c, st.none()), max_size=3)),
        max_leaves=6))


@st.composite
def behaviour(draw, handler=False):
    k = draw(st.integers(0, 9))
    status = draw(st.sampled_from([200, 200, 200, 201, 404, 204, 304, 500]))
    if k <= 2:
        return 'str', draw(TEXT), status
    if k == 3:
        return 'list', draw(st.lists(TEXT, max_size=3)), status
    if k <= 5:
        return 'gen', draw(st.lists(TEXT, max_size=4)), status
    if k == 6 and not handler:
        return ('genraise', draw(st.lists(TEXT, max_size=3)),
                draw(st.sampled_from(EXC)))
    if handler and k > 7:
        return 'str', draw(TEXT), status
    return 'raise', draw(st.sampled_from(EXC))


@st.composite
def view(draw, i):
    ep = draw(st.sampled_from(ENDPOINTS[:4] + ENDPOINTS))
    methods = draw(st.one_of(
        st.none(), st.none(), st.just('POST'),
        st.lists(st.sampled_from(['GET', 'POST', 'HEAD', 'PUT']), min_size=1,
                 max_size=2, unique=True)))
    if draw(st.integers(0, 3)) == 0:
        b = draw(st.one_of(
            st.tuples(st.just('json'), json_value()),
            st.just(('json', None)),
            st.tuples(st.just('str'), TEXT, st.just(200)),
            st.tuples(st.just('raise'), st.sampled_from(EXC))))
        return {'kind': draw(st.sampled_from(['json', 'expose_json'])),
                'endpoint': ep, 'methods': methods,
                'rep': {'content_type': 'application/json'}, 'do': b}
    rep = {'content_type': draw(st.sampled_from(
        [None, None, 'text/html', 'text/plain', 'application/json']))}
    if draw(st.integers(0, 3)) == 0:
        rep['language'] = draw(st.sampled_from(['en', 'fr']))
    if draw(st.integers(0, 3)) == 0:
        rep['charset'] = draw(st.sampled_from(['utf-8', 'koi8-r']))
    return {'kind': draw(st.sampled_from(['view', 'expose', 'deco'])),
            'endpoint': ep, 'methods': methods, 'rep': rep,
            'do': draw(behaviour())}


@st.composite
def exc_handler(draw):
    return {'cls': draw(st.sampled_from(HANDLED)),
            'rep': dict({'content_type': draw(st.sampled_from(
                [None, None, 'text/html', 'application/json']))}, **draw(
                    st.sampled_from([{}, {}, {'language': 'en'},
                                     {'charset': 'koi8-r'}]))),
            'do': draw(behaviour(handler=True))}


ACCEPT = st.sampled_from([
    {}, {}, {}, {'type': [('text/html', None), ('*/*', '0.5')]},
    {'type': [('application/json', None)]},
    {'type': [('text/*', None), ('application/json', '0.1')]},
    {'type': [('image/png', None)]},
    {'lang': [('fr', None)]}, {'lang': [('en', '0.5'), ('fr', '0.9')]},
    {'charset': [('koi8-r', None)]},
    {'charset': [('utf-8', None), ('koi8-r', '0.5')]},
    {'charset': [('koi8-r', None)], 'type': [('text/plain', None)]},
])


@st.composite
def cases(draw):
    routes = draw(st.lists(st.sampled_from(ROUTES), min_size=3, max_size=6,
                           unique=True))
    # routes for what has one already: the first one is meant
    shadows = draw(st.lists(st.tuples(
        st.sampled_from(routes).map(lambda r: r[0]),
        st.sampled_from(ENDPOINTS)), max_size=3))
    views = [draw(view(i)) for i in range(draw(st.integers(2, 7)))]
    handlers = draw(st.lists(exc_handler(), max_size=4))
    mw = draw(st.lists(st.integers(1, 5), max_size=3, unique=True))
    reqs = []
    for _ in range(draw(st.integers(1, 5))):
        reqs.append({
            'method': draw(st.sampled_from(
                ['GET', 'GET', 'GET', 'HEAD', 'POST', 'PUT', 'DELETE'])),
            'target': draw(target()),
            'query': draw(st.sampled_from(['', '', 'x=1', 'q=%C3%A9&z=2',
                                           'k=a%20b', 'x=1&y=2&x=3',
                                           'flag', 'a=&b=1', 'a=1+2;c',
                                           'a=%26%3D%2B%23', '&b=1&'])),
            'accept': draw(ACCEPT),
            'consume': draw(st.sampled_from(
                ['all', 'all', 'all', 0, 1, 2, 'never'])),
        })
    return {'root': draw(st.sampled_from(
                ['http://example.com', 'http://example.com/app',
                 'https://example.com:8443/x/y',
                 'http://example.com/App/-_.V2'])),
            'routes': routes, 'shadows': shadows, 'views': views, 'handlers': handlers,
            'middleware': mw, 'requests': reqs,
            'debug': draw(st.sampled_from([True, False, None])),
            'mixins': draw(st.lists(st.sampled_from('PQR'), max_size=3)),
            # what the builder brings along, and a handler of one's own
            'redirects': draw(st.sampled_from(
                ['default', 'default', 'none', 'own', 'own only'])),
            'default mixins': draw(st.integers(0, 3)) > 0}


def environ_for(root, req):
    from io import BytesIO
    u = urlsplit(root)
    env = {
        'REQUEST_METHOD': req['method'],
        'SCRIPT_NAME': u.path, 'PATH_INFO': req['target'][0].encode(
            'utf-8').decode('latin1'),
        'QUERY_STRING': req['query'], 'SERVER_NAME': u.hostname,
        'SERVER_PORT': str(u.port or (443 if u.scheme == 'https' else 80)),
        'HTTP_HOST': u.netloc, 'wsgi.url_scheme': u.scheme,
        'wsgi.input': BytesIO(b''), 'wsgi.errors': BytesIO(),
        'wsgi.version': (1, 0), 'wsgi.multithread': False,
        'wsgi.multiprocess': False, 'wsgi.run_once': False,
        'SERVER_PROTOCOL': 'HTTP/1.1',
    }
    for which, name in (('type', 'HTTP_ACCEPT'),
                        ('lang', 'HTTP_ACCEPT_LANGUAGE'),
                        ('charset', 'HTTP_ACCEPT_CHARSET')):
        if which in req['accept']:
            env[name] = N.header(req['accept'][which])
    return env


class Closeable(object):
    """An iterable body that counts how often it is closed."""
    def __init__(self, log, chunks, exc=None):
        self.log, self.chunks, self.exc = log, chunks, exc

    def __iter__(self):
        for c in self.chunks:
            yield c
        if self.exc is not None:
            raise self.exc

    def close(self):
        self.log.append('body')


def check_app(case, t):
    from verktyg import exceptions
    from verktyg.application import ApplicationBuilder
    from verktyg.responses import Response
    from verktyg.routing import Route, RequestRedirect
    from verktyg.views import View, JsonView, expose, expose_json

    class Custom(Exception):
        pass

    class SubCustom(Custom, LookupError):
        pass

    class Base(BaseException):
        pass
    classes = {
        'ValueError': ValueError, 'KeyError': KeyError, 'Custom': Custom,
        'SubCustom': SubCustom, 'Base': Base, 'LookupError': LookupError,
        'Exception': Exception, 'BaseException': BaseException,
        'HTTPException': exceptions.HTTPException,
    }
    for n in ('NotFound', 'BadRequest', 'Gone', 'MethodNotAllowed',
              'NotAcceptable', 'NotImplemented'):
        classes[n] = getattr(exceptions, n)

    calls = []      # what was invoked, in order
    raised_from = KeyError('cause')
    close_log = []  # close callbacks run
    opened = [0]    # responses made: each must be closed once

    # request mixins, each of which adds an attribute
    mixins = {name: type('RequestMixin' + name, (object,),
                         {'mixin_' + name: name}) for name in 'PQR'}

    class Mixin(object):
        debug = case['debug']

        def extra(self):
            return 'extra'

    options = {}
    if case['redirects'] in ('none', 'own only'):
        options['default_redirect_handler'] = False
    if not case['default mixins']:
        options['default_request_mixins'] = False
    builder = ApplicationBuilder(**options)
    if case['redirects'].startswith('own'):
        def redirected(app, request, exc_type, exc_value, exc_tb):
            calls.append(('redirected', exc_type, exc_value))
            return Response('to ' + exc_value.new_url, status=302)
        builder.add_exception_handler(RequestRedirect, redirected)
    if case['debug'] is not None:
        builder.add_application_mixins(Mixin)
        builder.add_application_mixins(Mixin)
    for name in case['mixins']:
        builder.add_request_mixins(mixins[name])
    builder.add_routes(*[Route(p, endpoint=e) for p, e in case['routes']])
    for p, e in case['shadows']:
        builder.add_routes(Route(p, endpoint=e))
    builder.config['mixins'] = len(case['mixins'])

    def act(do, who, request, response_hook=True):
        request.call_on_close(lambda: close_log.append('request'))
        if do[0] == 'raise':
            e = classes[do[1]]()
            calls.append(('raised', e))
            raise e from raised_from
        if do[0] == 'json':
            return do[1]
        if do[0] == 'str':
            r = Response(do[1], status=do[2])
        elif do[0] == 'list':
            r = Response(list(do[1]), status=do[2])
        elif do[0] == 'gen':
            r = Response(Closeable(close_log, do[1]), status=do[2])
            opened[0] += 1
        else:
            r = Response(Closeable(close_log, do[1], classes[do[2]]()))
            opened[0] += 1
        r.call_on_close(lambda: close_log.append('response'))
        return r

    def make_view(i, v):
        def action(app, request, **kw):
            calls.append(('view', i, app, request, kw, request.binding))
            return act(v['do'], i, request)
        return action

    def make_handler(i, h):
        def handler(app, request, exc_type, exc_value, exc_tb):
            calls.append(('handler', i, app, request, exc_type, exc_value,
                          exc_tb))
            return act(h['do'], i, request)
        return handler

    for i, v in enumerate(case['views']):
        f = make_view(i, v)
        kw = N.rep_kwargs(v['rep'])
        if v['methods'] is not None:
            kw['methods'] = v['methods']
        if v['kind'] == 'expose_json':
            t.ok(expose_json(builder, v['endpoint'], methods=v['methods'])(f)
                 is f, 'expose_json returned something else')
        elif v['kind'] == 'json':
            builder.add_bindings(JsonView(
                v['endpoint'], f, methods=v['methods']))
        elif v['kind'] == 'view':
            builder.add_bindings(View(v['endpoint'], f, **kw))
        elif v['kind'] == 'expose':
            t.ok(expose(builder, v['endpoint'], **kw)(f) is f,
                 'expose returned something else')
        elif i % 2:
            # the endpoint is called as the function by default
            f.__name__ = v['endpoint']
            t.ok(builder.expose(**kw)(f) is f,
                 'expose returned something else')
        else:
            t.ok(builder.expose(v['endpoint'], **kw)(f) is f,
                 'expose returned something else')
    for i, h in enumerate(case['handlers']):
        f = make_handler(i, h)
        kw = N.rep_kwargs(h['rep'])
        if i % 2:
            t.ok(builder.exception_handler(classes[h['cls']], **kw)(f) is f,
                 'exception_handler returned something else')
        else:
            builder.add_exception_handler(classes[h['cls']], f, **kw)

    trace = []

    def middleware(app, ident, extra=None):
        def wrapped(environ, start_response):
            trace.append((ident, extra))
            return app(environ, start_response)
        return wrapped
    for m in case['middleware']:
        if m % 3 == 0:
            builder.add_middleware(middleware, ident=m, extra=-m)
        elif m % 3 == 1:
            builder.add_middleware(middleware, m, extra=-m)
        else:
            builder.add_middleware(middleware, m, -m)
    app = builder(case['root'])
    # what is added to the builder now does not concern the application
    builder.add_routes(Route('/nope', endpoint='root'))
    builder.add_bindings(View('root', lambda *a: calls.append('late')))
    builder.config['late'] = 1
    t.eq(dict(app.config), {'mixins': len(case['mixins'])}, 'config')
    t.raises(TypeError, app.config.update, {'mixins': 0})

    present = dict(case['routes'])
    script = urlsplit(case['root']).path

    def select_handler(exc_class, accept):
        if not issubclass(exc_class, Exception):
            return None
        for k in exc_class.__mro__:
            cands = [i for i, h in enumerate(case['handlers'])
                     if classes[h['cls']] is k]
            if not cands:
                continue
            i = N.select([case['handlers'][c]['rep'] for c in cands], accept)
            if i is not None:
                if len(cands) > 1 or k is not exc_class:
                    t.nontrivial()
                return cands[i]
        return None

    for req in case['requests']:
        path, template, kwargs, redirect_to = req['target']
        del calls[:], close_log[:], trace[:]
        opened[0] = 0
        env = environ_for(case['root'], req)
        started = []

        def start_response(status, headers, exc_info=None):
            started.append((status, headers))
            return lambda data: None

        # ---- what should happen
        want_view = None
        want_exc = None      # exception class raised by routing or dispatch
        is_redirect = False
        if template not in present:
            want_exc = exceptions.NotFound
        elif redirect_to is not None:
            is_redirect = True
        else:
            ep = present[template]
            by_method = {}
            for i, v in enumerate(case['views']):
                if v['endpoint'] != ep:
                    continue
                ms = v['methods']
                ms = ['GET'] if ms is None else (
                    [ms] if isinstance(ms, str) else ms)
                for m in ms:
                    by_method.setdefault(m, []).append(i)
            cands = by_method.get(req['method'])
            if cands is None and req['method'] == 'HEAD':
                cands = by_method.get('GET')
            if not by_method:
                want_exc = exceptions.NotImplemented
            elif cands is None:
                want_exc = exceptions.MethodNotAllowed
            else:
                i = N.select([case['views'][c]['rep'] for c in cands],
                             req['accept'])
                if i is None:
                    want_exc = exceptions.NotAcceptable
                else:
                    want_view = cands[i]
                    t.nontrivial(len(cands) > 1)
        do = None
        if want_view is not None:
            do = case['views'][want_view]['do']
            if do[0] == 'raise':
                want_exc = classes[do[1]]
        want_handler = None
        escapes = None
        if want_exc is not None:
            t.label('exception')
            t.nontrivial()
            want_handler = select_handler(want_exc, req['accept'])
            if want_handler is None:
                escapes = want_exc
                t.label('exception not handled')
            else:
                do = case['handlers'][want_handler]['do']
                if do[0] == 'raise':
                    escapes = classes[do[1]]
        if is_redirect:
            t.label('redirect')
            t.nontrivial()
            if case['redirects'] == 'none':
                # no handler of its own: an exception like any other
                is_redirect = False
                want_exc = RequestRedirect
                t.label('redirect not handled')
                want_handler = select_handler(want_exc, req['accept'])
                if want_handler is None:
                    escapes = want_exc
                else:
                    do = case['handlers'][want_handler]['do']
                    if do[0] == 'raise':
                        escapes = classes[do[1]]
        if escapes is None and do is not None and do[0] == 'genraise':
            escapes = classes[do[2]]

        # ---- what does
        chunks = []
        error = None
        complete = False
        iterable = None
        try:
            iterable = app(env, start_response)
            if req['consume'] != 'never':
                it = iter(iterable)
                try:
                    while req['consume'] == 'all' or \
                            len(chunks) < req['consume'] or not started:
                        chunks.append(next(it))
                except StopIteration:
                    complete = True
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)) or \
                    type(e).__name__ == 'NonTermination':
                raise
            error = e
        if hasattr(iterable, 'close'):
            iterable.close()

        what = '%s %s %r' % (req['method'], path, req['accept'])
        t.eq(trace, [(m, -m) for m in reversed(case['middleware'])],
             'middleware, outermost first')
        if req['consume'] == 'never' and not calls and error is None:
            # nothing was started, so nothing is left open
            t.label('never started')
            t.eq((started, close_log), ([], []), 'unconsumed request')
            continue

        views = [c for c in calls if c[0] == 'view']
        t.eq([c[1] for c in views],
             [] if want_view is None else [want_view], 'views: ' + what)
        for c in views:
            t.ok(c[2] is app, 'view got another application')
            t.ok(env['verktyg.request'] is c[3], 'view got another request')
            t.ok(c[3].app is app, 'request.app')
            t.eq(c[4], kwargs, 'url arguments')
            if case['default mixins']:
                t.eq((c[3].authorization, c[3].if_match.star_tag,
                      c[3].content_type), (None, False, None),
                     'attributes of the default request mixins')
            else:
                t.eq([hasattr(c[3], a) for a in (
                    'authorization', 'if_match', 'content_type')],
                    [False] * 3, 'mixins that were not asked for')
            for m in 'PQR':
                t.eq(getattr(c[3], 'mixin_' + m, None),
                     m if m in case['mixins'] else None,
                     'attribute of request mixin ' + m)
            if case['debug'] is not None:
                t.eq((app.debug, app.extra()), (case['debug'], 'extra'),
                     'application mixin')
            t.eq(c[5].name, case['views'][want_view]['endpoint'],
                 'request.binding')
        hs = [c for c in calls if c[0] == 'handler']
        t.eq([c[1] for c in hs],
             [] if want_handler is None else [want_handler],
             'exception handlers: ' + what)
        for c in hs:
            t.ok(c[2] is app and c[3] is env['verktyg.request'],
                 'handler got another application or request')
            t.ok(c[4] is want_exc, 'handler got %r, expected %r', c[4],
                 want_exc)
            t.ok(isinstance(c[5], want_exc) and c[6] is not None,
                 'exception info')
            raised = [x[1] for x in calls if x[0] == 'raised']
            if want_view is not None:
                t.ok(c[5] is raised[0], 'handler got another exception')
        if escapes is not None and (complete or error is not None or
                                    (do is None or do[0] != 'genraise')):
            if do is not None and do[0] == 'genraise' and \
                    discards(req, 200):
                t.ok(error is None, 'body of a HEAD request was produced')
            else:
                t.ok(error is not None and type(error) is escapes,
                     '%s: %r escaped, expected %r', what, error, escapes)
                raised = [x[1] for x in calls if x[0] == 'raised']
                if raised and do[0] == 'raise':
                    # the very exception, with what it says about itself
                    t.ok(error is raised[-1], 'another exception escaped')
                    t.ok(error.__cause__ is raised_from, 'cause %r lost',
                         error.__cause__)
                    t.ok(error.__traceback__ is not None, 'no traceback')
        else:
            t.ok(error is None, '%s: unexpected exception %r', what, error)
            t.eq(len(started), 1, 'start_response calls')

        # ---- clean up
        ran = len(views) + len(hs)
        t.eq(close_log.count('request'), ran, 'request close callbacks')
        responses = 0
        if do is not None and do[0] in ('str', 'list', 'gen', 'genraise'):
            responses = 1
        t.eq(close_log.count('response'), responses,
             'response close callbacks')
        t.eq(close_log.count('body'), opened[0], 'body iterables closed')
        if error is not None:
            continue
        if not complete:
            t.label('abandoned')
            t.nontrivial()

        # ---- the response
        status, headers = started[0]
        h = {}
        for k, v in headers:
            t.ok(isinstance(k, str) and isinstance(v, str),
                 'header %r: %r is not text', k, v)
            h.setdefault(k.lower(), v)
        body = b''.join(chunks)
        if is_redirect and case['redirects'].startswith('own'):
            t.eq(status.split()[0], '302', 'own redirect handler')
            t.eq([c[1] for c in calls], [RequestRedirect],
                 'own redirect handler')
            continue
        if is_redirect:
            t.eq(status.split()[0], '301', 'redirect status')
            loc = urlsplit(h['location'])
            t.ok(h['location'].isascii(), 'Location %r', h['location'])
            t.eq('%s://%s' % (loc.scheme, loc.netloc),
                 '%s://%s' % urlsplit(case['root'])[:2], 'redirect host')
            t.eq(unquote(loc.path), script + redirect_to, 'redirect path')
            t.eq(loc.query, req['query'], 'redirect query')
            continue
        if do[0] == 'json':
            if do[1] is None:
                t.eq((status.split()[0], body), ('204', b''), 'json None')
            else:
                t.label('json')
                t.eq(status.split()[0], '200', 'json status')
                t.eq(h['content-type'], 'application/json', 'content type')
                if complete and req['method'] != 'HEAD':
                    t.eq(repr(json.loads(body.decode('utf-8'))),
                         repr(do[1]), 'json value')
            continue
        st_code = do[2] if do[0] != 'genraise' else 200
        t.eq(status.split()[0], str(st_code), 'status')
        text = do[1] if do[0] == 'str' else ''.join(do[1])
        want = b'' if discards(req, st_code) else text.encode('utf-8')
        if complete:
            t.eq(body, want, 'body of ' + what)
        else:
            t.ok(want.startswith(body), 'body %r is no prefix of %r',
                 body, want)
        if do[0] == 'str' and not discards(req, st_code):
            t.eq(h.get('content-length'), str(len(want)), 'content length')


def discards(req, status):
    return req['method'] == 'HEAD' or status in (204, 304)


@st.composite
def url_cases(draw):
    reqs = draw(st.lists(target().filter(
        lambda x: x[1] is not None and x[3] is None), min_size=1, max_size=4))
    return draw(st.sampled_from(
        ['http://example.com', 'http://example.com/app', '',
         'http://example.com/App/-_.V2',
         'https://example.com:8443/x/y'])), reqs


def check_url_for(case, t):
    from verktyg.application import ApplicationBuilder
    from verktyg.responses import Response
    from verktyg.routing import Route, BaseConverter
    root, targets = case
    seen = []
    builder = ApplicationBuilder()

    class Reversed(BaseConverter):
        def to_python(self, value):
            return value[::-1]

        def to_url(self, value):
            return super(Reversed, self).to_url(value[::-1])
    builder.add_converters(rev=BaseConverter, other=Reversed)
    builder.add_converters(rev=Reversed)
    for p, e in ROUTES + [('/r/<rev:x>', 'rev')]:
        def view(app, request, _e=e, **kw):
            seen.append((_e, kw))
            return Response('')
        builder.expose(e, route=p)(view)
    app = builder(root) if root else builder()
    root = root or 'http://localhost'
    script = urlsplit(root).path
    for path, template, kwargs, _ in targets:
        ep = dict(ROUTES)[template]
        if template == '/u/<name>/' and len(targets) > 1:
            ep, path = 'rev', '/r/' + kwargs['name'][::-1]
            kwargs = {'x': kwargs['name']}
            t.label('converter')
        url = app.url_for(ep, **kwargs)
        t.ok(url.isascii(), 'url %r is not ascii', url)
        t.ok(url.startswith(script + '/') or url.startswith(root + '/'),
             'url %r is not below %r', url, root)
        u = urlsplit(url)
        got = unquote(u.path)
        t.eq(got, script + path, 'url_for(%r, **%r)' % (ep, kwargs))
        env = environ_for(root, {
            'method': 'GET', 'query': u.query, 'accept': {},
            'target': (got[len(script):],)})
        del seen[:]
        it = app(env, lambda s, h, e=None: None)
        list(it)
        t.eq(seen, [(ep, kwargs)], 'request for url_for')
        t.nontrivial(bool(kwargs))


def check_large(case, t):
    """Many routes, layers and exception classes, long bodies, and one
    request after the other."""
    from verktyg.application import ApplicationBuilder
    from verktyg.responses import Response
    from verktyg.views import expose_json
    from verktyg.routing import Route
    n, seed = case
    rng = random.Random(seed)
    builder = ApplicationBuilder()
    errors = [type('E0', (Exception,), {})]
    for i in range(n):
        errors.append(type('E%d' % (i + 1), (rng.choice(errors[-3:]),), {}))
    log, closed = [], []

    class Body(object):
        def __init__(self, chunks, exc):
            self.chunks, self.exc = chunks, exc

        def __iter__(self):
            for c in self.chunks:
                yield c
            if self.exc is not None:
                raise self.exc

        def close(self):
            closed.append('body')

    plans = {}

    def make(i, kind):
        def view(app, request, **kw):
            log.append((i, kw))
            for k in range(rng.choice([0, 1, 9, 40])):
                request.call_on_close(lambda: closed.append('request'))
                log[-1] += (k,)
            plan = plans['now']
            if kind == 'json':
                return plan
            if isinstance(plan, type):
                raise plan('because')
            if isinstance(plan, str):
                return Response(plan)
            r = Response(Body(*plan))
            for _ in range(rng.choice([0, 1, 9, 40])):
                r.call_on_close(lambda: closed.append('response'))
            return r
        return view

    for i in range(n):
        kind = rng.choice(['json', 'view', 'view'])
        if kind == 'json':
            builder.add_routes(Route('/v%d/<path:rest>' % i,
                                     endpoint='e%d' % i))
            expose_json(builder, 'e%d' % i)(make(i, kind))
        else:
            builder.expose('e%d' % i, route='/v%d/<path:rest>' % i)(
                make(i, kind))
        plans[i] = kind
        builder.config['key%d' % i] = i
    handled = {}
    for cls in errors:
        if rng.random() < .3:
            handled[cls] = len(handled)

            def handler(app, request, exc_type, exc, tb, cls=cls):
                log.append(('handler', handled[cls], exc_type))
                return Response('handled', status=500)
            builder.add_exception_handler(cls, handler)
    layers = rng.choice([0, 1, n])

    def layer(app, number):
        def wrapped(environ, start_response):
            log.append(number)
            return app(environ, start_response)
        return wrapped
    for k in range(layers):
        builder.add_middleware(layer, k)
    app = builder('http://example.com/app')
    t.eq(dict(app.config), {'key%d' % i: i for i in range(n)}, 'config')
    for _ in range(12):
        i = rng.randrange(n)
        rest = '/'.join(rng.choice(['a', 'é', 'x y', '%', 'b' * 90])
                        for _ in range(rng.choice([1, 2, 30])))
        if plans[i] == 'json':
            plan = {'k%d' % k: [k] * rng.choice([1, 50])
                    for k in range(rng.choice([1, 60]))}
        else:
            chunks = [rng.choice(['', 'x', 'é' * 700, 'long' * 5000])
                      for _ in range(rng.choice([0, 1, 30, 120]))]
            plan = rng.choice([
                rng.choice(errors), ''.join(chunks), (chunks, None),
                (chunks, None), (chunks, rng.choice(errors)('late'))])
        plans['now'] = plan
        del log[:], closed[:]
        started, body, error = [], [], None
        env = environ_for('http://example.com/app', {
            'method': 'GET', 'query': '', 'accept': {},
            'target': ('/v%d/%s' % (i, rest),)})
        it = None
        stop = rng.choice([None, None, 1, 25])
        try:
            it = app(env, lambda s, h, e=None: started.append((s, h)))
            for c in it:
                body.append(c)
                if stop is not None and len(body) >= stop:
                    break
        except errors[0] as e:
            error = e
        if hasattr(it, 'close'):
            it.close()
        t.eq(log[:layers], list(range(layers))[::-1], 'middleware')
        called = log[layers:]
        t.eq(called[0][:2], (i, {'rest': rest}), 'view')
        t.eq(closed.count('request'), len(called[0]) - 2,
             'request close callbacks')
        if isinstance(plan, type):
            want = [c for c in plan.__mro__ if c in handled]
            t.label('raised')
            if want:
                t.ok(error is None, 'escaped: %r', error)
                t.eq(called[1:], [('handler', handled[want[0]], plan)],
                     'handler')
                t.eq(body, [b'handled'], 'body')
            else:
                t.eq((type(error), len(called)), (plan, 1), 'escaped')
            continue
        got = b''.join(body)
        t.eq(len(called), 1, 'calls')
        if plans[i] == 'json':
            if stop is None:
                t.eq(json.loads(got.decode('utf-8')), plan, 'json')
            t.ok(error is None, 'escaped: %r', error)
            continue
        text = plan if isinstance(plan, str) else ''.join(plan[0])
        want = text.encode('utf-8')
        if not isinstance(plan, str):
            t.eq(closed.count('body'), 1, 'body closed')
            finished = stop is None or len(body) < stop
            t.ok((error is not None) == (plan[1] is not None and finished),
                 'escaped: %r', error)
            t.ok(error is None or error is plan[1], 'another exception')
        else:
            t.ok(error is None, 'escaped: %r', error)
        if stop is None:
            t.ok(got == want, 'body of %d bytes, expected %d', len(got),
                 len(want))
        else:
            t.ok(want.startswith(got), 'body')
        t.nontrivial()
        t.label('%d chunks' % (len(body) // 30 * 30))


SUBS = [
    Sub('large', st.tuples(st.sampled_from([3, 20, 60]),
                           st.integers(0, 99999)), check_large, quick=100),
    Sub('requests', cases(), check_app, quick=4000),
    Sub('url-for', url_cases(), check_url_for, quick=500),
]
