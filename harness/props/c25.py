"""C25: the request object reports what the WSGI environ says."""
import io
from datetime import datetime, timedelta
from urllib.parse import quote_plus, quote

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import blob, many, numbered, stretched

ID = 'C25'
RULE = (
    'attributes: WSGI environs in which every variable behind an '
    'attribute of the request is absent, well formed with a known meaning '
    '(generated from the meaning), or junk (any latin-1 text); the '
    'attributes are read in a generated order, some repeatedly. Oracle: '
    'the meaning the value was generated from; for junk, no exception and '
    'the same answer every time; the environ is left as it was but for '
    'the request itself; variables that no attribute stands for '
    '(override, forwarded and server headers) are added and have to have '
    'no effect; the headers are exactly HTTP_* and CONTENT_*. data: '
    'histories of get_data, stream reads, close and callbacks against a '
    'bytes model. cached: histories of reads and assignments of cached '
    'properties on several objects against a counter model. many: '
    'environs with many long headers. Non-trivial: at least two '
    'attributes with a known meaning are read.'
)
ASSUMPTIONS = [
    'the environ has the keys PEP 3333 requires and native latin-1 strings',
]

JUNK = st.one_of(st.text(alphabet=st.one_of(
    st.characters(min_codepoint=1, max_codepoint=255),
    st.sampled_from('",;=\\ -/*0123456789WGMTabc%')), max_size=30),
    st.tuples(st.sampled_from([
        '', '-', '+', 'bytes=', 'bytes=1-', 'bytes=-', 'max-age=', ' ',
        '\xb2', 'Basic ', 'W/', '"']), st.sampled_from('09'), st.sampled_from(
            [1, 19, 20, 400, 4300, 4301, 5000])).map(
                lambda c: c[0] + c[1] * c[2]))
WORD = st.text(alphabet='abcXYZ019-', min_size=1, max_size=6)
UTEXT = st.text(alphabet=st.one_of(
    st.sampled_from('abc01 +&=%#;/?:@"<>\\\'~'), st.sampled_from('éü日\U0001f600')),
    min_size=1, max_size=6)
HDRS = {
    # attribute -> environ variable of attributes that are just its value
    'content_type': 'CONTENT_TYPE', 'content_encoding': 'HTTP_CONTENT_ENCODING',
    'content_md5': 'HTTP_CONTENT_MD5', 'referrer': 'HTTP_REFERER',
    'remote_addr': 'REMOTE_ADDR', 'remote_user': 'REMOTE_USER',
}
DATES = {'date': 'HTTP_DATE', 'if_modified_since': 'HTTP_IF_MODIFIED_SINCE',
         'if_unmodified_since': 'HTTP_IF_UNMODIFIED_SINCE'}
MINUTES = st.integers(0, 4 * 10**9)


def slot(good):
    """absent, junk or good"""
    return st.one_of(
        st.none(), st.tuples(st.just('junk'), JUNK),
        st.tuples(st.just('good'), good), st.tuples(st.just('good'), good))


SLOTS = [
    ('args', st.lists(st.tuples(
        st.one_of(UTEXT, UTEXT, UTEXT, st.just('')),
        st.one_of(UTEXT, UTEXT, UTEXT, st.just(''))), max_size=5)),
    ('path', st.lists(st.one_of(
        st.sampled_from('/ab'), UTEXT), max_size=5).map(''.join)),
    ('script', st.sampled_from(['', '/a', '/a/b', '/é', '/a/'])),
    ('method', st.sampled_from(
        ['GET', 'get', 'Post', 'PUT', 'x-Custom', 'HEAD'])),
    ('route', st.tuples(st.sampled_from([', ', ',', ' , ', ',  ']), st.lists(
        st.sampled_from(['10.0.0.1', '::1', 'unknown', '192.168.1.1']),
        min_size=1, max_size=3))),
    ('xhr', st.sampled_from(
        ['XMLHttpRequest', 'xmlhttprequest', 'XMLHTTPREQUEST', 'other',
         'XMLHttpRequest2', ''])),
    ('length', st.one_of(st.integers(0, 2000), st.integers(0, 10**18))),
    ('forwards', st.integers(0, 100)),
    ('mimetype', st.tuples(
        st.sampled_from(['text/html', 'TEXT/Plain', 'application/json']),
        st.lists(st.tuples(WORD, WORD), max_size=2,
                 unique_by=lambda x: x[0]))),
    ('pragma', st.lists(WORD, max_size=3, unique_by=str.lower)),
    ('cache', st.tuples(st.booleans(), st.one_of(
        st.none(), st.integers(0, 10**6)))),
    ('etags', st.lists(WORD, min_size=1, max_size=3)),
    ('notags', st.lists(WORD, min_size=1, max_size=3)),
    ('range', st.tuples(st.integers(0, 99), st.integers(0, 99))),
    ('ifrange', st.one_of(WORD, MINUTES)),
    ('auth', st.tuples(
        st.text(alphabet='abé1', max_size=5),
        st.text(alphabet='abé:1', max_size=5))),
    ('cookies', st.lists(st.tuples(WORD, WORD), max_size=4,
                         unique_by=lambda x: x[0])),
    ('scheme', st.sampled_from(['http', 'https'])),
]
SLOTS += [(name, WORD) for name in HDRS]
SLOTS += [(name, MINUTES) for name in DATES]
SLOT = st.one_of([st.tuples(st.just(name), slot(good))
                  for name, good in SLOTS])
FLAGS = st.lists(st.sampled_from(
    ['wsgi.multithread', 'wsgi.multiprocess', 'wsgi.run_once']), unique=True)


ATTRS = sorted(HDRS) + sorted(DATES) + [
    'args', 'path', 'full_path', 'script_root', 'query_string', 'method',
    'access_route', 'is_xhr', 'content_length', 'max_forwards', 'mimetype',
    'mimetype_params', 'pragma', 'cache_control', 'if_match', 'if_none_match',
    'range', 'if_range', 'authorization', 'cookies', 'scheme', 'is_secure',
    'is_multithread', 'is_multiprocess', 'is_run_once', 'headers', 'app',
    'input_stream',
]
# variables that no attribute stands for, but some might be taken for one
NOISE = st.lists(st.tuples(st.one_of(st.lists(
    st.sampled_from(['AB', 'C', '2', 'LONGER']), min_size=1, max_size=30,
).map(lambda l: 'HTTP_X_Z_' + '_'.join(l)), st.sampled_from([
    'HTTP_X_HTTP_METHOD_OVERRIDE', 'HTTP_X_HTTP_METHOD', 'HTTP_X_METHOD_OVERRIDE',
    'HTTP_X_FORWARDED_PROTO', 'HTTP_X_FORWARDED_SSL', 'HTTPS', 'HTTP_FORWARDED',
    'HTTP_X_FORWARDED_HOST', 'HTTP_X_FORWARDED_PORT', 'HTTP_X_REAL_IP',
    'HTTP_CLIENT_IP', 'HTTP_X_CLIENT_IP', 'HTTP_X_SCHEME', 'HTTP_X_SCRIPT_NAME',
    'HTTP_X_FORWARDED_PREFIX', 'HTTP_X_ORIGINAL_URL', 'HTTP_X_REWRITE_URL',
    'HTTP_X_REMOTE_USER', 'HTTP_REMOTE_USER', 'HTTP_REMOTE_ADDR',
    'HTTP_CONTENT_TYPE', 'HTTP_CONTENT_LENGTH', 'HTTP_REFERRER', 'HTTP_ETAG',
    'HTTP_LAST_MODIFIED', 'HTTP_COOKIE2', 'HTTP_PROXY_AUTHORIZATION',
    'HTTP_X_AUTHORIZATION', 'HTTP_UPGRADE_INSECURE_REQUESTS', 'REQUEST_URI',
    'RAW_URI', 'UNENCODED_URL', 'PATH_TRANSLATED', 'REDIRECT_URL',
    'REDIRECT_STATUS', 'AUTH_TYPE', 'REMOTE_HOST', 'REMOTE_PORT',
    'SCRIPT_URL', 'DOCUMENT_ROOT', 'wsgi.version', 'wsgi.websocket',
    'werkzeug.request', 'verktyg.routing_args', 'HTTP_', 'HTTP_X__Y',
])), st.sampled_from([
    '', 'on', '1', 'https', 'http', 'DELETE', 'PUT', '/other/path?x=1',
    '1.2.3.4', 'a=b', 'text/x-noise', '17', 'example.com:81', 'Basic YTpi',
    'for=1.2.3.4;proto=https', 'XMLHttpRequest', '"x"', 'sch\xe9me'])),
    max_size=5)
EPOCH = datetime(1970, 1, 1)
WD = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
       'Nov', 'Dec']


def http_date(seconds):
    d = EPOCH + timedelta(seconds=seconds)
    return '%s, %02d %s %04d %02d:%02d:%02d GMT' % (
        WD[d.weekday()], d.day, MON[d.month - 1], d.year, d.hour, d.minute,
        d.second)


def wsgi(s):
    return s.encode('utf-8').decode('latin-1')


def text_of(s):
    return s.encode('latin-1').decode('utf-8', 'replace')


def build(case):
    """(environ, expected): what each attribute has to be, where known"""
    import base64
    env = {
        'REQUEST_METHOD': 'GET', 'SCRIPT_NAME': '', 'PATH_INFO': '',
        'QUERY_STRING': '', 'SERVER_NAME': 'localhost', 'SERVER_PORT': '80',
        'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.url_scheme': 'http',
        'wsgi.input': io.BytesIO(b''), 'wsgi.errors': io.StringIO(),
    }
    want = {}

    def get(name):
        v = case[name]
        if v is None:
            return None, None
        return v

    def put(name, var, dump, result, absent=None, junk=None):
        kind, v = get(name)
        if kind is None:
            if absent is not None:
                want.update(absent)
            env.pop(var, None)
        elif kind == 'junk':
            env[var] = v
            if junk is not None:
                want.update(junk(v))
        else:
            env[var] = dump(v)
            want.update(result(v))

    put('args', 'QUERY_STRING', lambda v: '&'.join(
        '%s=%s' % (quote_plus(a) if i % 2 else quote(a, safe=''),
                   quote_plus(b)) for i, (a, b) in enumerate(v)),
        lambda v: {'args': ('pairs', v)}, absent={'args': ('pairs', [])})
    env.setdefault('QUERY_STRING', '')
    want['query_string'] = text_of(env['QUERY_STRING'])
    put('path', 'PATH_INFO', wsgi, lambda v: {'path': '/' + v.lstrip('/')},
        absent={'path': '/'},
        junk=lambda v: {'path': '/' + text_of(v).lstrip('/')})
    env.setdefault('PATH_INFO', '')
    want['full_path'] = want['path'] + '?' + want['query_string']
    put('script', 'SCRIPT_NAME', wsgi, lambda v: {
        'script_root': v.rstrip('/')}, absent={'script_root': ''},
        junk=lambda v: {'script_root': text_of(v).rstrip('/')})
    put('method', 'REQUEST_METHOD', str, lambda v: {'method': v.upper()},
        absent={'method': 'GET'})
    put('route', 'HTTP_X_FORWARDED_FOR', lambda v: v[0].join(v[1]),
        lambda v: {'access_route': list(v[1])})
    if case['route'] is None:
        kind, v = get('remote_addr')
        want['access_route'] = [v] if kind else []
    put('xhr', 'HTTP_X_REQUESTED_WITH', str, lambda v: {
        'is_xhr': v.lower() == 'xmlhttprequest'}, absent={'is_xhr': False},
        junk=lambda v: {'is_xhr': v.lower() == 'xmlhttprequest'})
    put('length', 'CONTENT_LENGTH', str, lambda v: {'content_length': v},
        absent={'content_length': None})
    put('forwards', 'HTTP_MAX_FORWARDS', str,
        lambda v: {'max_forwards': v}, absent={'max_forwards': None})
    for name, var in HDRS.items():
        put(name, var, str, lambda v: {name: v}, absent={name: None},
            junk=lambda v: {name: v})
    if case['content_type'] is None:
        put('mimetype', 'CONTENT_TYPE', lambda v: '; '.join(
            [v[0]] + ['%s=%s' % p for p in v[1]]),
            lambda v: {'mimetype': v[0].lower(),
                       'mimetype_params': dict(v[1])},
            absent={'mimetype': '', 'mimetype_params': {}})
        if case['mimetype'] is not None:
            want['content_type'] = env['CONTENT_TYPE']
    put('pragma', 'HTTP_PRAGMA', lambda v: ', '.join(v),
        lambda v: {'pragma': ('list', v)}, absent={'pragma': ('list', [])})
    put('cache', 'HTTP_CACHE_CONTROL', lambda v: ', '.join(
        (['no-cache'] if v[0] else []) +
        ([] if v[1] is None else ['max-age=%d' % v[1]])),
        lambda v: {'cache_control': ('cache', v)},
        absent={'cache_control': ('cache', (False, None))})
    for name, attr, var in (('etags', 'if_match', 'HTTP_IF_MATCH'),
                            ('notags', 'if_none_match', 'HTTP_IF_NONE_MATCH')):
        put(name, var, lambda v: ', '.join('"%s"' % x for x in v),
            lambda v: {attr: ('set', set(v))}, absent={attr: ('set', set())})
    put('range', 'HTTP_RANGE', lambda v: 'bytes=%d-%d' % (v[0], v[0] + v[1]),
        lambda v: {'range': ('range', [(v[0], v[0] + v[1] + 1)])},
        absent={'range': None})
    put('ifrange', 'HTTP_IF_RANGE', lambda v: '"%s"' % v
        if isinstance(v, str) else http_date(v),
        lambda v: {'if_range': ('ifrange', v)},
        absent={'if_range': ('ifrange', None)})
    put('auth', 'HTTP_AUTHORIZATION', lambda v: 'Basic ' + base64.b64encode(
        (v[0] + ':' + v[1]).encode('latin-1')).decode('ascii'),
        lambda v: {'authorization': ('auth', v)},
        absent={'authorization': None})
    put('cookies', 'HTTP_COOKIE', lambda v: '; '.join(
        '%s=%s' % p for p in v), lambda v: {'cookies': ('dict', dict(v))},
        absent={'cookies': ('dict', {})})
    for name, var in DATES.items():
        put(name, var, http_date,
            lambda v: {name: EPOCH + timedelta(seconds=v)},
            absent={name: None})
    env['wsgi.url_scheme'] = 'http'
    if case['scheme'] is not None and case['scheme'][0] == 'good':
        env['wsgi.url_scheme'] = case['scheme'][1]
    want['scheme'] = env['wsgi.url_scheme']
    want['is_secure'] = want['scheme'] == 'https'
    for f in ('multithread', 'multiprocess', 'run_once'):
        env['wsgi.' + f] = want['is_' + f] = ('wsgi.' + f) in case['flags']
    want['app'] = None
    want['input_stream'] = env['wsgi.input']
    return env, want


def compare(t, name, got, want):
    if isinstance(want, tuple):
        kind, v = want
        if kind == 'pairs':
            keys = []
            for k, x in v:
                if k not in keys:
                    keys.append(k)
            t.eq(sorted(got.keys()), sorted(keys), name + ' keys')
            for k in keys:
                t.eq(list(got.getlist(k)), [x for j, x in v if j == k],
                     '%s[%r]' % (name, k))
                t.eq(got[k], [x for j, x in v if j == k][0], name)
        elif kind == 'list':
            t.eq([x.lower() for x in got], [x.lower() for x in v], name)
        elif kind == 'set':
            t.eq(set(got), v, name)
            for x in v:
                t.ok(got.contains(x), '%s contains %r', name, x)
        elif kind == 'dict':
            t.eq(dict(got), v, name)
        elif kind == 'range':
            t.eq((got.units, list(got.ranges)), ('bytes', v), name)
        elif kind == 'ifrange':
            t.eq((got.etag, got.date), (
                v if isinstance(v, str) else None,
                None if v is None or isinstance(v, str)
                else EPOCH + timedelta(seconds=v)), name)
        elif kind == 'auth':
            t.eq((got.type, got.username, got.password),
                 ('basic',) + tuple(v), name)
        elif kind == 'cache':
            t.eq(bool(got.no_cache), v[0], name + '.no_cache')
            t.eq(got.max_age, v[1], name + '.max_age')
        else:
            raise KeyError(kind)
    elif name == 'input_stream':
        t.ok(got is want, 'input_stream')
    else:
        t.eq(got if not isinstance(got, list) else list(got), want, name)


def compare_headers(t, headers, env):
    want = {}
    for var, value in env.items():
        if var in ('CONTENT_TYPE', 'CONTENT_LENGTH'):
            want[var.replace('_', '-').title()] = value
        elif var.startswith('HTTP_') and var not in (
                'HTTP_CONTENT_TYPE', 'HTTP_CONTENT_LENGTH'):
            want[var[5:].replace('_', '-').title()] = value
    t.eq(sorted(headers), sorted(want.items()), 'headers')
    t.eq(len(headers), len(want), 'number of headers')
    t.eq(sorted(headers.keys()), sorted(want), 'headers.keys')
    for var in list(env) + ['HTTP_MISSING']:
        for name in (var, var.replace('_', '-'), var.lower(),
                     var.replace('HTTP_', '', 1).replace('_', '-')):
            if '_' in name:
                continue
            value = want.get(name.title())
            t.eq(headers.get(name), value, 'headers.get(%r)' % name)
            t.eq(name in headers, value is not None, '%r in headers' % name)
            t.eq(headers.getlist(name), [] if value is None else [value],
                 'headers.getlist(%r)' % name)
            if value is None:
                t.raises(KeyError, headers.__getitem__, name)
            else:
                t.eq(headers[name], value, 'headers[%r]' % name)


MUTATE = {
    'args': [lambda x: x.add('k', 'v'), lambda x: x.__setitem__('k', 'v'),
             lambda x: x.clear(), lambda x: x.setlist('k', ['v']),
             lambda x: x.pop('k', None), lambda x: x.update({'k': 'v'})],
    'cookies': [lambda x: x.__setitem__('k', 'v'), lambda x: x.clear(),
                lambda x: x.pop('k', None), lambda x: x.update({'k': 'v'}),
                lambda x: x.setdefault('k', 'v')],
    'headers': [lambda x: x.__setitem__('k', 'v'), lambda x: x.add('k', 'v'),
                lambda x: x.clear(), lambda x: x.remove('k'),
                lambda x: x.extend([('k', 'v')])],
    'access_route': [lambda x: x.append('k'), lambda x: x.clear(),
                     lambda x: x.extend(['v']), lambda x: x.sort(),
                     lambda x: x.insert(0, 'v')],
    'cache_control': [lambda x: x.__setitem__('k', 'v'),
                      lambda x: setattr(x, 'max_age', 1),
                      lambda x: x.clear()],
    'authorization': [lambda x: x.__setitem__('k', 'v'),
                      lambda x: x.clear()],
}


def check_attributes(case, t):
    from verktyg import requests
    slots, flags, order, mode, cls, noise = case
    slots = dict(dict.fromkeys(name for name, good in SLOTS), **dict(slots))
    slots['flags'] = flags
    env, want = build(slots)
    for var, value in noise:
        env.setdefault(var, value)
    before = dict(env)
    R = getattr(requests, cls)
    r = R(env, shallow=mode == 'shallow', populate_request=mode != 'alone')
    if mode:
        t.eq(env, before, 'environ of a request on its own')
    else:
        t.ok(env.pop('verktyg.request', None) is r, 'request in the environ')
        t.eq(env, before, 'environ')
    known = set()
    seen = {}
    for name in order:
        got = getattr(r, name)
        if name == 'headers':
            compare_headers(t, got, before)
        elif name in want:
            compare(t, name, got, want[name])
            known.add(name)
        if name in seen:
            t.ok(got is seen[name] or got == seen[name],
                 '%s changed from %r to %r', name, seen[name], got)
        seen[name] = got
        for f in MUTATE.get(name, ()):
            if got is not None:
                t.raises((TypeError, AttributeError), f, got)
        if name in want and name != 'headers':
            compare(t, name, getattr(r, name), want[name])
    t.eq(env, before, 'environ after reading attributes')
    # a fresh request says the same, in any order
    r2 = R(env, shallow=True)
    for name in reversed(order):
        if name in want and name != 'headers':
            compare(t, name, getattr(r2, name), want[name])
    t.ok(repr(r), 'repr')
    log = []
    for q in r, r2:
        for i in range(len(order) % 4):
            q.call_on_close(lambda i=i: log.append(i))
        q.close()
        t.eq(log, list(range(len(order) % 4)), 'called on close')
        del log[:]
    if mode == 'shallow':
        t.raises(RuntimeError, lambda: r.stream)
        t.raises(RuntimeError, r.get_data)
    t.nontrivial(len(known) > 1)
    for k in known:
        t.label(k)


# reading the body

DATA_OP = st.one_of(
    st.tuples(st.just('data'), st.sampled_from([True, False, None]),
              st.booleans()),
    st.tuples(st.just('read'), st.integers(0, 12)),
    st.tuples(st.just('line')),
    st.tuples(st.just('parse')),
    st.tuples(st.just('callback')),
    st.tuples(st.just('files'), st.lists(st.sampled_from('abc'), max_size=4)),
    st.tuples(st.just('close')),
    st.tuples(st.just('with'), st.booleans()),
)


def check_data(case, t):
    from verktyg.requests import Request
    from verktyg.datastructures import ImmutableOrderedMultiDict, \
        MultiDict
    body, extra, terminated, cls_errors, order, ops = case
    env = {
        'REQUEST_METHOD': 'POST', 'SERVER_NAME': 'x', 'SERVER_PORT': '80',
        'wsgi.url_scheme': 'http', 'wsgi.input': io.BytesIO(body + extra),
        'CONTENT_LENGTH': str(len(body)),
    }
    if terminated:
        env['wsgi.input_terminated'] = True
        body = body + extra

    class R(Request):
        pass
    if cls_errors:
        R.encoding_errors = cls_errors
    # undecodable bytes in the URL are handled like the class says
    errors = cls_errors or 'replace'
    env['QUERY_STRING'] = 'b=1&' + ''.join('%%%02X' % c for c in body) + '=1'
    env['PATH_INFO'] = '/' + body.decode('latin-1')
    if order:
        R.parameter_storage_class = ImmutableOrderedMultiDict
        env['QUERY_STRING'] += '&b=0'
    r = R(env)
    t.eq(r.path, '/' + body.decode('utf-8', errors).lstrip('/'), 'path')
    want = [('b', '1'), (body.decode('utf-8', errors), '1')]
    if order:
        t.ok(type(r.args) is ImmutableOrderedMultiDict, 'class of args')
        t.eq(list(r.args.items(multi=True)), want + [('b', '0')], 'args')
    elif want[1][0] != 'b':
        t.eq(r.args.to_dict(), dict(want), 'args')
    rest = body
    cached = None
    log, want_log, n = [], [], 0
    callbacks = []
    files = []

    def closed():
        for name, f in files:
            t.ok(f.closed, 'file %r was left open', name)
    for op in ops:
        if op[0] == 'parse':
            # what a parser of the body is given
            stream = r._get_stream_for_parsing()
            if cached is not None:
                t.eq(stream.read(), cached, 'stream for parsing')
            else:
                t.eq(stream.read(), rest, 'stream for parsing')
                rest = b''
        elif op[0] == 'files':
            files = [(name, io.BytesIO(b'x')) for name in op[1]]
            r.files = MultiDict(files)
        elif op[0] == 'data':
            if op[1] is not None:
                got = r.get_data(cache=op[1], as_text=op[2])
            elif op[2]:
                got = r.get_data(as_text=True)
            else:
                got = r.get_data()
            if cached is not None:
                data = cached
            else:
                data, rest = rest, b''
                if op[1] is not False:
                    cached = data
            t.eq(got, data.decode('utf-8', cls_errors or 'replace')
                 if op[2] else data, 'get_data%r' % (op[1:],))
        elif op[0] == 'read':
            got = r.stream.read(op[1])
            t.eq(got, rest[:op[1]], 'stream.read')
            rest = rest[op[1]:]
        elif op[0] == 'line':
            line = rest[:rest.index(b'\n') + 1] if b'\n' in rest else rest
            t.eq(r.stream.readline(), line, 'stream.readline')
            rest = rest[len(line):]
        elif op[0] == 'callback':
            def f(n=n):
                log.append(n)
            t.ok(r.call_on_close(f) is f, 'call_on_close')
            callbacks.append(n)
            n += 1
        elif op[0] == 'close':
            r.close()
            want_log += callbacks
            closed()
        else:
            try:
                with r as x:
                    t.ok(x is r, '__enter__')
                    t.eq(log, want_log, 'closed early')
                    if op[1]:
                        raise LookupError('x')
            except LookupError:
                t.ok(op[1], 'raised')
            else:
                t.ok(not op[1], 'exception swallowed')
            want_log += callbacks
            closed()
        t.eq(log, want_log, 'callbacks')
    t.nontrivial(len(ops) > 1 and body != b'')
    t.label('terminated' if terminated else 'limited')


# cached properties

CACHE_OP = st.one_of(
    st.tuples(st.just('get'), st.integers(0, 2), st.sampled_from('ab')),
    st.tuples(st.just('get'), st.integers(0, 2), st.sampled_from('ab')),
    st.tuples(st.just('set'), st.integers(0, 2), st.sampled_from('ab'),
              st.sampled_from([None, 0, 1, ''])),
    st.tuples(st.just('drop'), st.integers(0, 2), st.sampled_from('ab')),
    st.tuples(st.just('fail'), st.integers(0, 2), st.sampled_from('ab')),
)


def check_cached(case, t):
    from verktyg.utils import cached_property
    values, ops = case
    calls = []
    failing = []

    class C(object):
        def __init__(self, i):
            self.i = i

        def compute(self, name):
            if failing:
                raise LookupError(name)
            calls.append((self.i, name))
            return values[len(calls) % len(values)]

        @cached_property
        def a(self):
            """doc a"""
            return self.compute('a')

        @cached_property
        def b(self):
            return self.compute('b')
    objs = [C(0), C(1), type('D', (C,), {})(2)]
    model = [{}, {}, {}]
    n = 0
    for op in ops:
        o, m, name = objs[op[1]], model[op[1]], op[2]
        if op[0] == 'get':
            got = getattr(o, name)
            if name not in m:
                n += 1
                t.eq(len(calls), n, 'number of calls')
                t.eq(calls[-1], (op[1], name), 'call')
                m[name] = values[n % len(values)]
            t.eq(got, m[name], 'value')
        elif op[0] == 'set':
            setattr(o, name, op[3])
            m[name] = op[3]
        elif op[0] == 'fail' and name not in m:
            failing.append(1)
            t.raises(LookupError, getattr, o, name)
            del failing[:]
        elif op[0] == 'drop' and name in m:
            del o.__dict__[name]
            del m[name]
        t.eq(len(calls), n, 'number of calls')
    t.ok(isinstance(C.a, cached_property), 'class access')
    t.eq((C.a.__doc__, C.a.__name__), ('doc a', 'a'), 'doc and name')
    t.nontrivial(n > 0 and len(ops) > n)


BIGSLOT = st.one_of(
    st.tuples(st.just('args'), st.tuples(st.just('good'), st.one_of(
        many(st.tuples(UTEXT, UTEXT)),
        numbered(st.tuples(st.sampled_from('ab'), stretched(UTEXT)))))),
    st.tuples(st.just('cookies'), st.tuples(st.just('good'), numbered(
        st.tuples(st.sampled_from('ab'), stretched(WORD))))),
    st.tuples(st.just('path'), st.tuples(st.just('good'), stretched(UTEXT))),
    st.tuples(st.just('pragma'), st.tuples(st.just('good'), numbered(
        st.tuples(st.sampled_from('ab'))).map(
            lambda l: [x[0] for x in l]))),
    st.tuples(st.just('etags'), st.tuples(st.just('good'), numbered(
        st.tuples(st.sampled_from('ab'))).map(
            lambda l: [x[0] for x in l]))),
    st.tuples(st.just('route'), st.tuples(st.just('good'), st.tuples(
        st.just(', '), many(st.sampled_from(
            ['10.0.0.1', '::1', 'unknown']))))))


SUBS = [
    Sub('many', st.tuples(
        st.lists(BIGSLOT, min_size=1, max_size=5), FLAGS,
        st.lists(st.sampled_from(ATTRS), min_size=6, max_size=16),
        st.just(''), st.just('Request'), st.just([])),
        check_attributes, quick=200),
    Sub('attributes', st.tuples(
        st.lists(SLOT, min_size=6, max_size=16), FLAGS,
        st.lists(st.sampled_from(ATTRS), min_size=6, max_size=16),
        st.sampled_from(['', 'shallow', 'alone']),
        st.sampled_from(['Request', 'PlainRequest']), NOISE),
        check_attributes, quick=10000),
    Sub('data', st.tuples(
        st.one_of(blob(30), st.text(
            alphabet='aé\n日', max_size=12).map(lambda s: s.encode('utf-8'))),
        blob(5), st.booleans(),
        st.sampled_from([None, 'ignore', 'replace']), st.booleans(),
        st.lists(DATA_OP, max_size=8)), check_data, quick=3000),
    Sub('cached', st.tuples(
        st.lists(st.sampled_from([None, 0, 1, '', 'x']), min_size=1,
                 max_size=5),
        st.lists(CACHE_OP, max_size=12)), check_cached, quick=1500),
]
