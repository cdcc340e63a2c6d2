"""C19: request bodies are read to their end and never past it."""
import io

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import blob

ID = 'C19'
RULE = (
    'A body of 0-40 bytes (weighted to line breaks) followed by 0-20 '
    'bytes of the next request on the same connection, a limit equal to, '
    'below or above the body, and histories of 1-10 reads (read, '
    'readline, readlines, iteration, exhaust with any sizes, None and '
    'negative ones included); the underlying stream counts what was taken '
    'from it, asserts that it is never asked for more than the limit, and '
    'in some cases fails with IOError or ValueError at a generated '
    'offset. Oracle: an io.BytesIO of the limited body. Also '
    'get_input_stream, get_content_length and Request.stream / get_data '
    'on environs with any CONTENT_LENGTH. big: bodies beyond the internal '
    'buffer sizes; short: a client that goes away is noticed by every way '
    'of reading. Non-trivial: bytes follow the limit, or the body ends '
    'early or fails.'
)
ASSUMPTIONS = [
    'the stream returns as many bytes as asked for unless it has ended, as '
    'wsgi.input does; readlines hints are positive',
]

BYTES = st.one_of(
    st.text(alphabet='ab\n\r\nx', max_size=40).map(
        lambda s: s.encode('ascii')),
    blob(20))
SIZE = st.one_of(
    st.none(), st.integers(-3, 45), st.sampled_from([0, 1, 2, 3, 4, -1]))
OPS = st.lists(st.one_of(
    st.tuples(st.just('read'), SIZE),
    st.tuples(st.just('readline'), SIZE),
    st.tuples(st.just('readlines'), st.one_of(
        st.none(), st.integers(1, 20))),
    st.tuples(st.sampled_from(['next', 'next', 'tell', 'iter', 'exhaust']),
              st.one_of(st.none(), st.integers(1, 9))),
), min_size=1, max_size=10)


class Source(object):
    """A connection: counts bytes, may break at an offset."""

    def __init__(self, data, fail_at=None, error=None):
        self.data = data
        self.pos = 0
        self.fail_at = fail_at
        self.error = error
        self.unlimited = False

    def take(self, n):
        if self.fail_at is not None and self.pos + n > self.fail_at:
            raise {'IOError': IOError, 'ValueError': ValueError,
                   'timeout': TimeoutError}[self.error]('broken')
        rv = self.data[self.pos:self.pos + n]
        self.pos += len(rv)
        return rv

    def read(self, size=-1):
        if size is None or size < 0:
            self.unlimited = True
            size = len(self.data) - self.pos
        return self.take(size)

    def readline(self, size=-1):
        if size is None or size < 0:
            self.unlimited = True
            size = len(self.data) - self.pos
        end = self.data.find(b'\n', self.pos, self.pos + size)
        n = size if end == -1 else end + 1 - self.pos
        if self.fail_at is not None:
            return self.take(n)
        return self.take(n)


def check_big(case, t):
    seed, n, extra, ops = case
    check_history(((seed * (n // len(seed) + 1))[:n], extra, ops), t)


def check_history(case, t):
    from verktyg.wsgi import LimitedStream
    body, extra, ops = case
    src = Source(body + extra)
    model = io.BytesIO(body)
    s = LimitedStream(src, len(body))
    for op, arg in ops:
        t.label(op)
        start = model.tell()
        left = len(body) - start
        if op == 'read':
            got = s.read() if arg is None else s.read(arg)
            t.eq(got, model.read(-1 if arg is None or arg < 0 else arg),
                 'read(%r)' % arg)
        elif op == 'readline':
            got = s.readline() if arg is None else s.readline(arg)
            t.eq(got, model.readline(
                -1 if arg is None or arg < 0 else arg), 'readline(%r)' % arg)
        elif op == 'readlines':
            if arg is None:
                t.eq(s.readlines(), model.readlines(), 'readlines')
            else:
                got = s.readlines(arg)
                joined = b''.join(got)
                t.ok(body[start:].startswith(joined), 'readlines %r', got)
                t.ok(len(joined) >= min(arg, left), 'readlines %r', got)
                t.ok(all(x and b'\n' not in x[:-1] for x in got),
                     'readlines %r', got)
                t.eq(s.tell(), start + len(joined), 'tell')
                model.seek(start + len(joined))
        elif op == 'next':
            got = next(s, b'')
            t.eq(got, next(model, b''), 'next')
        elif op == 'iter':
            t.eq(list(s), list(model), 'iteration')
        elif op == 'exhaust':
            if arg is None:
                s.exhaust()
            else:
                s.exhaust(arg)
            model.seek(len(body))
        t.eq(s.tell(), model.tell(), 'tell after %s' % op)
        t.eq(src.pos, s.tell(), 'bytes taken from the connection')
        t.ok(src.pos <= len(body), 'read past the limit')
        t.ok(not src.unlimited, 'unlimited read of the connection')
        t.eq(s.is_exhausted, model.tell() >= len(body), 'is_exhausted')
    # nothing of the next request was lost
    t.eq(src.data[src.pos:len(body)], model.read(), 'rest')
    t.nontrivial(extra and model.tell() == len(body))


def check_short(case, t):
    """The client goes away: never silently a short body."""
    from verktyg.wsgi import LimitedStream
    from verktyg.exceptions import ClientDisconnected, BadRequest
    body, missing, error, ops, override = case
    fail_at = len(body) if error != 'eof' else None
    src = Source(body if fail_at is None else body + b'x' * missing,
                 fail_at, error)
    limit = len(body) + missing

    class Stream(LimitedStream):
        def on_disconnect(self):
            return 'gone'
    s = (Stream if override else LimitedStream)(src, limit)
    seen = b''

    def call(f, *a):
        try:
            rv = f(*a)
        except ClientDisconnected as e:
            t.ok(isinstance(e, BadRequest), 'kind of error')
            t.ok(not override, 'on_disconnect was not used')
            return None
        return None if rv == 'gone' else rv
    gone = False
    for op, arg in ops:
        if op == 'readline':
            got = call(s.readline, *(() if arg is None else (arg,)))
            t.ok(got is None or got or arg == 0, 'readline: end of a short body')
        elif op == 'next':
            got = call(next, s, b'')
            t.ok(got is None or got, 'next: end of a short body')
        else:
            got = call(s.read, *(() if arg is None else (arg,)))
            n = limit if arg is None or arg < 0 else arg
            enough = len(seen) + n <= len(body)
        if got is None:
            gone = True
            break
        t.ok(isinstance(got, bytes), 'got %r', got)
        if op == 'read':
            t.ok(enough, 'short read of %r was not noticed', got)
            t.eq(len(got), n, 'length')
        seen += got
        t.ok(body.startswith(seen), 'data %r', seen)
        t.eq(s.tell(), len(seen), 'tell')
    if not gone:
        # reading the rest must notice
        rest = [s.read, s.readlines, s.exhaust, lambda: list(s)]
        if override:
            rest = [s.read]
        t.eq(call(rest[len(ops) % len(rest)]), None, 'end of a short body')
    t.ok(src.pos <= limit, 'read past the limit')
    t.nontrivial()
    t.label(error, 'gone' if gone else 'later')


CL = st.one_of(
    st.none(), st.just('exact'), st.just('exact'), st.just('less'),
    st.sampled_from(['', '-1', '-20', 'abc', '1.5', '0', ' ', '1e3', '٣x',
                     '0x10', '--1', '²']),
    st.integers(0, 10 ** 20).map(str), st.text(max_size=4))


def check_environ(case, t):
    from verktyg.wsgi import get_input_stream, get_content_length
    from verktyg.requests import Request, PlainRequest
    body, extra, cl, terminated, safe, how = case
    env = {
        'REQUEST_METHOD': 'POST', 'wsgi.url_scheme': 'http',
        'SERVER_NAME': 'x', 'SERVER_PORT': '80', 'PATH_INFO': '/',
        'QUERY_STRING': '', 'SCRIPT_NAME': '',
    }
    src = Source(body + extra)
    env['wsgi.input'] = src
    limit = None
    if cl == 'exact':
        limit = len(body)
        env['CONTENT_LENGTH'] = str(limit)
    elif cl == 'less':
        limit = len(body) // 2
        env['CONTENT_LENGTH'] = str(limit)
    elif cl is not None:
        env['CONTENT_LENGTH'] = cl
        try:
            limit = max(0, int(cl))
        except ValueError:
            limit = None
    if terminated is not None:
        env['wsgi.input_terminated'] = terminated
    t.eq(get_content_length(env), limit, 'get_content_length')
    if limit is not None and limit > len(body):
        return
    if how == 'function':
        s = get_input_stream(env, safe)
    else:
        safe = True
        if how == 'get_data':
            r = Request(env)
            s = None
        else:
            r = (PlainRequest if how == 'plain' else Request)(env)
            s = r.stream
    if terminated:
        want = body + extra
    elif limit is None:
        want = b'' if safe else body + extra
    else:
        want = body[:limit]
    if s is None:
        t.eq(r.get_data(), want, 'get_data')
        t.eq(r.get_data(), want, 'get_data again')
    else:
        t.eq(s.read(), want, 'stream')
        t.eq(s.read(), b'', 'stream at its end')
    if not (terminated or (limit is None and not safe)):
        t.eq(src.pos, limit or 0, 'bytes taken from the connection')
        t.ok(not src.unlimited, 'unlimited read')
    t.label(how, 'limit' if limit is not None else 'none')
    t.nontrivial(extra or limit is None)


SUBS = [
    Sub('history', st.tuples(
        BYTES, st.sampled_from([b'', b'GET / HTTP/1.1\r\n', b'\n', b'x']),
        OPS), check_history, quick=20000),
    Sub('big', st.tuples(
        st.sampled_from([b'x', b'ab\n', b'\n', b'a\r\n', b'\0']),
        st.sampled_from([1023, 8192, 65535, 65536, 65537, 131072, 200000]),
        st.sampled_from([b'', b'GET / HTTP/1.1\r\n', b'\n']),
        st.lists(st.one_of(
            st.tuples(st.sampled_from(['read', 'readline']), st.one_of(
                st.none(), st.sampled_from(
                    [-1, 0, 1, 8191, 65536, 65537, 10 ** 9]))),
            st.tuples(st.sampled_from(['next', 'exhaust']), st.one_of(
                st.none(), st.integers(500, 70000)))),
            min_size=1, max_size=5)), check_big, quick=500, thorough=3000),
    Sub('short', st.tuples(
        BYTES, st.integers(1, 5),
        st.sampled_from(['eof', 'IOError', 'ValueError', 'timeout']),
        st.lists(st.tuples(st.sampled_from(['read', 'readline', 'next']),
                           SIZE), max_size=5),
        st.booleans()), check_short, quick=7500),
    Sub('environ', st.tuples(
        BYTES, st.sampled_from([b'', b'GET / HTTP/1.1\r\n']), CL,
        st.sampled_from([None, None, True, False]), st.booleans(),
        st.sampled_from(['function', 'function', 'stream', 'get_data',
                         'plain'])), check_environ, quick=5000),
]
