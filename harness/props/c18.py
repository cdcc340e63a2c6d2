"""C18: responses are sent the way they were put together."""
from datetime import datetime, timedelta
from urllib.parse import quote

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import blob, many, stretched
from harness.props.c14 import show

ID = 'C18'
RULE = (
    'Responses built from None, str, bytes, bytearray, list, tuple, '
    'generator or closeable iterator bodies of 0-4 pieces in three '
    'charsets, with any status, headers and content type, taken through '
    '0-6 operations (set_data, stream.write, make_sequence, freeze, '
    'get_data, calculate_content_length, status and status_code '
    'assignment, call_on_close) and then served one or two times for any '
    'method, read completely or in part and closed. Oracle: a list of '
    'encoded pieces, a status and a header list. Histories of 1-10 '
    'assignments, deletions and in place changes of the header attributes '
    'against a dict of headers. Location headers of every relative and '
    'absolute form under generated hosts and script names against hand '
    'joined URLs. passthrough: direct_passthrough with and without an '
    'implicit sequence; convert: force_type and from_app of other '
    'responses and applications; wrap: a body replaced by one computed '
    'from the encoded body; groups: removing entity and hop by hop '
    'headers; own attribute: header properties defined by a subclass. '
    'Some bodies are some ten kilobytes long. foreign: odd text in each '
    'header of a response; reading it does not raise nor change the '
    'headers. many: bodies of up to 200 chunks, up to 60 headers and 40 '
    'operations; long locations. Non-trivial: body text whose length in '
    'bytes and characters differ or that was changed after construction, '
    'or a bodyless status or method; an attribute that was replaced or '
    'removed; a location that has to be joined or encoded.'
)
ASSUMPTIONS = [
    'the application does not set Content-Length itself',
    'an iterator that was replaced or frozen need not '
    'be closed',
]

TEXT = st.one_of(
    st.sampled_from(['', 'a', 'abc', 'é', 'ÿþ', 'a\nb', 'ü' * 5]),
    st.text(alphabet=st.characters(codec='latin-1'), max_size=6))
DATA = st.one_of(TEXT, blob(6))
BODY = st.one_of(
    st.just(('none', None)),
    st.tuples(st.just('str'), TEXT),
    st.tuples(st.sampled_from(['bytes', 'bytearray']), blob(8)),
    st.tuples(st.sampled_from(
        ['list', 'tuple', 'generator', 'closeable', 'closeable', 'sized']),
        st.lists(DATA, max_size=4)))
STATUS = st.one_of(
    st.none(), st.sampled_from(
        [200, 200, 201, 204, 206, 304, 301, 404, 500, 100, 101, 199, 203,
         205, 303, 305, 418, 599, 999]),
    st.sampled_from(['200 OK', '404 NOT FOUND', '204 Nothing', '304 Same',
                     '299 My Own', '101 X', 'nonsense', '418', 'Not 12',
                     '99 Low', '1000 High', '7', '20 4',
                     '204\tx', '304']))
HEADERS = st.lists(st.tuples(
    st.sampled_from(['X-A', 'x-b', 'Set-Cookie', 'Last-Modified', 'Allow',
                     'Expires', 'Content-Language', 'ETag', 'X-A', 'Via',
                     'Content-MD5', 'Content-Encoding']),
    st.sampled_from(['a', 'b', 'Wed, 21 Oct 2015 07:28:00 GMT', 'é'])),
    max_size=4)
CTYPE = st.one_of(
    st.just((None, None)),
    st.tuples(st.sampled_from(
        ['text/html', 'text/plain', 'application/json', 'application/xml',
         'application/atom+xml', 'image/svg+xml', 'image/png',
         'application/xml-dtd', 'textual/x']), st.none()),
    st.tuples(st.sampled_from([None, 'text/html']), st.sampled_from(
        ['text/html', 'text/x; charset=ascii', 'a/b'])))
OP = st.one_of(
    st.tuples(st.just('set_data'), DATA),
    st.tuples(st.just('write'), DATA),
    st.tuples(st.just('write'), DATA),
    st.tuples(st.just('writelines'), st.lists(DATA, max_size=3)),
    st.tuples(st.sampled_from(['make_sequence', 'freeze']), st.none()),
    st.tuples(st.sampled_from(['get_data', 'get_text', 'length']), st.none()),
    st.tuples(st.just('on_close'), st.none()),
    st.tuples(st.sampled_from(
        ['data_twice', 'repr', 'iter', 'iter', 'stream', 'stream',
         'stream_close']), st.none()),
    st.tuples(st.just('status'), STATUS),
    st.tuples(st.just('implicit'), st.booleans()),
    st.tuples(st.just('raw'), st.lists(DATA, max_size=3)),
)
METHOD = st.sampled_from(['GET', 'GET', 'GET', 'HEAD', 'POST', 'PUT'])

NAMES = {
    200: 'OK', 201: 'CREATED', 204: 'NO CONTENT', 206: 'PARTIAL CONTENT',
    304: 'NOT MODIFIED', 301: 'MOVED PERMANENTLY', 404: 'NOT FOUND',
    500: 'INTERNAL SERVER ERROR', 100: 'CONTINUE',
    101: 'SWITCHING PROTOCOLS', 203: 'NON AUTHORITATIVE INFORMATION',
    205: 'RESET CONTENT', 303: 'SEE OTHER', 305: 'USE PROXY',
    418: "I'M A TEAPOT",
}
ENTITY = {
    'allow', 'content-encoding', 'content-language', 'content-length',
    'content-md5', 'content-range', 'content-type', 'last-modified',
}


def expected_status(status):
    """(code, status line or None when it is free)"""
    if status is None:
        status = 200
    if isinstance(status, int):
        return status, ('%d %s' % (status, NAMES[status])
                        if status in NAMES else None)
    head = status.split(None, 1)[0]
    if head.isdigit():
        return int(head), status
    return 0, '0 ' + status


class Sized(object):
    """knows how many pieces there are but can be read only once"""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        while self.items:
            yield self.items.pop(0)


class Closeable(object):
    def __init__(self, items):
        self.items = iter(items)
        self.closed = 0

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)

    def close(self):
        self.closed += 1


def with_charset(mimetype, charset):
    if mimetype.startswith('text/') or mimetype == 'application/xml' or (
            mimetype.startswith('application/') and
            mimetype.endswith('+xml')):
        return mimetype + '; charset=' + charset
    return mimetype


def serve(t, r, method, take, environ=None):
    env = {
        'REQUEST_METHOD': method, 'wsgi.url_scheme': 'http',
        'HTTP_HOST': 'example.org', 'SCRIPT_NAME': '', 'PATH_INFO': '/',
        'SERVER_NAME': 'example.org', 'SERVER_PORT': '80',
        'QUERY_STRING': '',
    }
    env.update(environ or {})
    started = []

    def start_response(status, headers, exc_info=None):
        started.append((status, headers))
        return lambda s: t.fail('write used')
    it = r(env, start_response)
    t.eq(len(started), 1, 'start_response calls')
    out = []
    n = 0
    for chunk in it:
        t.ok(isinstance(chunk, bytes), 'sent %r', chunk)
        out.append(chunk)
        n += 1
        if take is not None and n >= take:
            break
    status, headers = started[0]
    t.ok(type(headers) is list and all(
        type(k) is str and type(v) is str for k, v in headers),
        'headers %r', headers)
    return it, status, headers, out


def check_history(case, t):
    from verktyg.responses import Response
    (charset, body, status, headers, ct_header, (mime, ctype), ops, method,
     take) = case
    if ct_header is not None:
        pos, name = min(ct_header[0], len(headers)), ct_header[1]
        headers = headers[:pos] + [(name, 'a/header')] + headers[pos:]
    kind, data = body

    class R(Response):
        pass
    R.charset = charset

    def enc(x):
        return x.encode(charset) if isinstance(x, str) else bytes(x)

    original = None
    if kind == 'none':
        arg, pieces = None, []
    elif kind in ('str', 'bytes', 'bytearray'):
        arg = bytearray(data) if kind == 'bytearray' else data
        pieces = [enc(data)]
    else:
        pieces = [enc(x) for x in data]
        if kind == 'list':
            arg = list(data)
        elif kind == 'tuple':
            arg = tuple(data)
        elif kind == 'generator':
            arg = (x for x in data)
        elif kind == 'sized':
            arg = Sized(data)
        else:
            arg = original = Closeable(data)
    seq = kind not in ('generator', 'closeable', 'sized')
    implicit = True
    r = R(arg, status, list(headers), mimetype=mime, content_type=ctype)
    code, line = expected_status(status)
    if ctype is None and (mime is not None or ct_header is None):
        ctype = with_charset(mime or 'text/plain', charset)
    replaced = False
    frozen_stream = stream_closed = False
    changed = False
    closes = []
    wanted_closes = 0

    t.eq(r.is_sequence, seq, 'is_sequence')
    t.eq(r.is_streamed, kind in ('generator', 'closeable'), 'is_streamed')
    for name, arg in ops:
        t.label(name)
        if name == 'set_data':
            r.set_data(arg)
            pieces = [enc(arg)]
            replaced = replaced or not seq
            seq = changed = True
        elif name == 'stream_close':
            r.stream.close()
            stream_closed = True
        elif name == 'stream':
            t.eq((r.stream.closed, r.stream.encoding),
                 (stream_closed, charset), 'stream')
            if stream_closed:
                t.raises(ValueError, r.stream.flush)
                t.raises(ValueError, r.stream.isatty)
            else:
                t.eq((r.stream.flush(), r.stream.isatty()), (None, False),
                     'stream')
        elif name in ('write', 'writelines') and stream_closed:
            t.raises(ValueError, r.stream.write, 'x')
            t.raises(ValueError, r.stream.writelines, [b'x'])
        elif name in ('write', 'writelines'):
            items = [arg] if name == 'write' else arg
            if not seq and not implicit and items:
                t.raises(RuntimeError, r.stream.write, items[0])
                continue
            if name == 'write':
                r.stream.write(arg)
            else:
                r.stream.writelines(arg)
            pieces = pieces + [enc(x) for x in items]
            if items:
                seq = changed = True
        elif name == 'raw':
            r.response = list(arg)
            r.headers.pop('Content-Length', None)
            pieces = [enc(x) for x in arg]
            replaced = replaced or not seq
            seq = changed = True
        elif name == 'make_sequence':
            r.make_sequence()
            seq = True
        elif name == 'freeze':
            r.freeze()
            if not seq:
                replaced = frozen_stream = True
            seq = True
            t.eq(r.headers.getlist('content-length'),
                 [str(sum(map(len, pieces)))], 'frozen length')
        elif name in ('get_data', 'get_text', 'data_twice'):
            if not seq and not implicit:
                t.raises(RuntimeError, r.get_data)
                continue
            want = b''.join(pieces)
            for i in range(2 if name == 'data_twice' else 1):
                if name != 'get_text':
                    t.eq(r.get_data(), want, 'get_data')
                    continue
                try:
                    text = want.decode(charset)
                except UnicodeDecodeError:
                    t.raises(UnicodeDecodeError, r.get_data, as_text=True)
                else:
                    t.eq(r.get_data(as_text=True), text, 'as text')
            seq = True
        elif name == 'length':
            if not seq and not implicit:
                t.eq(r.calculate_content_length(), None, 'unknown length')
            else:
                t.eq(r.calculate_content_length(), sum(map(len, pieces)),
                     'calculate_content_length')
                seq = True
        elif name == 'iter':
            if seq:
                t.eq(b''.join(r.iter_encoded()), b''.join(pieces),
                     'iter_encoded')
        elif name == 'repr':
            t.ok(isinstance(repr(r), str), 'repr')
        elif name == 'on_close':
            def func(n=wanted_closes):
                closes.append(n)
            t.ok(r.call_on_close(func) is func, 'call_on_close')
            wanted_closes += 1
        elif name == 'implicit':
            implicit = arg
            r.implicit_sequence_conversion = arg
        elif name == 'status':
            if arg is None:
                continue
            if isinstance(arg, int):
                r.status_code = arg
            else:
                r.status = arg
            code, line = expected_status(arg)
        t.eq(r.is_sequence, seq, '%s: is_sequence' % name)
        t.eq(r.status_code, code, 'status_code')
        t.ok(r.status.startswith(str(code)), 'status %r', r.status)
        if line is not None:
            t.eq(r.status, line, 'status')

    before = list(r.headers)
    serves = 2 if seq and not closes and not original else 1
    for n in range(serves):
        it, got_status, got_headers, out = serve(t, r, method, take)
        t.eq(got_status.split(None, 1)[0], str(code), 'status line')
        if line is not None:
            t.eq(got_status, line, 'status line')
        bodyless = (
            method == 'HEAD' or 100 <= code < 200 or code in (204, 304))
        whole = b''.join(pieces)
        sent = b''.join(out)
        if bodyless:
            t.eq(sent, b'', 'body of a bodyless response')
            t.label('bodyless')
        elif take is None:
            t.eq(sent, whole, 'body')
        else:
            t.ok(whole.startswith(sent), 'body %r', sent)
        lengths = [v for k, v in got_headers if k.lower() == 'content-length']
        if 100 <= code < 200 or code == 204:
            t.eq(lengths, ['0'], 'Content-Length')
        elif code == 304:
            t.eq(lengths, [], 'Content-Length')
        elif seq:
            t.eq(lengths, [str(len(whole))], 'Content-Length')
        else:
            t.eq(lengths, [], 'Content-Length of a stream')
        want = list(headers)
        if ct_header is None:
            want.append(('Content-Type', ctype))
        elif ctype is not None:
            want[pos] = (None, ctype)
        if code == 304:
            want = [(k, v) for k, v in want if k and k.lower() not in ENTITY]
        got = [(k, v) for k, v in got_headers
               if k.lower() != 'content-length']
        want = [(k or got[i:] and got[i][0], v)
                for i, (k, v) in enumerate(want)]
        t.eq([k for k, v in got if k.lower() == 'content-type'][1:], [],
             'content types')
        t.eq(got, want, 'headers')
        t.eq(list(r.headers), before, 'headers of the response object')
        t.eq(len(closes), wanted_closes * n, 'closed early')
        it.close()
        t.eq(closes, list(range(wanted_closes)) * (n + 1), 'close callbacks')
        if original is not None:
            if replaced:
                t.ok(original.closed <= n + 1, 'closed too often')
            else:
                t.eq(original.closed, 1, 'closes of the iterator')
        if serves == 2 and wanted_closes:
            break
    t.nontrivial(changed or bodyless or any(
        len(p) > 1 and max(p) > 127 for p in pieces))


# -- attributes

DATES = st.datetimes(
    min_value=datetime(1971, 1, 1), max_value=datetime(2060, 1, 1)).map(
    lambda d: tuple(d.timetuple()[:6]))
TOKENS = st.sampled_from(
    ['Accept', 'accept', 'Cookie', 'X-Foo', 'en', 'EN', 'GET', 'de-at'])
SETS = st.sampled_from(['vary', 'allow', 'content_language'])
TEXTS = st.sampled_from(
    ['content_encoding', 'content_md5', 'content_location', 'location',
     'accept_ranges', 'content_type'])
# the age as a date is odd, but the existing tests say so
DATENAMES = st.sampled_from(['date', 'expires', 'last_modified', 'age'])
PVALUE = st.sampled_from(
    ['utf-8', 'x y', 'a;b', '', 'q"q', 'b\\s', 'a=b', 'a,b', 'é'])
ATTR_OP = st.one_of(
    st.tuples(st.just('text'), TEXTS, st.sampled_from(
        ['a', 'gzip', '/x', 'text/html; charset=x', 'bytes', 'é', 'a b'])),
    st.tuples(st.just('date'), DATENAMES, DATES),
    st.tuples(st.just('length'), st.just('content_length'),
              st.integers(0, 10 ** 12)),
    st.tuples(st.just('del'), st.one_of(
        TEXTS, DATENAMES, st.just('content_length')), st.none()),
    st.tuples(st.just('retry'), st.just('retry_after'), st.one_of(
        st.none(), st.integers(0, 10 ** 6), DATES)),
    st.tuples(st.just('set'), SETS, st.lists(TOKENS, max_size=3)),
    st.tuples(st.just('set-text'), SETS, st.lists(
        TOKENS, min_size=1, max_size=3)),
    st.tuples(st.just('set-none'), SETS, st.none()),
    st.tuples(st.sampled_from(['add', 'discard', 'add', 'clear']), SETS,
              TOKENS),
    st.tuples(st.just('mimetype'), st.sampled_from(
        ['text/html', 'image/png', 'application/x+xml']), st.none()),
    st.tuples(st.just('param'), st.sampled_from(['charset', 'x', 'boundary']),
              PVALUE),
    st.tuples(st.just('del-param'), st.sampled_from(['charset', 'x']),
              st.none()),
)
HEADER_OF = {
    'content_encoding': 'Content-Encoding', 'content_md5': 'Content-MD5',
    'content_location': 'Content-Location', 'location': 'Location',
    'accept_ranges': 'Accept-Ranges', 'content_type': 'Content-Type',
    'date': 'Date', 'expires': 'Expires', 'age': 'Age', 'last_modified': 'Last-Modified',
    'content_length': 'Content-Length', 'retry_after': 'Retry-After',
    'vary': 'Vary', 'allow': 'Allow', 'content_language': 'Content-Language',
}


def split_params(text):
    """independent reader of '; a=b; c="d"'"""
    out = {}
    pos = 0
    while pos < len(text):
        assert text[pos] == ';', text
        pos += 1
        while pos < len(text) and text[pos] == ' ':
            pos += 1
        eq = text.index('=', pos)
        name = text[pos:eq]
        pos = eq + 1
        value = ''
        if pos < len(text) and text[pos] == '"':
            pos += 1
            while text[pos] != '"':
                if text[pos] == '\\':
                    pos += 1
                value += text[pos]
                pos += 1
            pos += 1
        else:
            while pos < len(text) and text[pos] != ';':
                value += text[pos]
                pos += 1
            value = value.strip(' ')
        while pos < len(text) and text[pos] == ' ':
            pos += 1
        out[name] = value
    return out


def dedup(items):
    out = []
    for x in items:
        if x.lower() not in [y.lower() for y in out]:
            out.append(x)
    return out


def check_attributes(case, t):
    from verktyg.responses import Response
    r = Response()
    model = {}                    # attribute -> value
    sets = {}                     # attribute -> list as in the header
    mime, params = 'text/plain', {'charset': 'utf-8'}
    touched = 0
    for op, name, arg in case:
        t.label(op)
        before = (dict(model), {k: list(v) for k, v in sets.items()},
                  mime, dict(params))
        if op == 'text':
            setattr(r, name, arg)
            if name == 'content_type':
                mime = arg.split(';')[0]
                params = split_params(arg[len(mime):])
            else:
                model[name] = arg
        elif op == 'date':
            setattr(r, name, datetime(*arg))
            model[name] = arg
        elif op == 'length':
            r.content_length = arg
            model[name] = arg
        elif op == 'del':
            delattr(r, name)
            if name == 'content_type':
                mime, params = None, {}
            model.pop(name, None)
        elif op == 'retry':
            r.retry_after = datetime(*arg) if isinstance(arg, tuple) else arg
            if arg is None:
                model.pop(name, None)
            else:
                model[name] = arg
        elif op == 'set':
            setattr(r, name, list(arg))
            sets[name] = list(arg)
        elif op == 'set-text':
            setattr(r, name, ', '.join(arg))
            sets[name] = list(arg)
        elif op == 'set-none':
            setattr(r, name, None)
            sets[name] = []
        elif op == 'add':
            getattr(r, name).add(arg)
            cur = dedup(sets.get(name, []))
            if arg.lower() not in [x.lower() for x in cur]:
                sets[name] = cur + [arg]
        elif op == 'discard':
            getattr(r, name).discard(arg)
            cur = dedup(sets.get(name, []))
            if arg.lower() in [x.lower() for x in cur]:
                sets[name] = [x for x in cur if x.lower() != arg.lower()]
        elif op == 'clear':
            getattr(r, name).clear()
            sets[name] = []
        elif op == 'mimetype':
            r.mimetype = name
            mime = name
            params = {} if name == 'image/png' else {'charset': 'utf-8'}
        elif op == 'param':
            if mime is None:
                continue
            r.mimetype_params[name] = arg
            params[name] = arg
        elif op == 'del-param':
            if mime is None:
                continue
            p = r.mimetype_params
            t.eq(name in p, name in params, 'param')
            if name in params:
                del p[name]
                del params[name]
        now = (dict(model), {k: list(v) for k, v in sets.items()},
               mime, dict(params))
        if before != now and before[:2] != ({}, {}):
            touched += 1

        # the headers say it
        names = [k.lower() for k, v in r.headers]
        t.eq(len(names), len(set(names)), 'headers repeat: %r' % r.headers)
        want = {HEADER_OF[k].lower() for k in model}
        want |= {HEADER_OF[k].lower() for k, v in sets.items() if v}
        if mime is not None:
            want.add('content-type')
        t.eq(set(names), want, 'headers present after %s' % op)
        # the attributes say it, and the header text
        for k in ('content_encoding', 'content_md5', 'content_location',
                  'location', 'accept_ranges'):
            t.eq(getattr(r, k), model.get(k), k)
            t.eq(r.headers.get(HEADER_OF[k]), model.get(k), 'header ' + k)
        for k in ('date', 'expires', 'last_modified', 'age'):
            v = model.get(k)
            t.eq(getattr(r, k), v and datetime(*v), k)
            t.eq(r.headers.get(HEADER_OF[k]), v and show(
                datetime(*v), ' '), 'header ' + k)
        t.eq(r.content_length, model.get('content_length'), 'content_length')
        v = model.get('retry_after')
        if v is None:
            t.eq(r.retry_after, None, 'retry_after')
        elif isinstance(v, tuple):
            t.eq(r.retry_after, datetime(*v), 'retry_after')
            t.eq(r.headers['Retry-After'], show(datetime(*v), ' '),
                 'Retry-After')
        else:
            t.eq(r.headers['Retry-After'], str(v), 'Retry-After')
            lo = datetime.utcnow() + timedelta(seconds=v - 5)
            got = r.retry_after
            hi = datetime.utcnow() + timedelta(seconds=v + 5)
            t.ok(lo <= got <= hi, 'retry_after %r', got)
        for k in ('vary', 'allow', 'content_language'):
            v = sets.get(k, [])
            t.eq(list(getattr(r, k)), dedup(v), k)
            text = r.headers.get(HEADER_OF[k])
            t.eq([x.strip() for x in text.split(',')] if text else [], v,
                 'header ' + k)
            for x in v:
                t.ok(x.upper() in getattr(r, k), 'membership %r', x)
        if mime is None:
            t.eq(r.content_type, None, 'content_type')
            t.eq(r.mimetype, None, 'mimetype')
        else:
            text = r.content_type
            t.ok(text.startswith(mime), 'content_type %r', text)
            t.eq(split_params(text[len(mime):].strip()), params,
                 'parameters in %r' % text)
            t.eq(r.mimetype, mime, 'mimetype')
            t.eq(dict(r.mimetype_params), params, 'mimetype_params')
    t.nontrivial(touched)


# -- locations

SEG = st.text(alphabet='abc12-_~éü日', min_size=1, max_size=4)
SEGS = st.lists(SEG, max_size=3)
HOSTS = st.sampled_from(
    ['example.org', 'localhost', 'a.b.example.org', '127.0.0.1'])
LOCATION = st.tuples(
    st.sampled_from(['relative', 'absolute', 'full', 'network', 'up',
                     'opaque']),
    SEGS, st.booleans(),
    st.sampled_from(['', '?a=b', '?a=%20&b=c%26', '?x=é', '#f', '?q=1#é']))


def q(s, safe="%/:=&?#~+!$,;'@()*[]"):
    return quote(s, safe=safe)


def check_location(case, t):
    from verktyg.responses import Response
    (kind, segs, slash, tail), scheme, host, port, script, auto, content = case

    class R(Response):
        pass
    R.autocorrect_location_header = auto
    path = '/'.join(segs) + ('/' if slash and segs else '')
    netloc = host
    if port and port != {'http': '80', 'https': '443'}[scheme]:
        netloc += ':' + port
    root = '%s://%s' % (scheme, netloc)
    mount = ''.join('/' + quote(s) for s in script)
    if kind == 'relative':
        if not segs:
            return
        loc, want = path + tail, root + mount + '/' + path + tail
    elif kind == 'absolute':
        if not segs:
            return
        loc, want = '/' + path + tail, root + '/' + path + tail
    elif kind == 'up':
        if not segs:
            return
        loc = '../' + path + tail
        up = ''.join('/' + quote(s) for s in script[:-1])
        want = root + up + '/' + path + tail
    elif kind == 'network':
        loc = '//other.example/' + path + tail
        want = scheme + ':' + loc
    elif kind == 'full':
        loc = want = 'https://other.example:8443/' + path + tail
    else:
        loc = want = 'itms-services://?action=x' + ''.join(segs)
    want = q(want)
    if not auto:
        want = q(loc)
    env = {
        'wsgi.url_scheme': scheme, 'SERVER_NAME': host,
        'SERVER_PORT': port or {'http': '80', 'https': '443'}[scheme],
        'HTTP_HOST': netloc,
        'SCRIPT_NAME': ''.join('/' + s for s in script).encode(
            'utf-8').decode('latin-1'),
        'PATH_INFO': '/ignored/path',
    }
    code = 302
    r = R('x', code)
    name = 'Content-Location' if content else 'Location'
    if content:
        want = q(loc)
    r.headers[name] = loc
    it, status, headers, out = serve(t, r, 'GET', None, env)
    it.close()
    got = [v for k, v in headers if k.lower() == name.lower()]
    t.eq(got, [want], name)
    t.eq(r.headers[name], loc, 'header of the object')
    t.ok(all(ord(c) < 128 for c in got[0]), 'not ASCII')
    t.label(kind, 'auto' if auto else 'plain')
    t.nontrivial(got[0] != loc)


# -- conversion

def check_convert(case, t):
    from verktyg.responses import BaseResponse, Response
    status, headers, pieces, how, buffered = case
    headers = headers + [('Content-Type', 'a/b')]
    closed = []
    pulled = []

    class Mine(Response):
        pass

    if how == 'response':
        src = BaseResponse(list(pieces), status, list(headers))
        r = Mine.force_type(src)
        t.ok(r is src, 'a response is converted in place')
    else:
        def body():
            try:
                for p in pieces:
                    pulled.append(p)
                    yield p
            finally:
                closed.append(1)

        def app(environ, start_response):
            write = start_response(status, list(headers))
            if how == 'write':
                for p in pieces:
                    write(p)
                return []
            if how == 'list':
                return list(pieces)
            if how == 'response-app':
                return BaseResponse(body(), status, list(headers))(
                    environ, lambda s, h, e=None: None)
            return body()
        env = {
            'REQUEST_METHOD': 'GET', 'wsgi.url_scheme': 'http',
            'HTTP_HOST': 'x', 'SERVER_NAME': 'x', 'SERVER_PORT': '80',
            'SCRIPT_NAME': '', 'PATH_INFO': '/', 'QUERY_STRING': ''}
        if buffered is None:
            t.raises(TypeError, Mine.force_type, app)
            r = Mine.force_type(app, env)
        else:
            r = (Mine.from_app(app, env, buffered=True) if buffered
                 else Mine.from_app(app, env))
    t.ok(type(r) is Mine, 'type %r', type(r))
    t.eq(r.status, status, 'status')
    t.eq(r.status_code, int(status.split()[0]), 'status_code')
    t.eq(list(r.headers), headers, 'headers')
    if how == 'generator' and not buffered:
        t.ok(len(pulled) <= 1, 'read %r early', pulled)
        t.ok(r.is_streamed, 'no longer streamed')
    if how == 'generator' and buffered:
        t.eq(pulled, pieces, 'read')
        t.eq(closed, [1] if pieces else closed, 'closed')
        t.ok(r.is_sequence, 'still streamed')
    t.eq(r.get_data(), b''.join(pieces), 'body')
    r.close()
    if how in ('generator', 'response-app') and pieces:
        t.eq(closed, [1], 'closed')
    t.label(how)
    t.nontrivial(len(pieces) > 1)


# -- attributes of ones own for a header

def check_property(case, t):
    from verktyg.responses import Response
    from verktyg.utils import header_property
    name, default, kind, read_only, ops = case
    load, dump = {
        'text': (None, None), 'int': (int, str),
        'load': (int, None), 'list': (
            lambda s: s.split('/'), lambda v: '/'.join(v))}[kind]
    kw = {}
    if default is not None:
        kw['default'] = default
    if load is not None:
        kw['load_func'] = load
    if dump is not None:
        kw['dump_func'] = dump
    if read_only:
        kw['read_only'] = True

    class R(Response):
        attr = header_property(name, doc='the doc', **kw)
        other = header_property('X-Other')
    t.ok(isinstance(R.attr, header_property), 'on the class: %r', R.attr)
    t.eq(R.attr.__doc__, 'the doc', 'doc')
    r = R()
    r.other = 'untouched'
    rest = [p for p in r.headers]
    now = None
    for op, n in ops:
        t.label(op)
        value = {'text': str(n), 'int': n, 'load': str(n),
                 'list': [str(n), 'x']}[kind]
        text = '/'.join(value) if kind == 'list' else str(n)
        if op == 'set':
            if read_only:
                t.raises(AttributeError, setattr, r, 'attr', value)
            else:
                r.attr = value
                now = text
        elif op == 'del':
            if read_only:
                t.raises(AttributeError, delattr, r, 'attr')
            else:
                del r.attr
                now = None
        elif op == 'header':
            now = text
            r.headers[name.lower()] = text
        elif op == 'broken':
            now = 'n/a'
            r.headers[name] = now
        elif op == 'remove':
            r.headers.pop(name, None)
            now = None
        t.eq(r.headers.getlist(name), [] if now is None else [now], 'header')
        t.eq([p for p in r.headers if p[0].lower() != name.lower()],
             rest, 'other headers')
        if now is None:
            want = default
        elif kind == 'text':
            want = now
        elif kind == 'list':
            want = now.split('/')
        else:
            want = default if now == 'n/a' else int(now)
        t.eq(r.attr, want, 'value')
    t.nontrivial(len(ops) > 1)


# -- bodies that are passed through, lengths that are left alone

class Meter(Closeable):
    read = 0

    def __next__(self):
        item = next(self.items)
        self.read += 1
        return item


def check_passthrough(case, t):
    from verktyg.responses import Response
    pieces, streamed, through, auto, status, method, look = case

    class R(Response):
        pass
    R.automatically_set_content_length = auto
    closes = []
    body = Meter(pieces) if streamed else list(pieces)
    r = R(body, status, direct_passthrough=through)
    r.call_on_close(lambda: closes.append(1))
    if through and streamed:
        t.raises(RuntimeError, r.get_data)
        t.eq(r.calculate_content_length(), None, 'length')
        t.raises(RuntimeError, r.stream.write, b'x')
        t.eq(body.read, 0, 'read while passing through')
    elif look and not streamed:
        t.eq(r.get_data(), b''.join(pieces), 'get_data')
    bodyless = method == 'HEAD' or status in (100, 204, 304)
    with r as inner:
        t.ok(inner is r, '__enter__')
        it, got_status, headers, out = serve(t, r, method, None)
        t.eq(b''.join(out), b'' if bodyless else b''.join(pieces), 'body')
        if through and not bodyless:
            t.ok(it is body, 'not passed through')
        if bodyless and streamed:
            t.eq(body.read, 0, 'read for nothing')
        t.eq(closes, [], 'closed early')
    t.eq(closes, [1], 'closed')
    if streamed:
        t.eq(body.closed, 1, 'body closed')
    lengths = [v for k, v in headers if k.lower() == 'content-length']
    if status in (100, 204):
        want = ['0']
    elif status == 304 or streamed or not auto:
        want = []
    else:
        want = [str(sum(map(len, pieces)))]
    t.eq(lengths, want, 'Content-Length')
    t.label('through' if through else 'encoded')
    t.nontrivial(through or not auto)


def check_wrap(case, t):
    """a body may be replaced by one computed from the encoded body"""
    from verktyg.responses import Response
    pieces, kind, charset, times = case

    class R(Response):
        pass
    R.charset = charset
    body = Meter(pieces) if kind == 'stream' else kind(pieces)
    r = R(body)
    want = b''.join(
        p.encode(charset) if isinstance(p, str) else p for p in pieces)
    for i in range(times):
        r.response = (x[::1] for x in r.iter_encoded())
    if kind == 'stream':
        t.eq(body.read, 0, 'read early')
    it, status, headers, out = serve(t, r, 'GET', None)
    t.eq(b''.join(out), want, 'body')
    it.close()
    t.nontrivial(times and pieces)


# -- groups of headers

HOP = {'connection', 'keep-alive', 'proxy-authenticate',
       'proxy-authorization', 'te', 'trailer', 'transfer-encoding', 'upgrade'}
ALL_ENTITY = ENTITY | {'content-location', 'expires'}
KNOWN = sorted(HOP | ALL_ENTITY | {
    'x-a', 'host', 'date', 'etag', 'location', 'content', 'set-cookie',
    'content-disposition', 'vary', 'tea'})


def recase(name, how):
    if how == 0:
        return name
    if how == 1:
        return name.upper()
    return '-'.join(p.capitalize() for p in name.split('-'))


def check_groups(case, t):
    from verktyg import http
    pairs, allowed, as_list = case
    pairs = [(recase(n, c), str(i)) for i, (n, c) in enumerate(pairs)]

    def make():
        return list(pairs) if as_list else http.Headers(pairs)
    h = make()
    http.remove_hop_by_hop_headers(h)
    t.eq(list(h), [p for p in pairs if p[0].lower() not in HOP],
         'hop by hop removed')
    h = make()
    http.remove_entity_headers(h)
    t.eq(list(h), [
        p for p in pairs if p[0].lower() not in ENTITY], 'entity removed')
    h = make()
    http.remove_entity_headers(h, [recase(a, c) for a, c in allowed])
    keep = {a for a, c in allowed}
    t.eq(list(h), [
        p for p in pairs
        if p[0].lower() not in ALL_ENTITY or p[0].lower() in keep],
        'entity removed but %r' % (keep,))
    for n, v in pairs:
        t.eq(http.is_entity_header(n), n.lower() in ALL_ENTITY, n)
        t.eq(http.is_hop_by_hop_header(n), n.lower() in HOP, n)
    t.nontrivial(len(pairs) > 2)


READABLE = {
    'age': 'Age', 'retry_after': 'Retry-After', 'date': 'Date',
    'expires': 'Expires', 'last_modified': 'Last-Modified',
    'content_length': 'Content-Length', 'cache_control': 'Cache-Control',
    'content_range': 'Content-Range', 'accept_ranges': 'Accept-Ranges',
    'vary': 'Vary', 'allow': 'Allow', 'content_language': 'Content-Language',
    'www_authenticate': 'WWW-Authenticate', 'mimetype': 'Content-Type',
    'mimetype_params': 'Content-Type', 'content_type': 'Content-Type',
    'content_encoding': 'Content-Encoding', 'location': 'Location',
    'content_location': 'Content-Location', 'content_md5': 'Content-MD5',
}
FOREIGN = st.one_of(
    st.text(alphabet=st.characters(codec='latin-1', exclude_characters='\r\n'),
            max_size=10),
    st.text(alphabet='019\xb2\xb9+-. ', max_size=5),
    st.tuples(st.sampled_from('179'), st.sampled_from(
        [1, 2, 5, 9, 10, 11, 12, 15, 20, 300, 4300, 4301, 5000])).map(
            lambda c: c[0] * c[1]),
    st.sampled_from([
        'Thu, 99 Jan 2015 10:00:00 GMT', 'Thu, 01 Jan 99999 10:00:00 GMT',
        'Thu, 01 Jan 2015 10:00:00 +9999999', '1 Jan 0000 00:00:00', 'bytes',
        'bytes 0-', 'bytes 1-2/3', '"', 'W/', 'a=b', ';', ',', '=', 'Basic',
        'Digest x', 'text/', '/', 'a; b', 'max-age', 'max-age=x', '*']))


def check_foreign(case, t):
    """Attributes of a header someone else wrote can be read."""
    from verktyg.responses import Response
    names, text = case
    r = Response('x')
    for name in names:
        r.headers[READABLE[name]] = text
    t0 = datetime.utcnow()
    for name in names:
        got = getattr(r, name)
        if name == 'retry_after':
            t1 = datetime.utcnow()
            if text.isascii() and text.isdigit() and len(text) < 10:
                lo, hi = (x + timedelta(seconds=int(text)) for x in (t0, t1))
                t.ok(lo <= got <= hi, 'Retry-After %r: %r', text, got)
            elif got is not None:
                t.ok(isinstance(got, datetime), 'Retry-After %.50r: %r',
                     text, got)
        elif name in ('date', 'expires', 'last_modified'):
            t.ok(got is None or isinstance(got, datetime), '%s: %r', name, got)
        elif name == 'content_length':
            t.ok(got is None or isinstance(got, int), '%s: %r', name, got)
    for name in names:
        t.eq(r.headers.getlist(READABLE[name]), [text],
             'changed by reading ' + name)
    t.nontrivial(len(text) > 1)


LONG = st.one_of(DATA, stretched(DATA, 2000))

SUBS = [
    Sub('many', st.tuples(
        st.sampled_from(['utf-8', 'utf-8', 'latin-1', 'utf-16-le']),
        st.one_of(
            BODY, st.tuples(st.just('str'), stretched(TEXT, 9000)),
            st.tuples(st.sampled_from(
                ['list', 'tuple', 'generator', 'closeable', 'sized']),
                many(LONG, 5, 200))),
        STATUS, many(HEADERS.filter(bool).map(lambda h: h[0]), 5, 60),
        st.none(), CTYPE, many(OP, 1, 40), METHOD,
        st.sampled_from([None, None, 0, 1])), check_history, quick=500),
    Sub('many attributes', many(ATTR_OP, 12, 60), check_attributes,
        quick=300),
    Sub('long location', st.tuples(
        st.tuples(st.sampled_from(
            ['relative', 'absolute', 'full', 'network', 'up', 'opaque']),
            many(st.one_of(SEG, stretched(SEG, 60)), 3, 30), st.booleans(),
            st.sampled_from(['', '#f', '?q=' + 'é' * 500])),
        st.sampled_from(['http', 'https']), HOSTS,
        st.sampled_from([None, '8080', '443', '80']),
        many(SEG, 3, 30), st.sampled_from([True, True, False]),
        st.sampled_from([False, False, True])), check_location, quick=300),
    Sub('foreign', st.tuples(
        st.lists(st.sampled_from(sorted(READABLE)), min_size=4, max_size=4,
                 unique_by=READABLE.get), FOREIGN),
        check_foreign, quick=2000),
    Sub('history', st.tuples(
        st.sampled_from(['utf-8', 'utf-8', 'latin-1', 'utf-16-le']), BODY,
        STATUS, HEADERS, st.one_of(st.none(), st.none(), st.tuples(
            st.integers(0, 2), st.sampled_from(
                ['Content-Type', 'content-type', 'CONTENT-TYPE']))),
        CTYPE, st.lists(OP, max_size=6), METHOD,
        st.sampled_from([None, None, 0, 1])), check_history, quick=16000),
    Sub('attributes', st.lists(ATTR_OP, min_size=1, max_size=10),
        check_attributes, quick=6000),
    Sub('location', st.tuples(
        LOCATION, st.sampled_from(['http', 'https']), HOSTS,
        st.sampled_from([None, '8080', '443', '80']),
        st.lists(SEG, max_size=2), st.sampled_from([True, True, False]),
        st.sampled_from([False, False, True])), check_location, quick=6000),
    Sub('convert', st.tuples(
        st.sampled_from(['200 OK', '404 Nope', '299 X']),
        st.lists(st.tuples(st.sampled_from(['X-A', 'Set-Cookie', 'X-B']),
                           st.sampled_from(['a', 'b'])), max_size=3),
        st.lists(blob(4, 1), max_size=3),
        st.sampled_from(['response', 'write', 'list', 'generator',
                         'response-app']),
        st.sampled_from([None, True, False])), check_convert, quick=1600),
    Sub('passthrough', st.tuples(
        st.lists(blob(4), max_size=3), st.booleans(),
        st.booleans(), st.booleans(),
        st.sampled_from([200, 200, 404, 100, 204, 304]),
        st.sampled_from(['GET', 'HEAD', 'POST']), st.booleans()),
        check_passthrough, quick=2000),
    Sub('own attribute', st.tuples(
        st.sampled_from(['X-Attr', 'Age', 'content-md5']),
        st.sampled_from([None, None, 'd', 7]),
        st.sampled_from(['text', 'int', 'load', 'list']),
        st.sampled_from([False, False, True]),
        st.lists(st.tuples(st.sampled_from(
            ['set', 'set', 'del', 'header', 'broken', 'remove']),
            st.integers(-5, 30)), min_size=1, max_size=6)),
        check_property, quick=1000),
    Sub('wrap', st.tuples(
        st.lists(DATA, max_size=4), st.sampled_from([list, tuple, 'stream']),
        st.sampled_from(['utf-8', 'latin-1']), st.integers(0, 3)),
        check_wrap, quick=1000),
    Sub('groups', st.tuples(
        st.lists(st.tuples(st.sampled_from(KNOWN), st.integers(0, 2)),
                 max_size=6),
        st.lists(st.tuples(st.sampled_from(KNOWN), st.integers(0, 2)),
                 max_size=3), st.booleans()), check_groups, quick=1600),
]
