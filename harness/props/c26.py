"""C26: the test tools put into the environ what they are given."""
import io
import os
import shutil
import sys
import tempfile
from urllib.parse import parse_qsl, quote, urldefrag, urljoin, urlsplit

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import blob, many, stretched

ID = 'C26'
RULE = (
    'environ: arguments of the environ builder (percent encoded or raw '
    'non ASCII paths, base urls with port and script root, queries as '
    'text, bytes, mapping or multi dict with repeated and odd values, '
    'methods, headers, bodies as bytes, text, form fields and files, '
    'changes made through the attributes before and between builds) are '
    'read back through Request and independent parsers of urlencoded and '
    'multipart bodies. client: histories of requests to an application '
    'that sets, changes and deletes cookies and redirects (chains, loops, '
    'external targets), against a dictionary of cookies and a walk over '
    'the redirect table. chain: up to 60 redirects in a row. relative: '
    'chains of relative locations, resolved '
    'by urllib. run: applications that start their response '
    'early or late, write, yield, raise and have something to close, run '
    'buffered and not. Requests repeat header names, cookies carry '
    'scopes, redirects lead to failing targets; builder: histories of '
    'changes of the attributes of an environ builder against a model. '
    'many: up to 100 fields, parts, headers or requests. Non-trivial: a '
    'value needs encoding or occurs repeatedly; a cookie is returned or a '
    'redirect followed; the output has several parts.'
)
ASSUMPTIONS = [
    'names of multipart fields and files hold no quotes or line breaks, '
    'cookies are for the whole host, applications conform to PEP 3333',
]

TEXT = st.text(alphabet=st.one_of(
    st.sampled_from('abc019'), st.sampled_from(' +&=%#;/?:@"<>\\\'~\r\n\t,'),
    st.sampled_from('éü'), st.sampled_from('日\U0001f600')), max_size=7)
FIELD = st.text(alphabet='abcé _-.[]', min_size=1, max_size=5)
PATHTEXT = st.text(alphabet=st.one_of(
    st.sampled_from('abc/'), st.sampled_from(' +&=%#;?:@"<>\\\'~,!$*()'),
    st.sampled_from('éü日')), max_size=8)
PAIRS = st.lists(st.tuples(FIELD, TEXT), max_size=4)
FILE = st.tuples(
    FIELD, st.one_of(blob(20), st.sampled_from(
        [b'--', b'\r\n', b'\r\n--x', b'\r\n\r\n', b'x' * 40000])),
    st.sampled_from(['a.txt', 'b c.html', 'é.bin', 'noext', 'x.json']),
    st.sampled_from([None, None, 'image/png', 'text/plain; charset=x']),
    st.sampled_from(['tuple', 'storage', 'io', 'path']))
TYPES = {'a.txt': 'text/plain', 'b c.html': 'text/html',
         'é.bin': 'application/octet-stream', 'x.json': 'application/json',
         'noext': 'application/octet-stream'}
HEADERS = st.lists(st.tuples(
    st.sampled_from(['X-A', 'x-b', 'Accept', 'User-Agent', 'X-Long-Name']),
    st.text(alphabet='abc ;,="é', min_size=1, max_size=8)) | st.tuples(
    st.sampled_from(['Host', 'host']),
    st.sampled_from(['other.org', 'www.other.org:81'])), max_size=4)


class Short(io.BytesIO):
    """a file that hands out less than it is asked for"""

    def read(self, n=-1):
        return super(Short, self).read(7 if n < 0 or n > 7 else n)


def one_host(headers):
    seen = []
    for k, v in headers:
        if k.lower() == 'host':
            if 'host' in seen:
                continue
            seen.append('host')
        yield k, v


@st.composite
def large_environ_cases(draw):
    case = list(draw(environ_cases()))
    text = st.one_of(TEXT, stretched(TEXT, 500))
    if draw(st.booleans()):
        case[0] = '/' + draw(stretched(PATHTEXT, 200)).lstrip('/')
    for i in 4, 8:
        if draw(st.booleans()):
            case[i] = draw(many(st.tuples(FIELD, text), 10, 100))
        if draw(st.booleans()):
            case[i] = [('%s%d' % (k, j), v)
                       for j, (k, v) in enumerate(case[i])]
    case[6], case[7] = draw(stretched(blob(12), 3000)), draw(text)
    if draw(st.booleans()):
        case[9] = draw(many(FILE, 2, 20))
    if draw(st.booleans()):
        case[11] = list(one_host(draw(many(st.tuples(
            st.sampled_from(['X-A', 'x-b', 'Accept', 'X-' + 'L' * 90]),
            stretched(st.text(alphabet='abc;,="', min_size=1, max_size=8),
                      90)), 5, 90))))
    return tuple(case)


@st.composite
def environ_cases(draw):
    path = '/' + draw(PATHTEXT).lstrip('/')
    raw = draw(st.booleans())
    base = draw(st.one_of(st.none(), st.tuples(
        st.sampled_from(['http', 'https']),
        st.sampled_from(['localhost', 'example.org', 'a.b.example.org',
                         '127.0.0.1']),
        st.sampled_from([None, 80, 443, 8080]),
        st.sampled_from(['', '/', '/app', '/a/b/', '/é', '/a b']))))
    qkind = draw(st.sampled_from(
        ['none', 'str', 'inline', 'bytes', 'dict', 'list', 'multi', 'attr',
         'ordered', 'both']))
    query = draw(PAIRS)
    bkind = draw(st.sampled_from(
        ['none', 'bytes', 'str', 'form', 'form', 'files', 'files', 'stream',
         'attr', 'typed']))
    return (
        path, raw, base, qkind, query, bkind,
        draw(blob(12)), draw(TEXT), draw(PAIRS),
        draw(st.lists(FILE, min_size=1, max_size=2)),
        draw(st.sampled_from(['GET', 'POST', 'PUT', 'DELETE', 'X-Odd'])),
        list(one_host(draw(HEADERS))),
        draw(st.sampled_from(['utf-8', 'latin-1'])),
        draw(st.sampled_from(['request', 'environ', 'from_values'])),
    )


def group(pairs):
    out = {}
    for k, v in pairs:
        out.setdefault(k, []).append(v)
    return out


def parse_multipart(body, ctype):
    """independent, strict reader: list of (headers dict, content)"""
    kind, _, rest = ctype.partition(';')
    assert kind.strip() == 'multipart/form-data', ctype
    name, _, boundary = rest.strip().partition('=')
    assert name == 'boundary', ctype
    boundary = boundary.strip('"').encode('ascii')
    assert boundary
    parts = (b'\r\n' + body).split(b'\r\n--' + boundary)
    assert parts[0] == b'' and parts[-1] == b'--\r\n', (parts[0], parts[-1])
    out = []
    for p in parts[1:-1]:
        assert p[:2] == b'\r\n', p
        head, sep, content = p[2:].partition(b'\r\n\r\n')
        assert sep, p
        headers = {}
        for line in head.split(b'\r\n'):
            k, _, v = line.partition(b': ')
            headers[k.decode().lower()] = v
        out.append((headers, content))
    return out


def check_environ(case, t):
    if case[5] == 'attr' and any(f[4] == 'path' for f in case[9]):
        scratch = tempfile.mkdtemp(prefix='verif-c26-')
        try:
            t.label('file by name')
            run_environ(case, t, scratch)
        finally:
            shutil.rmtree(scratch)
    else:
        run_environ(case, t, None)


def run_environ(case, t, scratch):
    from verktyg.test import EnvironBuilder, create_environ
    from verktyg.requests import Request
    from verktyg.datastructures import MultiDict, OrderedMultiDict
    from verktyg.http import FileStorage, Headers
    (path, raw, base, qkind, query, bkind, data, text, form, files, method,
     headers, charset, how) = case
    if charset == 'latin-1':
        def fits(s):
            try:
                s.encode('latin-1')
                return True
            except UnicodeError:
                return False
        query = [p for p in query if fits(p[0] + p[1])]
        form = [p for p in form if fits(p[0] + p[1])]
        if not fits(text):
            text = 'é'
        files = [(n, c, f, ct, w) for n, c, f, ct, w in files]
    kw = {'method': method, 'charset': charset}
    kw['path'] = quote(path, safe='/éü日!$*()' if raw else '/')
    if base is not None:
        scheme, host, port, root = base
        host += ':%d' % port if port else ''
        kw['base_url'] = '%s://%s%s' % (scheme, host, root)
    else:
        scheme, host, root = 'http', 'localhost', ''
    if headers:
        kw['headers'] = list(headers)
        if len(headers) > 2:
            kw['headers'] = Headers(headers)
    later = []
    args = query
    qtext = '&'.join('%s=%s' % (quote(k, safe=''), quote(v, safe=''))
                     for k, v in query)
    if qkind == 'none':
        args, qtext = [], ''
    elif qkind == 'str':
        kw['query_string'] = qtext
    elif qkind == 'inline':
        kw['path'] += '?' + qtext
    elif qkind == 'bytes':
        kw['query_string'] = qtext.encode('ascii')
    elif qkind == 'dict':
        kw['query_string'] = group(query)
    elif qkind == 'list':
        kw['query_string'] = list(query)
    elif qkind == 'multi':
        kw['query_string'] = MultiDict(query)
    elif qkind == 'ordered':
        kw['query_string'] = OrderedMultiDict(query)
    elif qkind == 'both':
        # a query is given, the path is not searched for one
        kw['path'] += '?other=1'
        kw['query_string'] = qtext
    else:
        def add_args(b):
            for k, v in query:
                b.args.add(k, v)
        later.append(add_args)
    given = qkind in ('str', 'inline', 'bytes', 'none', 'both')

    def storage(f):
        name, content, filename, ctype, way = f
        if way == 'tuple':
            return (io.BytesIO(content), filename) + (
                (ctype,) if ctype else ())
        if way == 'storage':
            return FileStorage(io.BytesIO(content), filename, name,
                               content_type=ctype)
        f = Short(content) if len(content) % 2 else io.BytesIO(content)
        f.name = filename
        return f
    body = None
    stream = None
    paths = {}
    if bkind == 'bytes':
        kw['data'] = body = data
    elif bkind == 'str':
        kw['data'] = text
        body = text.encode(charset)
    elif bkind == 'form':
        kw['data'] = group(form) if len(form) % 2 else MultiDict(form)
        if len(data) % 2 and len(group(form)) == len(form):
            kw['data'] = dict(form)
    elif bkind == 'typed':
        kw['data'] = body = data
        kw['content_type'] = 'application/x-thing'
    elif bkind == 'stream':
        stream = io.BytesIO(b'xy' + data)
        stream.seek(2)
        kw['input_stream'] = stream
        body = data
    elif bkind == 'files':
        d = group(form)
        for f in files:
            d.setdefault(f[0], []).append(storage(f))
        if all(len(v) == 1 for v in d.values()) and len(d) % 2:
            d = {k: v[0] for k, v in d.items()}     # no lists needed
        elif len(data) % 3 == 0:
            d = MultiDict((k, v) for k, vs in d.items() for v in vs)
        kw['data'] = d
    elif bkind == 'attr':
        def add_form(b):
            for k, v in form:
                b.form.add(k, v)
            for i, f in enumerate(files):
                if f[4] == 'path':
                    # the file of that name on disk
                    fn = os.path.join(scratch, '%d-%s' % (
                        i, f[2].encode('ascii', 'replace').decode().replace(
                            '?', '_')))
                    with open(fn, 'wb') as out:
                        out.write(f[1])
                    if len(f[1]) % 2:
                        # under another name
                        b.files.add_file(f[0], fn, f[2], f[3])
                        continue
                    b.files.add_file(f[0], fn, *(
                        [] if f[3] is None else [None, f[3]]))
                    paths[i] = fn
                elif f[4] == 'storage':
                    b.files.add_file(f[0], FileStorage(
                        io.BytesIO(f[1]), f[2], f[0], content_type=f[3]))
                else:
                    b.files.add_file(f[0], io.BytesIO(f[1]), f[2], f[3])
        later.append(add_form)
    if how == 'from_values' and not later:
        r = Request.from_values(**kw)
        env = r.environ
    elif how == 'environ' and not later:
        env = create_environ(**kw)
        r = Request(env)
    else:
        b = EnvironBuilder(**kw)
        if later and bkind not in ('form', 'files'):
            early = b.get_environ()
            t.eq(early['wsgi.input'].read(), body or b'', 'early body')
            early['wsgi.input'].seek(2 if stream else 0)
        if qkind in ('dict', 'list', 'multi', 'ordered', 'none'):
            t.ok(isinstance(b.args, MultiDict), 'args is %r', b.args)
            t.eq(dict(b.args.lists()), group(args), 'args of the builder')
        for f in later:
            f(b)
        r = b.get_request(Request)
        env = r.environ
    t.eq(r.method, method.upper(), 'method')
    t.ok(env['wsgi.errors'] is sys.stderr, 'wsgi.errors')
    t.eq(env['REQUEST_METHOD'], method, 'REQUEST_METHOD')
    if qkind != 'both':
        t.eq(r.path, path, 'path')
    t.eq(env['SCRIPT_NAME'], root.rstrip('/').encode('utf-8').decode(
        'latin-1'), 'SCRIPT_NAME')
    t.eq(r.script_root, root.rstrip('/'), 'script_root')
    t.eq(r.host, next((v for k, v in headers if k.lower() == 'host'), host),
         'host')
    t.eq(r.scheme, scheme, 'scheme')
    name, _, port = host.partition(':')
    t.eq((env['SERVER_NAME'], env['SERVER_PORT']),
         (name, port or {'http': '80', 'https': '443'}[scheme]), 'server')
    if given:
        t.eq(r.query_string, qtext, 'query_string')
    if given or charset == 'utf-8':
        want = args
        t.eq(dict(r.args.lists()), group(want), 'args')
    t.eq(group(parse_qsl(env['QUERY_STRING'], True, encoding=(
        'utf-8' if given else charset))), group(args), 'QUERY_STRING')
    if qkind == 'ordered':
        t.eq(parse_qsl(env['QUERY_STRING'], True, encoding=charset), args,
             'order of the arguments')
    for k, v in headers:
        # repeated headers arrive as one
        t.eq([x.strip() for x in r.headers.get(k, '').split(',')], [
            x.strip() for j, v in headers if j.lower() == k.lower()
            for x in v.split(',')], 'header %s' % k)
    # the body
    got = env['wsgi.input'].read()
    length = int(env['CONTENT_LENGTH'] or 0)
    t.eq(length, len(got), 'CONTENT_LENGTH')
    ctype = env['CONTENT_TYPE']
    if bkind in ('files', 'attr'):
        parts = parse_multipart(got, ctype)
        fields, uploads = [], []
        for h, content in parts:
            disp = h['content-disposition'].decode(charset)
            if 'filename' in disp:
                left, _, fn = disp.partition('; filename="')
                uploads.append((left[len('form-data; name="'):-1], fn[:-1],
                                h['content-type'].decode(), content))
            else:
                t.ok('content-type' not in h, 'type of a field')
                fields.append((disp[len('form-data; name="'):-1],
                               content.decode(charset)))
        t.eq(group(fields), group(form), 'fields')
        # a bare stream has a name but its type is not guessed
        want = [(n, paths.get(i, f), 'application/octet-stream'
                 if w in ('io', 'path') and bkind == 'files'
                 else c or TYPES[f], x)
                for i, (n, x, f, c, w) in enumerate(files)]
        t.eq(sorted(uploads), sorted(want), 'files')
        for n in set(u[0] for u in uploads):
            t.eq([u for u in uploads if u[0] == n],
                 [u for u in want if u[0] == n], 'order of files')
        t.label('multipart')
    elif bkind == 'form':
        t.eq(group(parse_qsl(got.decode('ascii'), True, encoding=charset)),
             group(form), 'form')
        if form:
            t.eq(ctype, 'application/x-www-form-urlencoded', 'type')
    elif bkind == 'typed':
        t.eq((got, ctype), (body, 'application/x-thing'), 'body')
    else:
        t.eq(got, body or b'', 'body')
        t.eq(ctype, '', 'type')
    env['wsgi.input'].seek(2 if stream else 0)
    t.eq(r.get_data(), got, 'get_data')
    t.nontrivial(quote(path, safe='/') != path or len(query) > 1 or
                 bkind not in ('none', 'bytes'))
    t.label(bkind, 'query ' + qkind)


# the parts of the builder one by one

@st.composite
def builder_cases(draw):
    pairs = st.lists(st.tuples(FIELD, TEXT), min_size=1, max_size=3)
    ops = st.one_of(
        st.tuples(st.just('query_string'), pairs),
        st.tuples(st.just('args'), pairs),
        st.tuples(st.just('add arg'), FIELD, TEXT),
        st.tuples(st.just('base_url'), st.sampled_from([
            'http://localhost', 'https://example.org', None,
            'http://example.org:8080/app', 'http://example.org/a/b/'])),
        st.tuples(st.just('bad base_url'), st.sampled_from(
            ['http://localhost/?x=1', 'http://localhost/#x',
             'http://localhost/?a#b'])),
        st.tuples(st.just('input'), blob(6)),
        st.tuples(st.just('form'), pairs),
        st.tuples(st.just('file'), FILE),
        st.tuples(st.just('content_type'), st.sampled_from(
            [None, 'text/x', 'application/json'])),
        st.tuples(st.just('content_length'), st.sampled_from([None, 0, 3])),
        st.tuples(st.just('method'), st.sampled_from(['POST', 'GET', 'X'])),
        st.tuples(st.just('header'), st.sampled_from(
            ['X-A', 'X-A', 'x-a', 'X-B']), st.sampled_from(['3', '4 5'])),
        st.tuples(st.just('flag'), st.sampled_from(
            ['multithread', 'multiprocess', 'run_once']), st.booleans()),
        st.tuples(st.sampled_from(['environ_base', 'environ_overrides']),
                  st.dictionaries(st.sampled_from(
                      ['REMOTE_ADDR', 'PATH_INFO', 'x.y', 'HTTP_X_A',
                       'REQUEST_METHOD']), st.sampled_from(['1', '2']),
                      min_size=1, max_size=2)))
    return draw(st.lists(ops, min_size=1, max_size=7))


def check_builder(ops, t):
    from verktyg.test import EnvironBuilder
    from verktyg.datastructures import MultiDict
    errors = io.StringIO()
    b = EnvironBuilder('/p', errors_stream=errors)
    query, args = None, []
    base = ('http', 'localhost', '')
    stream, form, files, headers = None, [], [], []
    ctype = clength = None
    method = 'GET'
    flags = {'multithread': False, 'multiprocess': False, 'run_once': False}
    extra = {'environ_base': {}, 'environ_overrides': {}}
    opened = []
    for op in ops:
        name = op[0]
        t.label(name)
        if name == 'query_string':
            query = '&'.join('%s=%s' % (quote(k, safe=''), quote(v, safe=''))
                             for k, v in op[1])
            b.query_string = query
            t.raises(AttributeError, lambda: b.args)
        elif name == 'args':
            query, args = None, list(op[1])
            b.args = MultiDict(args)
        elif name == 'add arg':
            if query is not None:
                continue
            args = args + [op[1:]]
            b.args.add(*op[1:])
        elif name == 'base_url':
            b.base_url = op[1]
            scheme, _, rest = (op[1] or 'http://localhost').partition('://')
            host, slash, root = rest.partition('/')
            base = scheme, host, (slash + root).rstrip('/')
        elif name == 'bad base_url':
            t.raises(ValueError, setattr, b, 'base_url', op[1])
        elif name == 'input':
            stream = op[1]
            b.input_stream = io.BytesIO(stream)
            form, files = [], []
            t.raises(AttributeError, lambda: b.form)
            t.raises(AttributeError, lambda: b.files)
        elif name == 'form':
            stream, form = None, list(op[1])
            b.form = MultiDict(form)
        elif name == 'file':
            if stream is not None:
                continue
            f = op[1]
            opened.append(io.BytesIO(f[1]))
            b.files.add_file(f[0], opened[-1], f[2], f[3])
            files.append(f)
        elif name == 'content_type':
            b.content_type = ctype = op[1]
        elif name == 'content_length':
            b.content_length = clength = op[1]
        elif name == 'method':
            b.method = method = op[1]
        elif name == 'header':
            b.headers.add(*op[1:])
            headers.append(op[1:])
        elif name == 'flag':
            setattr(b, op[1], op[2])
            flags[op[1]] = op[2]
        else:
            setattr(b, name, dict(op[1]))
            extra[name] = op[1]
        t.eq(b.base_url, '%s://%s%s/' % base, 'base_url')
        t.eq(b.content_length, clength, 'content_length')
        want = ctype
        if ctype is None and not stream and stream is None:
            want = ('multipart/form-data' if files else
                    'application/x-www-form-urlencoded' if form else None)
        t.eq(b.content_type, want, 'content_type')
        if query is not None:
            t.eq(b.query_string, query, 'query_string')
        else:
            t.eq(group(parse_qsl(b.query_string, True)), group(args), 'args')
    t.nontrivial(len(ops) > 2)
    env = b.get_environ()
    name, _, port = base[1].partition(':')
    want = {
        'REQUEST_METHOD': method, 'SCRIPT_NAME': base[2], 'PATH_INFO': '/p',
        'SERVER_NAME': name, 'SERVER_PORT': port or (
            '443' if base[0] == 'https' else '80'), 'HTTP_HOST': base[1],
        'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.version': (1, 0),
        'wsgi.url_scheme': base[0], 'wsgi.errors': errors,
        'wsgi.multithread': flags['multithread'],
        'wsgi.multiprocess': flags['multiprocess'],
        'wsgi.run_once': flags['run_once'],
    }
    for k, v in extra['environ_base'].items():
        want.setdefault(k, v)
    for k, v in headers:
        k = 'HTTP_' + k.upper().replace('-', '_')
        want[k] = ', '.join(
            w for x, w in headers
            if 'HTTP_' + x.upper().replace('-', '_') == k)
    want.update(extra['environ_overrides'])
    for k, v in want.items():
        t.eq(env.get(k), v, k)
    body = env['wsgi.input'].read()
    if stream is not None:
        t.eq(body, stream, 'body')
    elif files and ctype is None:
        parts = parse_multipart(body, env['CONTENT_TYPE'])
        t.eq(len(parts), len(files) + len(form), 'parts')
    elif form and ctype is None:
        t.eq(group(parse_qsl(body.decode('ascii'), True)), group(form),
             'form')
    b.close()
    b.close()
    for f in opened:
        if not any(op[0] == 'input' for op in ops):
            t.ok(f.closed, 'close() left a file open')


# multipart encoding on its own

def check_multipart(case, t):
    from verktyg.test import encode_multipart, stream_encode_multipart
    from verktyg.datastructures import MultiDict
    pairs, threshold, boundary, how = case
    from verktyg.http import FileStorage
    if how == 'dict':
        pairs = list(dict(pairs).items())
    elif how == 'latin':
        pairs = [(k, v.encode('latin-1', 'ignore').decode('latin-1')
                  if isinstance(v, str) else v) for k, v in pairs]
    files = {}

    def upload(i, v):
        if not isinstance(v, tuple):
            return v
        way, content, name, ctype = v
        files[i] = name, ctype
        stream = Short(content) if len(content) % 3 == 0 else io.BytesIO(
            content)
        if way == 'storage':
            return FileStorage(stream, name, content_type=ctype)
        if way == 'unnamed':
            files[i] = None, None
        else:
            stream.name = name
            if ctype is not None:
                stream.content_type = ctype
        return stream
    values = MultiDict((k, upload(i, v)) for i, (k, v) in enumerate(pairs))
    if how == 'dict':
        values = {k: values[k] for k in values}
    given = pairs
    pairs = [(k, v[1] if isinstance(v, tuple) else v) for k, v in pairs]
    if how == 'stream':
        stream, length, b = stream_encode_multipart(
            values, threshold=threshold, boundary=boundary)
        body = stream.read()
        stream.close()
        t.eq(length, len(body), 'length')
    elif how == 'memory':
        stream, length, b = stream_encode_multipart(
            values, use_tempfile=False, boundary=boundary)
        body = stream.read()
        t.eq(length, len(body), 'length')
    elif how == 'latin':
        b, body = encode_multipart(values, boundary, 'latin-1')
    else:
        b, body = encode_multipart(values, boundary=boundary)
    charset = 'latin-1' if how == 'latin' else 'utf-8'
    if boundary is not None:
        t.eq(b, boundary, 'boundary')
    parts = parse_multipart(body, 'multipart/form-data; boundary="%s"' % b)
    got, shown = [], []
    for h, c in parts:
        left, sep, fn = h['content-disposition'].decode(charset)[
            len('form-data; name="'):-1].partition('"; filename="')
        got.append((left, c))
        ctype = h.get('content-type')
        shown.append((left, fn if sep else None,
                      ctype if ctype is None else ctype.decode()))
    want = [(k, None, None) if i not in files else (
        k, files[i][0], files[i][1] or TYPES.get(
            files[i][0], 'application/octet-stream'))
        for i, (k, v) in enumerate(given)]
    t.eq(group((k, x) for k, *x in shown), group((k, x) for k, *x in want),
         'names and types')
    t.eq(group(got), group(
        [(k, v if isinstance(v, bytes) else str(v).encode(charset))
         for k, v in pairs]), 'fields')
    t.nontrivial(len(pairs) > 1)
    t.label('on disk' if how == 'stream' and len(body) > threshold
            else 'in memory')


# the client

CVALUE = st.text(alphabet=st.one_of(
    st.sampled_from('abc019'), st.sampled_from(' ,;="\\é日')), max_size=6)
CNAME = st.sampled_from(['a', 'b', 'sess', 'X-1'])
PLACES = ['/p0', '/p1', '/p2', '/p3/x', '/p é']
CLIENT_OP = st.one_of(
    st.tuples(st.just('set'), CNAME, CVALUE),
    st.tuples(st.just('set'), CNAME, CVALUE),
    st.tuples(st.just('delete'), CNAME),
    st.tuples(st.just('client-set'), CNAME, CVALUE),
    st.tuples(st.just('client-delete'), CNAME),
    st.tuples(st.just('below-set'), CVALUE),
    st.tuples(st.just('below-delete'), st.booleans()),
    st.tuples(st.just('domain-set'), CVALUE),
    st.tuples(st.just('domain-delete'), st.booleans()),
    st.tuples(st.just('header')),
    st.tuples(st.just('look')), st.tuples(st.just('look')),
    st.tuples(st.just('go'), st.sampled_from(PLACES), st.booleans(),
              st.sampled_from(['GET', 'POST', 'PUT', 'PATCH', 'DELETE',
                               'OPTIONS', 'TRACE', 'HEAD'])),
    st.tuples(st.just('go'), st.sampled_from(PLACES), st.just(True),
              st.sampled_from(['GET', 'POST', 'PUT'])),
)
TARGET = st.tuples(
    st.sampled_from(PLACES + PLACES + [
        'external', 'subdomain', 'subdomain', 'alike', 'parent', 'port',
        'fail']),
    st.sampled_from([301, 302, 303, 305, 307]),
    st.sampled_from(['', '?q=1', '?a=b&c=%C3%A9']))


def check_client(case, t):
    from verktyg.test import (
        Client, ClientRedirectError, EnvironBuilder, create_environ)
    from verktyg.responses import Response
    from verktyg.requests import Request
    table, sub, use_cookies, wrapper, buffered, styles, ops = case
    log_all = []
    table = dict((k, v) for k, v in table if v)
    host = 'example.org'
    log = []

    def target(to):
        place, code, query = to
        where = {'external': 'http://evil.org/x',
                 'alike': 'http://badexample.org/x',
                 'parent': 'http://example.org.evil.org/x',
                 'port': 'http://example.org:8080/p1',
                 'fail': 'http://example.org/fail',
                 'subdomain': 'http://sub.example.org/p0'}.get(
            place, 'http://example.org' + quote(place))
        return where + query

    def app(environ, start_response):
        request = Request(environ)
        log.append((request.method, request.host, request.path,
                    request.query_string, dict(request.cookies)))
        if request.path == '/fail':
            raise ZeroDivisionError
        if request.path == '/set':
            r = Response('set')
            r.set_cookie(request.args['k'], request.args.get('v', ''))
        elif request.path == '/delete':
            r = Response('deleted')
            r.delete_cookie(request.args['k'])
        elif request.path in table:
            to = table[request.path]
            r = Response('moved', status=to[1])
            r.headers['Location'] = target(to)
        else:
            r = Response('body of %s' % request.path)
        return r(environ, start_response)

    def factory(app_iter, status, headers):
        return 'wrapped', b''.join(app_iter), status, headers
    options = {'response_wrapper': factory if wrapper else None,
               'use_cookies': use_cookies,
               'allow_subdomain_redirects': sub}
    if len(ops) % 2:
        # the default ones need not be given
        defaults = {'response_wrapper': None, 'use_cookies': True,
                    'allow_subdomain_redirects': False}
        options = {k: v for k, v in options.items() if v != defaults[k]}
    client = Client(app, **options)
    jar = {}

    def open(*args, **kw):
        kw['base_url'] = 'http://' + host
        how = {'buffered': buffered}
        if 'follow_redirects' in kw:
            how['follow_redirects'] = kw.pop('follow_redirects')
        # the different ways of saying the same
        style = styles[len(log_all) % len(styles)]
        log_all.append(style)
        if style == 'verb':
            rv = getattr(client, kw.pop('method', 'GET').lower())(
                *args, **dict(kw, **how))
        elif style == 'builder':
            rv = client.open(EnvironBuilder(*args, **kw), **how)
        elif style == 'environ':
            rv = client.open(create_environ(*args, **kw), **how)
        elif style == 'tuple':
            environ, rv = client.open(*args, as_tuple=True,
                                      **dict(kw, **how))
            last = Request(environ)
            t.eq((last.method, last.host, last.path, last.query_string),
                 log[-1][:4], 'environ of the last request')
        else:
            rv = client.open(*args, **dict(kw, **how))
        if wrapper:
            t.eq(rv[0], 'wrapped', 'response wrapper')
            return rv[2], rv[1], rv[3]
        return rv[1], b''.join(rv[0]), rv[2]
    followed = returned = False
    for op in ops:
        del log[:]
        if op[0] == 'set':
            open('/set', query_string={'k': op[1], 'v': op[2]})
            t.eq(log, [('GET', host, '/set', log[0][3], jar)], 'request')
            if use_cookies:
                jar[op[1]] = op[2]
        elif op[0] == 'delete':
            open('/delete', query_string={'k': op[1]})
            t.eq(log[0][4], jar, 'cookies')
            jar.pop(op[1], None)
        elif op[0] == 'client-set':
            if use_cookies:
                client.set_cookie(host, *(op[1:] if op[2] else op[1:2]))
                jar[op[1]] = op[2]
        elif op[0] == 'client-delete':
            if use_cookies:
                client.delete_cookie(host, op[1])
                jar.pop(op[1], None)
        elif op[0] in ('below-set', 'domain-set'):
            if use_cookies and op[0] == 'below-set':
                client.set_cookie(host, 'below', op[1], path='/x/y')
                jar['below'] = op[1]
            elif use_cookies:
                client.set_cookie('www.example.org', 'shared', op[1],
                                  domain='.example.org')
                jar['shared'] = op[1]
        elif op[0] == 'below-delete':
            # only with the path it was set for
            if use_cookies and op[1]:
                client.delete_cookie(host, 'below', path='/x/y')
                jar.pop('below', None)
            elif use_cookies:
                client.delete_cookie(host, 'below')
        elif op[0] == 'domain-delete':
            if use_cookies and op[1]:
                client.delete_cookie('www.example.org', 'shared',
                                     domain='.example.org')
                jar.pop('shared', None)
            elif use_cookies:
                client.delete_cookie('www.example.org', 'shared')
        elif op[0] == 'header':
            # cookies that are just a header of this request
            if not jar:
                open('/look', headers={'Cookie': 'own=1'})
                t.eq(log[0][4], {'own': '1'}, 'cookies of the header')
        elif op[0] == 'look':
            status, body, headers = open('/look')
            t.eq((status, body), ('200 OK', b'body of /look'), 'answer')
            t.eq(log, [('GET', host, '/look', '', jar)], 'request')
            returned = returned or bool(jar)
        else:
            _, place, follow, method = op
            # walk the table
            want = [(method, host, place, '', jar)]
            outcome = None
            seen = []
            at, m, h = place, method, host
            while at in table and follow:
                to = table[at]
                if (to[1], target(to)) in seen:
                    outcome = 'loop'
                    break
                seen.append((to[1], target(to)))
                if to[0] in ('external', 'alike', 'parent') or (
                        to[0] == 'subdomain' and not (
                            sub or h == 'sub.example.org')):
                    outcome = 'external'
                    break
                if to[0] != 'subdomain' and h == 'sub.example.org':
                    outcome = 'external'      # back to the parent domain
                    break
                h = {'subdomain': 'sub.example.org',
                     'port': 'example.org:8080'}.get(to[0], host)
                at = {'subdomain': '/p0', 'port': '/p1',
                      'fail': '/fail'}.get(to[0], to[0])
                m = m if to[1] == 307 else 'GET'
                q = to[2].lstrip('?').replace('%C3%A9', '%C3%A9')
                want.append((m, h, at, q, jar))
            if at == '/fail' and outcome is None:
                outcome = 'fail'
            if outcome is None:
                status, body, headers = open(
                    quote(place), method=method, follow_redirects=follow)
                if at in table:
                    t.eq((int(status[:3]), headers['Location']),
                         (table[at][1], target(table[at])), 'redirect')
                else:
                    t.eq((status, body), (
                        '200 OK', b'' if m == 'HEAD' else (
                            'body of ' + at).encode('utf-8')),
                        'answer')
            elif outcome == 'fail':
                t.raises(ZeroDivisionError, open, quote(place),
                         method=method, follow_redirects=True)
            elif outcome == 'loop':
                t.raises(ClientRedirectError, open, quote(place),
                         method=method, follow_redirects=True)
            else:
                t.raises(RuntimeError, open, quote(place), method=method,
                         follow_redirects=True)
            got = [x[:4] for x in log]
            t.eq(got, [x[:4] for x in want], 'requests')
            for x in log:
                t.eq(x[4], jar, 'cookies')
            t.ok((client.response_wrapper is factory) == wrapper,
                 'response wrapper lost')
            followed = followed or len(want) > 1
            t.label(outcome or ('followed' if len(want) > 1 else 'plain'))
    t.nontrivial(followed or returned)


HOP = st.one_of(
    st.sampled_from(['/', '/a', '/a/b/', 'rel', 'rel/x', './x', '../up',
                     '../../up/', '?q=1', '?', '', '//example.org/net',
                     'http://example.org/full', '/a?x=1#frag', '#frag',
                     '/a%20b/c%C3%A9d', '.', '..', 'b?y=%26&z']),
    st.lists(st.sampled_from(['a', 'b', '..', '.', 'c%20d', 'x+y']),
             max_size=4).map('/'.join))


def check_relative(case, t):
    """A location may be relative to where the client is."""
    from verktyg.test import Client, ClientRedirectError
    start, root, codes, hops, loop = case
    log = []

    def app(environ, start_response):
        log.append(quote((environ['SCRIPT_NAME'] + environ['PATH_INFO'])
                         .encode('latin-1'), safe="/+'") + (
            '?' + environ['QUERY_STRING'] if environ['QUERY_STRING'] else ''))
        n = len(log) - 1
        if n < len(hops) or loop and n < 100:
            start_response('%d Moved' % codes[n % len(codes)],
                           [('Location', hops[n % len(hops)])])
            return [b'moved']
        start_response('200 OK', [])
        return [b'done']
    at = 'http://example.org%s%s' % (root, start)
    want = [at]
    seen = set()
    cycle = looped = False
    for n in range(40 if loop else len(hops)):
        at = urldefrag(urljoin(at, hops[n % len(hops)]))[0]
        if at.endswith('/net') or not urlsplit(at).path:
            at = at.rstrip('/') + ('' if urlsplit(at).path else '/')
        # the same target again, at the same stage or another
        cycle = cycle or (at, n % len(hops), n % len(codes)) in seen
        looped = looped or any(at == x[0] for x in seen)
        seen.add((at, n % len(hops), n % len(codes)))
        want.append(at)

    def call():
        return Client(app).open(
            start, base_url='http://example.org%s/' % root,
            follow_redirects=True)
    if cycle:
        t.raises(ClientRedirectError, call)
    elif not looped and not loop:
        app_iter, status, headers = call()
        t.eq((status, b''.join(app_iter)), ('200 OK', b'done'), 'answer')
        got = ['http://example.org' + x for x in log]
        t.eq(got, [x.rstrip('?') for x in want], 'requests')
        t.label('%d hops' % len(hops))
    t.nontrivial(any(not x.startswith(('/', 'http')) for x in hops))


def check_chain(case, t):
    """Redirects end, however many there are, or are a loop."""
    from verktyg.test import Client, ClientRedirectError
    length, back, codes, buffered = case
    log = []

    def app(environ, start_response):
        n = int(environ['PATH_INFO'][1:])
        log.append(n)
        if n == length and back is None:
            start_response('200 OK', [])
            return [b'done']
        # in a loop the target and the status have to be those of before
        to = n + 1 if n < length else back % (length + 1)
        start_response('%d Moved' % codes[to % len(codes)],
                       [('Location', 'http://localhost/%d' % to)])
        return [b'moved']
    call = lambda: Client(app).open(
        '/0', follow_redirects=True, buffered=buffered)
    if back is None:
        app_iter, status, headers = call()
        t.eq((status, b''.join(app_iter)), ('200 OK', b'done'), 'answer')
        t.eq(log, list(range(length + 1)), 'requests')
        t.nontrivial(length > 1)
    else:
        t.raises(ClientRedirectError, call)
        t.ok(len(log) <= 2 * (length + 2), '%d requests', len(log))
        t.eq(log[:length + 1], list(range(length + 1)), 'requests')
        t.nontrivial()


# running an application

APP_OP = st.one_of(
    st.tuples(st.just('write'), blob(3)),
    st.tuples(st.just('yield'), blob(3)),
    st.tuples(st.just('yield'), blob(3)),
)


def check_run(case, t):
    from verktyg.test import run_wsgi_app, Client
    kind, early, before, ops, status, closing, buffered, fail, via = case
    log = []
    written = []

    def body():
        return [x[1] for x in ops if x[0] == 'yield']

    class Closing(object):
        def __init__(self, it):
            self.it = iter(it)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def close(self):
            log.append('close')

    class Container(object):
        def __init__(self, it):
            self.it = it

        def __iter__(self):
            return iter(self.it)

        def close(self):
            log.append('close')
    headers = [('Content-Type', 'text/x'), ('X-A', '1'), ('X-A', '2')]

    def gen(environ, start_response):
        if early:
            start_response(status, headers)
        for x in before:
            if not early:
                start_response(status, headers)
            yield x
            break
        else:
            if not early:
                start_response(status, headers)
        for x in body():
            yield x
        if fail:
            raise LookupError('x')

    def app(environ, start_response):
        log.append('call')
        if kind == 'gen':
            rv = gen(environ, start_response)
        else:
            write = start_response(status, list(headers))
            for x in ops:
                if x[0] == 'write':
                    write(x[1])
                    written.append(x[1])
            rv = body()
            if fail:
                def failing(items=rv):
                    for x in items:
                        yield x
                    raise LookupError('x')
                rv = failing()
        if closing == 'iterator':
            rv = Closing(rv)
        elif closing == 'container':
            rv = Container(rv)
        return rv
    environ = {'REQUEST_METHOD': 'GET', 'SERVER_NAME': 'x',
               'SERVER_PORT': '80', 'wsgi.url_scheme': 'http',
               'HTTP_HOST': 'x', 'PATH_INFO': '/', 'SCRIPT_NAME': '',
               'QUERY_STRING': ''}
    want = []
    if kind == 'gen':
        want += before[:1]
    want += [x[1] for x in ops if x[0] == 'write'] if kind != 'gen' else []
    want += body()
    closes = ['close'] if closing else []
    if fail and buffered:
        t.raises(LookupError, run_wsgi_app, app, environ, buffered=True)
        t.eq(log, ['call'] + closes, 'closed after failing')
        t.nontrivial(bool(closing))
        return
    if fail and kind == 'gen' and not want:
        # fails before there is anything to return
        t.raises(LookupError, run_wsgi_app, app, environ)
        return
    if via == 'client':
        it, st_, hd = Client(app).run_wsgi_app(environ, buffered)
    else:
        it, st_, hd = run_wsgi_app(app, environ, buffered)
    t.eq(st_, status, 'status')
    t.eq(list(hd), headers, 'headers')
    if buffered:
        t.eq(log, ['call'] + closes, 'closed')
        t.eq(b''.join(it), b''.join(want), 'output')
    else:
        t.eq(log, ['call'], 'closed early')
        got = []
        try:
            for x in it:
                got.append(x)
        except LookupError:
            t.ok(fail, 'failed')
        else:
            t.ok(not fail, 'exception lost')
        t.eq(b''.join(got), b''.join(want), 'output')
        if hasattr(it, 'close'):
            it.close()
        else:
            t.ok(not closing, 'nothing to close')
        t.eq(log, ['call'] + closes, 'closed')
    t.nontrivial(len(want) > 1)


MVALUE = st.one_of(TEXT, blob(30), st.integers(-5, 10**6),
                   st.sampled_from(['x' * 300, b'\r\n--', '--', '']))
SUBS = [
    Sub('environ', environ_cases(), check_environ, quick=4000),
    Sub('relative', st.tuples(
        st.sampled_from(['/', '/x', '/x/y', '/x/y/z/']),
        st.sampled_from(['', '', '/app', '/app/sub']),
        st.lists(st.sampled_from([301, 302, 303, 307]), min_size=1,
                 max_size=3), st.lists(HOP, min_size=1, max_size=4),
        st.sampled_from([False, False, False, True])), check_relative,
        quick=500),
    Sub('chain', st.tuples(
        st.one_of(st.integers(0, 5), st.integers(5, 60)),
        st.one_of(st.none(), st.none(), st.integers(0, 99)),
        st.lists(st.sampled_from([301, 302, 303, 305, 307]), min_size=1,
                 max_size=3), st.booleans()), check_chain, quick=150),
    Sub('many fields', large_environ_cases(), check_environ, quick=200),
    Sub('many requests', st.tuples(
        st.tuples(*[st.one_of(st.just((p, None)), st.tuples(
            st.just(p), TARGET)) for p in PLACES]),
        st.booleans(), st.sampled_from([True, True, False]), st.booleans(),
        st.booleans(), st.lists(st.sampled_from(
            ['plain', 'verb', 'builder', 'environ', 'tuple']), min_size=1,
            max_size=3), many(st.one_of(CLIENT_OP, st.tuples(
                st.sampled_from(['set', 'client-set']),
                st.integers(0, 60).map(lambda i: 'n%d' % i),
                stretched(CVALUE, 300))), 12, 60)),
        check_client, quick=100),
    Sub('builder', builder_cases(), check_builder, quick=3000),
    Sub('multipart', st.tuples(
        st.lists(st.tuples(FIELD, st.one_of(MVALUE, MVALUE, st.tuples(
            st.sampled_from(['storage', 'stream', 'unnamed']), blob(9),
            st.sampled_from(sorted(TYPES)),
            st.sampled_from([None, 'image/png', 'text/x; charset=y'])))),
            max_size=5),
        st.sampled_from([0, 10, 100, 300, 1000, 500000]),
        st.one_of(st.none(), st.just('frontier-of-files')),
        st.sampled_from(['stream', 'memory', 'encode', 'dict', 'latin'])),
        check_multipart, quick=2000),
    Sub('many parts', st.tuples(
        st.one_of(many(st.tuples(FIELD, st.one_of(MVALUE, st.tuples(
            st.sampled_from(['storage', 'stream']), blob(9),
            st.just('a.txt'), st.none())))),
            st.lists(st.tuples(FIELD, stretched(blob(9), 5000)),
                     min_size=1, max_size=2)),
        st.sampled_from([0, 100, 1000, 10000, 500000]),
        st.one_of(st.none(), st.just('frontier-of-files')),
        st.sampled_from(['stream', 'memory', 'encode', 'dict', 'latin'])),
        check_multipart, quick=100),
    Sub('client', st.tuples(
        st.tuples(*[st.one_of(st.just((p, None)), st.tuples(
            st.just(p), TARGET), st.tuples(st.just(p), TARGET))
            for p in PLACES]),
        st.booleans(), st.sampled_from([True, True, False]), st.booleans(),
        st.booleans(), st.lists(st.sampled_from(
            ['plain', 'verb', 'builder', 'environ', 'tuple']), min_size=1,
            max_size=3), st.lists(CLIENT_OP, min_size=3, max_size=10)),
        check_client, quick=3500),
    Sub('run', st.tuples(
        st.sampled_from(['gen', 'list']), st.booleans(),
        st.lists(blob(3), max_size=2),
        st.lists(APP_OP, max_size=4),
        st.sampled_from(['200 OK', '404 NOT FOUND', '500 x y z']),
        st.sampled_from([None, 'iterator', 'container']), st.booleans(),
        st.sampled_from([False, False, True]),
        st.sampled_from(['function', 'client'])), check_run, quick=2500),
]
