"""C21: URL conversions and redirects keep the meaning of a URL."""
import re
from html.parser import HTMLParser
from urllib.parse import quote, unquote, unquote_to_bytes, urlsplit

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import many, stretched

ID = 'C21'
RULE = (
    'URLs are put together from components (scheme, user name, password, '
    'host as domain name, internationalised domain name or address, port, '
    'path segments, query pairs, fragment) whose text holds reserved, '
    'unreserved, unsafe and non ASCII characters, each of them escaped or '
    'left alone where that is possible. Oracle: the components, which an '
    'independent splitter must find again, decoded, in the converted URL; '
    'the result of iri_to_uri and url_fix is ASCII, holds only characters '
    'allowed in a URI and converting it again changes nothing; converting '
    'to the other form and back gives an equal URL. redirect and '
    'append_slash_redirect are run as WSGI applications. stray: per cent '
    'signs that start no escape, and at signs and colons in user names '
    'and passwords. The three ways of treating bytes that are not UTF-8 '
    'are tried. long: components of some hundred characters, up to 60 '
    'segments and 100 parameters. Non-trivial: a component with a '
    'character that has to be escaped.'
)
ASSUMPTIONS = [
    'escapes are valid UTF-8; absolute URLs, or paths starting with one '
    'slash; a port is not zero and a password not empty; host names are '
    'lower case and valid',
]

PLAIN = 'abcXYZ019-._~'
UNSAFE = ' "<>^`{|}'
WIDE = 'éü日☃\U0001f600'
RESERVED_PATH = ":@!$&'()*+,=;"
TEXT = st.text(alphabet=st.one_of(
    st.sampled_from(PLAIN), st.sampled_from(UNSAFE), st.sampled_from(WIDE),
    st.sampled_from(RESERVED_PATH), st.sampled_from('%/?#[]&=+\\')),
    max_size=6)
ASCII_HOSTS = ['example.org', 'localhost', 'a.b-c.example.com', '127.0.0.1']
IDN = [('bücher.example', 'xn--bcher-kva.example'),
       ('☃.net', 'xn--n3h.net'),
       ('www.日本語.jp', 'www.xn--wgv71a119e.jp')]
HOST = st.one_of(
    st.sampled_from([(h, h) for h in ASCII_HOSTS]),
    st.sampled_from(IDN),
    st.sampled_from([('[::1]', '[::1]'), ('[2001:db8::7]',) * 2]))
USER = st.one_of(
    st.just((None, None)),
    st.tuples(TEXT.filter(bool), st.one_of(st.none(), TEXT.filter(bool))),
    st.tuples(st.just(''), TEXT.filter(bool)))
PORT = st.sampled_from([None, None, 1, 80, 443, 8080, 65535])
SEGS = st.lists(TEXT, max_size=4)
QUERY = st.lists(st.tuples(TEXT, TEXT), max_size=3)
FRAG = st.one_of(st.none(), TEXT)
MASK = st.integers(0, 2 ** 12)

URI_CHARS = re.compile(
    r"\A(?:[A-Za-z0-9\-._~:/?#\[\]@!$&'()*+,;=]|%)*\Z")


def esc(text, must, mask, keep_wide):
    """escapes the characters of `text`: those in `must` and the per cent
    sign always, others as the bits of mask say"""
    out = []
    for i, c in enumerate(text):
        forced = c in must or c == '%' or c in '\t\r\n'
        if c in WIDE or c in UNSAFE:
            forced = forced or not keep_wide
        if forced or (mask >> (i % 12)) & 1:
            # the case of the digits does not matter
            hexa = ['%%%02X' % b for b in c.encode('utf-8')]
            how = (mask >> 3) + i
            if how % 3 == 1:
                hexa = [x.lower() for x in hexa]
            elif how % 3 == 2:
                hexa = [x[:2] + x[2:].lower() if how % 2 else
                        x[:2].lower() + x[2:] for x in hexa]
            out.append(''.join(hexa))
        else:
            out.append(c)
    return ''.join(out)


def build(parts, mask, as_iri):
    """the URL as text.  as_iri: wide and unsafe characters may stand for
    themselves"""
    scheme, (user, password), host, port, segs, query, frag = parts
    s = ''
    if scheme:
        s = scheme + '://'
        if user is not None:
            s += esc(user, '/:?#[]@', mask, as_iri)
            if password is not None:
                s += ':' + esc(password, '/:?#[]@', mask >> 1, as_iri)
            s += '@'
        s += host[0] if as_iri else host[1]
        if port is not None:
            s += ':%d' % port
    for seg in segs:
        s += '/' + esc(seg, '/?#', mask, as_iri)
    if not segs:
        s += '/' if not scheme else ''
    if query:
        s += '?' + '&'.join(
            esc(k, '&=#+;[]', mask, as_iri) + '=' +
            esc(v, '&=#+;[]', mask >> 2, as_iri) for k, v in query)
    if frag is not None:
        s += '#' + esc(frag, '#', mask, as_iri)
    return s


def dec(s):
    return unquote_to_bytes(s)


def take_apart(url):
    """independent splitter into decoded components"""
    out = {}
    rest, sep, frag = url.partition('#')
    out['fragment'] = dec(frag)
    rest, sep, query = rest.partition('?')
    out['query'] = [
        tuple(dec(x) for x in p.split('=', 1)) for p in query.split('&')
    ] if query else []
    m = re.match(r'([a-z+]+)://', rest)
    out['scheme'] = m.group(1) if m else None
    if m:
        rest = rest[m.end():]
        netloc, slash, path = rest.partition('/')
        path = slash + path
        auth, at, hostport = netloc.rpartition('@')
        out['at'] = bool(at)
        user, colon, password = auth.partition(':')
        out['user'] = dec(user)
        out['password'] = dec(password) if colon else None
        m = re.match(r'(\[[^\]]*\]|[^:]*)(?::(\d+))?\Z', hostport)
        out['host'] = m.group(1) if m else hostport
        out['port'] = m.group(2) if m else 'bad'
    else:
        path = rest
    out['path'] = [dec(x) for x in path.split('/')]
    return out


def expected(parts, as_iri):
    scheme, (user, password), host, port, segs, query, frag = parts
    b = str.encode
    out = {
        'fragment': b(frag or ''),
        'query': [(b(k), b(v)) for k, v in query],
        'scheme': scheme,
        'path': [b''] + [b(s) for s in segs],
    }
    if not segs:
        out['path'] = [b''] if scheme else [b'', b'']
    if scheme:
        out['at'] = user is not None
        out['user'] = b(user or '')
        out['password'] = b(password) if password is not None else None
        out['host'] = host[0] if as_iri else host[1]
        out['port'] = None if port is None else str(port)
    return out


@st.composite
def urls(draw):
    scheme = draw(st.sampled_from(['http', 'https', 'ftp', None]))
    parts = (scheme, draw(USER), draw(HOST), draw(PORT), draw(SEGS),
             draw(QUERY), draw(FRAG))
    if scheme is None:
        # a path; the first segment must not be empty
        segs = parts[4]
        while segs and not segs[0]:
            segs = segs[1:]
        parts = parts[:4] + (segs,) + parts[5:]
    return parts, draw(MASK)


def compare(t, got, parts, as_iri, what):
    want = expected(parts, as_iri)
    apart = take_apart(got)
    for k, v in want.items():
        t.eq(apart.get(k), v, '%s: %s of %r' % (what, k, got))


def delimiters(url):
    """how often each delimiter stands for itself where it matters"""
    rest = url.partition('#')[0]
    rest, sep, query = rest.partition('?')
    auth = ''
    m = re.match(r'[a-z+]+://', rest)
    if m:
        netloc, slash, rest = rest[m.end():].partition('/')
        rest = slash + rest
        auth = netloc.rpartition('@')[0]
    return ([auth.count(c) for c in '@:/'], rest.count('/'),
            [query.count(c) for c in '&=;'], query.count('+'))


def same_delimiters(t, got, source, what):
    t.eq(delimiters(got), delimiters(source),
         'delimiters in %s(%r) = %r' % (what, source, got))


def check_iri(case, t):
    from verktyg.urls import iri_to_uri, uri_to_iri
    parts, mask = case
    iri = build(parts, mask, True)
    uri = build(parts, mask, False)
    got = iri_to_uri(iri)
    t.ok(type(got) is str, 'type')
    t.ok(URI_CHARS.match(got), 'iri_to_uri(%r) = %r is no URI', iri, got)
    compare(t, got, parts, False, 'iri_to_uri(%r)' % iri)
    same_delimiters(t, got, iri, 'iri_to_uri')
    same_delimiters(t, iri_to_uri(uri), uri, 'iri_to_uri')
    same_delimiters(t, uri_to_iri(uri), uri, 'uri_to_iri')
    same_delimiters(t, uri_to_iri(iri), iri, 'uri_to_iri')
    t.eq(iri_to_uri(got), got, 'iri_to_uri twice')
    compare(t, iri_to_uri(uri), parts, False, 'iri_to_uri(%r)' % uri)

    back = uri_to_iri(got)
    compare(t, back, parts, True, 'uri_to_iri(%r)' % got)
    t.eq(uri_to_iri(back), back, 'uri_to_iri twice')
    compare(t, iri_to_uri(back), parts, False, 'there and back %r' % got)
    compare(t, uri_to_iri(uri), parts, True, 'uri_to_iri(%r)' % uri)
    compare(t, uri_to_iri(iri), parts, True, 'uri_to_iri(%r)' % iri)
    # characters without a special meaning are shown as they are
    for c in WIDE:
        if c in iri:
            t.ok(c in back, '%r is still escaped in %r', c, back)
    t.nontrivial(got != iri)
    t.label(parts[0] or 'path', 'idn' if parts[2][0] != parts[2][1] else 'ascii')


def check_fix(case, t):
    from verktyg.urls import url_fix
    parts, mask = case
    scheme, auth, host, port, segs, query, frag = parts
    if any('\\' in (x or '') for x in auth) or (
            not scheme and segs and segs[0].startswith('\\')):
        return                     # a host would begin there
    iri = build(parts, mask, True)
    got = url_fix(iri)
    t.ok(URI_CHARS.match(got), 'url_fix(%r) = %r is no URI', iri, got)
    t.eq(url_fix(got), got, 'url_fix twice')
    if '\\' not in iri:
        query = iri.partition('#')[0].partition('?')[2]
        mine, its = delimiters(iri), delimiters(got)
        t.eq((its[0], its[1], its[3]),
             (mine[0], mine[1], mine[3] + query.count(' ')),
             'delimiters in url_fix(%r) = %r' % (iri, got))
        t.eq(its[2][:2], mine[2][:2], 'delimiters of %r' % got)
    if '\\' in iri:
        # a backslash stands for a slash
        t.eq(got, url_fix(iri.replace('\\', '/')), 'backslashes')
        t.label('backslash')
        return
    # blanks in query and fragment are written as plus signs
    want = expected(parts, False)
    apart = take_apart(got)

    def blanks(x):
        return x.replace(b'+', b' ')
    for k, v in want.items():
        g = apart.get(k)
        if k == 'query':
            g = [(blanks(a), blanks(b)) for a, b in g]
            v = [(blanks(a), blanks(b)) for a, b in v]
        elif k == 'fragment':
            g, v = blanks(g), blanks(v)
        t.eq(g, v, 'url_fix(%r): %s of %r' % (iri, k, got))
    t.nontrivial(got != iri)


def check_typed(case, t):
    """What people type: drives, other charsets."""
    from verktyg.urls import url_fix
    scheme, letter, sep, rest, charset = case
    typed = scheme + letter + sep + rest
    got = url_fix(typed)
    t.eq(url_fix(typed.replace('/', '\\')), got, 'backslashes')
    if scheme == 'file://':
        parts = urlsplit(got)
        t.eq((parts.scheme, parts.netloc), ('file', ''), 'drive in %r' % got)
        t.eq(unquote(parts.path), '/' + letter + sep + rest, 'path %r' % got)
        t.label('drive')
        t.nontrivial()
    elif sep == ':/':
        parts = urlsplit(got)
        t.eq((parts.scheme, parts.hostname), (
            scheme[:-3], letter.lower()), 'host of %r' % got)
        t.eq(unquote(parts.path), '/' + rest, 'path of %r' % got)
    text = 'http://h/%s?%s#%s' % (rest, rest, rest)
    try:
        raw = rest.encode(charset)
    except UnicodeEncodeError:
        return
    parts = urlsplit(url_fix(text, charset))
    for p in parts.path[1:], parts.query, parts.fragment:
        t.eq(unquote_to_bytes(p.replace('+', ' ')), raw, 'in %s' % charset)
    t.nontrivial(rest.isascii() is False)


ESCAPE = re.compile(rb'%([0-9A-Fa-f]{2})')


def shown(text, kept, errors='replace'):
    """text with all proper escapes but those of `kept` taken out"""
    def one(m):
        c = bytes([int(m.group(1), 16)])
        return m.group(0) if c in kept else c
    return ESCAPE.sub(one, text.encode('utf-8')).decode('utf-8', errors)


STRAY = st.lists(st.sampled_from(
    ['%', '%', '%4', '%zz', '%+4', '%-1', '%0x', '%4_', '% 4', '%41', '%C3%A9',
     '%c3', '%2F', '%25', '%23', '%3F', 'a', '4', '1', 'f', 'é', '%FF', '%é',
     '%٣1']), max_size=5)
LOGIN = st.lists(st.sampled_from(
    ['a', 'b', '@', ':', '%40', '%3A', 'é', '%2F', '&', ' ', '%25']),
    max_size=4).map(''.join)


def check_stray(case, t):
    """Per cent signs that start no escape stand for themselves, as do at
    signs and colons in user names and passwords."""
    from verktyg.urls import uri_to_iri, iri_to_uri, url_fix
    path, query, frag, user, password = case
    path, query, frag = ''.join(path), ''.join(query), ''.join(frag)
    uri = '/p' + path
    if query:
        uri += '?q' + query
    if frag:
        uri += '#f' + frag
    for errors in 'replace', 'ignore', 'strict':
        try:
            want = '/p' + shown(path, b'%/?#', errors)
            if query:
                want += '?q' + shown(query, b'%/?#', errors)
            if frag:
                want += '#f' + shown(frag, b'%/?#', errors)
        except UnicodeDecodeError:
            t.raises(UnicodeDecodeError, uri_to_iri, uri, errors)
            t.label('strict')
            continue
        for pre in '', 'http://h.org':
            t.eq(uri_to_iri(pre + uri, errors), pre + want,
                 'uri_to_iri(%r, %r)' % (uri, errors))
            if errors == 'replace':
                t.eq(uri_to_iri(pre + uri), pre + want,
                     'uri_to_iri(%r)' % uri)
    out = iri_to_uri(uri)
    t.ok(out.isascii(), 'iri_to_uri(%r) = %r', uri, out)
    for mine, its in zip(urlsplit(uri), urlsplit(out)):
        t.eq(its, quote(mine, safe="%+-/ab_"), 'iri_to_uri(%r)' % uri)
    t.nontrivial(ESCAPE.sub(b'', uri.encode('utf-8')).count(b'%') > 0)

    # user names and passwords
    text = 'http://' + user + (':' + password if password else '') + '@h.org/'
    for func in iri_to_uri, url_fix:
        got = func(text)
        t.ok(URI_CHARS.match(got), '%r gives %r', text, got)
        t.eq(got.count('@'), 1, 'at signs in %r made of %r' % (got, text))
        t.eq(func(got), got, 'again')
        auth, host = got[len('http://'):].split('@')
        t.eq(host, 'h.org/', 'host')
        u, colon, p = auth.partition(':')
        t.eq((unquote(u), unquote(p)), (unquote(user), unquote(password)),
             'credentials in %r made of %r' % (got, text))


class Links(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.tags = []
        self.hrefs = []
        self.text = ''
        self.inside = False

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        if tag == 'a':
            self.hrefs.append(attrs)
            self.inside = True

    def handle_endtag(self, tag):
        if tag == 'a':
            self.inside = False

    def handle_data(self, data):
        if self.inside:
            self.text += data


def run(t, app, env):
    started = []
    it = app(env, lambda s, h, e=None: started.append((s, h)))
    body = b''.join(it)
    if hasattr(it, 'close'):
        it.close()
    t.eq(len(started), 1, 'start_response')
    return started[0][0], started[0][1], body


def environ(path='/', script='', query='', host='example.org'):
    return {
        'REQUEST_METHOD': 'GET', 'wsgi.url_scheme': 'http',
        'HTTP_HOST': host, 'SERVER_NAME': 'x', 'SERVER_PORT': '80',
        'SCRIPT_NAME': script.encode('utf-8').decode('latin-1'),
        'PATH_INFO': path.encode('utf-8').decode('latin-1'),
        'QUERY_STRING': query,
    }


def check_redirect(case, t):
    from verktyg.utils import redirect
    (parts, mask), code, quotes = case
    iri = build(parts, mask, True)
    if quotes:
        iri += quotes if '#' in iri else '#' + quotes
        parts = parts[:6] + ((parts[6] or '') + quotes,)
    from verktyg.responses import BaseResponse

    class Own(BaseResponse):
        pass
    own = redirect(iri, code, Own) if code % 2 else redirect(
        iri, code=code, Response=Own)
    t.ok(type(own) is Own, 'response class')
    r = redirect(iri, code) if code != 302 else redirect(iri)
    t.eq((own.status, own.headers['Location'], own.get_data()),
         (r.status, r.headers['Location'], r.get_data()), 'own class')
    t.eq(r.mimetype, 'text/html', 'type of the page')
    t.eq(r.status_code, code, 'status')
    status, headers, body = run(t, r, environ())
    t.eq(status.split()[0], str(code), 'status line')
    loc = [v for k, v in headers if k == 'Location']
    t.eq(len(loc), 1, 'locations')
    loc = loc[0]
    t.ok(URI_CHARS.match(loc), 'Location %r', loc)
    if parts[0]:
        compare(t, loc, parts, False, 'redirect(%r)' % iri)
    else:
        t.ok(loc.startswith('http://example.org/'), 'Location %r', loc)
        if not any(s in ('.', '..', '') for s in parts[4]):
            compare(t, loc[len('http://example.org'):], parts, False,
                    'redirect(%r)' % iri)
    doc = Links()
    doc.feed(body.decode('utf-8'))
    doc.close()
    t.eq(doc.tags, ['title', 'h1', 'p', 'a'], 'tags of the page')
    t.eq(len(doc.hrefs), 1, 'links')
    (name, href), = doc.hrefs[0]
    t.eq(name, 'href', 'attribute')
    t.ok(URI_CHARS.match(href), 'href %r', href)
    compare(t, href, parts, False, 'link of redirect(%r)' % iri)
    t.eq(doc.text, iri, 'text of the link')
    t.nontrivial(loc != iri)


def check_append(case, t):
    from verktyg.utils import append_slash_redirect
    segs, script, query, code = case
    segs = [s for s in segs if s not in ('', '.', '..')]
    if not segs:
        return
    path = '/' + '/'.join(segs)
    mount = ''.join('/' + s for s in script)
    env = environ(path, mount, query)
    r = append_slash_redirect(env, code)
    status, headers, body = run(t, r, env)
    t.eq(status.split()[0], str(code), 'status')
    loc, = [v for k, v in headers if k == 'Location']
    t.ok(URI_CHARS.match(loc), 'Location %r', loc)
    t.ok(loc.startswith('http://example.org/'), 'Location %r', loc)
    path_part, sep, got_query = loc[len('http://example.org'):].partition('?')
    t.eq(unquote_to_bytes(path_part), (mount + path + '/').encode('utf-8'),
         'path of %r' % loc)
    t.eq(path_part.count('/'), (mount + path).count('/') + 1, 'segments')
    t.eq((got_query, sep), (query, '?' if query else ''), 'query')
    t.nontrivial()


SEGTEXT = TEXT.map(lambda s: s.replace('/', ''))

@st.composite
def long_urls(draw):
    """every part of a URL, any of them long"""
    text = st.one_of(TEXT, stretched(TEXT, 300))
    scheme = draw(st.sampled_from(['http', 'https', 'ftp', None]))
    segs = draw(st.one_of(st.lists(text, max_size=3), many(TEXT, 5, 60)))
    while scheme is None and segs and not segs[0]:
        segs = segs[1:]
    user = draw(st.one_of(st.just((None, None)), st.tuples(
        text.filter(bool), st.one_of(st.none(), text.filter(bool)))))
    host = draw(HOST)
    if '[' not in host[0] and '1' not in host[0][:1]:
        n = draw(st.sampled_from([0, 1, 9, 30]))
        host = ('a1.' * n + host[0], 'a1.' * n + host[1])
    return (scheme, user, host, draw(PORT), segs, draw(st.one_of(
        st.lists(st.tuples(text, text), max_size=3),
        many(st.tuples(TEXT, TEXT), 5, 100))), draw(
            st.one_of(st.none(), text))), draw(MASK)


SUBS = [
    Sub('long', long_urls(), check_iri, quick=400),
    Sub('long fix', long_urls(), check_fix, quick=300),
    Sub('long redirect', st.tuples(
        long_urls(), st.sampled_from([301, 302, 303, 305, 307]),
        st.just('')), check_redirect, quick=300),
    Sub('iri', urls(), check_iri, quick=12000),
    Sub('fix', urls(), check_fix, quick=6000),
    Sub('typed', st.tuples(
        st.sampled_from(['file://', 'file://', 'http://', 'https://']),
        st.sampled_from('cCdZ'), st.sampled_from([':/', '|/']),
        st.text(alphabet='ab é~!日()', max_size=6),
        st.sampled_from(['utf-8', 'latin-1', 'euc_jp'])), check_typed,
        quick=1600),
    Sub('stray', st.tuples(STRAY, STRAY, STRAY, LOGIN.filter(bool).filter(
        lambda x: ':' not in x), LOGIN), check_stray, quick=5000),
    Sub('redirect', st.tuples(
        urls(), st.sampled_from([301, 302, 303, 305, 307]),
        st.sampled_from(['', '', '"><script>', "'", '&lt;', '&amp'])),
        check_redirect, quick=5000),
    Sub('append', st.tuples(
        st.lists(st.one_of(SEGTEXT, st.sampled_from(
            ['http:', 'javascript:x', 'a:b', '?', 'x?y', '#', '%2F'])),
            min_size=1, max_size=3),
        st.lists(st.sampled_from(['app', 'é', 'a b']), max_size=2),
        st.sampled_from(['', 'a=b', 'a=%20&b=%C3%A9']),
        st.sampled_from([301, 302, 307])), check_append, quick=4000),
]
