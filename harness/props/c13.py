"""C13: cookies come back as they were set and inject nothing."""
from datetime import datetime, timedelta, timezone
import calendar
import re
import time

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import many, numbered, stretched
from harness.fresh import fresh

ID = 'C13'
RULE = (
    'Sets of 1-5 cookies with token names and arbitrary Unicode values '
    '(weighted to quotes, backslashes, semicolons, commas, octal look '
    'alikes, control characters and line breaks), written by dump_cookie '
    'or Response.set_cookie with generated attributes, echoed as a client '
    'would and read by parse_cookie or Request.cookies; Set-Cookie lines '
    'are parsed by an independent parser, which must find exactly the '
    'requested attributes; Cookie headers mixing well formed cookies with '
    'junk; arbitrary headers up to 8 KiB, on which parsing must return '
    'promptly. Results are scribbled over and the text is parsed again. '
    'many: up to 80 cookies. Non-trivial: a value that has to be quoted, '
    'an attribute next to such a value, or junk between cookies.'
)
ASSUMPTIONS = [
    'cookie names are tokens other than attribute names; headers hold no '
    'line break; paths start with one slash',
]

RESERVED = {'expires', 'path', 'comment', 'max-age', 'secure', 'httponly',
            'version'}
NAME = st.one_of(
    st.sampled_from(['a', 'b', 'session', 'A', 'x-y', 'c_1', '$d', 'pathx',
                     '$Path', '$Version']),
    st.text(alphabet="abcXYZ019!#$%&'*+-.^_`|~", min_size=1, max_size=6),
).filter(lambda n: n.lower() not in RESERVED)
SPECIAL = '"\\;,= 01237abn\t\r\n\x00\x7f\xe9€'
VALUE = st.one_of(
    st.text(alphabet=SPECIAL, max_size=8),
    st.text(alphabet='\\"01237', max_size=8),
    st.text(alphabet="abcXYZ019!#$%&'*+-.^_`|~:", max_size=6),
    st.text(max_size=6),
    st.sampled_from(['', 'x; Secure', 'a\r\nSet-Cookie: b=c', '"', '\\',
                     '\\"', '"quoted"', '\\073', 'a=b', ' ', ' x ', '\\054"',
                     'b; Path=/; HttpOnly', '\\', '"a', 'a"']),
).filter(lambda v: not any(0xd800 <= ord(c) < 0xe000 for c in v))
LEGAL = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
            "0123456789!#$%&'*+-.^_`|~:")


def tricky(v):
    return not set(v) <= LEGAL


def check_round_trip(case, t):
    from verktyg.datastructures import OrderedMultiDict
    from verktyg.http import dump_cookie, parse_cookie
    from verktyg.requests import Request
    from verktyg.responses import Response
    cookies, charset, sep, mode, extra = case
    want = {}
    sent = []
    for name, value in cookies:
        try:
            value.encode(charset)
        except UnicodeError:
            value = value.encode(charset, 'ignore').decode(charset)
        want[name] = value
        kw = dict(extra)
        if mode == 'response':
            class R(Response):
                pass
            R.charset = charset
            r = R()
            r.set_cookie(name, value, **kw)
            line = r.headers['Set-Cookie']
        else:
            line = dump_cookie(name, value, charset=charset, **kw)
        t.ok('\r' not in line and '\n' not in line, 'line break in %r', line)
        line.encode('latin-1')
        sent.append(line.split(';', 1)[0])
        t.nontrivial(tricky(value))
        one = parse_cookie(line, charset=charset)
        t.eq(dict(one), {k: v for k, v in one.items()
                         if k == 'Domain' or k == name}, 'whole line %r' % line)
        t.eq(one[name], value, 'whole line %r' % line)
    header = sep.join(sent)
    got = fresh(parse_cookie, header, charset=charset)
    t.eq(dict(got), want, 'header %r' % header)
    other = 'latin-1' if charset == 'utf-8' else 'utf-8'
    try:
        foreign = {k: v.encode(charset).decode(other)
                   for k, v in want.items()}
    except UnicodeError:
        foreign = None
    again = parse_cookie(header, charset=other, cls=OrderedMultiDict)
    t.ok(type(again) is OrderedMultiDict, 'cls ignored')
    if foreign is not None:
        t.eq(again.to_dict(), foreign, 'header %r as %s' % (header, other))
    t.eq(list(again.keys()), list(want), 'order')
    t.eq(dict(parse_cookie({'HTTP_COOKIE': header}, charset=charset)), want,
         'environ')
    t.eq(dict(parse_cookie(header.encode('latin-1'), charset=charset)), want,
         'bytes')
    t.label(mode, charset)
    req = Request({'HTTP_COOKIE': header, 'REQUEST_METHOD': 'GET',
                   'wsgi.url_scheme': 'http', 'SERVER_NAME': 'x',
                   'SERVER_PORT': '80'})
    if charset == 'utf-8':
        t.eq(dict(req.cookies), want, 'Request.cookies')
        for k, v in want.items():
            t.eq(req.cookies.get(k), v, 'Request.cookies')
    t.raises(TypeError, req.cookies.__setitem__, 'a', 'b')
    for nothing in (None, '', {}):
        t.eq(dict(parse_cookie(nothing, charset=charset)), {}, 'no cookies')


MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec']


def cookie_time(text):
    m = re.fullmatch(
        r'(Mon|Tue|Wed|Thu|Fri|Sat|Sun), (\d\d)-(\w{3})-(\d{4}) '
        r'(\d\d):(\d\d):(\d\d) GMT', text)
    if m is None:
        return None
    d = datetime(int(m[4]), MONTHS.index(m[3]) + 1, int(m[2]), int(m[5]),
                 int(m[6]), int(m[7]))
    if d.strftime('%a') != m[1]:
        return None
    return calendar.timegm(d.timetuple())


PATHS = st.one_of(
    st.none(), st.sampled_from(['/', '/foo', '/a b', '/a;b', '/é',
                                '/;Secure', '/x\r\ny', '/x%3B', '/a,b"c']),
    st.text(alphabet='ab/;=, "é\\', max_size=6).filter(
        lambda p: not p.startswith('/')).map(lambda p: '/' + p))
DOMAINS = st.one_of(
    st.none(), st.none(), st.sampled_from(
        ['example.com', '.example.com', 'x.y:8080', 'bücher.example.com',
         'localhost', 'a.b; Secure', 'a.b\r\nX: y', 'com']))


@st.composite
def line_cases(draw):
    return (
        draw(NAME), draw(VALUE),
        draw(st.one_of(st.none(), st.integers(0, 10 ** 8),
                       st.tuples(st.integers(0, 900),
                                 st.integers(0, 86399)))),
        draw(st.one_of(st.none(), st.integers(0, 4 * 10 ** 9))),
        draw(st.sampled_from(['int', 'datetime', 'timetuple', 'float'])),
        draw(PATHS), draw(DOMAINS), draw(st.booleans()), draw(st.booleans()),
        draw(st.booleans()), draw(st.booleans()),
    )


DEFAULTS = {'max_age': None, 'expires': None, 'path': '/', 'domain': None,
            'secure': False, 'httponly': False}


def line_style(case):
    """arguments that are the default ones may be left out"""
    return len(case[0]) % 2


def check_line(case, t):
    """Set-Cookie holds exactly the attributes that were asked for."""
    from verktyg.http import dump_cookie
    from verktyg.responses import Response
    (name, value, max_age, expires, kind, path, domain, secure, httponly,
     sync, response) = case
    age = max_age
    if isinstance(max_age, tuple):
        age = max_age[0] * 86400 + max_age[1]
        max_age = timedelta(*max_age)
    stamp = expires
    if expires is not None:
        if kind == 'datetime':
            expires = datetime(1970, 1, 1) + timedelta(seconds=expires)
        elif kind == 'timetuple':
            expires = time.gmtime(expires)
        elif kind == 'float':
            expires = expires + 0.25
    kw = dict(max_age=max_age, expires=expires, path=path, domain=domain,
              secure=secure, httponly=httponly)
    if line_style(case):
        kw = {k: v for k, v in kw.items() if v != DEFAULTS[k]}
    args = (name,) if value == '' and line_style(case) else (name, value)
    t0 = int(time.time())
    bare = None if domain is None else domain.split(':')[0]

    def call():
        if response:
            r = Response()
            r.headers.add('Set-Cookie', 'other=1')
            r.set_cookie(*args, **kw)
            l = r.headers.getlist('Set-Cookie')
            t.eq(len(l), 2, 'Set-Cookie headers')
            t.eq(l[0], 'other=1', 'other cookie')
            return l[1]
        if sync and line_style(case):
            return dump_cookie(*args, **kw)
        return dump_cookie(*args, sync_expires=sync, **kw)
    if bare is not None and '.' not in bare:
        t.raises(ValueError, call)
        t.label('domain refused')
        return
    line = call()
    t1 = int(time.time())
    t.ok(not re.search('[\x00-\x1f\x7f]', line), 'control character in %r',
         line)
    line.encode('latin-1')
    t.nontrivial(tricky(value))
    parts = line.split(';')
    t.ok(parts[0].startswith(name + '='), 'starts with %r', parts[0])
    attrs = []
    for p in parts[1:]:
        k, eq, v = p.strip().partition('=')
        attrs.append((k.lower(), v if eq else None))
    want = {}
    if domain is not None:
        want['domain'] = True
    if stamp is not None or (age is not None and (sync or response)):
        want['expires'] = True
    if age is not None:
        want['max-age'] = True
    if secure:
        want['secure'] = True
    if httponly:
        want['httponly'] = True
    if path is not None:
        want['path'] = True
    t.eq(sorted(k for k, v in attrs), sorted(want), 'attributes of %r' % line)
    attrs = dict(attrs)
    t.label(*want)
    for flag in 'secure', 'httponly':
        if flag in attrs:
            t.eq(attrs[flag], None, flag)
    if 'max-age' in attrs:
        t.eq(attrs['max-age'], str(age), 'Max-Age')
    if 'expires' in attrs:
        when = cookie_time(attrs['expires'])
        if stamp is not None:
            t.eq(when, stamp, 'Expires %r' % attrs['expires'])
        else:
            t.ok(when is not None and t0 + age - 1 <= when <= t1 + age + 1,
                 'Expires %r', attrs['expires'])
    if 'domain' in attrs:
        plain = bare.encode('idna').decode('ascii') if any(
            ord(c) > 127 for c in bare) else bare
        if set(plain) <= LEGAL:
            t.eq(attrs['domain'], plain, 'Domain')
    if 'path' in attrs:
        t.ok(all(32 < ord(c) < 127 and c != ';' for c in attrs['path']),
             'Path %r', attrs['path'])
        if set(path) <= set('abcdefox/'):
            t.eq(attrs['path'], path, 'Path')


def check_delete(case, t):
    from verktyg.http import parse_cookie
    from verktyg.responses import Response
    name, value, path, domain = case
    r = Response()
    r.set_cookie(name, value, path=path, domain=domain)
    r.delete_cookie(name, path=path, domain=domain)
    first, last = r.headers.getlist('Set-Cookie')
    t.eq(parse_cookie(last.split(';')[0])[name], '', 'deleted value')

    def attrs(line):
        res = {}
        for p in line.split(';')[1:]:
            k, _, v = p.strip().partition('=')
            res[k.lower()] = v
        return res
    a, b = attrs(first), attrs(last)
    t.ok(cookie_time(b.pop('expires', '')) == 0, 'not expired: %r', last)
    t.eq(b.pop('max-age', None), '0', 'Max-Age')
    t.eq(a, b, 'path and domain')
    t.nontrivial(path != '/' or domain is not None)


JUNK = st.one_of(
    st.sampled_from(['', ' ', 'junk', 'secure', 'a b', '$', '\xe9', '=', ]),
    st.text(alphabet='ab \t$,\xe9:', max_size=5))
RAW = st.text(alphabet="abc01!#$%&'*+-.^_`|~:/=<>()[]", min_size=0,
              max_size=6)
SEGMENT = st.one_of(
    st.tuples(st.just('cookie'), NAME, RAW, st.sampled_from(
        ['', ' ', '  '])),
    st.tuples(st.just('quoted'), NAME, VALUE, st.sampled_from(['', ' ']),
              st.sampled_from(['', '', 'octal', 'backslash'])),
    st.tuples(st.just('junk'), JUNK),
    st.tuples(st.just('attribute'), st.sampled_from(
        ['Path', 'path', 'VERSION', 'Expires', 'Max-Age', 'Comment',
         'Secure', 'HttpOnly', 'Version']), RAW),
)


def quote(v, style=''):
    """RFC 2109 quoting with octal escapes, as browsers echo it, or with more
    of them than necessary."""
    out = ''
    for b in v.encode('utf-8'):
        if style == 'octal':
            out += '\\%03o' % b
        elif b in b'"\\' or (
                style == 'backslash' and 32 < b < 127 and b not in
                b',;01234567'):
            out += '\\' + chr(b)
        elif b < 32 or b >= 127 or b in b',;':
            out += '\\%03o' % b
        else:
            out += chr(b)
    return '"%s"' % out


def check_tolerant(case, t):
    from verktyg.http import parse_cookie
    segments, sep = case
    want = {}
    texts = []
    for s in segments:
        if s[0] == 'junk':
            texts.append('' if s[1] == '=' else s[1])
        elif s[0] == 'attribute':
            texts.append('%s=%s' % s[1:])
        else:
            v = s[2] if s[0] == 'cookie' else quote(*s[2:5:2])
            texts.append('%s%s=%s%s' % (s[3], s[1], s[3], v))
            want[s[1]] = s[2]
    header = sep.join(texts)
    got = fresh(parse_cookie, header)
    t.eq(dict(got), want, 'header %r' % header)
    t.nontrivial(bool(want) and any(
        s[0] in ('junk', 'attribute') for s in segments))


ODD = st.one_of(
    st.text(alphabet='a=;" \\0,\xe9', max_size=20),
    st.text(alphabet=st.characters(codec='latin-1'), max_size=12),
    st.tuples(st.text(alphabet='a=;" \\', max_size=3),
              st.sampled_from([' ', 'a', '=', ';', '"', '\\', '\t', 'a=',
                               '= ', ' ;', 'a="', '"=', '\\"', 'a=b;',
                               '\\0']),
              st.integers(0, 8000),
              st.text(alphabet='a=;" \\', max_size=3)).map(
        lambda c: c[0] + c[1] * (c[2] // len(c[1])) + c[3]),
)


def check_total(text, t):
    from verktyg.http import parse_cookie
    got = fresh(parse_cookie, text)
    fresh(parse_cookie, None)
    t.ok(all(isinstance(k, str) and isinstance(v, str)
             for k, v in got.items()), 'parsed to %r', got)
    if '\n' not in text and '\r' not in text:
        # each cookie came from somewhere in the header
        t.ok(len(got) <= text.count('='), 'parsed to %r', got)
    t.nontrivial('=' in text and len(text) > 4)


MANY = st.one_of(
    numbered(st.tuples(st.sampled_from(['a', 'b']), VALUE)),
    st.lists(st.tuples(NAME, stretched(VALUE, 400)), min_size=1, max_size=3,
             unique_by=lambda c: c[0]),
    st.lists(st.tuples(stretched(NAME), VALUE), min_size=1, max_size=3,
             unique_by=lambda c: c[0]))

SUBS = [
    Sub('round trip', st.tuples(
        st.lists(st.tuples(NAME, VALUE), min_size=1, max_size=5,
                 unique_by=lambda c: c[0]),
        st.sampled_from(['utf-8', 'utf-8', 'latin-1']),
        st.sampled_from(['; ', ';', ' ; ']),
        st.sampled_from(['dump', 'response']),
        st.sampled_from([{}, {'path': '/x'}, {'httponly': True},
                         {'domain': 'a.example', 'secure': True},
                         {'max_age': 3}])),
        check_round_trip, quick=6250),
    Sub('many', st.tuples(
        MANY, st.sampled_from(['utf-8', 'latin-1']),
        st.sampled_from(['; ', ';']), st.sampled_from(['dump', 'response']),
        st.just({})), check_round_trip, quick=200),
    Sub('line', line_cases(), check_line, quick=15000),
    Sub('delete', st.tuples(NAME, VALUE, st.sampled_from(['/', '/a', '/b/c']),
                            st.sampled_from([None, 'x.example.com'])),
        check_delete, quick=750),
    Sub('tolerant', st.tuples(st.lists(SEGMENT, max_size=6),
                              st.sampled_from(['; ', ';'])),
        check_tolerant, quick=6250),
    Sub('total', ODD, check_total, quick=3750, thorough=20000),
]
