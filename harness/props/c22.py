"""C22: the host of a request, trust in it, and the current URL."""
from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import blob
from harness.props.c21 import take_apart, URI_CHARS

ID = 'C22'
RULE = (
    'Host names of 1-4 labels from a small alphabet (so that suffixes '
    'collide), internationalised names in both forms, addresses, with and '
    'without port, against trusted lists of 0-3 plain, dotted and ported '
    'entries. Oracle: equality of the label lists without port, or, for '
    'an entry starting with a dot, the entry being a suffix of the label '
    'list. Environs with any subset of X-Forwarded-Host, Host, '
    'SERVER_NAME and SERVER_PORT, script names, paths (reserved '
    'characters, control characters, non ASCII text) and queries; '
    'get_host and every URL attribute of the request are taken apart and '
    'compared with the components. One in some entries looks like a '
    'pattern (star, question mark, lone dot) and stands for nothing but '
    'itself. raw: script names, paths and queries of any bytes, against '
    'their text with replacement characters. Other hosts and trusted '
    'lists are asked in between. long: long hosts, lists, paths and '
    'queries. Non-trivial: the host and an entry share their last label '
    'but differ, or the URL has a character to escape.'
)
ASSUMPTIONS = [
    'host names are valid, lower case ASCII or IDNA; paths and queries are '
    'valid UTF-8 (raw: any bytes)',
]

LABEL = st.sampled_from(['a', 'b', 'ab', 'example', 'evil', 'org', 'com',
                         'evilexample', 'bücher', '日本'])
IDNA = {'bücher': 'xn--bcher-kva', '日本': 'xn--wgv71a'}
NAME = st.lists(LABEL, min_size=1, max_size=4)
ADDRESS = st.sampled_from(['127.0.0.1', '[::1]', '[2001:db8::1]', '10.0.0.1'])
HOST = st.one_of(
    st.tuples(st.just('name'), NAME, st.booleans()),
    st.tuples(st.just('name'), NAME, st.booleans()),
    st.tuples(st.just('addr'), ADDRESS, st.just(False)))
PORT = st.sampled_from([None, None, '80', '8080', '443', '1'])


def text(host):
    """how the host is written"""
    kind, value, puny = host
    if kind == 'addr':
        return value
    return '.'.join(IDNA.get(x, x) if puny else x for x in value)


def canonical(host):
    kind, value, puny = host
    if kind == 'addr':
        return [value]
    return [IDNA.get(x, x) for x in value]


@st.composite
def trust_cases(draw):
    host = draw(HOST)
    entries = []
    for i in range(draw(st.integers(0, 3))):
        how = draw(st.integers(0, 5))
        if how == 0 and host[0] == 'name':        # the same
            ref = ('name', list(host[1]), draw(st.booleans()))
        elif how == 1 and host[0] == 'name':      # a parent
            ref = ('name', host[1][draw(
                st.integers(0, len(host[1]) - 1)):], draw(st.booleans()))
        elif how == 2 and host[0] == 'name':      # a neighbour
            ref = ('name', [draw(LABEL)] + host[1][1:], False)
        elif how == 3 and host[0] == 'name':      # glued together
            ref = ('name', [host[1][0][-1:]] + host[1][1:], False)
            if ref[1][0] not in ('a', 'b'):
                ref = ('name', host[1][1:] or ['org'], False)
        else:
            ref = draw(HOST)
        entries.append((ref, draw(st.booleans()), draw(PORT)))
    return (host, draw(PORT), entries, draw(st.booleans()),
            draw(st.one_of(st.none(), st.none(), st.sampled_from(
                ['*', '.*', '.', '', '*.org', '*.com', 'org.',
                 'example.org.', '..org', '?', '.example.', '%', 'a*']))))


def trusted(host, entries):
    h = canonical(host)
    for ref, dot, port in entries:
        r = canonical(ref)
        if h == r:
            return True
        if dot and host[0] == ref[0] == 'name' and len(h) > len(r) and (
                h[-len(r):] == r):
            return True
    return False


def check_trust(case, t):
    from verktyg.wsgi import host_is_trusted, get_host
    from verktyg.exceptions import SecurityError, BadRequest
    from verktyg.requests import Request
    host, port, entries, single, extra = case
    if single:
        entries = entries[:1]
    hostname = text(host) + (':' + port if port else '')
    refs = [('.' if dot else '') + text(ref) + (':' + p if p else '')
            for ref, dot, p in entries]
    want = trusted(host, entries)
    if extra is not None and not (single and refs):
        refs.append(extra)         # there are no patterns
    arg = refs[0] if single and refs else refs
    t.eq(host_is_trusted(hostname, arg), want,
         'host_is_trusted(%r, %r)' % (hostname, arg))
    t.eq(host_is_trusted('', arg), False, 'empty host')
    t.eq(host_is_trusted(None, arg), False, 'no host')
    env = {
        'REQUEST_METHOD': 'GET', 'wsgi.url_scheme': 'http',
        'HTTP_HOST': hostname, 'SERVER_NAME': 'x', 'SERVER_PORT': '80',
        'SCRIPT_NAME': '', 'PATH_INFO': '/', 'QUERY_STRING': '',
    }

    class R(Request):
        trusted_hosts = arg
    if want:
        t.eq(get_host(env, arg), hostname, 'get_host')
        t.eq(R(env).host, hostname, 'Request.host')
        t.ok(R(env).url.startswith('http://'), 'Request.url')
    else:
        e = t.raises(SecurityError, get_host, env, arg)
        t.ok(isinstance(e, BadRequest), 'kind of error')
        for name in ('host', 'url', 'base_url', 'url_root', 'host_url'):
            t.raises(SecurityError, lambda: getattr(R(env), name))
    t.eq(get_host(env), hostname, 'get_host without list')
    # a proxy's word is the one that counts, and that has to be trusted
    for other in [host] + [ref for ref, dot, p in entries] + [
            ('name', ['evil', 'net'], False)]:
        for fwd in (text(other), text(other) + ', ' + hostname):
            e = dict(env, HTTP_X_FORWARDED_HOST=fwd)
            t.eq(get_host(e), text(other), 'forwarded host')
            if extra is not None:
                continue
            if trusted(other, entries):
                t.eq(get_host(e, arg), text(other), 'trusted forwarded host')
            else:
                t.raises(SecurityError, get_host, e, arg)
                t.raises(SecurityError, lambda: R(e).url)
    # other hosts and other lists in between
    others = [host]
    for ref, dot, p in entries:
        others.append(ref)
        if ref[0] == 'name':
            others += [('name', ['x'] + ref[1], False),
                       ('name', ref[1][1:] or ['x'], False)]
    for other in others + others[::-1]:
        if extra is None:
            t.eq(host_is_trusted(text(other), arg), trusted(
                other, entries), 'host_is_trusted(%r, %r) after %r' % (
                text(other), arg, hostname))
        t.eq(host_is_trusted(text(other), refs[1:]), trusted(
            other, entries[1:]), 'host_is_trusted(%r, %r) after %r' % (
            text(other), refs[1:], arg))
    if isinstance(arg, list):
        # lists can change
        arg.append(text(host))
        t.eq(host_is_trusted(hostname, arg), True, 'added to the list')
        arg.pop()
        t.eq(host_is_trusted(hostname, arg), want, 'removed from the list')
    near = any(
        canonical(r)[-1] == canonical(host)[-1] and
        canonical(r) != canonical(host) for r, d, p in entries)
    t.nontrivial(near)
    t.label('trusted' if want else 'not trusted')


def check_host(case, t):
    from verktyg.wsgi import get_host
    from verktyg.requests import Request
    scheme, forwarded, host, name, port = case
    env = {'wsgi.url_scheme': scheme, 'SERVER_NAME': name,
           'SERVER_PORT': port, 'REQUEST_METHOD': 'GET'}
    if host is not None:
        env['HTTP_HOST'] = host
    if forwarded is not None:
        env['HTTP_X_FORWARDED_HOST'] = ','.join(forwarded)
    if forwarded is not None:
        want = forwarded[0].strip()
    elif host is not None:
        want = host
    else:
        want = name
        if port != {'http': '80', 'https': '443'}[scheme]:
            want += ':' + port
    t.eq(get_host(env), want, 'get_host')
    t.eq(Request(env).host, want, 'Request.host')
    t.nontrivial(forwarded is not None or host is None)


PTEXT = st.text(alphabet=st.one_of(
    st.sampled_from('abc019-._~'), st.sampled_from(' "<>%?#[]\\:;@&=+,'),
    st.sampled_from('éü日\t\n\x7f'), st.sampled_from('/')), max_size=8)
QTEXT = st.text(alphabet=st.one_of(
    st.sampled_from('abc01'), st.sampled_from('=&+%:/?@;!,$ "'),
    st.sampled_from('éü'), st.sampled_from('\n\t\x7f<>|^`{}\\[]#')),
    max_size=8)


def check_url(case, t):
    from verktyg.wsgi import (
        get_current_url, get_query_string, get_path_info, get_script_name,
    )
    from verktyg.urls import iri_to_uri
    from verktyg.requests import Request
    scheme, host, port, script, path, query = case
    query = query.replace('%', '%25')
    if script:
        script = '/' + script.strip('/')
    hostname = text(host) + (':' + port if port else '')
    if host[0] == 'name':
        hostname = '.'.join(canonical(host)) + (':' + port if port else '')

    def wsgi(s):
        return s.encode('utf-8').decode('latin-1')
    env = {
        'REQUEST_METHOD': 'GET', 'wsgi.url_scheme': scheme,
        'HTTP_HOST': hostname, 'SERVER_NAME': 'x', 'SERVER_PORT': '80',
        'SCRIPT_NAME': wsgi(script), 'PATH_INFO': wsgi(path),
        'QUERY_STRING': wsgi(query),
    }
    t.eq(get_path_info(env), path, 'get_path_info')
    t.eq(get_path_info(env, charset=None), path.encode('utf-8'), 'bytes')
    t.eq(get_script_name(env), script, 'get_script_name')
    t.eq(get_script_name(env, charset=None), script.encode('utf-8'), 'bytes')
    r = Request(env)
    t.eq(r.path, '/' + path.lstrip('/'), 'path')
    t.eq(r.script_root, script.rstrip('/'), 'script_root')
    t.eq(r.query_string, query, 'query_string')
    t.eq(r.full_path, '/' + path.lstrip('/') + '?' + query, 'full_path')
    t.eq(r.is_secure, scheme == 'https', 'is_secure')
    t.eq(r.scheme, scheme, 'scheme')
    qs = get_query_string(env)
    t.ok(all(ord(c) < 128 for c in qs), 'query %r', qs)

    def unq(s):
        from urllib.parse import unquote_to_bytes
        return unquote_to_bytes(s)
    t.eq(unq(qs), unq(query), 'get_query_string')

    root = (script.rstrip('/') + '/').encode('utf-8')
    full = root + path.lstrip('/').encode('utf-8')
    for name, url, want_path, want_query in (
        ('url', r.url, full, True),
        ('get_current_url', get_current_url(env), full, True),
        ('base_url', r.base_url, full, False),
        ('strip_querystring', get_current_url(
            env, strip_querystring=True), full, False),
        ('url_root', r.url_root, root, False),
        ('root_only', get_current_url(env, root_only=True), root, False),
        ('host_url', r.host_url, b'/', False),
        ('host_only', get_current_url(env, host_only=True), b'/', False),
    ):
        for form, got, idn in (
                ('iri', url, True), ('uri', iri_to_uri(url), False)):
            what = '%s as %s, %r' % (name, form, got)
            apart = take_apart(got)
            t.eq(apart['scheme'], scheme, what + ': scheme')
            want = host[1] if host[0] == 'addr' else '.'.join(
                host[1] if idn else canonical(host))
            t.eq(apart['host'], want, what + ': host')
            t.eq(apart['port'], port, what + ': port')
            t.eq(apart['at'], False, what + ': user')
            t.eq(b'/'.join(apart['path']), want_path, what + ': path')
            t.eq(apart['fragment'], b'', what + ': fragment')
            q = got.partition('?')[2]
            t.eq(unq(q), unq(query) if want_query else b'', what + ': query')
            if not idn:
                t.ok(URI_CHARS.match(got), '%s is no URI', what)
    t.nontrivial(r.url != iri_to_uri(r.url))


def check_raw(case, t):
    """Bytes that are not UTF-8 are shown as replacement characters."""
    from verktyg.wsgi import (
        get_current_url, get_query_string, get_path_info, get_script_name,
    )
    from verktyg.urls import iri_to_uri
    from verktyg.requests import Request
    script, path, query = case
    if script:
        script = b'/' + script.strip(b'/')
    env = {
        'REQUEST_METHOD': 'GET', 'wsgi.url_scheme': 'http',
        'HTTP_HOST': 'example.org', 'SERVER_NAME': 'x', 'SERVER_PORT': '80',
        'SCRIPT_NAME': script.decode('latin-1'),
        'PATH_INFO': path.decode('latin-1'),
        'QUERY_STRING': query.decode('latin-1'),
    }

    def shown(b):
        return b.decode('utf-8', 'replace')
    for get, raw in (get_path_info, path), (get_script_name, script):
        t.eq(get(env), shown(raw), get.__name__)
        t.eq(get(env, charset=None), raw, 'bytes')
        t.eq(get(env, 'latin-1'), raw.decode('latin-1'), 'latin-1')
        t.eq(get(env, errors='ignore'), raw.decode('utf-8', 'ignore'),
             'ignore')
        try:
            want = raw.decode('utf-8')
        except UnicodeDecodeError:
            t.raises(UnicodeDecodeError, get, env, errors='strict')
        else:
            t.eq(get(env, errors='strict'), want, 'strict')
    from urllib.parse import unquote_to_bytes
    t.eq(unquote_to_bytes(get_query_string(env)), unquote_to_bytes(query),
         'get_query_string')
    r = Request(env)
    t.eq(r.path, '/' + shown(path).lstrip('/'), 'path')
    t.eq(r.script_root, shown(script).rstrip('/'), 'script_root')
    root = (shown(script).rstrip('/') + '/').encode('utf-8')
    full = root + shown(path.lstrip(b'/')).encode('utf-8')
    for name, url, want in (
        ('url', r.url, full), ('get_current_url', get_current_url(env), full),
        ('base_url', r.base_url, full), ('url_root', r.url_root, root),
    ):
        for got in url, iri_to_uri(url):
            apart = take_apart(got)
            t.eq((apart['scheme'], apart['host'], apart['fragment']),
                 ('http', 'example.org', b''), '%s %r' % (name, got))
            t.eq(b'/'.join(apart['path']), want, '%s %r' % (name, got))
            t.eq(unquote_to_bytes(got.partition('?')[2]),
                 shown(unquote_to_bytes(query)).encode('utf-8') if name in (
                     'url', 'get_current_url') else b'', 'query of %s' % name)
    t.nontrivial(b'\xef\xbf\xbd' in full)


# labels of 1-63 characters, at most 253 together
LONG = st.lists(st.tuples(st.sampled_from('abx'), st.one_of(
    st.integers(1, 63), st.integers(60, 63), st.integers(29, 33))),
    min_size=1, max_size=4).map(
        lambda labels: [c * n for c, n in labels]).filter(
            lambda labels: len('.'.join(labels)) <= 230)


def check_long(case, t):
    """long names, and long lists of them"""
    from verktyg.wsgi import host_is_trusted
    labels, sep, dotted, at, more = case
    name = '.'.join(labels)
    dot = '.' if dotted else ''
    others = ['%s%d.example' % (x, i) for i, x in enumerate(more * 12)]
    entries = others[:at * 3] + [dot + name] + others[at * 3:]
    longer = '.'.join(more + labels).replace('ü', 'u').replace('日本', 'n')
    for refs in [dot + name], entries:
        t.eq(host_is_trusted(name, refs), True, 'itself')
        t.eq(host_is_trusted(name + ':80', refs), True, 'with a port')
        t.eq(host_is_trusted(longer, refs), dotted, 'below it')
        if len(labels[0]) < 60:
            t.eq(host_is_trusted('evil' + name, refs), False, 'glued on')
        t.eq(host_is_trusted(name[1:], refs), False, 'cut off')
        t.eq(host_is_trusted(name[:-1], refs), False, 'cut off')
        if len(labels) > 1:
            t.eq(host_is_trusted('.'.join(labels[1:]), refs), False,
                 'parent')
    for ref in others:
        t.eq(host_is_trusted(ref, entries), True, 'another')
    t.nontrivial(len(name) > 60)


SUBS = [
    Sub('raw', st.tuples(st.one_of(st.just(b''), blob(5)), blob(8), blob(6)),
        check_raw, quick=2500),
    Sub('trust', trust_cases(), check_trust, quick=15000),
    Sub('long', st.tuples(
        LONG, st.just('.'), st.booleans(), st.integers(0, 5),
        st.lists(LABEL, min_size=1, max_size=3)), check_long, quick=1000),
    Sub('host', st.tuples(
        st.sampled_from(['http', 'https']),
        st.one_of(st.none(), st.lists(st.sampled_from(
            ['a.org', ' b.org', 'c.org:80 ', '[::1]:8']),
            min_size=1, max_size=3)),
        st.one_of(st.none(), st.sampled_from(
            ['d.org', 'd.org:80', 'd.org:443', '[::1]:1'])),
        st.sampled_from(['srv', '10.0.0.1']),
        st.sampled_from(['80', '443', '8080'])), check_host, quick=1500),
    Sub('url', st.tuples(
        st.sampled_from(['http', 'https']), HOST, PORT,
        st.one_of(st.just(''), PTEXT), PTEXT, QTEXT), check_url, quick=7500),
]
