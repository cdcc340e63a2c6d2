"""C15: entity tags and conditional requests."""
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness.core import Sub
from harness.fresh import fresh
from harness.gen import blob, many, stretched
from harness.props.c14 import show

ID = 'C15'
RULE = (
    'Entity tags of arbitrary text without quotes and line breaks, sets '
    'of 0-4 strong and 0-4 weak ones written and read back, and '
    'If-None-Match headers of 0-5 quoted, unquoted, weak and star tags '
    'with varied spacing, against a resource with a strong, weak or no '
    'tag and a modification time around that of If-Modified-Since, for '
    'any method; the decision is compared with a reference (If-None-Match '
    'takes precedence when the resource has a tag), both from '
    'is_resource_modified and from a response made conditional and run as '
    'a WSGI application. request: the conditional headers read from a '
    'request; total: arbitrary headers do not raise. Results are '
    'scribbled over and the text is parsed again. many: up to 80 tags. '
    'Non-trivial: a tag list of two or more, or both conditions are '
    'there, or the times are within a second.'
)
ASSUMPTIONS = [
    'tags hold neither quotes nor line breaks; modification times are naive '
    'UTC; a strong tag of the resource is compared with the strong tags of '
    'the header only',
]

TAGTEXT = st.one_of(
    st.sampled_from(['a', 'b', 'a,b', 'A', '', 'x y', '*', 'w/a', ' a',
                     'W/', ',', 'é', ';', '\\', 'a, w/',
                     'Thu, 01 Jan 2015 10:00:00 GMT']),
    st.text(alphabet=st.characters(
        codec='latin-1', exclude_characters='"\r\n'), max_size=5))


def check_quote(case, t):
    from verktyg.http import quote_etag, unquote_etag, generate_etag
    from verktyg.responses import (
        Response, BaseResponse, ETagResponseMixin)
    tag, weak, upper, pad = case
    if '"' in tag:
        t.raises(ValueError, quote_etag, tag, weak)
        t.nontrivial()
        return
    q = quote_etag(tag, weak)
    t.eq(unquote_etag(q), (tag, weak), 'quoted %r' % q)
    if upper and weak:
        q = 'W' + q[1:]
    t.eq(unquote_etag(pad + q + pad), (tag, weak), 'padded %r' % q)
    r = Response()
    t.eq(r.get_etag(), (None, None), 'no etag')
    r.set_etag(tag, weak)
    t.eq(r.get_etag(), (tag, weak), 'Response.get_etag')
    t.eq(r.headers.getlist('etag'), [quote_etag(tag, weak)], 'header')
    r.set_etag('other')
    t.eq(r.get_etag(), ('other', False), 'replaced')
    t.eq(len(r.headers.getlist('etag')), 1, 'headers')
    data = tag.encode('utf-8')
    r = Response(data)
    r.add_etag(weak=weak)
    t.eq(r.get_etag(), (generate_etag(data), weak), 'add_etag')
    r.set_data(data + b'x')
    r.add_etag()
    t.eq(r.get_etag(), (generate_etag(data), weak), 'add_etag twice')
    r.add_etag(overwrite=True)
    t.eq(r.get_etag(), (generate_etag(data + b'x'), False), 'overwrite')
    t.ok(generate_etag(data) == generate_etag(bytes(data)) and
         generate_etag(data) != generate_etag(data + b'x'),
         'etags do not tell data apart')
    t.ok('"' not in generate_etag(data), 'bad etag')

    class Frozen(ETagResponseMixin, BaseResponse):
        pass
    for no_etag in (False, True):
        f = Frozen(iter([data, b'y']))
        f.freeze(no_etag=no_etag)
        t.eq(f.get_etag(), (None, None) if no_etag else (
            generate_etag(data + b'y'), False), 'frozen')
        t.eq(f.get_data(), data + b'y', 'frozen')
    t.nontrivial(weak or not tag.isalnum())


def check_sets(case, t):
    from verktyg.http import ETags, parse_etags, generate_etag
    strong, weak, star, probes, data = case
    e = ETags(strong, weak, star)
    if star:
        strong = []
    s, w = set(strong), set(weak)

    def verify(e, w, what):
        t.eq(e.as_set(), s, what + ': as_set')
        t.eq(e.as_set(include_weak=True), s | w, what + ': as_set(weak)')
        t.eq(set(e), s, what + ': iter')
        t.eq(bool(e), bool(star or s or w), what + ': bool')
        t.eq(e.star_tag, star, what + ': star')
        for p in probes + strong + weak:
            t.eq(p in e, star or p in s, what + ': in')
            t.eq(e.contains(p), star or p in s, what + ': contains')
            t.eq(e.is_weak(p), p in w, what + ': is_weak')
            t.eq(e.contains_weak(p), star or p in s or p in w,
                 what + ': contains_weak')
            t.eq(e.contains_raw('"%s"' % p), star or p in s,
                 what + ': contains_raw')
            t.eq(e.contains_raw('w/"%s"' % p), star or p in s or p in w,
                 what + ': contains_raw weak')
            t.eq(e(p), star or p in s, what + ': call')
            t.eq(e(p, include_weak=True), star or p in s or p in w,
                 what + ': call weak')
        t.eq(e(data=data), star or generate_etag(data) in s, what + ': data')
    verify(e, w, 'set')
    h = e.to_header()
    t.eq(str(e), h, 'str')
    verify(fresh(parse_etags, h), set() if star else w, 'parsed %r' % h)
    if not star:
        verify(ETags(set(strong), tuple(weak)), w, 'iterables')
        t.eq(ETags([generate_etag(data)])(data=data), True, 'data')
    t.raises(TypeError, e)
    t.raises(TypeError, e, 'a', data=b'a')
    t.nontrivial(len(s) + len(w) > 1)


# -- decisions

SIMPLE = ['a', 'b', 'A', 'a,b', '', 'x y']
ENTRY = st.one_of(
    st.tuples(st.sampled_from(SIMPLE), st.booleans(), st.just('quoted')),
    st.tuples(st.sampled_from(SIMPLE), st.booleans(), st.just('quoted')),
    st.tuples(st.sampled_from(['a', 'b', 'A', 'c-1']), st.booleans(),
              st.just('raw')),
    st.tuples(st.just('*'), st.just(False), st.sampled_from(
        ['quoted', 'star'])),
)
BASE = datetime(2015, 6, 1, 12, 0, 0)


@st.composite
def decisions(draw):
    return {
        'method': draw(st.sampled_from(
            ['GET', 'GET', 'GET', 'HEAD', 'HEAD', 'POST', 'PUT', 'DELETE'])),
        'tags': draw(st.one_of(st.none(), st.lists(
            ENTRY, min_size=1, max_size=5), st.lists(
            ENTRY, min_size=1, max_size=2))),
        'sep': draw(st.sampled_from([', ', ',', ' , '])),
        'wtag': draw(st.sampled_from(['W/', 'w/'])),
        'own': draw(st.one_of(st.none(), st.tuples(
            st.sampled_from(SIMPLE + ['*']), st.booleans()))),
        'since': draw(st.one_of(
            st.none(), st.integers(-2, 2), st.integers(-9999, 9999),
            st.just('junk'))),
        'modified': draw(st.one_of(st.none(), st.integers(-2, 2),
                                   st.integers(-9999, 9999))),
        'micro': draw(st.sampled_from([0, 0, 1, 999999])),
        'form': draw(st.sampled_from(['datetime', 'text'])),
        'body': draw(st.sampled_from([b'', b'hello', b'x' * 30])),
        'streamed': draw(st.booleans()),
        'date': draw(st.booleans()),
    }


def inputs(c):
    env = {'REQUEST_METHOD': c['method'], 'wsgi.url_scheme': 'http',
           'SERVER_NAME': 'x', 'SERVER_PORT': '80', 'PATH_INFO': '/'}
    if c['tags'] is not None:
        out = []
        for tag, weak, how in c['tags']:
            out.append((c['wtag'] if weak else '') + (
                '"%s"' % tag if how == 'quoted' else tag))
        env['HTTP_IF_NONE_MATCH'] = c['sep'].join(out)
    if c['since'] == 'junk':
        env['HTTP_IF_MODIFIED_SINCE'] = 'yesterday'
    elif c['since'] is not None:
        env['HTTP_IF_MODIFIED_SINCE'] = show(
            BASE + timedelta(seconds=c['since']))
    modified = None
    if c['modified'] is not None:
        modified = BASE + timedelta(seconds=c['modified'],
                                    microseconds=c['micro'])
    return env, modified


def unmodified(c):
    result = False
    if c['modified'] is not None and isinstance(c['since'], int):
        result = c['modified'] <= c['since']
    if c['own'] is not None and c['tags'] is not None:
        tag, weak = c['own']
        result = False
        for other, oweak, how in c['tags']:
            if how == 'star':
                return True
            if other == tag and (weak or not oweak):
                result = True
    return result


def check_decision(c, t):
    from verktyg.http import is_resource_modified, quote_etag, generate_etag
    env, modified = inputs(c)
    etag = None if c['own'] is None else quote_etag(*c['own'])
    lm = modified
    if c['form'] == 'text' and modified is not None:
        lm = show(modified)
    got = is_resource_modified(env, etag=etag, last_modified=lm)
    if c['method'] in ('GET', 'HEAD'):
        t.eq(got, not unmodified(c), 'modified, for %r' % (env,))
        t.label('unmodified' if unmodified(c) else 'modified')
    else:
        t.eq(got, False, 'method %s' % c['method'])
    t.nontrivial(bool(c['tags']) and len(c['tags']) > 1 or
                 c['since'] is not None and c['modified'] is not None)
    # tags made from data
    data = c['body']
    env2 = {'REQUEST_METHOD': 'GET',
            'HTTP_IF_NONE_MATCH': '"%s"' % generate_etag(data)}
    t.eq(is_resource_modified(env2, data=data), False, 'data')
    t.eq(is_resource_modified(env2, data=data + b'.'), True, 'data')
    t.raises(TypeError, is_resource_modified, env2, 'a', b'a')


ENTITY = {'allow', 'content-encoding', 'content-language', 'content-length',
          'content-md5', 'content-range', 'content-type', 'last-modified'}


def check_response(c, t):
    from verktyg.requests import Request
    from verktyg.responses import Response
    env, modified = inputs(c)
    chunks = [c['body'][:2], c['body'][2:]]

    def generate():
        for x in chunks:
            yield x
    passed = c['streamed'] and len(c['body']) % 2 == 1

    class Plain(Response):
        automatically_set_content_length = False
    plain = c['date'] and not c['streamed']
    r = (Plain if plain else Response)(
        generate() if c['streamed'] else c['body'],
        direct_passthrough=passed, headers=[
        ('X-Custom', 'kept'), ('Content-Language', 'en'),
        ('Expires', show(BASE)), ('Content-Location', '/here'),
        ('Allow', 'GET'),
    ])
    if c['own'] is not None:
        r.set_etag(*c['own'])
    if modified is not None:
        r.last_modified = modified
    if c['date']:
        r.date = BASE
    res = r.make_conditional(Request(env) if c['streamed'] else env)
    t.ok(res is r, 'make_conditional returned %r', res)
    seen = []
    app_iter = r(env, lambda status, headers: seen.append((status, headers)))
    body = b''.join(app_iter)
    if hasattr(app_iter, 'close'):
        app_iter.close()
    status, headers = seen[0]
    names = {k.lower() for k, v in headers}
    h = dict((k.lower(), v) for k, v in headers)
    cond = c['method'] in ('GET', 'HEAD')
    t.eq('date' in names, cond or c['date'], 'Date header')
    if c['date']:
        t.eq(h['date'], show(BASE), 'Date')
    t.eq(h.get('x-custom'), 'kept', 'X-Custom')
    t.eq(h.get('expires'), show(BASE), 'Expires')
    t.ok('content-location' in names, 'Content-Location went away')
    t.eq('etag' in names, c['own'] is not None, 'ETag')
    if cond and unmodified(c):
        t.eq(status.split()[0], '304', 'status')
        t.eq(body, b'', 'body of a 304')
        t.eq(names & ENTITY, set(), 'entity headers of a 304')
        t.label('304')
    else:
        t.eq(status.split()[0], '200', 'status')
        t.eq(body, b'' if c['method'] == 'HEAD' else c['body'], 'body')
        t.ok('content-type' in names and 'content-language' in names and
             'allow' in names, 'headers went away')
        if 'content-length' in names:
            t.eq(h['content-length'], str(len(c['body'])), 'Content-Length')
            t.ok(not passed, 'Content-Length of a body passed through')
            t.ok(not plain, 'Content-Length though it was turned off')
        else:
            t.ok(c['streamed'] or plain, 'no Content-Length')
        t.eq('last-modified' in names, modified is not None, 'Last-Modified')
        t.label('200')
    t.nontrivial(bool(c['tags']) or c['since'] is not None)


def check_request(c, t):
    """The request accessors show what the headers say."""
    from verktyg.requests import Request
    env, modified = inputs(c)
    if 'HTTP_IF_NONE_MATCH' in env:
        env['HTTP_IF_MATCH'] = env['HTTP_IF_NONE_MATCH']
    if 'HTTP_IF_MODIFIED_SINCE' in env:
        env['HTTP_IF_UNMODIFIED_SINCE'] = env['HTTP_IF_MODIFIED_SINCE']
    req = Request(env)
    tags = c['tags'] or []
    star = any(how == 'star' for _, _, how in tags)
    for e in req.if_match, req.if_none_match:
        t.eq(e.star_tag, star, 'star')
        if not star:
            t.eq(e.as_set(), {x for x, weak, _ in tags if not weak}, 'strong')
            t.eq(e.as_set(include_weak=True), {x for x, _, _ in tags},
                 'strong and weak')
            for x, weak, _ in tags:
                if weak:
                    t.ok(e.is_weak(x), '%r is not weak', x)
    since = None
    if isinstance(c['since'], int):
        since = BASE + timedelta(seconds=c['since'])
    t.eq(req.if_modified_since, since, 'if_modified_since')
    t.eq(req.if_unmodified_since, since, 'if_unmodified_since')
    t.nontrivial(len(tags) > 1)


def check_total(case, t):
    from verktyg.http import parse_etags, unquote_etag
    text, tag = case
    e = fresh(parse_etags, text)
    fresh(parse_etags, None)
    t.ok(all(isinstance(x, str) for x in e.as_set(include_weak=True)),
         'parsed to %r', e)
    unquote_etag(text)
    # a well formed tag before a rest is found, whatever the rest
    if not e.star_tag:
        e2 = parse_etags('"%s", %s' % (tag, text))
        t.ok(tag in e2, '%r is missing from %r', tag, e2)
    t.nontrivial(len(text) > 3)


def numbers(*names):
    return many(st.sampled_from(names)).map(
        lambda tags: ['%s%d' % (tag, i) for i, tag in enumerate(tags)])


SUBS = [
    Sub('quote', st.tuples(
        st.one_of(TAGTEXT, TAGTEXT, TAGTEXT, st.sampled_from(['"', 'a"b'])),
        st.booleans(), st.booleans(), st.sampled_from(['', ' ', '\t'])),
        check_quote, quick=1200),
    Sub('sets', st.tuples(
        st.lists(TAGTEXT, max_size=4), st.lists(TAGTEXT, max_size=4),
        st.sampled_from([False, False, False, True]),
        st.lists(TAGTEXT, max_size=2), blob(3)),
        check_sets, quick=2250),
    Sub('many', st.tuples(
        st.one_of(many(TAGTEXT), numbers('a', 'é')),
        st.one_of(many(TAGTEXT), numbers('b', 'w/'), st.lists(
            stretched(TAGTEXT), max_size=3)),
        st.just(False), st.lists(TAGTEXT, max_size=2), blob(3)),
        check_sets, quick=150),
    Sub('decision', decisions(), check_decision, quick=7500),
    Sub('response', decisions(), check_response, quick=4500),
    Sub('request', decisions(), check_request, quick=2250),
    Sub('total', st.tuples(
        st.one_of(st.text(alphabet='"wW/*a, \t\\', max_size=14),
                  st.text(alphabet=st.characters(codec='latin-1'),
                          max_size=10)),
        st.sampled_from(['a', 'q,r', ''])),
        check_total, quick=2250),
]
