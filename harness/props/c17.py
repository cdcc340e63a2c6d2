"""C17: Cache-Control, WWW-Authenticate and Authorization."""
import base64
import copy
import pickle

from itertools import cycle

from hypothesis import strategies as st

from harness.core import Sub
from harness.fresh import fresh
from harness.gen import many, stretched
from harness.props.c12 import TOKEN_CHARS, VALUE, quoted, needs_quotes

ID = 'C17'
RULE = (
    'Histories of 1-10 changes (attribute assignment and deletion, dict '
    'operations) made through Response.cache_control and '
    'Response.www_authenticate, after each of which the header is parsed '
    'independently and compared with a model, and read back through a '
    'fresh accessor; parsed directive lists compared with the attributes '
    'of RequestCacheControl, which must refuse every change; Basic '
    'credentials of arbitrary bytes without a colon in the user name and '
    'Digest credentials with arbitrary quoted values, complete or with '
    'one required field missing; arbitrary strings, on which the parsers '
    'must not raise. Results are scribbled over and the text is parsed '
    'again. many: long histories; long: values of some thousand '
    'characters. Non-trivial: a history that sets and removes, a value '
    'that needs quoting, or a digest that has to be refused.'
)
ASSUMPTIONS = [
    'directive and parameter names are tokens; parameters of '
    'WWW-Authenticate have values; credentials are latin-1',
]


def parse_params(text):
    """Independent parser of a list of token[=value]."""
    res = []
    i = 0
    while i < len(text):
        while i < len(text) and text[i] in ', ':
            i += 1
        if i >= len(text):
            break
        j = i
        while j < len(text) and text[j] in TOKEN_CHARS:
            j += 1
        name = text[i:j]
        value = None
        i = j
        if i < len(text) and text[i] == '=':
            i += 1
            value = ''
            if i < len(text) and text[i] == '"':
                i += 1
                while text[i] != '"':
                    if text[i] == '\\':
                        i += 1
                    value += text[i]
                    i += 1
                i += 1
            else:
                while i < len(text) and text[i] in TOKEN_CHARS:
                    value += text[i]
                    i += 1
        res.append((name, value))
        if i < len(text) and text[i] != ',':
            raise ValueError('unparsable %r' % text)
    return res


BOOL = {'no_store': 'no-store', 'public': 'public',
        'must_revalidate': 'must-revalidate',
        'proxy_revalidate': 'proxy-revalidate',
        'no_transform': 'no-transform'}
STARRED = {'no_cache': 'no-cache', 'private': 'private'}

CC_OP = st.one_of(
    st.tuples(st.just('bool'), st.sampled_from(sorted(BOOL)), st.booleans()),
    st.tuples(st.just('star'), st.sampled_from(sorted(STARRED)),
              st.one_of(st.just(True), st.none(), VALUE)),
    st.tuples(st.just('age'), st.sampled_from(['max_age', 's_maxage']),
              st.one_of(st.none(), st.integers(0, 2),
                        st.integers(0, 10 ** 6))),
    st.tuples(st.just('del'), st.sampled_from(
        sorted(BOOL) + sorted(STARRED) + ['max_age', 's_maxage'])),
    st.tuples(st.just('set'), st.sampled_from(['ext', 'x-y', 'no-cache']),
              st.one_of(st.none(), VALUE)),
    st.tuples(st.just('pop'), st.sampled_from(['ext', 'x-y', 'max-age'])),
    st.tuples(st.just('update'), st.dictionaries(
        st.sampled_from(['ext', 'public', 'max-age']),
        st.sampled_from(['1', '2', None]), max_size=2)),
    st.tuples(st.just('clear')),
    st.tuples(st.just('header'), st.sampled_from(
        ['no-cache, max-age=5', 'private="a, b"', 'public'])),
)
NAMES = dict(BOOL, max_age='max-age', s_maxage='s-maxage', **STARRED)


def check_cache_history(ops, t):
    from verktyg.responses import Response
    r = Response()
    m = {}
    kept = None
    setting = removing = False
    for step, op in enumerate(ops):
        what = 'step %d %r' % (step, op)
        if step % 3 == 0 or kept is None or op[0] == 'header':
            kept = None
        cc = kept if kept is not None else r.cache_control
        kept = cc
        name, args = op[0], op[1:]
        before = dict(m)
        if name == 'bool':
            setattr(cc, args[0], args[1])
            if args[1]:
                m[NAMES[args[0]]] = None
            else:
                m.pop(NAMES[args[0]], None)
        elif name in ('star', 'age'):
            setattr(cc, args[0], args[1])
            if args[1] is None:
                m.pop(NAMES[args[0]], None)
            elif args[1] is True:
                m[NAMES[args[0]]] = None
            else:
                m[NAMES[args[0]]] = str(args[1])
        elif name == 'del':
            delattr(cc, args[0])
            m.pop(NAMES[args[0]], None)
        elif name == 'set':
            cc[args[0]] = args[1]
            m[args[0]] = args[1]
        elif name == 'pop':
            cc.pop(args[0], None)
            m.pop(args[0], None)
        elif name == 'update':
            cc.update(args[0])
            m.update(args[0])
        elif name == 'clear':
            cc.clear()
            m.clear()
        else:
            r.headers['Cache-Control'] = args[0]
            m = dict(parse_params(args[0]))
            kept = None
        setting |= bool(set(m.items()) - set(before.items()))
        removing |= bool(set(before) - set(m))
        header = r.headers.getlist('Cache-Control')
        if not m:
            t.eq(header, [], what)
        else:
            t.eq(len(header), 1, what + ': headers %r' % header)
            t.eq(sorted(parse_params(header[0]), key=repr),
                 sorted(m.items(), key=repr), what + ': %r' % header[0])
        fresh = r.cache_control
        t.eq({k: v if v is None else str(v) for k, v in fresh.items()}, m,
             what + ': accessor')
        for cc in [fresh] + ([kept] if kept is not None else []):
            attributes(t, cc, m, what)
        t.eq(fresh.to_header(), header[0] if header else '', what)
        t.eq(bool(fresh), bool(m), what + ': bool')
    t.nontrivial(setting and removing)


def attributes(t, cc, m, what, request=False):
    for attr, key in BOOL.items():
        if hasattr(cc, attr):
            t.eq(getattr(cc, attr), key in m, what + ': ' + attr)
    for attr, key in STARRED.items():
        if hasattr(cc, attr):
            want = None
            if key in m:
                want = '*' if m[key] is None else m[key]
            t.eq(getattr(cc, attr), want, what + ': ' + attr)
    want = None
    if 'max-age' in m:
        want = m['max-age']
        if want is None:
            want = -1
        else:
            try:
                want = int(want)
            except ValueError:
                pass
    t.eq(cc.max_age, want, what + ': max_age')
    if hasattr(cc, 's_maxage'):
        got = cc.s_maxage
        t.eq(None if got is None else str(got), m.get('s-maxage'),
             what + ': s_maxage')


DIRECTIVES = st.lists(st.tuples(
    st.sampled_from(['no-cache', 'no-store', 'max-age', 'no-transform',
                     'max-stale', 'min-fresh', 'only-if-cached', 'ext']),
    st.one_of(st.none(), st.integers(0, 99).map(str), VALUE)),
    max_size=5, unique_by=lambda d: d[0])


def check_request_cache(case, t):
    from verktyg.http import (
        parse_cache_control_header, RequestCacheControl, ResponseCacheControl,
    )
    from verktyg.requests import Request
    pairs, always, proto = case
    m = dict(pairs)
    text = ', '.join(
        k if v is None else '%s=%s' % (
            k, quoted(v) if f or needs_quotes(v) else v)
        for (k, v), f in zip(pairs, cycle(always)))
    t.nontrivial(len(m) > 1)
    for cc in (fresh(parse_cache_control_header, text),
               Request({'HTTP_CACHE_CONTROL': text}).cache_control,
               RequestCacheControl(m)):
        t.ok(type(cc) is RequestCacheControl, 'a %r', type(cc))
        t.eq(dict(cc), m, 'directives of %r' % text)
        t.eq(cc.no_store, 'no-store' in m, 'no_store')
        t.eq(cc.no_transform, 'no-transform' in m, 'no_transform')
        t.eq(cc.only_if_cached, 'only-if-cached' in m, 'only_if_cached')
        attributes(t, cc, m, 'request')
        for attr, key in ('max_stale', 'max-stale'), ('min_fresh',
                                                      'min-fresh'):
            want = None
            if key in m:
                want = m[key]
                if want is None:
                    want = '*'
                else:
                    try:
                        want = int(want)
                    except ValueError:
                        pass
            t.eq(getattr(cc, attr), want, attr)
        t.eq(sorted(parse_params(cc.to_header()), key=repr),
             sorted(m.items(), key=repr), 'header')
        t.eq(dict(parse_cache_control_header(cc.to_header())), m,
             'read back')
        for f in (
            lambda: setattr(cc, 'no_store', True),
            lambda: setattr(cc, 'max_age', 3),
            lambda: setattr(cc, 'max_age', None),
            lambda: setattr(cc, 'no_cache', 'x'),
            lambda: cc.update(a='b'), lambda: cc.clear(),
            lambda: cc.pop('no-cache', None), lambda: cc.popitem(),
            lambda: cc.setdefault('a', 'b'),
            lambda: cc.__setitem__('a', 'b'),
            lambda: cc.__ior__({'a': 'b'}),
        ):
            t.raises(TypeError, f)
            t.eq(dict(cc), m, 'changed')
        for key in m:
            t.raises(TypeError, cc.__delitem__, key)
        p = pickle.loads(pickle.dumps(cc, proto))
        t.eq((type(p), dict(p)), (RequestCacheControl, m), 'pickle')
        t.eq(hash(cc), hash(RequestCacheControl(m)), 'hash')
    cc = fresh(parse_cache_control_header, text, cls=ResponseCacheControl)
    t.ok(type(cc) is ResponseCacheControl, 'a %r', type(cc))
    t.eq(dict(cc), m, 'directives')


# -- WWW-Authenticate

AUTH_OP = st.one_of(
    st.tuples(st.just('basic'), VALUE),
    st.tuples(st.just('basic')),
    st.tuples(st.just('digest'), VALUE, VALUE,
              st.one_of(st.none(), st.lists(
                  st.sampled_from(['auth', 'auth-int', 'x y']),
                  min_size=1, max_size=2, unique=True)),
              st.one_of(st.none(), VALUE),
              st.one_of(st.none(), st.sampled_from(['MD5', 'MD5-sess'])),
              st.booleans()),
    st.tuples(st.just('attr'), st.sampled_from(
        ['realm', 'nonce', 'opaque', 'algorithm']),
        st.one_of(st.none(), VALUE, VALUE)),
    st.tuples(st.just('type'), st.sampled_from(['basic', 'digest', 'x'])),
    st.tuples(st.just('stale'), st.sampled_from([True, False, None])),
    st.tuples(st.just('qop'), st.sampled_from(['add', 'discard']),
              st.sampled_from(['auth', 'auth-int'])),
    st.tuples(st.just('domain'), st.sampled_from(['add', 'add', 'discard']),
              st.sampled_from(['a.example', 'b', 'B'])),
    st.tuples(st.just('set'), st.sampled_from(['ext', 'x-y', 'domain']), VALUE),
    st.tuples(st.just('pop'), st.sampled_from(['realm', 'ext', 'nonce'])),
    st.tuples(st.just('clear')),
)


def check_auth_history(ops, t):
    from verktyg.http import parse_www_authenticate_header
    from verktyg.responses import Response
    r = Response()
    m = {}
    kind = None
    setting = removing = False
    quoting = False
    for step, op in enumerate(ops):
        what = 'step %d %r' % (step, op)
        a = r.www_authenticate
        name, args = op[0], op[1:]
        before = dict(m)
        if name == 'basic':
            a.set_basic(*args)
            kind = 'basic'
            m = {'realm': args[0] if args else 'authentication required'}
        elif name == 'digest':
            realm, nonce, qop, opaque, algorithm, stale = args
            if qop is None:
                a.set_digest(realm, nonce, opaque=opaque,
                             algorithm=algorithm, stale=stale)
                qop = ['auth']
            else:
                a.set_digest(realm, nonce, qop=tuple(qop), opaque=opaque,
                             algorithm=algorithm, stale=stale)
            kind = 'digest'
            m = {'realm': realm, 'nonce': nonce, 'qop': ', '.join(
                quoted(q) if needs_quotes(q) else q for q in qop)}
            if stale:
                m['stale'] = 'TRUE'
            if opaque is not None:
                m['opaque'] = opaque
            if algorithm is not None:
                m['algorithm'] = algorithm
        elif name == 'attr':
            setattr(a, *args)
            if args[1] is None:
                m.pop(args[0], None)
            else:
                m[args[0]] = args[1]
        elif name == 'type':
            a.type = args[0]
            kind = args[0]
        elif name == 'stale':
            a.stale = args[0]
            m.pop('stale', None)
            if args[0] is not None:
                m['stale'] = 'TRUE' if args[0] else 'FALSE'
        elif name in ('qop', 'domain'):
            have = [x for x in m.get(name, '').split(', ') if x]
            if m.get(name) == '' or not set(have) <= {
                    'auth', 'auth-int', 'a.example', 'b', 'B'}:
                continue
            getattr(getattr(a, name), args[0])(args[1])
            there = [x for x in have if x.lower() == args[1].lower()]
            if args[0] == 'add':
                if not there:
                    have.append(args[1])
            elif there:
                have.remove(there[0])
            m.pop(name, None)
            if have:
                m[name] = ', '.join(have)
        elif name == 'set':
            a[args[0]] = args[1]
            m[args[0]] = args[1]
        elif name == 'pop':
            a.pop(args[0], None)
            m.pop(args[0], None)
        else:
            a.clear()
            m.clear()
            kind = None
        setting |= bool(set(m.items()) - set(before.items()))
        removing |= bool(set(before) - set(m))
        quoting |= any(needs_quotes(v) for v in m.values())
        header = r.headers.getlist('WWW-Authenticate')
        if kind is None and not m:
            t.eq(header, [], what)
        else:
            if kind is None:
                kind = 'basic'      # what a header without a type gets
            t.eq(len(header), 1, what + ': headers %r' % header)
            scheme, _, rest = header[0].partition(' ')
            t.eq(scheme.lower(), kind, what + ': scheme')
            got = parse_params(rest)
            t.eq(len(got), len(m), what + ': %r' % header)
            t.eq(dict(got), m, what + ': %r' % header)
            for key in ('realm', 'nonce', 'opaque', 'qop', 'domain'):
                if key in m:
                    t.ok('%s="' % key in rest, '%s: %s is not quoted in %r',
                         what, key, header)
        for f in r.www_authenticate, parse_www_authenticate_header(
                header[0] if header else ''):
            for key in 'realm', 'nonce', 'opaque', 'algorithm':
                t.eq(getattr(f, key), m.get(key), what + ': ' + key)
            t.eq(f.type, kind, what + ': type')
            t.eq(f.stale, None if 'stale' not in m else
                 m['stale'].lower() == 'true', what + ': stale')
            if 'x y' not in m.get('qop', ''):
                t.eq(sorted(f.qop), sorted(
                    x for x in m.get('qop', '').split(', ') if x),
                    what + ': qop')
            if header:
                t.eq(f.to_header(), header[0], what + ': to_header')
        if a.type is None and kind == 'basic':
            # the object handed out still has no type; go on from the header
            pass
    t.nontrivial(setting and (removing or quoting))


# -- Authorization

def check_basic(case, t):
    from verktyg.http import parse_authorization_header, Authorization
    from verktyg.requests import Request
    user, password, scheme, proto = case
    user = user.replace(b':', b'')
    raw = base64.b64encode(user + b':' + password).decode('ascii')
    text = scheme + ' ' + raw
    u, p = user.decode('latin-1'), password.decode('latin-1')
    for a in (parse_authorization_header(text),
              parse_authorization_header(text.encode('ascii')),
              Request({'HTTP_AUTHORIZATION': text}).authorization,
              pickle.loads(pickle.dumps(
                  parse_authorization_header(text), proto)),
              copy.copy(parse_authorization_header(text)),
              copy.deepcopy(parse_authorization_header(text))):
        t.ok(isinstance(a, Authorization), '%r parsed to %r', text, a)
        t.eq((a.type, a.username, a.password), ('basic', u, p), text)
        t.eq(dict(a), {'username': u, 'password': p}, text)
        t.raises(TypeError, a.__setitem__, 'username', 'root')
        t.raises(TypeError, a.update, {'username': 'root'})
        t.eq(a.username, u, 'changed')
    # no colon: no credentials
    bad = scheme + ' ' + base64.b64encode(user or b'x').decode('ascii')
    t.eq(parse_authorization_header(bad), None, bad)
    t.nontrivial(b':' in password or not user or not password.isalnum())


DIGEST = ['username', 'realm', 'nonce', 'uri', 'response']


def check_digest(case, t):
    from verktyg.http import parse_authorization_header
    from verktyg.requests import Request
    values, opaque, qop, missing, order, scheme = case
    m = dict(zip(DIGEST, values))
    if opaque is not None:
        m['opaque'] = opaque
    if qop is not None:
        m.update(qop=qop, nc='0000000%d' % (order + 1), cnonce=opaque or 'c')
    if order % 3 == 2:
        m['algorithm'] = 'MD5'
    refused = False
    if missing is not None:
        refused = missing in DIGEST or (
            missing in ('nc', 'cnonce') and 'qop' in m)
        m.pop(missing, None)
        if missing in ('nc', 'cnonce') and order % 2:
            m[missing] = ''
    qops = [x.strip() for x in m.get('qop', '').split(',') if x.strip()]
    keys = sorted(m)
    keys = keys[order % len(keys):] + keys[:order % len(keys)]
    text = scheme + ' ' + ', '.join('%s=%s' % (k, quoted(m[k]))
                                    for k in keys)
    for a in fresh(parse_authorization_header, text), Request(
            {'HTTP_AUTHORIZATION': text}).authorization:
        if refused:
            t.eq(a, None, text)
            t.label('refused')
            continue
        t.ok(a is not None, '%r parsed to None', text)
        t.eq(a.type, 'digest', 'type')
        t.eq(dict(a), m, text)
        for key in DIGEST + ['opaque', 'nc', 'cnonce']:
            t.eq(getattr(a, key), m.get(key), key)
        t.eq(list(a.qop), qops, 'qop')
        t.eq(a.password, None, 'password')
    if not refused:
        # the credentials are immutable
        a = parse_authorization_header(text)
        for call in (lambda: a.qop.add('auth-int'),
                     lambda: a.qop.clear(),
                     lambda: a.__setitem__('nonce', 'x'),
                     lambda: a.pop('nonce'), lambda: a.update(uri='x')):
            try:
                call()
            except TypeError:
                pass
            t.eq(dict(a), m, 'credentials')
            t.eq(list(a.qop), qops, 'qop')
    t.nontrivial(refused or any(needs_quotes(v) for v in values))


ODD = st.one_of(
    st.text(alphabet=st.characters(codec='latin-1'), max_size=14),
    st.tuples(st.sampled_from(['Basic ', 'basic ', 'Digest ', 'Bearer ',
                               'Basic', 'Digest']),
              st.one_of(st.text(alphabet=st.characters(codec='latin-1'),
                                max_size=12),
                        st.text(alphabet='YWxhZGRpbjpvcGVu=+/ ',
                                max_size=14),
                        st.text(alphabet='realm="a, \\nc', max_size=14))
              ).map(''.join))


def check_total(text, t):
    from verktyg.http import (
        parse_authorization_header, parse_www_authenticate_header,
        parse_cache_control_header, Authorization, WWWAuthenticate,
        ResponseCacheControl,
    )
    a = fresh(parse_authorization_header, text)
    t.ok(a is None or isinstance(a, Authorization), 'parsed to %r', a)
    if a is not None:
        t.ok(a.username is not None or a.type == 'digest', 'no user: %r', a)
        scheme = text.split(None, 1)[0].lower()
        t.eq(a.type, scheme, 'type')
    w = fresh(parse_www_authenticate_header, text)
    t.ok(isinstance(w, WWWAuthenticate), 'parsed to %r', w)
    for x in text, '', None:
        for kw in {}, {'cls': ResponseCacheControl}:
            fresh(parse_cache_control_header, x, **kw)
        fresh(parse_authorization_header, x)
        fresh(parse_www_authenticate_header, x)
    t.nontrivial(len(text) > 4)


LONG = st.one_of(VALUE, stretched(VALUE, 300))

SUBS = [
    Sub('many', many(CC_OP, 12, 60), check_cache_history, quick=300),
    Sub('many challenges', many(AUTH_OP, 10, 50), check_auth_history,
        quick=300),
    Sub('long', st.tuples(
        stretched(st.binary(min_size=1, max_size=6), 200),
        stretched(st.one_of(st.binary(max_size=6), st.sampled_from(
            [b':', b'\xff', b'p '])), 200),
        st.sampled_from(['Basic', 'basic', 'BASIC']), st.integers(0, 4)),
        check_basic, quick=200),
    Sub('long digest', st.tuples(
        st.lists(LONG, min_size=5, max_size=5), st.one_of(
            st.none(), LONG.filter(bool)), st.sampled_from(
            [None, 'auth', 'auth-int']), st.none(),
        st.integers(0, 9), st.sampled_from(['Digest', 'digest'])),
        check_digest, quick=300),
    Sub('cache history', st.lists(CC_OP, min_size=1, max_size=10),
        check_cache_history, quick=8750),
    Sub('request cache', st.tuples(
        DIRECTIVES, st.lists(st.booleans(), min_size=5, max_size=5),
        st.integers(0, 4)), check_request_cache, quick=5250),
    Sub('auth history', st.lists(AUTH_OP, min_size=1, max_size=8),
        check_auth_history, quick=8750),
    Sub('basic', st.tuples(
        st.one_of(st.binary(max_size=6), st.sampled_from(
            [b'user', b'', b'Aladdin', b'a b'])),
        st.one_of(st.binary(max_size=6), st.sampled_from(
            [b'open:sesame', b'', b':', b'p'])),
        st.sampled_from(['Basic', 'basic', 'BASIC']), st.integers(0, 4)),
        check_basic, quick=3500),
    Sub('digest', st.tuples(
        st.lists(VALUE, min_size=5, max_size=5), st.one_of(
            st.none(), VALUE.filter(bool)), st.sampled_from(
            [None, 'auth', 'auth-int', 'auth, auth-int', 'x', '']),
        st.one_of(st.none(), st.none(), st.sampled_from(
            DIGEST + ['opaque', 'nc', 'cnonce', 'qop'])),
        st.integers(0, 9), st.sampled_from(['Digest', 'digest'])),
        check_digest, quick=5250),
    Sub('total', ODD, check_total, quick=5250),
]
