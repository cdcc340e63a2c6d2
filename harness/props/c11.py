"""C11: Headers behave as an ordered list and never hold a line break."""
import copy
import pickle
import warnings

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import many, numbered, stretched

ID = 'C11'
RULE = (
    'Histories of 1-14 operations (construct from pairs, dict, MultiDict '
    'or Headers; add, add_header, set, []= by name, index and slice, '
    'setdefault, extend, del, remove, pop by name, index or none, '
    'popitem, clear, copy, deepcopy, pickle, slice) with names differing '
    'in case and str, int and bytes values, one in six of which holds CR '
    'or LF. Oracle: a list of pairs with case insensitive names; a value '
    'holding CR or LF is rejected with ValueError and add and set leave '
    'the headers unchanged. EnvironHeaders are compared with the environ '
    'they were made from. many: up to 80 headers and long histories. '
    'Non-trivial: one name is there twice and a name was looked up in '
    'another case, or a line break was rejected.'
)
ASSUMPTIONS = [
    'names are ASCII tokens, values latin-1; equality compares the set of '
    'pairs',
]

NAMES = ['X-A', 'x-a', 'X-a', 'Content-Type', 'CONTENT-TYPE', 'Etag']
LOOK = NAMES + ['etag', 'x-missing']
GOOD = st.one_of(
    st.sampled_from(['a', 'b', '1', '07', 'text/plain', 'x; y', 'a=b', '']),
    st.text(alphabet=st.characters(
        codec='latin-1', exclude_characters='\r\n'), max_size=6),
    st.integers(-5, 100),
    st.sampled_from([b'raw', b'\xe9', b'7']),
)
BAD = st.one_of(
    st.sampled_from(['a\nb', 'a\r\nSet-Cookie: x=y', 'a\r', '\n', '\r', 'a\n',
                     b'a\nb', b'\r', b'x\r\n']),
    st.tuples(st.text(max_size=3, alphabet='ab;= '),
              st.sampled_from(['\r', '\n', '\r\n', '\n ', '\r\n\t']),
              st.text(max_size=3, alphabet='ab;= ')).map(''.join))
VALUE = st.one_of(GOOD, GOOD, GOOD, GOOD, GOOD, BAD)
NAME = st.sampled_from(NAMES)
PAIRS = st.lists(st.tuples(NAME, VALUE), max_size=4)
GOODPAIRS = st.lists(st.tuples(NAME, GOOD), max_size=4)


def text(v):
    if isinstance(v, bytes):
        return v.decode('latin-1')
    return str(v)


def bad(v):
    v = text(v)
    return '\r' in v or '\n' in v


def source():
    return st.one_of(
        st.tuples(st.sampled_from(['pairs', 'md', 'gen', 'headers']),
                  st.one_of(GOODPAIRS, GOODPAIRS, PAIRS)),
        st.tuples(st.just('dict'), st.lists(st.tuples(NAME, st.one_of(
            GOOD, VALUE, st.lists(GOOD, max_size=3),
            st.lists(GOOD, max_size=3).map(tuple))),
            max_size=3, unique_by=lambda p: p[0])),
    )


IDX = st.integers(-3, 4)
SLICE = st.tuples(st.one_of(st.none(), IDX), st.one_of(st.none(), IDX))


def operation():
    return st.one_of(
        st.tuples(st.just('new'), source()),
        st.tuples(st.sampled_from(['add', 'add', 'add_header', 'set', 'set',
                                   'setitem', 'setitem', 'setdefault']),
                  NAME, VALUE),
        st.tuples(st.sampled_from(['add', 'set']), NAME,
                  st.sampled_from(['attachment', 'form-data']),
                  st.dictionaries(st.sampled_from(['filename', 'a_b']),
                                  st.sampled_from(['x', 'a b', 'q"q',
                                                   'n\nl', 'r\rl', None]),
                                  min_size=1, max_size=2)),
        st.tuples(st.just('set index'), IDX, NAME, VALUE),
        st.tuples(st.just('set slice'), SLICE, st.one_of(GOODPAIRS, PAIRS)),
        st.tuples(st.just('extend'), source()),
        st.tuples(st.just('double')),
        st.tuples(st.sampled_from(['del', 'remove']),
                  st.sampled_from(LOOK)),
        st.tuples(st.just('del index'), IDX),
        st.tuples(st.just('del slice'), SLICE),
        st.tuples(st.just('pop'), st.sampled_from(LOOK)),
        st.tuples(st.just('pop'), st.sampled_from(LOOK), st.just('dflt')),
        st.tuples(st.just('pop index'), IDX),
        st.tuples(st.just('pop last')),
        st.tuples(st.just('popitem')),
        st.tuples(st.just('clear')),
        st.tuples(st.sampled_from(
            ['copy', 'copy.copy', 'deepcopy', 'pickle', 'construct'])),
        st.tuples(st.just('slice'), SLICE),
    )


def flat(src):
    kind, data = src
    if kind != 'dict':
        data = list(data)
        if kind == 'md':
            keys = dict.fromkeys(k for k, _ in data)
            data = [p for key in keys for p in data if p[0] == key]
        return data
    res = []
    for k, v in data:
        if isinstance(v, (tuple, list)):
            res.extend((k, x) for x in v)
        else:
            res.append((k, v))
    return res


def realise(src):
    from verktyg.datastructures import MultiDict
    from verktyg.http import Headers
    kind, data = src
    if kind == 'dict':
        return dict(data)
    if kind == 'md':
        return MultiDict(data)
    if kind == 'gen':
        return iter(data)
    if kind == 'headers':
        h = Headers()
        for k, v in data:
            h.add(k, v)
        return h
    # a list may hold anything; numbers stay numbers then
    return [(k, v if isinstance(v, bytes) else text(v)) for k, v in data]


def verify(t, h, m, what):
    t.eq([tuple(p) for p in h], m, what + ': iter')
    t.eq(len(h), len(m), what + ': len')
    t.eq(list(h.items()), m, what + ': items')
    t.eq(list(h.items(lower=True)), [(k.lower(), v) for k, v in m],
         what + ': items(lower)')
    t.eq(list(h.keys()), [k for k, v in m], what + ': keys')
    t.eq(list(h.keys(lower=True)), [k.lower() for k, v in m],
         what + ': keys(lower)')
    t.eq(list(h.values()), [v for k, v in m], what + ': values')
    t.eq(list(h.to_wsgi_list()), m, what + ': to_wsgi_list')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t.eq(list(h.to_list()), m, what + ': to_list')
    for k, v in h.to_wsgi_list():
        t.ok(type(v) is str and '\r' not in v and '\n' not in v,
             '%s: holds the value %r', what, v)
    t.eq(str(h), ''.join('%s: %s\r\n' % p for p in m) + '\r\n',
         what + ': str')
    for name in LOOK:
        l = [v for k, v in m if k.lower() == name.lower()]
        t.eq(h.getlist(name), l, what + ': getlist(%r)' % name)
        t.eq(h.get_all(name), l, what + ': get_all(%r)' % name)
        t.eq(name in h, bool(l), what + ': %r in' % name)
        t.eq(h.has_key(name), bool(l), what + ': has_key(%r)' % name)
        t.eq(h.get(name), l[0] if l else None, what + ': get(%r)' % name)
        t.eq(h.get(name, 'd'), l[0] if l else 'd', what + ': get(%r, d)' % name)
        conv = []
        for v in l:
            try:
                conv.append(int(v))
            except ValueError:
                pass
        t.eq(h.getlist(name, type=int), conv, what + ': getlist(int)')
        try:
            want = int(l[0]) if l else 'd'
        except ValueError:
            want = 'd'
        t.eq(h.get(name, 'd', type=int), want, what + ': get(int)')
        t.eq(h.getlist(name, as_bytes=True), [v.encode('latin1') for v in l],
             what + ': getlist(as_bytes)')
        if l:
            t.eq(h[name], l[0], what + ': [%r]' % name)
            t.eq(h.get(name, as_bytes=True), l[0].encode('latin1'),
                 what + ': get(as_bytes)')
        else:
            from verktyg.exceptions import BadRequest
            e = t.raises(KeyError, h.__getitem__, name)
            t.ok(isinstance(e, BadRequest), 'missing header raises %r', e)


def check_history(case, t):
    from verktyg.http import Headers
    initial, ops = case
    others = []       # (headers, model) that must no longer change

    def build(src):
        want = flat(src)
        if any(bad(v) for k, v in want):
            t.label('line break rejected')
            t.nontrivial()
            t.raises(ValueError, lambda: Headers(realise(src)))
            return None
        return Headers(realise(src)), [(k, text(v)) for k, v in want]

    h, m = build(initial) or (Headers(), [])
    verify(t, h, m, 'initial')
    for step, op in enumerate(ops):
        what = 'step %d %r' % (step, op)
        name, args = op[0], op[1:]
        lower = [k.lower() for k, v in m]
        if name == 'new':
            built = build(args[0])
            if built is not None:
                others.append((h, list(m)))
                h, m = built
        elif name in ('add', 'add_header', 'set', 'setitem', 'setdefault'):
            key, value = args[:2]
            kw = args[2] if len(args) > 2 else {}
            if kw:
                refuse = any(v and bad(v) for v in kw.values())
                shown = None
            else:
                refuse = bad(value)
                shown = text(value)

            def call():
                if name == 'setitem':
                    h[key] = value
                else:
                    return getattr(h, name)(key, value, **kw)
            if name == 'setdefault' and key.lower() in lower:
                t.eq(call(), m[lower.index(key.lower())][1], what)
            elif refuse:
                t.label('line break rejected')
                t.nontrivial()
                t.raises(ValueError, call)
            else:
                call()
                if shown is None:
                    shown = (h.getlist(key) or [''])[-1]
                    t.ok(shown.startswith(value), '%s: value is %r', what,
                         shown)
                    for k, v in kw.items():
                        t.ok(k.replace('_', '-') in shown,
                             '%s: value is %r', what, shown)
                m = list(m)
                if name in ('add', 'add_header') or key.lower() not in lower:
                    m.append((key, shown))
                else:
                    i = lower.index(key.lower())
                    m = m[:i] + [(key, shown)] + [
                        p for p in m[i + 1:] if p[0].lower() != key.lower()]
        elif name == 'set index':
            i, key, value = args
            if not -len(m) <= i < len(m):
                continue

            def call():
                h[i] = (key, value)
            if bad(value):
                t.label('line break rejected')
                t.nontrivial()
                t.raises(ValueError, call)
            else:
                call()
                m = list(m)
                m[i] = (key, text(value))
        elif name == 'set slice':
            s, pairs = slice(*args[0]), args[1]

            def call():
                h[s] = pairs
            if any(bad(v) for k, v in pairs):
                t.label('line break rejected')
                t.nontrivial()
                t.raises(ValueError, call)
            else:
                call()
                m = list(m)
                m[s] = [(k, text(v)) for k, v in pairs]
        elif name == 'extend':
            want = flat(args[0])
            if any(bad(v) for k, v in want):
                t.label('line break rejected')
                t.nontrivial()
                t.raises(ValueError, lambda: h.extend(realise(args[0])))
                now = [tuple(p) for p in h]
                t.eq(now[:len(m)], m, what + ': failed')
                m = now
            else:
                h.extend(realise(args[0]))
                m = m + [(k, text(v)) for k, v in want]
        elif name == 'double':
            if len(m) < 40:
                h.extend(h)
                m = list(m) + list(m)
        elif name in ('del', 'remove'):
            if name == 'del':
                del h[args[0]]
            else:
                h.remove(args[0])
            m = [p for p in m if p[0].lower() != args[0].lower()]
        elif name == 'del index':
            if not -len(m) <= args[0] < len(m):
                continue
            del h[args[0]]
            m = list(m)
            del m[args[0]]
        elif name == 'del slice':
            del h[slice(*args[0])]
            m = list(m)
            del m[slice(*args[0])]
        elif name == 'pop':
            key = args[0]
            if key.lower() in lower:
                t.eq(h.pop(*args), m[lower.index(key.lower())][1], what)
                m = [p for p in m if p[0].lower() != key.lower()]
            elif len(args) > 1:
                t.eq(h.pop(*args), args[1], what)
            else:
                t.raises(KeyError, h.pop, key)
        elif name == 'pop index':
            if not -len(m) <= args[0] < len(m):
                continue
            m = list(m)
            t.eq(h.pop(args[0]), m.pop(args[0]), what)
        elif name in ('pop last', 'popitem'):
            if not m:
                continue
            m = list(m)
            t.eq(h.pop() if name == 'pop last' else h.popitem(), m.pop(),
                 what)
        elif name == 'clear':
            h.clear()
            m = []
        elif name == 'slice':
            new = h[slice(*args[0])]
            t.ok(type(new) is Headers, '%s: gave a %r', what, type(new))
            verify(t, new, m[slice(*args[0])], what)
            continue
        else:
            new = {
                'copy': lambda: h.copy(),
                'copy.copy': lambda: copy.copy(h),
                'deepcopy': lambda: copy.deepcopy(h),
                'pickle': lambda: pickle.loads(pickle.dumps(h)),
                'construct': lambda: Headers(h),
            }[name]()
            t.ok(type(new) is Headers, '%s: gave a %r', what, type(new))
            t.eq(new == h, True, what + ' ==')
            t.eq(new != h, False, what + ' !=')
            others.append((h, list(m)))
            h = new
        t.nontrivial(len({k.lower() for k, v in m}) < len(m) and
                     len({k for k, v in m}) > len({k.lower() for k, v in m}))
        verify(t, h, m, what)
    for o, om in others:
        verify(t, o, om, 'other')
        t.eq(o == h, set(om) == set(m), 'equality')
        t.eq(o != h, set(om) != set(m), 'inequality')
    t.eq(h == m, False, 'equality with a list')


# -- EnvironHeaders

ENV_KEYS = ['HTTP_HOST', 'HTTP_X_FOO', 'HTTP_ACCEPT', 'HTTP_CONTENT_TYPE',
            'HTTP_CONTENT_LENGTH', 'CONTENT_TYPE', 'CONTENT_LENGTH',
            'REQUEST_METHOD', 'PATH_INFO', 'HTTP_X', 'XHTTP_Y',
            'wsgi.version', 'CONTENT_TYPES']
ENV_KEY = st.one_of(
    st.sampled_from(ENV_KEYS),
    st.sampled_from([
        'HTTP_' + k.upper() for k in (
            'content_encoding content_language content_location content_md5 '
            'content_range content_types content_length2 content cookie '
            'cookie2 authorization host2 connection te transfer_encoding '
            'upgrade if_match date via x_forwarded_for user_agent set_cookie '
            'location etag expires http_host https 1').split()]),
    st.text(alphabet='ABZ_09', max_size=5).map(lambda s: 'HTTP_' + s),
    st.text(alphabet='ABT_.h', max_size=5).map(lambda s: 'CONTENT_' + s))


def check_environ(case, t):
    from verktyg.wsgi import EnvironHeaders
    from verktyg.http import Headers
    env, key, value = case
    env = dict(env)
    h = EnvironHeaders(env)
    want = {}
    for k, v in env.items():
        if k in ('CONTENT_TYPE', 'CONTENT_LENGTH'):
            want[k.replace('_', '-').title()] = text(v)
        elif k.startswith('HTTP_') and k[5:] not in (
                'CONTENT_TYPE', 'CONTENT_LENGTH'):
            want[k[5:].replace('_', '-').title()] = text(v)
    t.nontrivial(len(want) > 1)

    def verify(what):
        t.eq(dict(iter(h)), want, what)
        t.eq(len(h), len(want), what + ': len')
        t.eq(sorted(h.keys()), sorted(want), what + ': keys')
        t.eq(sorted(h.to_wsgi_list()), sorted(want.items()), what)
        t.eq(sorted(h.values()), sorted(want.values()), what + ': values')
        t.eq(sorted(h.items(lower=True)),
             sorted((k.lower(), v) for k, v in want.items()),
             what + ': items(lower)')
        for k in ['Host', 'X-Foo', 'Accept', 'Content-Type',
                  'Content-Length', 'X', 'Request-Method', 'Nope',
                  'Path-Info'] + sorted(want):
            for name in (k, k.lower(), k.upper()):
                t.eq(h.get(name), want.get(k), what + ': get(%r)' % name)
                t.eq(name in h, k in want, what + ': %r in' % name)
                t.eq(h.getlist(name), [want[k]] if k in want else [],
                     what + ': getlist(%r)' % name)
                if k in want:
                    t.eq(h[name], want[k], what + ': [%r]' % name)
                else:
                    t.raises(KeyError, h.__getitem__, name)
    verify('environ headers')
    before = dict(env)
    for name, args in [
        ('__setitem__', (key, 'v')), ('__delitem__', (key,)),
        ('set', (key, 'v')), ('add', (key, 'v')), ('add', (key,)),
        ('add_header', (key, 'v')), ('remove', (key,)),
        ('extend', ([(key, 'v')],)), ('pop', (key,)), ('pop', ()),
        ('pop', (key, None)), ('popitem', ()),
        ('setdefault', (key, 'v')), ('clear', ()), ('copy', ()),
        ('insert', (0, (key, 'v'))), ('__setitem__', (0, (key, 'v'))),
        ('__delitem__', (0,)), ('pop', (0,)),
    ]:
        t.raises(TypeError, getattr(h, name), *args)
        t.eq(env, before, 'environ changed by ' + name)
    verify('after attempts')
    # a view: later changes to the environ show
    env['HTTP_' + key.upper().replace('-', '_')] = value
    want[key.title()] = text(value)
    verify('after change')
    t.eq(h == EnvironHeaders(env), True, 'equality')
    t.eq(h == EnvironHeaders(dict(env)), False, 'equality')
    t.eq(h != Headers(list(h)), True, 'equality')


BIG = st.one_of(many(st.tuples(NAME, GOOD)), numbered(
    st.tuples(st.sampled_from(['X-a', 'x-B']), stretched(GOOD.filter(
        lambda v: not isinstance(v, int))))))
BIGSOURCE = st.one_of(
    st.tuples(st.sampled_from(['pairs', 'md', 'gen', 'headers']), BIG),
    st.tuples(st.just('dict'), st.lists(st.tuples(
        NAME, many(GOOD)), max_size=2, unique_by=lambda p: p[0])))
LATIN = st.text(alphabet=st.characters(
    codec='latin-1', exclude_characters='\r\n'), max_size=6)

SUBS = [
    Sub('history', st.tuples(source(), st.lists(
        operation(), min_size=1, max_size=14)), check_history, quick=12000),
    Sub('many', st.one_of(
        st.tuples(BIGSOURCE, st.lists(st.one_of(
            operation(), st.tuples(st.just('extend'), BIGSOURCE)),
            min_size=1, max_size=5)),
        st.tuples(source(), many(operation(), 20, 60))),
        check_history, quick=200),
    Sub('environ', st.tuples(
        st.dictionaries(ENV_KEY,
                        st.one_of(LATIN, st.integers(0, 9)), max_size=8),
        st.sampled_from(['X-Foo', 'Host', 'Accept', 'x-foo', 'X']),
        LATIN), check_environ, quick=6000),
]
