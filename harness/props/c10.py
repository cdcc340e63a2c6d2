"""C10: combined, immutable and observed dictionaries."""
import copy
import pickle

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import many, numbered
from harness.models.multidict import Model, check_view
from harness.props.c09 import KEYS, PAIRS, VALUES, number

ID = 'C10'
RULE = (
    'Combined: 0-4 MultiDicts, OrderedMultiDicts or immutable ones of 0-6 '
    'pairs, read through every accessor, then one of them changed and '
    'read again; oracle: first dict that has the key wins, lists are '
    'concatenated in order. Immutable: every mutating method of list, '
    'dict and the multi dicts with generated arguments must raise '
    'TypeError and change nothing; equal values of one type hash alike; '
    'copies, deep copies and pickles are equal. Observed: histories of '
    '1-12 dict operations on a CallbackDict against a plain dict, '
    'counting notifications. many: up to 80 dicts or pairs. Non-trivial: '
    'a key is in two of the combined dicts; an immutable has two or more '
    'pairs; a history has a changing and a non-changing call.'
)
ASSUMPTIONS = [
    'combined dicts hold no empty value lists; hashes are only compared '
    'within one type; combined dicts are compared with each other only',
]


# -- combined

@st.composite
def combined_cases(draw):
    dicts = draw(st.lists(st.tuples(
        st.sampled_from(['md', 'omd', 'imd', 'iomd']), PAIRS),
        max_size=4))
    change = draw(st.tuples(
        st.integers(0, 3), st.sampled_from(['add', 'set', 'del', 'clear']),
        st.sampled_from(KEYS), VALUES))
    return (dicts, change, draw(st.integers(0, 4)),
            draw(st.integers(0, 4)) == 4)


BIG = st.one_of(
    many(st.tuples(st.sampled_from(KEYS), VALUES)),
    numbered(st.tuples(st.sampled_from(['a', 'b']), VALUES)))
KINDS = st.sampled_from(['md', 'omd', 'imd', 'iomd'])
MANY_COMBINED = st.tuples(
    st.one_of(many(st.tuples(KINDS, PAIRS), 5, 14),
              st.lists(st.tuples(KINDS, BIG), min_size=1, max_size=3)),
    st.tuples(st.integers(0, 9), st.sampled_from(
        ['add', 'set', 'del', 'clear']), st.sampled_from(KEYS), VALUES),
    st.integers(0, 4), st.booleans())


def combine(models):
    """The model of the combination."""
    pairs = []
    for m in models:
        pairs.extend(m.pairs)
    return Model(False, pairs)


READ_ONLY = [
    ('__setitem__', 2), ('__delitem__', 1), ('add', 2), ('setlist', 'l'),
    ('setdefault', 2), ('setdefault', 1), ('setlistdefault', 'l'),
    ('setlistdefault', 1), ('update', 'u'), ('pop', 1), ('pop', 2),
    ('popitem', 0), ('poplist', 1), ('popitemlist', 0), ('clear', 0),
    ('__ior__', 'u'),
]


def attempt_all(t, d, calls, key, value, snapshot):
    """Every mutating call raises TypeError and changes nothing."""
    before = snapshot(d)
    for name, n in calls:
        f = getattr(d, name, None)
        if f is None:
            continue
        if n == 'u':
            args = ({key: value},)
        elif n == 'l':
            args = (key, [value])
        elif n == 's':
            args = ([value],)
        else:
            args = (key, value)[:n]
        try:
            f(*args)
        except TypeError:
            pass
        except Exception as e:
            t.fail('%s.%s%r raised %r, expected TypeError',
                   type(d).__name__, name, args, e)
        else:
            t.fail('%s.%s%r was allowed', type(d).__name__, name, args)
        t.eq(snapshot(d), before, '%s changed by %s%r' % (
            type(d).__name__, name, args))


def multi_snapshot(d):
    return (list(d.items(multi=True)), sorted(d.lists(), key=repr),
            sorted(d.keys(), key=repr), len(d))


def check_combined(case, t):
    from verktyg import datastructures as D
    dicts, change, proto, nested = case
    classes = {'md': D.MultiDict, 'omd': D.OrderedMultiDict,
               'imd': D.ImmutableMultiDict,
               'iomd': D.ImmutableOrderedMultiDict}
    real = [classes[k](p) for k, p in dicts]
    models = [Model(k.endswith('omd'), p) for k, p in dicts]
    for m in models:
        if not m.ordered:
            m.pairs = [(k, v) for k, l in m.lists() for v in l]
    c = D.CombinedMultiDict(real)
    if nested:
        # a combination of combinations
        c = D.CombinedMultiDict(
            [D.CombinedMultiDict(real[:1]), D.CombinedMultiDict(real[1:])])
    seen = [set(m.keys()) for m in models]
    t.nontrivial(any(a & b for i, a in enumerate(seen)
                     for b in seen[i + 1:]))

    def verify(c, models, what):
        check_combined_view(t, c, combine(models), models, what)
    verify(c, models, 'combined')
    attempt_all(t, c, READ_ONLY, 'a', 'new', multi_snapshot)
    verify(c.copy(), models, 'copy')
    verify(copy.copy(c), models, 'copy.copy')
    deep = [c.deepcopy(), copy.deepcopy(c),
            pickle.loads(pickle.dumps(c, proto))]
    shallow = c.copy()
    flat = combine(models).pairs
    same = D.CombinedMultiDict([D.MultiDict(flat)])
    for d in deep + [shallow, same]:
        t.eq((c == d, d == c, c != d), (True, True, False), 'equality')
        t.eq(hash(c.copy()), hash(d), 'hash')
    for other in (flat + [('new', 'x')], flat[1:], []):
        d = D.CombinedMultiDict([D.MultiDict(other)])
        t.eq((c == d, d == c, c != d), (
            (True, True, False) if len(other) == len(flat) else
            (False, False, True)), 'equality with %r' % d)
    for d in deep:
        t.ok(type(d) is D.CombinedMultiDict, 'copied to %r', type(d))
        verify(d, models, 'deep copy')
    old = [m.copy() for m in models]
    live = [i for i, (k, _) in enumerate(dicts) if k in ('md', 'omd')]
    if live:
        i, op, k, v = change
        i = live[i % len(live)]
        t.label('changed ' + op)
        if op == 'add':
            real[i].add(k, v)
            models[i].add(k, v)
        elif op == 'set':
            real[i][k] = v
            models[i].setlist(k, [v])
        elif op == 'del':
            real[i].poplist(k)
            models[i].remove(k)
        else:
            real[i].clear()
            models[i].pairs = []
        verify(c, models, 'after change')
        verify(shallow, models, 'shallow copy after change')
        same = dict(combine(models).lists()) == dict(combine(old).lists())
        t.eq((c == deep[0], c != deep[0]), (same, not same), 'equality')
        for d in deep:
            verify(d, old, 'deep copy after change')
    # conversions: a dict whose value does not convert is passed over
    # (a nested combination is one dict)
    for k in KEYS if not nested else ():
        want = 'default'
        for m in models:
            if k in m:
                try:
                    want = number(m.getlist(k)[0])
                    break
                except ValueError:
                    pass
        t.eq(c.get(k, 'default', type=number), want, 'get(type)')


def check_combined_view(t, c, m, models, what):
    from verktyg.exceptions import BadRequest

    def norm(seq):
        return sorted(seq, key=repr)
    t.eq(norm(c.keys()), norm(m.keys()), what + ': keys()')
    t.eq(norm(iter(c)), norm(m.keys()), what + ': iter()')
    t.eq(len(c), len(m.keys()), what + ': len()')
    t.eq(norm(c.items()), norm(m.first()), what + ': items()')
    t.eq(norm(c.items(multi=True)), norm(m.pairs), what + ': items(multi)')
    t.eq(norm(c.values()), norm([v for k, v in m.first()]),
         what + ': values()')
    t.eq(norm(c.lists()), norm(m.lists()), what + ': lists()')
    t.eq(norm(list(x) for x in c.listvalues()),
         norm([v for k, v in m.lists()]), what + ': listvalues()')
    t.eq(c.to_dict(), dict(m.first()), what + ': to_dict()')
    t.eq(c.to_dict(flat=False), dict(m.lists()), what + ': to_dict(False)')
    multi = list(c.items(multi=True))
    for k in KEYS + ['nope']:
        l = m.getlist(k)
        t.eq(k in c, bool(l), what + ': in')
        t.eq([v for k2, v in multi if k2 == k], l,
             what + ': items(multi) of a key')
        t.eq(c.getlist(k), l, what + ': getlist')
        conv = []
        for v in l:
            try:
                conv.append(number(v))
            except ValueError:
                pass
        t.eq(c.getlist(k, type=number), conv, what + ': getlist(int)')
        if l:
            t.eq(c[k], l[0], what + ': []')
            t.eq(c.get(k, 'x'), l[0], what + ': get')
        else:
            e = t.raises(KeyError, c.__getitem__, k)
            t.ok(isinstance(e, BadRequest), 'combined [] raises %r', e)
            t.eq(c.get(k, 'x'), 'x', what + ': get')


# -- immutable

@st.composite
def immutable_cases(draw):
    kind = draw(st.sampled_from(
        ['list', 'dict', 'tcd', 'md', 'omd']))
    return (kind, draw(PAIRS), draw(st.integers(0, 1 << 30)), draw(st.sampled_from(KEYS + ['new'])), draw(VALUES),
            draw(st.integers(0, 4)))


def check_immutable(case, t):
    import random
    from verktyg import datastructures as D
    kind, pairs, shuffle, key, value, proto = case
    t.label(kind)
    t.nontrivial(len(pairs) > 1)
    if kind == 'list':
        values = [v for k, v in pairs]
        x = D.ImmutableList(values)
        t.eq(list(x), values, 'contents')
        calls = {
            'append': [(value,)], 'extend': [([value],), ([],)],
            'insert': [(0, value)], 'pop': [(), (0,)],
            'remove': [(values[0] if values else value,)], 'reverse': [()],
            'sort': [()], 'clear': [()], '__iadd__': [([value],)],
            '__imul__': [(2,), (0,)], '__setitem__': [
                (0, value), (slice(0, 0), [value])],
            '__delitem__': [(0,), (slice(None),)],
        }
        for name, argss in calls.items():
            for args in argss:
                t.raises(TypeError, getattr(x, name), *args)
                t.eq(list(x), values, 'changed by ' + name)
        y = D.ImmutableList(values)
        t.eq(x == y, True, 'equality')
        t.eq(hash(x), hash(y), 'hash')
        z = pickle.loads(pickle.dumps(x, proto))
        t.ok(type(z) is D.ImmutableList and z == x, 'pickled to %r', z)
        return
    cls, mutable = {
        'dict': (D.ImmutableDict, dict),
        'tcd': (D.ImmutableTypeConversionDict, D.TypeConversionDict),
        'md': (D.ImmutableMultiDict, D.MultiDict),
        'omd': (D.ImmutableOrderedMultiDict, D.OrderedMultiDict),
    }[kind]
    multi = kind in ('md', 'omd')
    x = cls(pairs)

    def snap(d):
        if multi:
            return multi_snapshot(d)
        return sorted(d.items(), key=repr)
    h = hash(x)
    calls = READ_ONLY if multi else [
        c for c in READ_ONLY if hasattr(dict, c[0])]
    attempt_all(t, x, calls, key, value, snap)
    for k, _ in pairs:
        attempt_all(t, x, calls, k, value, snap)
    # the statement form of the same
    y = x
    try:
        y |= {key: value}
    except TypeError:
        pass
    else:
        t.fail('%s: |= was allowed', cls.__name__)
    t.eq(hash(x), h, 'hash changed')
    if multi:
        check_view(t, x, Model(kind == 'omd', pairs), KEYS, cls.__name__)
    else:
        t.eq(dict(x), dict(pairs), cls.__name__)
    # equal values hash alike, whatever order they were built in
    shuffled = list(pairs)
    random.Random(shuffle).shuffle(shuffled)
    z = cls(shuffled)
    a, b = Model(kind == 'omd', pairs), Model(kind == 'omd', shuffled)
    same = a.same(b) if multi else dict(pairs) == dict(shuffled)
    t.eq(x == z, same, '==')
    t.eq(x != z, not same, '!=')
    if same:
        t.eq(hash(x), hash(z), 'hash of equal values')
        t.eq(len({x, z}), 1, 'set of equal values')
        t.label('equal')
    t.ok(copy.copy(x) is x, 'copy.copy made a new object')
    for name, c in [
        ('pickle', pickle.loads(pickle.dumps(x, proto))),
        ('copy.deepcopy', copy.deepcopy(x)),
        ('constructor', cls(x)),
    ]:
        t.ok(type(c) is cls, '%s gave %r', name, type(c))
        t.eq(c == x, True, name)
        t.eq(snap(c), snap(x), name)
        t.eq(hash(c), hash(x), name)
    m = x.copy()
    t.ok(type(m) is mutable, 'copy() is a %r', type(m))
    t.eq(snap(m), snap(x), 'copy()')
    before = snap(x)
    m[key] = 'changed'
    if multi:
        m.add(key, 'more')
    t.eq(snap(x), before, 'changed through its copy()')
    f = cls.fromkeys(['a', 'b'], value)
    t.ok(type(f) is cls, 'fromkeys gave %r', type(f))
    t.eq(sorted(f.items()), [('a', value), ('b', value)], 'fromkeys')
    g = cls([('a', value), ('b', value)])
    t.ok(f == g and hash(f) == hash(g), 'fromkeys and pairs differ')


# -- observed

def observed_op():
    key, val = st.sampled_from(KEYS), VALUES
    return st.one_of(
        st.tuples(st.just('__setitem__'), key, val),
        st.tuples(st.just('__delitem__'), key),
        st.tuples(st.just('setdefault'), key, val),
        st.tuples(st.just('setdefault'), key),
        st.tuples(st.just('pop'), key),
        st.tuples(st.just('pop'), key, val),
        st.tuples(st.just('popitem')),
        st.tuples(st.just('clear')),
        st.tuples(st.just('update'), st.dictionaries(key, val, max_size=3)),
        st.tuples(st.just('update'), st.lists(
            st.tuples(key, val), max_size=3)),
        st.tuples(st.just('__ior__'), st.dictionaries(key, val, max_size=3)),
        st.tuples(st.just('|='), st.dictionaries(key, val, max_size=3)),
        st.tuples(st.just('update kw'), st.dictionaries(
            st.sampled_from(['a', 'b']), val, max_size=2)),
        st.tuples(st.just('get'), key),
    )


def check_observed(case, t):
    from verktyg.datastructures import CallbackDict
    initial, ops, listening = case
    events = []

    def on_update(d):
        events.append((d, dict(d)))
    d = CallbackDict(initial, on_update if listening else None)
    t.eq(events, [], 'notified of its construction')
    m = dict(initial)
    changed = unchanged = False
    for step, op in enumerate(ops):
        what = 'step %d %r' % (step, op)
        name, args = op[0], op[1:]
        before = dict(m)
        del events[:]

        def call(x):
            if name == '|=':
                y = x
                y |= args[0]
                t.ok(y is x, '|= made a new dict')
                return None
            if name == 'update kw':
                return x.update(**args[0])
            r = getattr(x, name)(*args)
            return None if name == '__ior__' else r
        results = []
        for x in d, m:
            try:
                results.append(('returned', call(x)))
            except KeyError:
                results.append(('raised', KeyError))
        t.eq(results[0], results[1], what)
        t.eq(dict(d), m, what)
        if not listening:
            continue
        for who, contents in events:
            t.ok(who is d, '%s: notified with %r', what, who)
            t.eq(contents, m, '%s: notified before the change' % what)
        if m != before:
            t.eq(len(events), 1, what + ': notifications')
            changed = True
        elif (
            name in ('setdefault', 'pop', 'get') or
            results[0][0] == 'raised'
        ) and not (name == 'setdefault' and args[0] not in before):
            t.eq(len(events), 0, what + ': notified of nothing')
            unchanged = True
        else:
            t.ok(len(events) <= 1, '%s: notified %d times', what, len(events))
    t.nontrivial(changed and unchanged)


SUBS = [
    Sub('combined', combined_cases(), check_combined, quick=5000),
    Sub('many combined', MANY_COMBINED, check_combined, quick=150),
    Sub('many immutable', st.tuples(
        st.sampled_from(['list', 'dict', 'tcd', 'md', 'omd']), BIG,
        st.integers(0, 1 << 30), st.sampled_from(KEYS + ['new']), VALUES,
        st.integers(0, 4)), check_immutable, quick=150),
    Sub('immutable', immutable_cases(), check_immutable, quick=6000),
    Sub('observed', st.tuples(
        st.dictionaries(st.sampled_from(KEYS), VALUES, max_size=3),
        st.lists(observed_op(), min_size=1, max_size=12),
        st.integers(0, 4).map(bool)), check_observed, quick=6000),
    Sub('many observed', st.tuples(
        st.builds(
            lambda d, n: dict({'k%03d' % i: i for i in range(n)}, **d),
            st.dictionaries(st.sampled_from(['a', 'b']), VALUES, max_size=2),
            st.integers(10, 200)),
        st.lists(observed_op(), min_size=1, max_size=30),
        st.just(True)), check_observed, quick=300),
]
