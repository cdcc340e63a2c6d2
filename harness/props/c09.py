"""C09: MultiDict and OrderedMultiDict behave as lists of pairs."""
import copy
import pickle

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import many, numbered
from harness.models.multidict import (
    number,
    Model, canon_source, check_view, realise,
)

ID = 'C09'
RULE = (
    'Histories of 1-14 operations (construct from pairs, generator, dict, '
    'MultiDict or OrderedMultiDict; add, [k]=, setlist, setdefault, '
    'setlistdefault, update, |=, pop, popitem, poplist, popitemlist, del, '
    'clear, copy, deepcopy, pickle, copy constructor) over three '
    'registers holding MultiDicts or OrderedMultiDicts. Oracle: a list of '
    'pairs per register, compared through every accessor after every '
    'step, in every register, so that shared state between copies shows. '
    'many: up to 80 pairs and long histories. Non-trivial: some key has '
    'two or more values and something was removed, replaced or copied.'
)
ASSUMPTIONS = [
    'keys hashable, values not lists or tuples when given inside a dict; an '
    'empty list from setlistdefault counts for in, len and keys',
]

KEYS = ['a', 'b', 'c', '', 0, None]
VALUES = st.one_of(st.sampled_from(['1', '2', '07', 'x', '', 'y', None]),
                   st.integers(-1, 3))
PAIRS = st.lists(st.tuples(st.sampled_from(KEYS), VALUES), max_size=6)
VLIST = st.lists(VALUES, max_size=3)


def source():
    return st.one_of(
        st.tuples(st.sampled_from(['pairs', 'md', 'omd', 'gen']), PAIRS),
        st.tuples(st.just('dict'), st.lists(
            st.tuples(st.sampled_from(KEYS),
                      st.one_of(VALUES, VLIST, VLIST.map(tuple))),
            max_size=3, unique_by=lambda p: p[0])),
    )


REG = st.integers(0, 2)
KEY = st.sampled_from(KEYS)


def operation():
    return st.one_of(
        st.tuples(st.just('new'), REG, st.booleans(), source()),
        st.tuples(st.just('add'), REG, KEY, VALUES),
        st.tuples(st.just('add'), REG, KEY, VALUES),
        st.tuples(st.just('set'), REG, KEY, VALUES),
        st.tuples(st.just('setlist'), REG, KEY, VLIST),
        st.tuples(st.just('setdefault'), REG, KEY, VALUES),
        st.tuples(st.just('setdefault'), REG, KEY),
        st.tuples(st.just('setlistdefault'), REG, KEY, VLIST, VALUES),
        st.tuples(st.just('live'), REG, KEY, VALUES, st.integers(0, 3)),
        st.tuples(st.just('update'), REG, source()),
        st.tuples(st.just('update reg'), REG, REG),
        st.tuples(st.just('pop'), REG, KEY),
        st.tuples(st.just('pop default'), REG, KEY, VALUES),
        st.tuples(st.just('popitem'), REG),
        st.tuples(st.just('poplist'), REG, KEY),
        st.tuples(st.just('popitemlist'), REG),
        st.tuples(st.just('del'), REG, KEY),
        st.tuples(st.just('clear'), REG),
        st.tuples(st.sampled_from(
            ['copy', 'copy.copy', 'deepcopy', 'copy.deepcopy', 'pickle',
             'construct', 'convert', 'setstate']), REG, REG,
            st.integers(0, 4)),
        st.tuples(st.just('scribble'), REG, KEY),
    )


@st.composite
def histories(draw):
    return (draw(st.lists(st.tuples(st.booleans(), source()),
                          min_size=3, max_size=3)),
            draw(st.lists(operation(), min_size=1, max_size=14)))


BIG = st.one_of(
    many(st.tuples(st.sampled_from(KEYS), VALUES)),
    numbered(st.tuples(st.sampled_from(['a', 'b']), VALUES)))
BIGSOURCE = st.one_of(
    st.tuples(st.sampled_from(['pairs', 'md', 'omd', 'gen']), BIG),
    st.tuples(st.just('dict'), numbered(st.tuples(
        st.sampled_from(['a', 'b']), st.one_of(VALUES, VLIST)))),
    st.tuples(st.just('dict'), st.lists(st.tuples(
        st.sampled_from(KEYS), many(VALUES)), max_size=2,
        unique_by=lambda p: p[0])))


def long_histories():
    """few operations on dictionaries of many items, or many operations"""
    register = st.tuples(st.booleans(), BIGSOURCE)
    big = st.one_of(
        st.tuples(st.just('update'), REG, BIGSOURCE),
        st.tuples(st.just('setlist'), REG, KEY, many(VALUES)),
        st.tuples(st.just('setlistdefault'), REG, KEY, many(VALUES), VALUES))
    return st.one_of(
        st.tuples(st.lists(register, min_size=3, max_size=3), st.lists(
            st.one_of(operation(), big), min_size=1, max_size=5)),
        st.tuples(st.lists(st.tuples(st.booleans(), source()),
                           min_size=3, max_size=3),
                  many(st.one_of(operation(), st.tuples(
                      st.just('add'), REG, KEY, VALUES)), 30, 90)))


def check_history(case, t):
    from verktyg.datastructures import MultiDict, OrderedMultiDict
    from verktyg.exceptions import BadRequest
    initial, ops = case

    def make(ordered, src):
        cls = OrderedMultiDict if ordered else MultiDict
        return cls(realise(src)), Model(ordered, canon_source(src, ordered))
    regs = [make(*i) for i in initial]
    removed = False
    many = False
    for step, op in enumerate(ops):
        what = 'step %d %r' % (step, op)
        name, r = op[0], op[1]
        d, m = regs[r]
        if name == 'new':
            regs[r] = make(op[2], op[3])
        elif name == 'add':
            d.add(op[2], op[3])
            m.add(op[2], op[3])
        elif name == 'set':
            d[op[2]] = op[3]
            removed |= len(m.getlist(op[2])) > 0
            m.setlist(op[2], [op[3]])
        elif name == 'setlist':
            l = list(op[3])
            d.setlist(op[2], l)
            m.setlist(op[2], op[3])
            l.append('scribble')
        elif name == 'setdefault':
            default = op[3] if len(op) > 3 else None
            got = d.setdefault(*op[2:])
            if op[2] in m:
                t.eq(got, m.getlist(op[2])[0], what)
            else:
                t.eq(got, default, what)
                m.setlist(op[2], [default])
        elif name == 'setlistdefault':
            if m.ordered:
                t.raises(TypeError, d.setlistdefault, op[2], op[3])
            else:
                given = list(op[3])
                live = d.setlistdefault(op[2], given)
                if op[2] not in m:
                    m.setlist(op[2], op[3])
                t.eq(list(live), m.getlist(op[2]), what)
                given.append('scribble')
                live.append(op[4])
                m.add(op[2], op[4])
        elif name == 'live':
            if m.ordered:
                t.raises(TypeError, d.setlistdefault, op[2])
                continue
            live = d.setlistdefault(op[2])
            t.eq(list(live), m.getlist(op[2]), what)
            if not live:
                # a key without values has no first value
                t.eq(d.getlist(op[2]), [], what + ' getlist')
                t.eq(d.get(op[2], 'none'), 'none', what + ' get')
                e = t.raises(KeyError, d.__getitem__, op[2])
                t.ok(isinstance(e, BadRequest), '[] raises %r', e)
                for got in (d.items(), d.items(multi=True),
                            d.to_dict().items()):
                    t.ok(op[2] not in [k for k, v in got],
                         '%s: %r has a value', what, op[2])
                t.eq(len(list(d.values())), len(m.keys()), what)
                if op[4] == 0:
                    t.eq(d.pop(op[2], 'none'), 'none', what + ' pop')
                    live = d.setlistdefault(op[2])
                elif op[4] == 1:
                    e = t.raises(KeyError, d.pop, op[2])
                    t.ok(isinstance(e, BadRequest), 'pop raises %r', e)
                    live = d.setlistdefault(op[2])
                elif op[4] == 2:
                    t.eq(d.setdefault(op[2], op[3]), op[3], what)
                    t.eq(d.poplist(op[2]), [op[3]], what)
                    live = d.setlistdefault(op[2])
            live.append(op[3])
            m.add(op[2], op[3])
        elif name == 'update':
            if step % 3:
                d.update(realise(op[2]))
            else:
                d |= realise(op[2])
                t.ok(d is regs[r][0], '|= gave a new dict')
            m.pairs.extend(canon_source(op[2], m.ordered))
        elif name == 'update reg':
            other, om = regs[op[2]]
            if len(m.pairs) + len(om.pairs) > 200:
                continue
            d.update(other)
            if op[2] == r:
                m.pairs.extend(list(m.pairs))
            else:
                m.pairs.extend(om.pairs if om.ordered else [
                    (k, v) for k, l in other.lists() for v in l])
        elif name in ('pop', 'pop default'):
            l = m.remove(op[2])
            removed |= bool(l)
            args = op[2:]
            if l:
                t.eq(d.pop(*args), l[0], what)
            elif name == 'pop':
                e = t.raises(KeyError, d.pop, *args)
                t.ok(isinstance(e, BadRequest), 'pop raises %r', e)
            else:
                t.eq(d.pop(*args), op[3], what)
        elif name in ('popitem', 'popitemlist'):
            if not m.pairs:
                e = t.raises(KeyError, getattr(d, name))
                t.ok(isinstance(e, BadRequest), 'popitem raises %r', e)
            else:
                k, v = getattr(d, name)()
                t.ok(k in m, '%s: returned key %r which was not there', what,
                     k)
                l = m.remove(k)
                t.eq(v, l if name == 'popitemlist' else l[0], what)
                removed = True
        elif name == 'poplist':
            l = m.remove(op[2])
            t.eq(list(d.poplist(op[2])), l, what)
            removed |= bool(l)
        elif name == 'del':
            if op[2] in m:
                del d[op[2]]
                m.remove(op[2])
                removed = True
            else:
                t.raises(KeyError, d.__delitem__, op[2])
        elif name == 'clear':
            d.clear()
            m.pairs = []
            removed = True
        elif name == 'scribble':
            # what the accessors hand out is not the dict's own state
            d.getlist(op[2]).append('scribble')
            for _, l in list(d.lists()):
                l.append('scribble')
            d.to_dict()['scribble'] = 1
            for l in d.to_dict(flat=False).values():
                l.append('scribble')
        else:
            src, sm = regs[op[2]]
            ordered = sm.ordered
            if name == 'copy':
                new = src.copy()
            elif name == 'copy.copy':
                new = copy.copy(src)
            elif name == 'deepcopy':
                new = src.deepcopy()
            elif name == 'copy.deepcopy':
                new = copy.deepcopy(src)
            elif name == 'pickle':
                new = pickle.loads(pickle.dumps(src, op[3]))
            elif name == 'construct':
                new = type(src)(src)
            elif name == 'setstate':
                new = type(src)([('a', 'old'), ('b', 'old')])
                new.__setstate__(src.__getstate__())
            else:
                ordered = not ordered
                new = (OrderedMultiDict if ordered else MultiDict)(src)
            if name != 'convert':
                t.ok(type(new) is type(src), '%s: gave a %r', what, type(new))
                t.eq(new == src, True, what + ' ==')
            nm = sm.copy(ordered)
            if ordered and not sm.ordered:
                nm.pairs = [(k, v) for k, l in src.lists() for v in l]
            regs[r] = (new, nm)
            removed = True
        for i, (d, m) in enumerate(regs):
            check_view(t, d, m, KEYS + ['nope'], '%s: register %d' % (what, i))
            many |= len(m.pairs) > len(m.keys())
        for d1, m1 in regs:
            for d2, m2 in regs:
                t.eq(d1 == d2, m1.same(m2), '%s: %r == %r' % (what, d1, d2))
                t.eq(d1 != d2, not m1.same(m2), '%s: %r != %r' % (
                    what, d1, d2))
    t.nontrivial(removed and many)
    t.label(*{op[0] for op in ops})


def mutable_values():
    return st.tuples(
        st.booleans(),
        st.lists(st.tuples(st.sampled_from(KEYS), st.integers(0, 3)),
                 min_size=1, max_size=6),
        st.booleans(), st.integers(0, 5), st.booleans())


def check_deep(case, t):
    """deep copies share no value with the original, shallow copies all."""
    from verktyg.datastructures import MultiDict, OrderedMultiDict
    ordered, pairs, method, which, empty = case
    cls = OrderedMultiDict if ordered else MultiDict
    def fresh():
        return [(k, {} if empty and not v else {'box': v}) for k, v in pairs]
    boxes = fresh()
    d = cls(boxes)
    deep = d.deepcopy() if method else copy.deepcopy(d)
    shallow = d.copy() if method else copy.copy(d)
    key, box = boxes[which % len(boxes)]
    box['box'] = 'changed'
    m = Model(ordered, fresh())

    def norm(x):
        return sorted(x.items(multi=True), key=lambda p: repr(p[0]))
    t.eq([v for v in norm(deep)], sorted(m.pairs, key=lambda p: repr(p[0])),
         'deep copy')
    t.eq(norm(shallow), sorted(boxes, key=lambda p: repr(p[0])), 'shallow copy')
    for k in KEYS:
        for a, b in zip(d.getlist(k), shallow.getlist(k)):
            t.ok(a is b, 'shallow copy copied a value')
    shared = {'box': 0}
    two = cls([('a', shared), ('b', shared)])
    new = copy.deepcopy([two, shared])
    t.ok(new[0]['a'] is new[1] and new[0]['b'] is new[1],
         'deepcopy ignores the memo')
    t.nontrivial(len(pairs) > 1)


def check_convert(case, t):
    """get(type=) falls back, and nothing but ValueError is swallowed."""
    from verktyg.datastructures import (
        MultiDict, OrderedMultiDict, TypeConversionDict,
        ImmutableTypeConversionDict,
    )
    pairs, default = case
    for cls in (MultiDict, OrderedMultiDict, TypeConversionDict,
                ImmutableTypeConversionDict):
        d = cls(pairs)
        first = {}
        for k, v in pairs:
            if cls in (MultiDict, OrderedMultiDict):
                first.setdefault(k, v)
            else:
                first[k] = v
        for k in KEYS:
            want = default
            if k in first:
                try:
                    want = number(first[k])
                except ValueError:
                    pass
            t.eq(d.get(k, default, type=number), want, '%r get' % cls)
            if k in first:
                t.raises(TypeError, d.get, k, default, type=lambda v: v + None)
                if cls in (MultiDict, OrderedMultiDict):
                    t.raises(TypeError, d.getlist, k, type=lambda v: v + None)
    t.nontrivial(len(pairs) > 1)


SUBS = [
    Sub('history', histories(), check_history, quick=4000),
    Sub('many', long_histories(), check_history, quick=150),
    Sub('deep', mutable_values(), check_deep, quick=600),
    Sub('convert', st.tuples(PAIRS, st.sampled_from([None, -1, 'd'])),
        check_convert, quick=500),
]
