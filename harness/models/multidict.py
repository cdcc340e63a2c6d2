"""Reference model of multi dicts: a plain list of (key, value) pairs."""


def number(v):
    """like int, which does not raise ValueError for None"""
    if v is None:
        raise ValueError(v)
    return int(v)


class Model(object):
    """Pairs in the order in which they were added."""

    def __init__(self, ordered, pairs=()):
        self.ordered = ordered
        self.pairs = list(pairs)

    def copy(self, ordered=None):
        return Model(self.ordered if ordered is None else ordered, self.pairs)

    # -- reading

    def keys(self):
        return list(dict.fromkeys(k for k, v in self.pairs))

    def getlist(self, key):
        return [v for k, v in self.pairs if k == key]

    def lists(self):
        return [(k, self.getlist(k)) for k in self.keys()]

    def first(self):
        return [(k, self.getlist(k)[0]) for k in self.keys()]

    def __contains__(self, key):
        return any(k == key for k, v in self.pairs)

    def same(self, other):
        if self.ordered and other.ordered:
            return self.pairs == other.pairs
        return dict(self.lists()) == dict(other.lists())

    # -- writing

    def add(self, key, value):
        self.pairs.append((key, value))

    def remove(self, key):
        gone = self.getlist(key)
        self.pairs = [p for p in self.pairs if p[0] != key]
        return gone

    def setlist(self, key, values):
        if self.ordered:
            self.remove(key)
            self.pairs.extend((key, v) for v in values)
        else:
            # keeps the key where it was; the order is not part of the model
            self.remove(key)
            self.pairs.extend((key, v) for v in values)


def flatten(source):
    """What a constructor or update argument stands for."""
    kind, data = source
    if kind == 'pairs' or kind == 'md' or kind == 'omd' or kind == 'gen':
        return list(data)
    if kind == 'dict':
        res = []
        for k, v in dict(data).items():
            if isinstance(v, (list, tuple)):
                res.extend((k, x) for x in v)
            else:
                res.append((k, v))
        return res
    raise ValueError(kind)


def realise(source):
    from verktyg.datastructures import MultiDict, OrderedMultiDict
    kind, data = source
    if kind == 'pairs':
        return [tuple(p) for p in data]
    if kind == 'gen':
        return iter([tuple(p) for p in data])
    if kind == 'md':
        return MultiDict(data)
    if kind == 'omd':
        return OrderedMultiDict(data)
    if kind == 'dict':
        return dict(data)
    raise ValueError(kind)


def canon_source(source, ordered):
    """flatten, in the order in which iterating a MultiDict gives it."""
    pairs = flatten(source)
    if source[0] == 'md':
        keys = list(dict.fromkeys(k for k, v in pairs))
        pairs = [(k, v) for key in keys for k, v in pairs if k == key]
    return pairs


def check_view(t, d, m, keys, what):
    """Every way of looking at d agrees with the model m."""
    def norm(seq):
        seq = list(seq)
        return seq if m.ordered else sorted(seq, key=repr)
    t.eq(norm(d.keys()), norm(m.keys()), what + ': keys()')
    t.eq(norm(iter(d)), norm(m.keys()), what + ': iter()')
    t.eq(len(d), len(m.keys()), what + ': len()')
    t.eq(norm(d.items()), norm(m.first()), what + ': items()')
    t.eq(norm(d.items(multi=True)), norm(m.pairs), what + ': items(multi)')
    t.eq(norm(d.values()), norm([v for k, v in m.first()]),
         what + ': values()')
    t.eq(norm(d.lists()), norm(m.lists()), what + ': lists()')
    t.eq(norm(list(x) for x in d.listvalues()),
         norm([v for k, v in m.lists()]), what + ': listvalues()')
    t.eq(list(zip(d.keys(), (list(x) for x in d.listvalues()))),
         [(k, list(l)) for k, l in d.lists()], what + ': zip of keys, lists')
    t.eq(list(zip(d.keys(), d.values())), list(d.items()),
         what + ': zip of keys, values')
    t.eq(d.to_dict(), dict(m.first()), what + ': to_dict()')
    t.eq(d.to_dict(flat=False), dict(m.lists()), what + ': to_dict(False)')
    for k in keys:
        t.eq(k in d, k in m, what + ': %r in' % (k,))
        l = m.getlist(k)
        t.eq(d.getlist(k), l, what + ': getlist(%r)' % (k,))
        if l:
            t.eq(d[k], l[0], what + ': [%r]' % (k,))
            t.eq(d.get(k), l[0], what + ': get(%r)' % (k,))
            t.eq(d.get(k, 'other'), l[0], what + ': get(%r, x)' % (k,))
        else:
            from verktyg.exceptions import BadRequest
            e = t.raises(KeyError, d.__getitem__, k)
            t.ok(isinstance(e, BadRequest), 'missing key raises %r', e)
            t.eq(d.get(k), None, what + ': get(%r)' % (k,))
            t.eq(d.get(k, 'other'), 'other', what + ': get(%r, x)' % (k,))
    # the public repr shows every pair
    # conversions: values that do not convert are skipped
    for k in keys:
        conv = []
        for v in m.getlist(k):
            try:
                conv.append(number(v))
            except ValueError:
                pass
        t.eq(d.getlist(k, type=number), conv, what + ': getlist(int)')
