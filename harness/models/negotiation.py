"""Reference model of content negotiation and generators for it."""
from hypothesis import strategies as st

TYPES = ['text/html', 'text/plain', 'text/xml', 'application/json',
         'application/xml', 'application/xhtml+xml', 'image/png',
         'application/vnd.x+json']
LANGS = ['en', 'en-gb', 'en-us', 'en-gb-oed', 'fr', 'fr-be', 'de', 'zu',
         'eng', 'en-gbx', 'fra-be']
CHARSETS = ['utf-8', 'iso-8859-1', 'utf-16', 'koi8-r']

Q = st.sampled_from(['1', '1.0', '0.9', '0.8', '0.5', '0.25', '0.1', '0.001',
                     '0', '0.0', '1.5', '.5', '1.', '0.333'])
QS = st.sampled_from([None, None, 1.0, 0.5, 0.25, 0.75, 0.0])


def type_range():
    return st.one_of(
        st.sampled_from(TYPES), st.sampled_from(['*/*', 'text/*',
                                                 'application/*', 'image/*']))


def lang_range():
    return st.sampled_from(LANGS + ['*', 'en', 'fr'])


def charset_range():
    return st.sampled_from(CHARSETS + ['*'])


def ranges(which, max_size=5):
    r = {'type': type_range, 'lang': lang_range,
         'charset': charset_range}[which]()
    return st.lists(st.tuples(r, st.one_of(st.none(), Q)),
                    min_size=1, max_size=max_size)


def header(rs, spaced=False):
    if spaced == 'params':
        # parameters, which say nothing about quality, around the quality
        return ','.join(
            v + ''.join(';p%d=%d' % (i, j) for i in range((j * 3 + 2) % 7)) +
            ('' if q is None else ';q=' + q) +
            ';r=1' * (j % 2) for j, (v, q) in enumerate(rs))
    sep = ' , ' if spaced == 'wide' else ', ' if spaced else ','
    param = {True: '%s; q=%s', False: '%s;q=%s', 'wide': '%s ; q = %s'}[spaced]
    return sep.join(v if q is None else param % (v, q) for v, q in rs)


def clamp(q):
    return max(min(float(q), 1.0), 0.0)


def specificity(which, value, rng):
    """None, or how specifically the range names the value."""
    if which == 'type':
        vt, vs = value.split('/')
        rt, rs = rng.split('/')
        if rt not in ('*', vt) or rs not in ('*', vs):
            return None
        return (rt == vt, rs == vs)
    if which == 'lang':
        vp = value.split('-')
        if rng == '*':
            return (-len(vp), 0)
        rp = rng.split('-')
        if vp[:len(rp)] != rp:
            return None
        return (len(rp) - len(vp), len(rp))
    if rng == '*':
        return (False,)
    return (True,) if rng == value else None


def score(which, value, rs, qs=None):
    """None if not acceptable, else (specificity, q, quality)."""
    best = None
    for rng, q in rs:
        s = specificity(which, value, rng)
        if s is None:
            continue
        q = clamp(q if q is not None else 1)
        if best is None or (s, q) > best:
            best = (s, q)
    if best is None or best[1] <= 0:
        return None
    q = best[1]
    return best[0], q, q * qs if qs is not None else q


DIMS = (('type', 'content_type'), ('lang', 'language'),
        ('charset', 'charset'))


def rep_score(rep, accepts):
    """rep: dict content_type/language/charset/qs; accepts: dict of range
    lists (None: the client accepts anything)."""
    out = []
    for which, key in DIMS:
        v = rep.get(key)
        if v is None:
            out.append((0,))
            continue
        own = rep.get(key + '_qs')
        rs = accepts.get(which)
        if rs is None:
            rs = [('*/*' if which == 'type' else '*', None)]
        s = score(which, v, rs, own)
        if s is None:
            return None
        out.append((1, s[0], s[2]))
    qs = rep.get('qs')
    out.append(1.0 if qs is None else clamp(qs))
    return tuple(out)


def select(reps, accepts):
    """Index of the representation to use, or None."""
    best = None
    for i, r in enumerate(reps):
        s = rep_score(r, accepts)
        if s is None:
            continue
        if best is None or s >= best[0]:
            best = (s, i)
    return None if best is None else best[1]


@st.composite
def representation(draw, own_qs=False):
    r = {
        'content_type': draw(st.sampled_from([None] + TYPES[:6])),
        'language': draw(st.sampled_from([None, None, None] + LANGS[:5] + ['eng'])),
        'charset': draw(st.sampled_from([None, None, None] + CHARSETS[:3])),
        'qs': draw(QS),
    }
    if own_qs:
        for key in ('content_type', 'language', 'charset'):
            if r[key] is not None and draw(st.integers(0, 3)) == 2:
                r[key + '_qs'] = draw(st.sampled_from(
                    [1.0, 0.5, 0.25, 0.0]))
    return r


def rep_kwargs(rep):
    from verktyg.accept.content_type import ContentType
    from verktyg.accept.language import Language
    from verktyg.accept.charset import Charset
    kw = {}
    for key, cls in (('content_type', ContentType), ('language', Language),
                     ('charset', Charset)):
        v = rep.get(key)
        if v is None:
            continue
        own = rep.get(key + '_qs')
        kw[key] = cls(v, qs=own) if own is not None else v
    if rep.get('qs') is not None:
        kw['qs'] = rep['qs']
    return kw


@st.composite
def accept_headers(draw, likely=True):
    """dict of range lists; a missing entry means no header."""
    out = {}
    for which in ('type', 'lang', 'charset'):
        k = draw(st.integers(0, 3))
        if k >= (1 if which == 'type' else 2):
            rs = draw(ranges(which))
            if likely and draw(st.booleans()):
                rs = rs + [('*/*' if which == 'type' else '*',
                            draw(st.sampled_from([None, '0.5', '0.1'])))]
            out[which] = rs
    return out


def again(ops):
    """the operations, followed by some lookups that differ from those before
    in one thing"""
    looks = [op for op in ops if op[0] == 'lookup'][-3:]
    more = []
    for i, op in enumerate(looks):
        other = looks[i - 1]
        accepts = other[-1]
        which = ('type', 'lang', 'charset')[(i + len(ops)) % 3]
        changed = dict(op[-1])
        changed.pop(which, None)
        if which in accepts:
            changed[which] = accepts[which]
        more += [op[:-1] + (changed,), op, other[:-1] + op[-1:]]
    return ops + more


def header_kwargs(accepts, spaced=False):
    names = {'type': 'accept', 'lang': 'accept_language',
             'charset': 'accept_charset'}
    return {names[k]: header(
        v, spaced and (k == 'type' or spaced != 'params') and spaced)
        for k, v in accepts.items()}


# -- many at once ------------------------------------------------------------

#: how many ranges, representations, and where to start
LARGE = st.tuples(st.sampled_from([2, 8, 20, 60, 150]),
                  st.sampled_from([2, 8, 20, 60]), st.integers(0, 99999))


def large_word(rng, which, wild=False):
    if which == 'type':
        a = rng.choice(['text', 'application', 'x%d' % rng.randrange(4)])
        b = rng.choice(['html', 'x.y+z', 'v%d' % rng.randrange(30),
                        'long' * rng.randrange(1, 30)])
        if wild and rng.random() < .15:
            b = '*'
            if rng.random() < .2:
                a = '*'
        return a + '/' + b
    if wild and rng.random() < .04:
        return '*'
    if which == 'lang':
        return '-'.join([rng.choice(['en', 'de', 'zh', 'qaa'])] + [
            rng.choice(['a', 'b1', 'cdefghij'])
            for _ in range(rng.choice([0, 0, 1, 2, 3, 6]))])
    return rng.choice(['utf-8', 'koi8-r', 'cs%d' % rng.randrange(30),
                       'long-' + 'x' * rng.randrange(1, 60)])


def large_ranges(rng, which, n):
    return [(large_word(rng, which, True), rng.choice(
        [None, None, '1', '0', '0.5', '0.%03d' % rng.randrange(1000)]))
        for _ in range(n)]


def large_accepts(rng, n):
    out = {}
    for which, key in DIMS:
        if rng.random() < .6:
            out[which] = large_ranges(rng, which, n)
            if rng.random() < .5:
                out[which].insert(rng.randrange(n), (
                    '*/*' if which == 'type' else '*', '0.2'))
    return out


def large_rep(rng):
    return {'content_type': rng.random() < .8 and large_word(
                rng, 'type') or None,
            'language': rng.random() < .5 and large_word(rng, 'lang') or None,
            'charset': rng.random() < .4 and large_word(
                rng, 'charset') or None,
            'qs': rng.choice([None, None, 1.0, rng.randrange(1000) / 1000])}
