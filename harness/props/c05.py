"""C05: content negotiation."""
import random

from hypothesis import strategies as st

from harness.core import Sub
from harness.models import negotiation as N

ID = 'C05'
RULE = (
    'Accept, Accept-Language and Accept-Charset headers of 1-6 ranges '
    '(wildcards, duplicates, q values including 0) against values and '
    'lists of 1-5 representations over content type, language, charset '
    'and qs. Oracle: a reference scorer (the most specific matching range '
    'decides the quality; content type, language, charset, then qs; the '
    'last registered wins a tie; nothing acceptable raises '
    'NotAcceptable), plus invariance under reordering the ranges and '
    'under shuffling untied representations. invalid: malformed headers '
    'raise ValueError and nothing else. The same text is read by other '
    'kinds of Accept header first. large: headers of up to 150 ranges, up '
    'to 60 representations. Non-trivial: two or more ranges match one '
    'value, or two or more representations are acceptable, or nothing is.'
)
ASSUMPTIONS = ['well formed headers; tags in lower case']


@st.composite
def value_cases(draw):
    which = draw(st.sampled_from(['type', 'lang', 'charset']))
    value = draw(st.sampled_from(
        {'type': N.TYPES, 'lang': N.LANGS, 'charset': N.CHARSETS}[which]))
    rs = draw(N.ranges(which, 6))
    return (which, value, rs, draw(st.permutations(rs)),
            draw(st.sampled_from([None, 1.0, 0.5, 0.25, 0.0])),
            draw(st.sampled_from([False, True, 'wide'] + (
                ['params'] if which == 'type' else []))))


def classes(which):
    from verktyg.accept import content_type, language, charset
    return {
        'type': (content_type.parse_accept_header, content_type.ContentType,
                 content_type.parse_content_type_header, 'content_type'),
        'lang': (language.parse_accept_language_header, language.Language,
                 language.parse_language_header, 'language'),
        'charset': (charset.parse_accept_charset_header, charset.Charset,
                    charset.parse_charset_header, 'charset'),
    }[which]


def check_value(case, t):
    from verktyg.exceptions import NotAcceptable
    which, value, rs, perm, qs, spaced = case
    parse, cls, parse_value, attr = classes(which)
    if which == 'type':
        v = parse_value(value, qs=qs)
        t.eq((v.type, v.subtype), tuple(value.split('/')), 'type, subtype')
    else:
        v = cls(value, qs=qs)
    t.ok(type(v) is cls and v.value == value, 'value %r', v)
    want = N.score(which, value, rs, qs)
    matching = [r for r in rs if N.specificity(which, value, r[0])]
    t.nontrivial(len(matching) > 1)
    for order in rs, perm:
        # whatever the same text means to the other headers
        for other in 'type', 'lang', 'charset':
            t.only_raises(ValueError, classes(other)[0],
                          N.header(order, spaced))
        accept = parse(N.header(order, spaced))
        if want is None:
            t.raises(NotAcceptable, v.acceptability, accept)
            t.raises(KeyError, accept.__getitem__, v)
            t.eq(v in accept, False, 'contains')
            t.label('not acceptable')
            continue
        t.label('acceptable')
        m = v.acceptability(accept)
        t.ok(abs(m.quality - want[2]) < 1e-9, '%r for %r: quality %r, '
             'expected %r', value, N.header(order), m.quality, want[2])
        t.eq(v in accept, True, 'contains')
        t.eq(accept[v].quality, m.quality, 'getitem')
        t.ok(getattr(m, attr) is v, 'match refers to another value')
        s = want[0]
        if which == 'type':
            t.eq((m.type_matches, m.subtype_matches), s, 'match')
            t.eq(bool(m.exact_match), s == (True, True), 'exact_match')
        elif which == 'lang':
            t.eq((-m.tail, m.specificity), s, 'match')
            t.eq(bool(m.exact_match), s[0] == 0, 'exact_match')
        else:
            t.eq(bool(m.exact_match), s[0], 'exact_match')
    t.eq(parse_value(value).to_header(), value, 'to_header')


@st.composite
def order_cases(draw):
    which = draw(st.sampled_from(['type', 'lang', 'charset']))
    values = draw(st.lists(st.tuples(st.sampled_from(
        {'type': N.TYPES, 'lang': N.LANGS, 'charset': N.CHARSETS}[which]),
        st.sampled_from([None, 1.0, 0.5, 0.0])), min_size=2, max_size=4))
    wild = '*/*' if which == 'type' else '*'
    rs = draw(N.ranges(which)) + [(wild, '0.3')]
    return which, values, rs


def check_order(case, t):
    """Acceptabilities are totally ordered: specificity, then quality."""
    which, values, rs = case
    parse, cls, _, _ = classes(which)
    accept = parse(N.header(rs))
    got = []
    for value, qs in values:
        want = N.score(which, value, rs, qs)
        if want is None:
            continue
        got.append((cls(value, qs=qs).acceptability(accept),
                    (want[0], want[2])))
    for a, ka in got:
        t.ok(a > None, 'worse than nothing')
        for b, kb in got:
            t.eq((a > b, a < b, a == b, a >= b, a <= b, a != b),
                 (ka > kb, ka < kb, ka == kb, ka >= kb, ka <= kb, ka != kb),
                 'comparing %r with %r' % (ka, kb))
    t.nontrivial(len(got) > 1)


@st.composite
def select_cases(draw):
    reps = draw(st.lists(N.representation(own_qs=True), min_size=1,
                         max_size=5))
    accepts = draw(N.accept_headers())
    return (reps, accepts, draw(st.permutations(range(len(reps)))),
            draw(st.sampled_from([False, True, 'wide', 'params'])),
            draw(st.booleans()))


def check_select(case, t):
    from verktyg.accept import Representation, select_representation
    from verktyg.accept.content_type import parse_accept_header
    from verktyg.exceptions import NotAcceptable
    reps, accepts, perm, spaced, parsed = case
    real = [Representation(**N.rep_kwargs(r)) for r in reps]
    kw = N.header_kwargs(accepts, spaced)
    if parsed and 'accept' in kw:
        kw['accept'] = parse_accept_header(kw['accept'])
    scores = [N.rep_score(r, accepts) for r in reps]
    n = len([s for s in scores if s is not None])
    t.nontrivial(n != 1)
    want = N.select(reps, accepts)
    if want is None:
        t.label('nothing acceptable')
        t.raises(NotAcceptable, select_representation, real, **kw)
        return
    t.label('%d acceptable' % n)
    got = select_representation(real, **kw)
    t.ok(got is real[want], 'selected #%r, expected #%r (scores %r)', [
        i for i, r in enumerate(real) if r is got], want, scores)
    got = select_representation([real[i] for i in perm], **kw)
    best = max(s for s in scores if s is not None)
    last = [i for i in perm if scores[i] == best][-1]
    t.ok(got is real[last], 'shuffled: selected #%r, expected #%r', [
        i for i, r in enumerate(real) if r is got], last)
    t.eq(select_representation(iter(real), **kw) is real[want], True,
         'iterator')
    # the ranges of a header are a set
    kw2 = {k: ','.join(reversed(v.split(','))) if isinstance(v, str) else v
           for k, v in kw.items()}
    t.ok(select_representation(real, **kw2) is real[want],
         'order of the ranges matters')


TOKEN = st.text(alphabet='abcxyz019', min_size=1, max_size=5)


@st.composite
def header_cases(draw):
    which = draw(st.sampled_from(['type', 'lang', 'charset']))
    if which == 'type':
        opts = draw(st.lists(st.tuples(
            st.one_of(N.type_range(), st.tuples(TOKEN, TOKEN).map('/'.join)),
            st.sampled_from(['1', '0.5', '0.125', '0', '0.001', '7', '-1']),
            st.dictionaries(TOKEN.filter(lambda k: k != 'q'), TOKEN,
                            max_size=2)), min_size=1, max_size=4))
    else:
        opts = draw(st.lists(st.tuples(
            N.lang_range() if which == 'lang' else N.charset_range(),
            st.sampled_from(['1', '0.5', '0.125', '0', '0.001'])),
            min_size=1, max_size=4))
    return which, opts


def check_header(case, t):
    """Accept objects survive being written to a header and read back."""
    from verktyg.accept import content_type, language, charset
    which, opts = case
    cls = {'type': content_type.ContentTypeAccept,
           'lang': language.LanguageAccept,
           'charset': charset.CharsetAccept}[which]
    parse = classes(which)[0]
    a = cls(opts)

    def plain(x):
        return [(r.value, r.q, dict(r.params)) for r in x]
    want = [(o[0], N.clamp(o[1]), o[2] if len(o) > 2 else {}) for o in opts]
    t.eq(plain(a), want, 'ranges')
    t.eq(plain(parse(a.to_header())), want, 'header %r' % a.to_header())
    t.eq(str(a), a.to_header(), 'str')
    t.nontrivial(len(opts) > 1)


@st.composite
def invalid_cases(draw):
    which = draw(st.sampled_from(['type', 'lang', 'charset']))
    good = draw(N.ranges(which, 3))
    bad = draw(st.sampled_from(
        {'type': ['text', 'text/', '/html', '', '(a)/b'],
         'lang': ['', '-', '(en)', '?'],
         'charset': ['', '-', '(utf-8)', '?']}[which] + [
            'param', 'q'] + ([] if which == 'type' else ['with param'])))
    return which, good, bad, draw(st.integers(0, 3))


def check_invalid(case, t):
    """A header with a range that is none raises ValueError."""
    which, good, bad, at = case
    parse = classes(which)[0]
    value = 'text/html' if which == 'type' else 'en'
    if bad == 'param':
        bad = value + ';level'
    elif bad == 'q':
        bad = value + ';q=much'
    elif bad == 'with param':
        bad = value + ';level=1;q=0.5'
    ranges = [N.header([r]) for r in good]
    parse(','.join(ranges))
    ranges.insert(at, bad)
    t.raises(ValueError, lambda: list(parse(','.join(ranges))))
    t.nontrivial()


def check_large(case, t):
    """Long headers, many representations."""
    from verktyg.accept import Representation, select_representation
    from verktyg.exceptions import NotAcceptable
    n, k, seed = case
    rng = random.Random(seed)
    accepts = N.large_accepts(rng, n)
    reps = [N.large_rep(rng) for _ in range(k)]
    real = [Representation(**N.rep_kwargs(r)) for r in reps]
    spaced = rng.choice([False, True, 'wide', 'params'])
    kw = N.header_kwargs(accepts, spaced)
    # one value against one header
    for which, rs in sorted(accepts.items()):
        parse, cls, _, _ = classes(which)
        accept = parse(N.header(rs))
        t.eq([(r.value, r.q) for r in accept],
             [(v, 1.0 if q is None else float(q)) for v, q in rs], 'ranges')
        value = rng.choice([v for v, q in rs if '*' not in v] or [
            {'type': 'a/b', 'lang': 'en', 'charset': 'utf-8'}[which]])
        want = N.score(which, value, rs)
        if want is None:
            t.raises(NotAcceptable, cls(value).acceptability, accept)
        else:
            got = cls(value).acceptability(accept)
            t.ok(abs(got.quality - want[2]) < 1e-9, 'quality %r of %r, '
                 'expected %r', got.quality, value, want[2])
    for _ in range(3):
        want = N.select(reps, accepts)
        if want is None:
            t.label('nothing acceptable')
            t.raises(NotAcceptable, select_representation, real, **kw)
            return
        got = select_representation(real, **kw)
        t.ok(got is real[want], 'selected #%r of %d, expected #%r', [
            i for i, r in enumerate(real) if r is got], len(reps), want)
        t.label('selected')
        # without the one that was selected
        del reps[want], real[want]
        if not reps:
            break
    t.nontrivial()


SUBS = [
    Sub('large', N.LARGE, check_large, quick=500),
    Sub('invalid', invalid_cases(), check_invalid, quick=300),
    Sub('value', value_cases(), check_value, quick=3000),
    Sub('order', order_cases(), check_order, quick=1500),
    Sub('select', select_cases(), check_select, quick=4000),
    Sub('header', header_cases(), check_header, quick=500),
]
