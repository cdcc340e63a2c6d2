"""C16: Range, Content-Range and If-Range."""
from datetime import timedelta

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import many
from harness.fresh import fresh
from harness.props.c14 import show
from harness.props.c15 import BASE

ID = 'C16'
RULE = (
    'Range headers of 1-4 ascending byte ranges, the last one open or a '
    'suffix in half of them, in varied spacing and case, against lengths '
    'around their bounds; the first byte, last byte and length of the '
    'result are compared with slicing a body of that length; malformed '
    'and descending headers give None; Content-Range values are built, '
    'written, read back and changed through a response; If-Range is a '
    'date or a tag; arbitrary strings must not make the parsers raise. '
    'Results are scribbled over and the text is parsed again. many: up to '
    '80 ranges. Non-trivial: two ranges, an open or suffix range, a bound '
    'within one of the length, or a malformed header.'
)
ASSUMPTIONS = [
    'a suffix longer than the body may be refused or give the whole body; '
    'numbers are plain ASCII digits',
]


@st.composite
def range_lists(draw):
    ranges = []
    pos = 0
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2, 3]))):
        begin = pos + draw(st.integers(0, 5))
        end = begin + draw(st.integers(1, 6))
        ranges.append((begin, end))
        pos = end
    last = draw(st.sampled_from(['none', 'open', 'suffix']))
    if ranges and draw(st.booleans()):
        last = 'none'
    if last == 'open':
        ranges.append((pos + draw(st.integers(0, 5)), None))
    elif last == 'suffix':
        ranges.append((-draw(st.integers(1, 8)), None))
    if not ranges:
        ranges = [draw(st.sampled_from(
            [(0, 1), (0, None), (-1, None), (3, 9), (500, 1000), (7, 8)]))]
    return ranges


def add_up(steps):
    """(gap, length) of each range -> ranges"""
    ranges = []
    pos = 0
    for gap, length in steps:
        ranges.append((pos + gap, pos + gap + length))
        pos += gap + length
    return ranges


def write(ranges, units='bytes', comma=','):
    out = []
    for begin, end in ranges:
        if end is None:
            out.append('%d-' % begin if begin >= 0 else '%d' % begin)
        else:
            out.append('%d-%d' % (begin, end - 1))
    return '%s=%s' % (units, comma.join(out))


def check_range(case, t):
    from verktyg.http import Range, parse_range_header, ContentRange
    from verktyg.requests import Request
    ranges, units, comma, length, delta = case
    text = write(ranges, units, comma)
    if length is None:
        bounds = [x for r in ranges for x in r if x is not None]
        length = max(0, abs(bounds[delta % len(bounds)]) + delta % 3 - 1)
    t.nontrivial(len(ranges) > 1 or ranges[0][1] is None or
                 ranges[0][1] >= length - 1)
    parsed = fresh(parse_range_header, text)
    t.ok(isinstance(parsed, Range), '%r parsed to %r', text, parsed)
    real = units.strip().lower()
    for r in parsed, Range(real, ranges), Request(
            {'HTTP_RANGE': text}).range:
        t.eq(r.units, real, 'units')
        t.eq([tuple(x) for x in r.ranges], ranges, 'ranges of %r' % text)
        t.eq(r.to_header(), write(ranges, real), 'header')
        t.eq(str(r), r.to_header(), 'str')
        back = parse_range_header(r.to_header())
        t.eq((back.units, [tuple(x) for x in back.ranges]), (real, ranges),
             'read back')
        t.eq(r.range_for_length(None), None, 'unknown length')
        t.eq(r.make_content_range(None), None, 'unknown length')
        got = r.range_for_length(length)
        c = r.make_content_range(length)
        if real != 'bytes' or len(ranges) != 1:
            t.eq(got, None, 'range of %r' % text)
            t.eq(c, None, 'content range of %r' % text)
            t.label('not a single byte range')
            continue
        body = list(range(length))
        begin, end = ranges[0]
        if begin < 0 and -begin > length:
            t.ok(got is None or (length and tuple(got) == (0, length)),
                 'suffix %r of %r bytes: %r', begin, length, got)
            t.label('long suffix')
            continue
        want = body[begin:end]
        if not want:
            t.eq(got, None, '%r of %r bytes' % (text, length))
            t.eq(c, None, 'content range')
            t.label('not satisfiable')
            continue
        t.ok(got is not None, '%r of %r bytes: None', text, length)
        t.eq(body[got[0]:got[1]], want, '%r of %r bytes' % (text, length))
        t.ok(0 <= got[0] < got[1] <= length, 'bounds %r', got)
        t.ok(isinstance(c, ContentRange), 'content range %r', c)
        t.eq((c.units, c.start, c.stop, c.length),
             ('bytes', want[0], want[-1] + 1, length), 'content range')
        t.eq(c.to_header(), 'bytes %d-%d/%d' % (want[0], want[-1], length),
             'content range header')
        t.label('satisfiable')


def check_bad_range(case, t):
    """Malformed, descending and overlapping ranges are ignored."""
    from verktyg.http import parse_range_header
    ranges, how, i, j = case
    t.label(how)
    ranges = list(ranges)
    if how == 'overlap':
        # one that starts before the end of the one before
        (a, b) = ranges[i % len(ranges)]
        if b is None:
            ranges = [(abs(a), None), (abs(a) + 5, abs(a) + 6)]
        else:
            ranges = [(a, b), (max(0, b - 1 - j % (b - a)), b + 3)]
            if j % 2:
                ranges.append((100, None))
        text = write(ranges)
    elif how == 'after suffix':
        text = write([(-(j + 1), None), (i, i + 1)])
    elif how == 'two suffixes':
        text = write([(-(j + 1), None), (-(i + 1), None)])
    elif how == 'backwards':
        text = 'bytes=%d-%d' % (i + j + 1, i)
    elif how == 'no equals':
        text = write(ranges).replace('=', ' ')
    elif how == 'no dash':
        text = 'bytes=%s,%d' % (write(ranges)[6:], i) if j % 2 else \
            'bytes=%d' % i
    elif how == 'letters':
        text = write(ranges) + 'x'
        if ranges[-1][1] is None and ranges[-1][0] < 0:
            text = 'bytes=a-%d' % i
    elif how == 'empty':
        text = ['', 'bytes=', 'bytes=,', 'bytes=-', 'bytes', '=', 'bytes=--1',
                'bytes=1-2,', 'bytes=,1-2', 'bytes=-0', 'bytes=1--2',
                'bytes=x-', 'bytes=-x', None][(i * 7 + j) % 14]
    t.eq(parse_range_header(text), None, '%r' % text)
    t.nontrivial()


UNITS = ['bytes', 'items']


@st.composite
def content_ranges(draw):
    """(units, start, stop, length), valid or not"""
    opt = st.one_of(st.none(), st.integers(-1, 12))
    if draw(st.integers(0, 3)):
        start = draw(st.integers(0, 5))
        stop = start + draw(st.integers(1, 5))
        return (draw(st.sampled_from(UNITS)), start, stop,
                draw(st.sampled_from(
                    [None, stop, stop + 1, start + 1, stop + 7])))
    return (draw(st.sampled_from(UNITS)), draw(opt), draw(opt), draw(opt))


def valid(start, stop, length):
    if (start is None) != (stop is None):
        return False
    if start is None:
        return length is None or length >= 0
    if not 0 <= start < stop:
        return False
    return length is None or start < length


def show_content(units, start, stop, length):
    return '%s %s/%s' % (
        units, '*' if start is None else '%d-%d' % (start, stop - 1),
        '*' if length is None else length)


def same(t, c, want, what):
    t.ok(c is not None, '%s: None', what)
    t.eq((c.units, c.start, c.stop, c.length), want, what)
    t.eq(c.to_header(), show_content(*want), what + ': header')
    t.eq(str(c), c.to_header(), what + ': str')
    t.eq(bool(c), True, what + ': bool')


def short(start, stop, length, units):
    """arguments without those that are the default ones anyway"""
    args = [start, stop, length, units]
    if units == 'bytes':
        args.pop()
        if length is None and (start or 0) % 2:
            args.pop()
    return args


def check_content_range(case, t):
    from verktyg.http import ContentRange, parse_content_range_header
    from verktyg.http import is_byte_range_valid
    from verktyg.responses import Response
    (units, start, stop, length), others, pad = case
    ok = valid(start, stop, length)
    t.eq(bool(is_byte_range_valid(start, stop, length)), ok, 'valid')
    t.nontrivial(not ok or start is None or length is None or
                 stop >= length - 1)
    events = []
    if not ok:
        t.label('not valid')
        t.raises(ValueError, ContentRange, units, start, stop, length)
        if start is not None and stop is not None:
            text = show_content(units, start, stop, length)
            t.eq(parse_content_range_header(text), None, text)
        return
    want = (units, start, stop, length)
    c = ContentRange(units, start, stop, length, on_update=lambda x:
                     events.append(x.to_header()))
    del events[:]
    same(t, c, want, 'content range')
    text = show_content(*want)
    same(t, parse_content_range_header(pad + text + pad), want, text)
    r = Response()
    t.eq(bool(r.content_range), False, 'no content range')
    r.content_range = c
    t.eq(r.headers.get('Content-Range'), text, 'set')
    same(t, r.content_range, want, 'response')
    r.content_range = None
    r.content_range = text
    t.eq(r.headers.getlist('Content-Range'), [text], 'set to text')
    same(t, r.content_range, want, 'response')
    # changes go through to the header, each with one notification
    for units, start, stop, length in others:
        del events[:]
        live = r.content_range
        if not valid(start, stop, length):
            t.raises(ValueError, c.set, start, stop, length, units)
            t.raises(ValueError, live.set, start, stop, length, units)
            same(t, c, want, 'after a refused change')
            same(t, r.content_range, want, 'after a refused change')
            t.eq(events, [], 'notified of a refused change')
            continue
        want = (units, start, stop, length)
        c.set(*short(start, stop, length, units))
        same(t, c, want, 'after set')
        t.eq(events, [show_content(*want)], 'notifications')
        live.set(*short(start, stop, length, units))
        t.eq(r.headers.getlist('Content-Range'), [show_content(*want)],
             'after set')
    if want[1] is not None:
        live = r.content_range
        live.stop = want[2] + 1
        live.start = want[1] + 1
        live.length = None
        live.units = 'bytes'
        t.eq(r.headers.get('Content-Range'), show_content(
            'bytes', want[1] + 1, want[2] + 1, None), 'attributes')
    r.content_range.unset()
    t.eq(r.headers.getlist('Content-Range'), [], 'unset')
    t.eq(bool(r.content_range), False, 'unset')
    # the one of a response that has none writes through as well
    for broken in (None, 'bytes ' + text):
        if broken is not None:
            r.headers['Content-Range'] = broken
        live = r.content_range
        t.ok(isinstance(live, ContentRange), 'content range %r', live)
        t.eq(bool(live), False, 'content range of %r' % broken)
        live.set(want[1], want[2], want[3], want[0])
        t.eq(r.headers.getlist('Content-Range'), [show_content(*want)],
             'set where there was none')
        same(t, r.content_range, want, 'set where there was none')
        live.unset()
        t.eq(r.headers.getlist('Content-Range'), [], 'unset again')
    r.content_range = text
    r.content_range = None
    t.eq(r.headers.getlist('Content-Range'), [], 'set to None')
    c.unset()
    t.eq((bool(c), c.to_header(), c.units), (False, '', None), 'unset')


TAG = st.one_of(
    st.text(alphabet='abcxyz-_/ ,;*=1', min_size=1, max_size=6),
    st.sampled_from(['*', 'W/', 'w/a', ' a ', 'bytes=0-1', '2015',
                     'Thu, 01 Jan 2015 10:00:00 GMT', '1 Jan 2015 10:00',
                     'Thu, 1 Jan 2015 10:00:00', 'Jan 1 10:00:00 2015']),
    st.integers(-10 ** 9, 10 ** 9).map(
        lambda n: show(BASE + timedelta(seconds=n))))


def check_if_range(case, t):
    from verktyg.http import IfRange, parse_if_range_header
    from verktyg.requests import Request
    tag, seconds, weak = case
    if tag is not None:
        q = '"%s"' % tag
        for text in (q, 'W/' + q if weak else q):
            for r in parse_if_range_header(text), Request(
                    {'HTTP_IF_RANGE': text}).if_range:
                t.eq((r.etag, r.date), (tag, None), text)
                t.eq(r.to_header(), q, 'header')
        t.eq(IfRange(etag=tag).to_header(), q, 'header')
    else:
        d = BASE + timedelta(seconds=seconds)
        text = show(d)
        for r in parse_if_range_header(text), Request(
                {'HTTP_IF_RANGE': text}).if_range, IfRange(date=d):
            t.eq((r.etag, r.date), (None, d), text)
            t.eq(r.to_header(), text, 'header')
            t.eq(str(r), text, 'str')
    for r in (parse_if_range_header(''), parse_if_range_header(None),
              IfRange(), Request({}).if_range):
        t.eq((r.etag, r.date, r.to_header()), (None, None, ''), 'nothing')
    t.nontrivial()


NUMERAL = st.text(alphabet='019\xb2\u0663\u2460_+-. e', max_size=4)


def check_total(text, t):
    from verktyg.http import (
        parse_range_header, parse_content_range_header,
        parse_if_range_header, Range, ContentRange, IfRange,
    )
    r = fresh(parse_range_header, text)
    t.ok(r is None or isinstance(r, Range), 'range %r', r)
    if r is not None:
        t.label('range')
        for n in 0, 1, 5, 100:
            got = r.range_for_length(n)
            t.ok(got is None or 0 <= got[0] < got[1] <= n,
                 '%r of %d bytes: %r', text, n, got)
        back = parse_range_header(r.to_header())
        t.eq((back.units, back.ranges), (r.units, r.ranges), 'stable')
    c = fresh(parse_content_range_header, text)
    t.ok(c is None or isinstance(c, ContentRange), 'content range %r', c)
    if c is not None:
        t.label('content range')
        same(t, parse_content_range_header(c.to_header()),
             (c.units, c.start, c.stop, c.length), 'stable')
    i = fresh(parse_if_range_header, text)
    fresh(parse_if_range_header, None)
    t.ok(isinstance(i, IfRange) and (i.etag is None or i.date is None),
         'if range %r', i)
    t.nontrivial(r is not None or c is not None)


SUBS = [
    Sub('range', st.tuples(
        range_lists(),
        st.sampled_from(['bytes', 'bytes', 'bytes', 'Bytes', 'bytes ',
                         'items']),
        st.sampled_from([',', ', ', ' ,']),
        st.one_of(st.none(), st.none(), st.integers(0, 30)),
        st.integers(0, 11)), check_range, quick=16000),
    Sub('many', st.tuples(
        st.builds(add_up, many(st.tuples(
            st.integers(0, 99), st.integers(1, 99)), 5)),
        st.just('bytes'), st.sampled_from([',', ', ']),
        st.one_of(st.none(), st.integers(0, 3000)), st.integers(0, 11)),
        check_range, quick=200),
    Sub('bad range', st.tuples(
        range_lists(), st.sampled_from(
            ['overlap', 'after suffix', 'two suffixes', 'backwards',
             'no equals', 'no dash', 'letters', 'empty']),
        st.integers(0, 9), st.integers(0, 9)), check_bad_range, quick=6000),
    Sub('content range', st.tuples(
        content_ranges(), st.lists(content_ranges(), max_size=3),
        st.sampled_from(['', ' '])), check_content_range, quick=16000),
    Sub('if range', st.one_of(
        st.tuples(TAG, st.none(), st.booleans()),
        st.tuples(st.none(), st.integers(-10 ** 9, 10 ** 9), st.just(False))),
        check_if_range, quick=2000),
    Sub('total', st.one_of(
        st.text(alphabet='bytes=-,/* 0123', max_size=14),
        st.text(alphabet='=-,/0123 ', max_size=8).map(
            lambda s: 'bytes=' + s),
        st.lists(st.sampled_from(['0-1', '2-', '-3', '5-9', ' 12-20', '1-0',
                                  '', '7']), max_size=3).map(
            lambda l: 'bytes=' + ','.join(l)),
        st.tuples(st.sampled_from(['*', '0-1', '3-9', '2-1', '5', '-1']),
                  st.sampled_from(['*', '0', '2', '10', '-1', 'x'])).map(
            lambda c: 'bytes %s/%s' % c),
        st.text(alphabet='-/*0123 ', max_size=8).map(lambda s: 'bytes ' + s),
        st.tuples(st.sampled_from([
            'bytes=%s-', 'bytes=0-%s', 'bytes=-%s', 'bytes=1-2,%s-', '"%s"',
            'bytes 0-1/%s', 'bytes 0-%s/*', 'bytes %s-/3', 'bytes */%s',
            'bytes 0-%s/9', '%s', 'bytes=%s-1']), st.one_of(
                NUMERAL, NUMERAL, st.integers(0, 10 ** 30).map(str),
                st.integers(4200, 6000).map(lambda n: '7' * n))).map(
            lambda c: c[0] % c[1]),
        st.text(alphabet=st.characters(codec='latin-1'), max_size=12)),
        check_total, quick=12000),
]
