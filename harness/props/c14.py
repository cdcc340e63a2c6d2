"""C14: HTTP dates."""
from datetime import datetime, timedelta, timezone
import time

from hypothesis import strategies as st

from harness.core import Sub

ID = 'C14'
RULE = (
    'Instants between the years 1000 and 9999 given as naive or aware '
    'datetime (any offset up to 14 hours), time tuple, int or float; written '
    'with http_date and cookie_date and compared with an independent '
    'formatter; read back with parse_date; the same instant in the three '
    'HTTP date formats and with numeric zones; arbitrary and mangled date '
    'strings, for which parse_date has to return None or a datetime.  '
    'Non-trivial: an aware or fractional instant, a month end, or a mangled '
    'date.'
)
ASSUMPTIONS = ['years 1000 to 9999; two digit years stand for 1969 to 2068']

DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
LONG = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
        'Sunday']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec']
EPOCH = datetime(1970, 1, 1)
LOW = int((datetime(1000, 1, 2) - EPOCH).total_seconds())
HIGH = int((datetime(9999, 12, 30) - EPOCH).total_seconds())
SECONDS = st.one_of(
    st.integers(LOW, HIGH), st.integers(-10 ** 6, 2 * 10 ** 9),
    st.tuples(st.integers(1970, 2060), st.integers(1, 12),
              st.sampled_from([0, 1, 86399, 86400, -1])).map(
        lambda c: int((datetime(c[0], c[1], 1) - EPOCH).total_seconds()) +
        c[2]),
    st.sampled_from([0, -1, 951782400, 951868799, 68169600, 4107542399]))


def instant(s):
    return EPOCH + timedelta(seconds=s)


def show(d, delim=' '):
    return '%s, %02d%s%s%s%04d %02d:%02d:%02d GMT' % (
        DAYS[d.weekday()], d.day, delim, MONTHS[d.month - 1], delim, d.year,
        d.hour, d.minute, d.second)


def check_round_trip(case, t):
    from verktyg.http import http_date, cookie_date, parse_date
    s, micro, offset, kind = case
    d = instant(s)
    if kind == 'naive':
        x = d.replace(microsecond=micro)
    elif kind == 'aware':
        x = d.replace(microsecond=micro, tzinfo=timezone.utc).astimezone(
            timezone(timedelta(minutes=offset)))
        t.nontrivial(offset != 0)
    elif kind == 'tuple':
        x = d.timetuple()
    elif kind == 'struct':
        x = time.gmtime(s)
    elif kind == 'int':
        x = s
    else:
        x = s + micro / 1e6 if abs(s) < 2 ** 32 else float(s)
    t.nontrivial(micro != 0 or d.day != (d + timedelta(days=1)).day - 1)
    t.label(kind)
    t.eq(http_date(x), show(d), 'http_date(%r)' % (x,))
    t.eq(cookie_date(x), show(d, '-'), 'cookie_date(%r)' % (x,))
    t.eq(parse_date(http_date(x)), d, 'parse_date(http_date(%r))' % (x,))
    t.eq(parse_date(cookie_date(x)), d, 'parse_date(cookie_date(%r))' % (x,))
    t.eq(http_date(parse_date(http_date(x))), http_date(x), 'stable')


def check_formats(case, t):
    from verktyg.http import parse_date
    s, zone, pad = case
    d = instant(s)
    pad = ' ' * pad
    t.eq(parse_date(pad + show(d) + pad), d, 'rfc 1123')
    asctime = '%s %s %2d %02d:%02d:%02d %04d' % (
        DAYS[d.weekday()], MONTHS[d.month - 1], d.day, d.hour, d.minute,
        d.second, d.year)
    t.eq(parse_date(asctime), d, 'asctime %r' % asctime)
    if 1969 <= d.year <= 2068:
        rfc850 = '%s, %02d-%s-%02d %02d:%02d:%02d GMT' % (
            LONG[d.weekday()], d.day, MONTHS[d.month - 1], d.year % 100,
            d.hour, d.minute, d.second)
        t.eq(parse_date(rfc850), d, 'rfc 850 %r' % rfc850)
        t.label('rfc 850')
        # four digits with leading zeros are read like two
        t.eq(parse_date(show(d).replace('%04d' % d.year, '%04d' % (
            d.year % 100), 1)), d, 'two digit year')
    local = d + timedelta(minutes=zone)
    text = show(local)[:-3] + '%s%02d%02d' % (
        '-' if zone < 0 else '+', abs(zone) // 60, abs(zone) % 60)
    t.eq(parse_date(text), d, 'zone %r' % text)
    t.nontrivial(zone != 0)


@st.composite
def mangled(draw):
    text = show(instant(draw(SECONDS)), draw(st.sampled_from([' ', '-'])))
    for _ in range(draw(st.integers(0, 3))):
        i = draw(st.integers(0, len(text)))
        j = i + draw(st.integers(0, 4))
        text = text[:i] + draw(st.one_of(
            st.text(alphabet='0123456789 :,-+JanFebGMTxé\t', max_size=4),
            st.just(''), st.text(max_size=2))) + text[j:]
    return text


def check_total(text, t):
    from verktyg.http import parse_date, http_date
    d = parse_date(text)
    t.ok(d is None or (type(d) is datetime and d.tzinfo is None),
         'parsed to %r', d)
    t.label('parsed' if d is not None else 'refused')
    if d is not None and d.year >= 1000:
        t.eq(parse_date(http_date(d)), d, 'parsed date')
    t.nontrivial(bool(text))


def check_bad(case, t):
    """Days and times that do not exist are refused."""
    from verktyg.http import parse_date
    year, month, day, h, m, s = case
    text = 'Sun, %02d %s %04d %02d:%02d:%02d GMT' % (
        day, MONTHS[month - 1], year, h, m, s)
    try:
        want = datetime(year, month, day, h, m, s)
    except ValueError:
        want = None
        t.nontrivial()
    t.eq(parse_date(text), want, text)


def check_now(n, t):
    from verktyg.http import http_date, cookie_date, parse_date
    for f in http_date, cookie_date:
        a = datetime.now(timezone.utc).replace(tzinfo=None, microsecond=0)
        d = parse_date(f())
        b = datetime.now(timezone.utc).replace(tzinfo=None)
        t.ok(d is not None and a <= d <= b, '%r is not now', d)
    t.eq(parse_date(None), None, 'None')
    t.eq(parse_date(''), None, 'empty')
    t.nontrivial()


SUBS = [
    Sub('round trip', st.tuples(
        SECONDS, st.sampled_from([0, 1, 250000, 500000, 999999]),
        st.integers(-14 * 60, 14 * 60),
        st.sampled_from(['naive', 'aware', 'tuple', 'struct', 'int',
                         'float'])), check_round_trip, quick=16000),
    Sub('formats', st.tuples(
        SECONDS, st.integers(-12 * 60, 14 * 60), st.integers(0, 2)),
        check_formats, quick=12000),
    Sub('bad', st.tuples(
        st.integers(1900, 2100), st.integers(1, 12), st.integers(1, 33),
        st.integers(0, 25), st.integers(0, 61), st.integers(0, 59)),
        check_bad, quick=8000),
    Sub('total', st.one_of(mangled(), st.text(max_size=20), st.text(
        alphabet='0123456789:,-+ SunJaGMT', max_size=25)),
        check_total, quick=16000),
    Sub('now', st.integers(0, 9), check_now, quick=10, thorough=10),
]
