"""Strategies shared by the properties."""
import random

from hypothesis import strategies as st

#: bytes that code is tempted to treat in a special way
ODD = [b'\0', b'\0\0', b' ', b'\n', b'\r\n', b'\r', b'\t', b'\x1a', b'\xff',
       b'\xef\xbb\xbf', b'\xff\xfe', b'\x85', b'0', b'0\r\n\r\n', b'%', b'--',
       b'\x1f\x8b', b'None', b'\xc3', b'<', b'&', b'"', b'\\']


def blob(max_size, min_size=0):
    """bytes: any, runs of one odd piece, and odd pieces around others"""
    def fit(b):
        return b[:max_size]
    return st.one_of(
        st.binary(min_size=min_size, max_size=max_size),
        st.builds(lambda b, n: fit(b * n), st.sampled_from(ODD),
                  st.integers(max(1, min_size), max(1, max_size))),
        st.builds(lambda a, b, c: fit(a + b + c), st.sampled_from(ODD),
                  st.binary(min_size=min_size, max_size=max_size),
                  st.sampled_from(ODD)),
        st.lists(st.sampled_from(ODD), min_size=max(1, min_size),
                 max_size=max(1, max_size)).map(b''.join).map(fit),
    )


def _sizes(low, high, most):
    """mostly up to `high`, at times a lot more, where that is not much"""
    some = st.integers(low, high)
    if high > 80:
        return some
    return st.one_of(some, some, some, st.integers(high, most))


def many(element, low=20, high=80):
    """long lists of a few drawn elements, in an order that depends on a
    seed"""
    def build(pool, n, seed):
        rng = random.Random(seed)
        return [rng.choice(pool) for _ in range(n)]
    return st.builds(build, st.lists(element, min_size=1, max_size=8),
                     _sizes(low, high, 400), st.integers(0, 9999))


def numbered(pair, low=20, high=80):
    """long lists of pairs whose names, which are text, differ"""
    return many(pair, low, high).map(lambda pairs: [
        ('%s%d' % (p[0], i),) + tuple(p[1:]) for i, p in enumerate(pairs)])


def stretched(text, most=60):
    """text or bytes that go on for longer"""
    return st.builds(lambda s, n: s * n, text, _sizes(5, most, 600))
