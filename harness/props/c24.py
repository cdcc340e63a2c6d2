"""C24: secure_filename."""
import os
import re
import sys
import unicodedata

from hypothesis import strategies as st

from harness.core import Sub

ID = 'C24'
RULE = (
    'File names of 0-40 characters: ASCII letters, digits, separators of '
    'both kinds, dots, blanks and control characters, accented and '
    'compatibility characters whose decomposition holds letters, dots, '
    'slashes or blanks (ligatures, full width forms, two dot leaders), '
    'bidirectional marks, lone surrogates, and paths put together from '
    'names, dots and drive letters. Oracle: allowed alphabet, first and '
    'last character, containment when joined to a directory, idempotence, '
    'identity on names that are safe already, and every ASCII letter and '
    'digit of the decomposed name kept in order. The result is also '
    'compared with a reference made from the rule; long: names of up to '
    '300 characters. windows: device names with generated decoration, '
    'with the platform made to look like Windows: never a device name. '
    'Non-trivial: the name is changed and the result is not empty.'
)
ASSUMPTIONS = ['file names are str; Windows is POSIX with os.name and '
               'sys.platform set to the Windows values']

ODD = '․‥…／＼．﹒﹨∕⁄＿ａＢ０ﬁ㎏½ⅷ℃éüß日本語\u202e\u200b\ufeff\xa0\u3000\x85⒈㏂｡'
CHAR = st.one_of(
    st.sampled_from('abzAZ09'), st.sampled_from('._-'),
    st.sampled_from('/\\:'), st.sampled_from(' \t\n\r\x0b\x0c\x1c\x1f\x00'),
    st.sampled_from('!"#$%&\'()*+,;<=>?@[]^`{|}~\x7f'), st.sampled_from(ODD),
    st.characters())
NAME = st.one_of(
    st.text(alphabet=CHAR, max_size=40),
    st.lists(st.sampled_from([
        '..', '.', '', 'etc', 'passwd', 'My cool movie.mov', 'C:', '~', ' ',
        'con', 'NUL.txt', '.bashrc', '__init__', '_', '-', '-rf', '...',
        'ü.txt', '%2e%2e', '\x00', 'file.tar.gz', 'a_b']), max_size=6).flatmap(
        lambda parts: st.sampled_from(['/', '\\', '/./', ' ', '']).map(
            lambda sep: sep.join(parts))))
SAFE = re.compile(r'\A[A-Za-z0-9_.-]*\Z')


def reference(name):
    out = ''
    gap = False
    for c in unicodedata.normalize('NFKD', name):
        if ord(c) >= 128:
            continue
        if c in '/ \t\n\x0b\x0c\r\x1c\x1d\x1e\x1f':
            gap = True
            continue
        if gap:
            out += '_'
            gap = False
        if c in ('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
                 '0123456789._-'):
            out += c
    while out and out[0] in '._':
        out = out[1:]
    while out and out[-1] in '._':
        out = out[:-1]
    return out


def check_long(case, t):
    name, n, ext = case
    check_secure(name * n + ext, t)


def check_secure(name, t):
    from verktyg.utils import secure_filename
    got = secure_filename(name)
    t.eq(got, reference(name), 'secure_filename(%r)' % name[:100])
    t.ok(type(got) is str, 'secure_filename(%r) is %r', name, got)
    t.ok(SAFE.match(got), 'unsafe characters in %r for %r', got, name)
    t.ok(got == got.strip('._'), '%r for %r', got, name)
    base = '/srv/uploads'
    joined = os.path.normpath(os.path.join(base, got))
    t.eq(joined, base + ('/' + got if got else ''), 'joined path')
    t.eq(secure_filename(got), got, 'again')
    if SAFE.match(name) and name == name.strip('._'):
        t.eq(got, name, 'safe name')
    plain = unicodedata.normalize('NFKD', name)
    t.eq(''.join(c for c in got if c.isalnum()),
         ''.join(c for c in plain if ord(c) < 128 and c.isalnum()),
         'letters and digits of %r' % name)
    # what is not at the edge and not a separator stays what it is
    m = re.search(r'[A-Za-z0-9]([._-]+)[A-Za-z0-9]+\Z', plain)
    if m:
        t.ok(got.endswith(m.group(0)), '%r does not end like %r', got, name)
    m = re.search(r'[A-Za-z0-9]([ \t\n/]+)[A-Za-z0-9]+\Z', plain)
    if m:
        t.ok(got.endswith(m.group(0).replace(m.group(1), '_')),
             '%r does not end like %r', got, name)
    t.nontrivial(got != name and got != '')


# device names of Windows

DEVICES = ['CON', 'AUX', 'PRN', 'NUL'] + [
    port + str(n) for port in ('COM', 'LPT') for n in range(1, 10)]
DEVICE = st.builds(
    lambda pre, d, case, post: pre + getattr(d, case)() + post,
    st.sampled_from(['', '', '', '.', '_', '/', '../', 'x', '__', ' ']),
    st.sampled_from(DEVICES), st.sampled_from(['upper', 'lower', 'title']),
    st.sampled_from(['', '.txt', '.tar.gz', '.', ' ', 'x', '_', '-a', '/',
                     '.TXT', ' .txt', '/a']))


def check_windows(name, t):
    """As on Windows: never the name of a device, with or without extension;
    everything else comes out the way it does elsewhere."""
    from verktyg.utils import secure_filename
    plain = secure_filename(name)
    names = os.name, sys.platform
    try:
        os.name, sys.platform = 'nt', 'win32'
        got = secure_filename(name)
    finally:
        os.name, sys.platform = names
    t.ok(SAFE.match(got), 'unsafe characters in %r for %r', got, name)
    t.ok(got.split('.')[0].upper() not in DEVICES, 'device %r for %r',
         got, name)
    if plain.split('.')[0].upper() in DEVICES:
        t.ok(got.endswith(plain) and got != plain, '%r for %r', got, name)
        t.nontrivial()
        t.label('device')
    else:
        t.eq(got, plain, 'not a device')


SUBS = [
    Sub('windows', st.one_of(DEVICE, DEVICE, NAME), check_windows,
        quick=4000),
    Sub('long', st.tuples(
        st.text(alphabet=CHAR, min_size=1, max_size=8),
        st.sampled_from([20, 100, 260, 1000]),
        st.sampled_from(['', '.txt', '.tar.gz', ' '])), check_long,
        quick=800, thorough=5000),
    Sub('secure', NAME, check_secure, quick=40000),
]
