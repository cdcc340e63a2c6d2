"""C20: iterating over streams does not depend on how the data arrives."""
import io
import os
import re
import shutil
import tempfile
import warnings

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import blob

ID = 'C20'
RULE = (
    'Text or bytes of 0-40 characters weighted to CR, LF, CRLF, '
    'separators and their fragments, cut into pieces in a generated way '
    '(or given as a stream with a limit and a buffer size from 1 up), '
    'iterated by line and by separator of 1-4 characters. Oracle: '
    'splitting the whole data at once. FileWrapper, wrap_file and '
    'FileStorage over in-memory and real files (in a scratch directory) '
    'with any buffer size: the joined output is the content. big: data '
    'beyond the internal buffer sizes. The streams of uploaded files are '
    'in memory, on disk, unnamed, nested in another upload or false in a '
    'boolean context. Saved files are closed. Non-trivial: a line end or '
    'separator lies across or next to a cut, or the data is longer than '
    'the buffer.'
)
ASSUMPTIONS = ['the data is not passed as a bare string']

PIECES = ['a', 'b', '\r', '\n', '\r\n', '\n\r', 'ab', '', '-', '--', '\x0b',
          '\x0c', '\x85', '\x1c', '\r\r\n', 'X', '\n\n']
TEXT = st.lists(st.sampled_from(PIECES), max_size=16).map(''.join)
CUTS = st.lists(st.integers(0, 40), max_size=8)


def cut(data, cuts):
    out = []
    last = 0
    for c in sorted(c % (len(data) + 1) for c in cuts):
        out.append(data[last:c])
        last = c
    out.append(data[last:])
    return out


def lines(data):
    """reference: a line ends after CR LF, CR or LF"""
    out = []
    cur = data[:0]
    i = 0
    lf, cr = ('\n', '\r') if isinstance(data, str) else (b'\n', b'\r')
    while i < len(data):
        c = data[i:i + 1]
        cur += c
        i += 1
        if c == cr and data[i:i + 1] == lf:
            cur += lf
            i += 1
            out.append(cur)
            cur = data[:0]
        elif c == cr or c == lf:
            out.append(cur)
            cur = data[:0]
    if cur:
        out.append(cur)
    return out


class Reader(object):
    def __init__(self, data):
        self.data = data
        self.pos = 0

    def read(self, n=None):
        if n is None or n < 0:
            n = len(self.data)
        rv = self.data[self.pos:self.pos + n]
        self.pos += len(rv)
        return rv

    def readline(self, n=None):
        raise AssertionError('readline must not be used on a WSGI stream')


class Slow(Reader):
    """a raw stream, which gives what there is at the moment"""
    def __init__(self, data, cuts):
        Reader.__init__(self, data)
        self.sizes = [1 + c % 4 for c in cuts] or [1, 3]
        self.n = 0

    def read(self, n=None):
        if n is None or n < 0:
            return Reader.read(self)
        self.n += 1
        return Reader.read(
            self, min(n, self.sizes[self.n % len(self.sizes)]))


def sources(data, cuts, extra, buffer_size):
    from verktyg.wsgi import LimitedStream
    pieces = cut(data, cuts)
    yield 'list', pieces, {}
    yield 'generator', (p for p in pieces), {}
    yield 'limit', Reader(data + extra), {
        'limit': len(data), 'buffer_size': buffer_size}
    yield 'limited', LimitedStream(Reader(data + extra), len(data)), {
        'buffer_size': buffer_size}
    yield 'no limit', Reader(data), {'buffer_size': buffer_size}
    # below a limit a short read means that the client is gone
    yield 'short reads', Slow(data, cuts), {'buffer_size': buffer_size}
    yield 'default buffer', Reader(data + extra), {'limit': len(data)}


def check_lines(case, t):
    from verktyg.wsgi import make_line_iter
    text, binary, cuts, buffer_size, extra = case
    data = text.encode('latin-1') if binary else text
    extra = extra.encode('latin-1') if binary else extra
    want = lines(data)
    t.eq(type(data)().join(want), data, 'oracle')
    for name, src, kw in sources(data, cuts, extra, buffer_size):
        got = list(make_line_iter(src, **kw))
        t.eq(got, want, 'lines from %s (%r)' % (name, kw))
        if isinstance(src, Reader):
            t.ok(src.pos <= len(data), 'read past the limit')
    t.nontrivial(len(cut(data, cuts)) > 1 and len(want) > 1)


@st.composite
def chunk_cases(draw):
    sep = draw(st.sampled_from(
        ['-', '--', 'ab', '\r\n', '\n', 'a', 'aba', '---', '-a-', 'abab',
         '\r\n\r\n', '----', 'aaba']))
    text = ''.join(draw(st.lists(st.sampled_from(
        [sep, sep, sep[:1], sep[-1:], sep[:-1], sep[1:], 'x', 'a', '\n', '',
         'a.b']),
        max_size=12)))
    return (text, sep, draw(st.booleans()), draw(CUTS),
            draw(st.integers(1, 8)),
            draw(st.sampled_from(['', '-', 'b', '\n', sep])))


def check_chunks(case, t):
    from verktyg.wsgi import make_chunk_iter
    text, sep, binary, cuts, buffer_size, extra = case
    if binary:
        text, sep, extra = (
            x.encode('latin-1') for x in (text, sep, extra))
    want = text.split(sep) if text else []
    for name, src, kw in sources(text, cuts, extra, buffer_size):
        got = list(make_chunk_iter(src, sep, **kw))
        t.eq(got, want, 'chunks from %s (%r)' % (name, kw))
        if isinstance(src, Reader):
            t.ok(src.pos <= len(text), 'read past the limit')
    t.nontrivial(len(want) > 1 and len(cut(text, cuts)) > 1)
    t.label('sep %d' % len(sep))


def check_strings(case, t):
    from verktyg.wsgi import make_line_iter, make_chunk_iter
    data, = case
    for x in (data, data.encode('latin-1'), bytearray(data, 'latin-1')):
        t.raises(TypeError, lambda: list(make_line_iter(x)))
        t.raises(TypeError, lambda: list(make_chunk_iter(x, x[:1] or x)))
    t.nontrivial()


def check_files(case, t):
    from verktyg.wsgi import FileWrapper, wrap_file
    from verktyg.http import FileStorage
    data, size, kind, ctype, filename = case

    class Recorder(io.BytesIO):
        pass
    f = Recorder(data)
    w = FileWrapper(f, size)
    t.ok(iter(w) is w, 'iter')
    got = list(w)
    t.eq(b''.join(got), data, 'FileWrapper')
    t.ok(all(len(x) == size for x in got[:-1]), 'sizes %r', got)
    t.ok(all(0 < len(x) <= size for x in got), 'sizes %r', got)
    t.eq(list(w), [], 'at the end')
    w.close()
    t.ok(f.closed, 'not closed')
    FileWrapper(Reader(data), size).close()

    f = Recorder(data)
    calls = []

    def server_wrapper(*args):
        calls.append(args)
        return 'wrapped'
    t.eq(wrap_file({'wsgi.file_wrapper': server_wrapper}, f, size),
         'wrapped', 'wrap_file')
    t.eq(calls, [(f, size)], 'wrap_file arguments')
    t.eq(b''.join(wrap_file({}, f, size)), data, 'wrap_file')
    t.eq(b''.join(wrap_file({}, Recorder(data))), data, 'wrap_file')

    # uploads
    f = Recorder(data)
    fs = FileStorage(f, filename=filename, name='n', content_type=ctype,
                     content_length=len(data))
    t.eq(bool(fs), bool(filename), 'truth')
    t.eq(fs.filename, filename, 'filename')
    t.eq(fs.name, 'n', 'name')
    t.eq(fs.content_type, ctype, 'content_type')
    t.eq(fs.content_length, len(data), 'content_length')
    bare = FileStorage(Recorder(b'x'), filename=filename)
    t.eq((bare.content_length, bare.content_type, bare.name, bare.mimetype),
         (0, None, None, ''), 'nothing but a stream')
    if ctype:
        t.eq(fs.mimetype, ctype.split(';')[0].lower(), 'mimetype')
        t.eq(dict(fs.mimetype_params), dict(
            p.strip().split('=') for p in ctype.split(';')[1:]), 'params')
    if kind == 'read':
        t.eq(fs.read(), data, 'read')
        fs.seek(0)
        t.eq(fs.read(size), data[:size], 'read(n)')
        t.eq(fs.tell(), min(size, len(data)), 'tell')
    elif kind == 'iter':
        t.eq(list(fs), data.splitlines(True) if b'\r' not in data
             else list(io.BytesIO(data)), 'iteration')
    elif kind == 'save-object':
        dst = io.BytesIO()
        fs.save(dst, size)
        t.eq(dst.getvalue(), data, 'saved')
        t.ok(not dst.closed, 'destination was closed')
    else:
        d = tempfile.mkdtemp(prefix='verif-c20-')
        try:
            path = os.path.join(d, 'out')
            with open(path, 'wb') as g:
                g.write(b'old content that is longer than the new one' * 2)
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                fs.save(path, size)
            t.eq([str(w.message) for w in caught], [], 'warnings')
            with open(path, 'rb') as g:
                t.eq(g.read(), data, 'saved')
            # the name comes from the stream
            with open(path, 'rb') as g:
                fs2 = FileStorage(g)
                t.eq(fs2.filename, path, 'filename from the stream')
                t.eq(fs2.read(), data, 'read')
            with open(os.fsencode(path), 'rb') as g:
                t.eq(FileStorage(g).filename, path, 'bytes name')
        finally:
            shutil.rmtree(d)
    fs.close()
    t.ok(f.closed, 'close')
    f = Recorder()
    f.name = '<fdopen>'
    t.eq(FileStorage(f).filename, None, 'special name')
    # streams of all kinds: unnamed files, ones that count as false
    with tempfile.TemporaryFile() as g:
        g.write(data)
        g.seek(0)
        fs = FileStorage(g)
        t.eq((fs.filename, bool(fs)), (None, False), 'unnamed file')
        t.eq(fs.read(), data, 'unnamed file')
    t.eq(FileStorage(FileStorage(Recorder(data))).read(), data, 'nested')

    class Falsy(io.BytesIO):
        def __bool__(self):
            return False
    fs = FileStorage(Falsy(data), filename=filename)
    t.eq((fs.filename, fs.read()), (filename, data), 'stream that is false')
    fs = FileStorage(filename=filename)
    t.eq((fs.filename, fs.read()), (filename, b''), 'no stream')
    t.nontrivial(len(data) > size)
    t.label(kind)


BIG = st.lists(st.tuples(
    st.sampled_from(['a', 'b', '-', 'ab', '\r', '\n', '\r\n', 'a\n', '-a']),
    st.sampled_from([1, 1, 2, 1023, 1024, 4096, 5119, 5120, 8191, 8192, 10239,
                     10240, 16383, 16384, 16385])), min_size=1, max_size=4)


LINE = '[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+'


def check_big(case, t):
    """data larger than every default buffer, or in very many pieces"""
    from verktyg.wsgi import (
        make_line_iter, make_chunk_iter, FileWrapper, wrap_file)
    from verktyg.http import FileStorage
    runs, step, binary, sep = case
    data = ''.join(s * n for s, n in runs)
    if binary:
        data, sep = data.encode('ascii'), sep.encode('ascii')
    want = re.findall(
        LINE.encode('ascii') if binary else LINE, data, re.S)
    chunks = data.split(sep)
    step = max(step, len(data) // 1500)
    for make in (
        lambda: ([data[i:i + step] for i in range(0, len(data), step)], {}),
        lambda: (Reader(data + data[:3]), {'limit': len(data)}),
        lambda: (Reader(data), {}),
    ):
        src, kw = make()
        t.ok(list(make_line_iter(src, **kw)) == want, 'lines')
        src, kw = make()
        t.ok(list(make_chunk_iter(src, sep, **kw)) == chunks, 'chunks')
    if binary:
        for w in (FileWrapper(io.BytesIO(data)),
                  wrap_file({}, io.BytesIO(data))):
            t.ok(b''.join(w) == data, 'wrapped file')
        dst = io.BytesIO()
        FileStorage(io.BytesIO(data)).save(dst)
        t.ok(dst.getvalue() == data, 'saved')
    t.nontrivial(len(data) > 10240)


SUBS = [
    Sub('big', st.tuples(
        BIG, st.sampled_from([1, 1, 2, 1000, 10240]), st.booleans(),
        st.sampled_from(['-', '\n', 'ab', 'ba'])), check_big, quick=150,
        thorough=2000),
    Sub('lines', st.tuples(
        TEXT, st.booleans(), CUTS, st.integers(1, 8),
        st.sampled_from(['', 'x', '\n', 'more\r\n'])), check_lines,
        quick=6000),
    Sub('chunks', chunk_cases(), check_chunks, quick=6000),
    Sub('strings', st.tuples(TEXT), check_strings, quick=100, thorough=500),
    Sub('files', st.tuples(
        st.one_of(blob(30), TEXT.map(
            lambda s: s.encode('latin-1'))), st.integers(1, 12),
        st.sampled_from(['read', 'iter', 'save-object', 'save-path']),
        st.sampled_from([None, 'text/plain', 'Text/HTML; charset=utf-8',
                         'a/b; x=1; y=2']),
        st.sampled_from([None, '', 'a.txt', '<x', 'é'])), check_files,
        quick=1500, thorough=20000),
]
