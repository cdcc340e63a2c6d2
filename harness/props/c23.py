"""C23: the static file, mounting and closing middleware."""
import os
import random
import shutil
import sys
import tempfile
import warnings
import zipfile
from datetime import datetime, timedelta, timezone
from fnmatch import fnmatchcase

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import many

ID = 'C23'
RULE = (
    'shared: a scratch tree of files (names, nested directories, '
    'neighbours of the exported directory whose names start with its '
    'name, a secret outside) exported under 1-3 mount points as '
    'directory, single file, package or zipped package; request paths '
    'built from the names of the tree, dots, double dots, doubled '
    'slashes, backslashes, null and other characters; disallow rules, '
    'caching on or off, a change of the file and conditional requests '
    'with what the previous answer said. Oracle: the first export that '
    'has a regular file at the path without dot segments decides; '
    'anything else reaches the application with the environ unchanged; a '
    'body from outside of the exports is a violation in any case. mount: '
    'tables of mount points over a small segment alphabet and paths over '
    'the same; oracle: the longest mount that is a prefix in whole '
    'segments, SCRIPT_NAME + PATH_INFO kept. closing: iterables that are '
    'lists, generators, iterators or containers with a close method. '
    'Files that are not closed after an answer are noticed. large: up to '
    '60 exports, deep directories, files of some hundred kilobytes; many: '
    'up to 60 mounts or callbacks. Non-trivial: a path with a special '
    'segment or a file below a mount; two mounts are prefixes; something '
    'to close.'
)
ASSUMPTIONS = [
    'file names are ASCII, the file system has no symlinks in the exports',
    'mount points start with a slash and do not end with one',
]

FILES = ['a.txt', 'b.html', 'sub/a.txt', 'sub/c', 'sub/deep/d.bin',
         'x.py', '.hidden', 'sub/.hidden', 'e.tar.gz', '...', 'sub/b.css',
         'a b.txt', '%2e%2e', '~', 'back\\slash',
         ' /a.txt', 'sub/ /c', 'a.txt ']
SEGMENT = st.one_of(
    st.sampled_from(['a.txt', 'sub', 'sub', 'deep', 'd.bin', 'b.html', 'c',
                     'x.py', '.hidden', 'secret', 'static', 'static2',
                     'a b.txt', 'b.css', 'e.tar.gz']),
    st.sampled_from(['..', '.', '', '...', '%2e%2e', '..\\', '\\', '~',
                     'a.txt\0', '..\\secret', 'A.TXT', 'é', 'etc', 'passwd',
                     '__init__.py', 'back\\slash', ' ..', '.. ',
                     'a.txt\udcff', '\udcc3', '.\udcff.', 'a.txt\ufffd', '/']))
MOUNT = st.sampled_from(['/static', '/', '/s', '/s/t', '/static/sub', '/a.txt',
                         '/stat'])
RULES = ['*.txt', '*.py', '.*', 'c', 'A.TXT', '*.*', 'a*']


@st.composite
def shared_cases(draw):
    exports = []
    for i in range(draw(st.integers(1, 3))):
        mount = draw(MOUNT)
        if mount not in [m for m, k, x in exports]:
            kind = draw(st.sampled_from(
                ['dir', 'dir', 'dir', 'dir', 'file', 'pkg', 'zip']))
            where = draw(st.sampled_from(['', '', '', 'sub'])) \
                if kind != 'file' else draw(st.sampled_from(FILES[:5]))
            exports.append((mount, kind, where))
    mount = draw(st.sampled_from(exports))[0].strip('/')
    how = draw(st.integers(0, 4))
    if how in (0, 4):          # a file that is there
        segs = [mount] + draw(st.sampled_from(FILES)).split('/')
    elif how == 1:        # with something put in between
        segs = [mount] + draw(st.sampled_from(FILES)).split('/')
        segs.insert(draw(st.integers(0, len(segs))), draw(SEGMENT))
    elif how == 2:
        segs = [mount] + draw(st.lists(SEGMENT, max_size=5))
    else:
        segs = draw(st.lists(SEGMENT, max_size=5))
    path = '/' + '/'.join(segs)
    if draw(st.integers(0, 5)) == 0:
        path += '/'
    return (
        exports, path,
        draw(st.one_of(st.none(), st.none(), st.none(), st.lists(
            st.sampled_from(RULES), max_size=2))),
        draw(st.booleans()),
        draw(st.one_of(st.none(), st.sampled_from([0, 1, 60, 43200]))),
        draw(st.integers(0, 9)),          # what the second request says
        draw(st.tuples(st.sampled_from([0, 0, 1, 5, 100000]),
                       st.sampled_from([0, 0, 1, 9000]))),
        draw(st.sampled_from(['GET', 'GET', 'HEAD', 'POST'])),
        draw(st.integers(0, 2000000000)), draw(st.integers(0, 999999)),
        draw(st.booleans()),
        draw(st.sampled_from([None, None, 'a/b', 'application/x-none'])),
        draw(st.sampled_from([None, None, None, 'a', 'txt'])),
    )


TREE = {}


def tree():
    """A scratch tree, made once per process."""
    if TREE.get('pid') == os.getpid():
        return TREE
    import atexit
    from multiprocessing import util
    TREE.clear()
    base = tempfile.mkdtemp(prefix='verif-c23-')
    TREE['pid'] = os.getpid()

    def clean():
        if os.getpid() == TREE.get('pid'):
            shutil.rmtree(base, ignore_errors=True)
    atexit.register(clean)
    util.Finalize(None, clean, exitpriority=10)
    root = os.path.join(base, 'root')
    pk = 'verifpk%d' % os.getpid()
    TREE.update(
        base=base, root=root, dir=os.path.join(root, 'static'), pk=pk,
        zpk='z' + pk)
    outside = ['secret', 'static2/a.txt', 'a.txt', 'sub/a.txt', 'x.py',
               'etc/passwd']
    for name in outside:
        write(os.path.join(root, name), b'SECRET ' + name.encode())
    for name in FILES:
        write(os.path.join(root, 'static', name), content('dir', name))
        write(os.path.join(root, pk, 'data', name), content('pkg', name))
    write(os.path.join(root, pk, '__init__.py'), b'"SECRET"')
    write(os.path.join(root, pk, 'secret'), b'SECRET')
    os.makedirs(os.path.join(root, 'static', 'empty'))
    zname = os.path.join(base, 'z.zip')
    with zipfile.ZipFile(zname, 'w') as z:
        z.writestr('z%s/__init__.py' % pk, '"SECRET"')
        z.writestr('z%s/secret' % pk, 'SECRET')
        for name in FILES:
            z.writestr('z%s/data/%s' % (pk, name), content('zip', name))
    sys.path.append(root)
    sys.path.append(zname)
    __import__(pk)
    __import__('z' + pk)
    return TREE


def content(kind, name):
    return (kind + ' ' + name).encode() * (1 + len(name) % 3)


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


def find(exports, path):
    """(kind, name) of the file that the exports have at the path, or None.
    Paths with dot segments are the caller's business."""
    segs = [s for s in path.split('/') if s]
    for mount, kind, where in exports:
        m = [s for s in mount.split('/') if s]
        if segs[:len(m)] != m:
            continue
        rest = segs[len(m):]
        if kind == 'file':
            return 'dir', where
        if not rest:
            continue
        name = '/'.join(([where] if where else []) + rest)
        if name in FILES:
            return kind, name
    return None


def call(app, environ):
    got = []

    def start_response(status, headers, exc_info=None):
        got.append((status, headers))
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always', ResourceWarning)
        it = app(environ, start_response)
        body = b''.join(it)
        if hasattr(it, 'close'):
            it.close()
        del it
    assert len(got) == 1
    leaked = [str(w.message) for w in caught
              if w.category is ResourceWarning and 'verif-c23-' in str(
                  w.message)]
    assert not leaked, leaked
    return got[0][0], dict(got[0][1]), body


def check_shared(case, t):
    target = find(case[0], case[1])
    try:
        _check_shared(case, t)
    finally:
        tr = tree()
        if target and target[0] in ('dir', 'pkg'):
            write(file_name(tr, target), content(*target))


def file_name(tr, target):
    return os.path.join(
        tr['dir'] if target[0] == 'dir'
        else os.path.join(tr['root'], tr['pk'], 'data'), target[1])


def _check_shared(case, t):
    from verktyg.wsgi import SharedDataMiddleware
    (exports, path, disallow, cache, timeout, second, change, method, mtime,
     micro, wrapper, fallback, veto) = case
    tr = tree()
    arg = {}
    for mount, kind, where in exports:
        if kind in ('dir', 'file'):
            arg[mount] = os.path.join(tr['dir'], where) if where else tr['dir']
        else:
            data = 'data' + ('/' + where if where else '')
            arg[mount] = (tr['pk'] if kind == 'pkg' else tr['zpk'], data)
    kw = {}
    if disallow is not None:
        kw['disallow'] = disallow if len(disallow) != 1 or cache \
            else disallow[0]
    if timeout is not None:
        kw['cache_timeout'] = timeout
    if not cache or len(path) % 2:
        kw['cache'] = cache
    seen = []

    def app(environ, start_response):
        seen.append(dict(environ))
        start_response('299 App', [('X-App', '1')])
        return [b'app']
    if fallback is not None:
        kw['fallback_mimetype'] = fallback

    class Middleware(SharedDataMiddleware):
        def is_allowed(self, filename):
            return veto is None or veto not in filename
    t.raises(TypeError, SharedDataMiddleware, app, {'/x': None})
    t.raises(TypeError, SharedDataMiddleware, app, {'/': ['a', 'b']})
    mw = (SharedDataMiddleware if veto is None else Middleware)(
        app, arg, **kw)


    class file_wrapper(object):
        def __init__(self, f, size=8192):
            self.chunks = iter(lambda: f.read(size), b'')
            self.close = f.close

        def __iter__(self):
            return self.chunks

    def environ(**extra):
        env = {
            'REQUEST_METHOD': method, 'SCRIPT_NAME': '', 'QUERY_STRING': 'q',
            'PATH_INFO': path.encode(
                'utf-8', 'surrogateescape').decode('latin-1'),
            'SERVER_NAME': 'x', 'SERVER_PORT': '80', 'wsgi.url_scheme': 'http',
        }
        if wrapper:
            env['wsgi.file_wrapper'] = file_wrapper
        env.update(extra)
        return env

    target = find(exports, path)
    dots = any(s in ('.', '..') for s in path.split('/'))
    fname = None
    if target and target[0] in ('dir', 'pkg'):
        fname = file_name(tr, target)
        write(fname, content(*target))
        os.utime(fname, ns=(0, mtime * 10**9 + micro * 1000))
    size = len(content(*target)) if target else 0
    env = environ()
    before = dict(env)
    now = datetime.now(timezone.utc).replace(microsecond=0)
    status, headers, body = call(mw, env)
    t.ok(b'SECRET' not in body, '%r served %r', path, body)
    if dots:
        # which file a path with dot segments means is open; it is one of
        # the exported ones or the application's business
        allowed = [b'app'] + [
            content(k if k != 'file' else 'dir', n) for n in FILES
            for m, k, w in exports
            if (n == w if k == 'file' else not w or n.startswith(w + '/'))]
        t.ok(body in allowed, '%r served %r', path, body)
        t.nontrivial()
        t.label('dots')
        return
    forbidden = target and disallow is not None and any(
        fnmatchcase(os.path.basename(target[1]), r) for r in disallow)
    if target and disallow is None and veto is not None:
        forbidden = veto in os.path.basename(target[1])
    if not target or forbidden:
        t.eq((status, body), ('299 App', b'app'), 'path %r' % path)
        t.eq(seen, [before], 'environ passed on')
        t.nontrivial(bool(forbidden))
        t.label('disallowed' if forbidden else 'application')
        return
    t.eq(seen, [], 'application called')
    t.eq(status, '200 OK', 'status for %r' % path)
    t.eq(body, content(*target), 'body of %r' % path)
    h = {k.lower(): v for k, v in headers.items()}
    t.eq(h['content-length'], str(size), 'Content-Length')
    base = target[1].rsplit('/', 1)[-1]
    types = {'txt': 'text/plain', 'html': 'text/html', 'css': 'text/css',
             'py': 'text/x-python', 'gz': 'application/x-tar',
             'bin': 'application/octet-stream'}
    ext = base.rsplit('.', 1)[-1]
    if ext in types and base != ext:
        t.eq(h['content-type'].split(';')[0], types[ext], 'Content-Type')
    elif '.' not in base.strip('.'):
        t.eq(h['content-type'], fallback or 'text/plain', 'Content-Type')

    def parse(s):
        d = datetime.strptime(s, '%a, %d %b %Y %H:%M:%S GMT')
        return d.replace(tzinfo=timezone.utc)
    epoch = datetime(1970, 1, 1, tzinfo=timezone.utc)
    t.ok(abs(parse(h['date']) - now) < timedelta(seconds=100), 'Date')
    if fname:
        t.eq(parse(h['last-modified']), epoch + timedelta(seconds=mtime),
             'Last-Modified')
    if cache:
        seconds = 60 * 60 * 12 if timeout is None else timeout
        cc = sorted(x.strip() for x in h['cache-control'].split(','))
        t.eq(cc, ['max-age=%d' % seconds, 'public'], 'Cache-Control')
        t.ok(abs(parse(h['expires']) - now - timedelta(
            seconds=seconds)) < timedelta(seconds=100), 'Expires')
        t.ok(len(h['etag']) > 2 and h['etag'][0] == h['etag'][-1] == '"',
             'ETag %r', h['etag'])
    else:
        t.eq(h['cache-control'], 'public', 'Cache-Control')
        t.ok('etag' not in h and 'expires' not in h, 'caching headers')
    t.label('served ' + target[0])

    # a second request, after the file may have changed
    later, longer = change
    want = content(*target)
    if fname:
        want += b'+' * longer
        write(fname, want)
        os.utime(fname, ns=(0, (mtime + later) * 10**9 + micro * 1000))
    else:
        later = longer = 0
    extra = {}
    same = False
    if second in (1, 2):
        extra['HTTP_IF_NONE_MATCH'] = h.get('etag', '"x"')
        same = cache and not later and not longer
        if second == 2:        # the tag decides, not the date
            extra['HTTP_IF_MODIFIED_SINCE'] = 'Thu, 01 Jan 1970 00:00:00 GMT'
    elif second == 3:
        extra['HTTP_IF_NONE_MATCH'] = '"other"'
        extra['HTTP_IF_MODIFIED_SINCE'] = h['last-modified']
    elif second == 4:
        extra['HTTP_IF_MODIFIED_SINCE'] = h['last-modified']
        same = cache and not later
    elif second == 5 and fname:
        past = epoch + timedelta(seconds=mtime - 1)
        if mtime < 1:
            return
        extra['HTTP_IF_MODIFIED_SINCE'] = past.strftime(
            '%a, %d %b %Y %H:%M:%S GMT')
    elif second in (7, 8, 9):
        tag = h.get('etag', '"x"')
        extra['HTTP_IF_NONE_MATCH'] = {
            7: '"x", ' + tag, 8: tag + ',"y"', 9: '*'}[second]
        same = cache and (second == 9 or not later and not longer)
    elif second == 6 and fname:
        future = epoch + timedelta(seconds=mtime + later + 3600)
        extra['HTTP_IF_MODIFIED_SINCE'] = future.strftime(
            '%a, %d %b %Y %H:%M:%S GMT')
        same = cache
    same = same and method in ('GET', 'HEAD')
    status, headers, body = call(mw, environ(**extra))
    if same:
        t.eq((status.split()[0], body), ('304', b''), 'conditional answer')
        if not longer and not later:
            t.eq(h_get(headers, 'etag'), h['etag'], 'ETag of 304')
        t.ok(h_get(headers, 'content-length') is None, 'Content-Length')
        t.label('304')
    else:
        t.eq((status, body), ('200 OK', want), 'second answer, %r' % (extra,))
        t.eq(h_get(headers, 'content-length'), str(len(want)), 'length')
        if cache and (later or longer):
            t.ok(h_get(headers, 'etag') != h['etag'],
                 'the tag did not change with the file')
        elif cache:
            t.eq(h_get(headers, 'etag'), h['etag'], 'stable tag')
    t.nontrivial()


def h_get(headers, name):
    for k, v in headers.items():
        if k.lower() == name:
            return v


# mounting

SEG = st.sampled_from(['a', 'b', 'ab', 'a b', 'é', '', '.', 'a%2Fb', '\udcff',
                       'a\udcff'])


def check_mount(case, t):
    from verktyg.wsgi import DispatcherMiddleware
    mounts, segs, script, nested = case
    mounts = sorted(set('/' + '/'.join(m) for m in mounts))

    def wsgi(s):
        return s.encode('utf-8', 'surrogateescape').decode('latin-1')
    path = ''.join('/' + s for s in segs)
    calls = []

    def make(name):
        def app(environ, start_response):
            calls.append((name, environ['SCRIPT_NAME'], environ['PATH_INFO'],
                          environ['QUERY_STRING']))
            start_response('200 OK', [])
            return [name.encode('utf-8', 'surrogateescape')]
        return app
    want = ''
    for m in mounts:
        if (path + '/').startswith(m + '/') and len(m) > len(want):
            want = m
    mw = DispatcherMiddleware(
        make('root'), dict((wsgi(m), make(m)) for m in mounts))
    env = {'REQUEST_METHOD': 'GET', 'SCRIPT_NAME': wsgi(script),
           'PATH_INFO': wsgi(path), 'QUERY_STRING': 'q=1'}
    status, headers, body = call(mw, env)
    t.eq(body.decode('utf-8', 'surrogateescape'), want or 'root',
         'application for %r' % path)
    t.eq(calls, [(want or 'root', wsgi(script + want),
                  wsgi(path[len(want):]), 'q=1')], 'environ')
    if nested:
        # the same table with the deeper mounts inside of the outer ones
        del calls[:]
        top = '/' + nested
        inner = dict((wsgi(m[len(top):]), make(m)) for m in mounts
                     if m.startswith(top + '/'))
        outer = dict((wsgi(m), make(m)) for m in mounts
                     if not (m + '/').startswith(top + '/'))
        if top in mounts:
            base = make(top)
            outer[wsgi(top)] = DispatcherMiddleware(base, inner)
            mw = DispatcherMiddleware(make('root'), outer)
            env = {'REQUEST_METHOD': 'GET', 'SCRIPT_NAME': wsgi(script),
                   'PATH_INFO': wsgi(path), 'QUERY_STRING': 'q=1'}
            call(mw, env)
            t.eq(calls, [(want or 'root', wsgi(script + want),
                          wsgi(path[len(want):]), 'q=1')], 'nested')
            t.label('nested')
    n = sum((path + '/').startswith(m + '/') for m in mounts)
    t.nontrivial(n > 1 or bool(mounts and not n and segs))
    t.label('%d mounts apply' % n)


def check_many_mounts(case, t):
    (mounts, base, more), = case
    check_mount((mounts, list(base) + more, '/root', None), t)


def segments(size):
    return st.lists(st.sampled_from(['a', 'b', 'ab', 'a b', 'é', 'a%2Fb']),
                    min_size=1, max_size=size)


@st.composite
def mount_cases(draw):
    mounts = draw(st.lists(segments(2), max_size=3))
    for i in range(draw(st.integers(0, 2))):
        if mounts:
            mounts.append(draw(st.sampled_from(mounts)) + draw(segments(2)))
    segs = draw(st.lists(SEG, max_size=3))
    if mounts and draw(st.integers(0, 3)):
        segs = draw(st.sampled_from(mounts)) + segs
        if segs and draw(st.integers(0, 5)) == 0:
            segs = segs[:-1]
    return (mounts, segs, draw(st.sampled_from(['', '/root', '/r/é'])),
            draw(st.sampled_from([None, 'a', 'b', 'ab'])))


# closing

def check_closing(case, t):
    from verktyg.wsgi import ClosingIterator
    kind, items, how, ncallbacks, read, fail, repeat = case
    log = []

    class It(object):
        def __init__(self):
            self.i = iter(items)

        def __iter__(self):
            return self

        def __next__(self):
            x = next(self.i)
            if fail is not None and x == items[fail % len(items)]:
                raise KeyError(x)
            return x

    class Closing(It):
        def close(self):
            log.append('close')

    class Container(object):
        def __iter__(self):
            return It()

        def close(self):
            log.append('close')

    def gen():
        try:
            for x in It():
                yield x
        finally:
            log.append('close')

    src = {'list': lambda: list(items), 'tuple': lambda: tuple(items),
           'iter': It, 'closing': Closing, 'container': Container,
           'gen': gen}[kind]()
    fns = [lambda i=i: log.append(i) for i in range(ncallbacks)]
    numbers = list(range(ncallbacks))
    if repeat and fns:
        fns.append(fns[0])
        numbers.append(0)
    if how == 'none':
        it, fns = ClosingIterator(src), []
    elif how == 'one':
        fns, numbers = [lambda: log.append(0)], [0]
        it = ClosingIterator(src, fns[0])
    elif how == 'tuple':
        it = ClosingIterator(src, tuple(fns))
    else:
        it = ClosingIterator(src, fns)
        given = list(fns)
    t.ok(iter(it) is it, 'iter()')
    got = []
    limit = len(items) if kind in ('list', 'tuple') or fail is None \
        or not items else items.index(items[fail % len(items)])
    for i in range(min(read, len(items) + 1)):
        try:
            got.append(next(it))
        except StopIteration:
            t.ok(limit == len(items) and i == limit, 'ended at %d', i)
            break
        except KeyError:
            t.ok(limit < len(items) and i == limit, 'failed at %d', i)
            break
    t.eq(got, list(items[:min(read, limit)]), 'items')
    if kind != 'gen':
        t.eq(log, [], 'closed early')
    it.close()
    want = numbers if fns else []
    if kind in ('closing', 'container'):
        want = ['close'] + want
    elif kind == 'gen' and read:
        want = ['close'] + want
    if how == 'list':
        t.eq(fns, given, 'callbacks passed in')
    t.eq(log, want, 'close order')
    t.nontrivial(len(want) > 0 and len(items) > 0)


# large

def check_large(case, t):
    """Many exports, deep directories, big files."""
    from verktyg.wsgi import SharedDataMiddleware
    n, seed, cache = case
    rng = random.Random(seed)
    base = os.path.join(tree()['base'], 'large')
    shutil.rmtree(base, ignore_errors=True)
    exports, files = {}, {}
    for i in range(n):
        where = os.path.join(base, str(i))
        if rng.random() < .3:
            mount = '/file%d.bin' % i
            names = ['']
        else:
            mount = '/m%d' % i + '/x' * rng.choice([0, 0, 1, 12])
            names = [
                'd/' * rng.choice([0, 1, 5, 30]) + 'f%d' % k +
                'n' * rng.choice([0, 0, 200]) +
                rng.choice(['.txt', '.html', '.tar.gz', '', '.bin'])
                for k in range(rng.choice([1, 3]))]
        for name in names:
            data = rng.randbytes(rng.choice([0, 1, 100])) * rng.choice(
                [1, 1, 82, 3000])
            write(os.path.join(where, name) if name else where, data)
            files[mount + ('/' + name if name else '')] = data
        exports[mount] = where

    def app(environ, start_response):
        start_response('299 App', [])
        return [environ['PATH_INFO'].encode('latin-1')]
    mw = SharedDataMiddleware(app, exports, cache=cache)
    for path in rng.sample(sorted(files), min(len(files), 6)):
        env = {'REQUEST_METHOD': 'GET', 'SCRIPT_NAME': '',
               'QUERY_STRING': '', 'PATH_INFO': path}
        for _ in range(2):
            status, headers, body = call(mw, dict(env))
            headers = {k.lower(): v for k, v in headers.items()}
            t.eq(status, '200 OK', path)
            t.ok(body == files[path], '%r: %d bytes, expected %d', path,
                 len(body), len(files[path]))
            t.eq(int(headers['content-length']), len(body), 'length')
            t.eq('etag' in headers, cache, 'ETag')
        if cache:
            status, headers, body = call(mw, dict(
                env, HTTP_IF_NONE_MATCH=headers['etag']))
            t.eq((status[:3], body), ('304', b''), 'with the same tag')
        for other in (path + 'x', path + '/x',
                      path.replace('/x', '', 1) if '/x' in path else '/x',
                      path.rpartition('/')[0]):
            if other in files or not other or path.startswith('/file'):
                # what is below a file is the file
                continue
            t.eq(call(mw, dict(env, PATH_INFO=other))[::2],
                 ('299 App', other.encode()), 'other path')
        t.nontrivial()
        t.label('%d00 KB' % (len(files[path]) // 100000))
    shutil.rmtree(base, ignore_errors=True)


SUBS = [
    Sub('large', st.tuples(st.sampled_from([1, 5, 20, 60]),
                           st.integers(0, 99999), st.booleans()),
        check_large, quick=60),
    Sub('many mounts', st.tuples(
        many(st.one_of(segments(3), segments(3).map(lambda x: x * 12)),
             5, 60).flatmap(lambda ms: st.tuples(
                 st.just([m + ['s%d' % i] * (i % 3)
                          for i, m in enumerate(ms)]),
                 st.sampled_from(ms), st.lists(SEG, max_size=3)))),
        check_many_mounts, quick=300),
    Sub('many callbacks', st.tuples(
        st.sampled_from(['list', 'tuple', 'iter', 'closing', 'container',
                         'gen']),
        many(st.integers(0, 255).map(lambda i: bytes([i])), 5, 90),
        st.sampled_from(['list', 'tuple']),
        st.integers(0, 60), st.integers(0, 99),
        st.one_of(st.none(), st.integers(0, 89)), st.booleans()),
        check_closing, quick=300),
    Sub('shared', shared_cases(), check_shared, quick=10000),
    Sub('mount', mount_cases(), check_mount, quick=8000),
    Sub('closing', st.tuples(
        st.sampled_from(['list', 'tuple', 'iter', 'closing', 'container',
                         'gen']),
        st.lists(st.integers(0, 255).map(lambda i: bytes([i])), max_size=4),
        st.sampled_from(['none', 'one', 'list', 'tuple']),
        st.integers(0, 3), st.integers(0, 6),
        st.one_of(st.none(), st.integers(0, 3)), st.booleans()),
        check_closing, quick=3000),
]
