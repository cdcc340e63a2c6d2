"""C27: HTTP exceptions and abort()."""
import copy
import pickle

from hypothesis import strategies as st

from harness.core import Sub
from harness.gen import many, stretched

ID = 'C27'
RULE = (
    'abort: histories of aborting with known and unknown codes, response '
    'objects, positional and keyword arguments, through the default '
    'aborter and through aborters with their own or additional mappings '
    'that are changed afterwards, against a table of status codes written '
    'down here. exceptions: every HTTP exception class made with '
    'generated arguments, its attributes, text, copies and pickles. wrap: '
    'classes combining generated pairs of an HTTP exception and another '
    'exception. names: the name and status line of every code, on classes '
    'defined by the caller. many, long: long descriptions and large '
    'mappings. Non-trivial: an aborter other than the default one, an '
    'unknown code, an argument, a wrapped class.'
)
ASSUMPTIONS = []

# status code -> name of the exception class, from the class documentation
# and RFC 7231 and its companions
CLASSES = {
    400: 'BadRequest', 401: 'Unauthorized', 403: 'Forbidden',
    404: 'NotFound', 405: 'MethodNotAllowed', 406: 'NotAcceptable',
    408: 'RequestTimeout', 409: 'Conflict', 410: 'Gone',
    411: 'LengthRequired', 412: 'PreconditionFailed',
    413: 'RequestEntityTooLarge', 414: 'RequestURITooLarge',
    415: 'UnsupportedMediaType', 416: 'RequestedRangeNotSatisfiable',
    417: 'ExpectationFailed', 418: 'ImATeapot', 422: 'UnprocessableEntity',
    428: 'PreconditionRequired', 429: 'TooManyRequests',
    431: 'RequestHeaderFieldsTooLarge', 500: 'InternalServerError',
    501: 'NotImplemented', 502: 'BadGateway', 503: 'ServiceUnavailable',
    504: 'GatewayTimeout', 505: 'HTTPVersionNotSupported',
}
NAMES = {
    400: 'Bad Request', 401: 'Unauthorized', 403: 'Forbidden',
    404: 'Not Found', 405: 'Method Not Allowed', 406: 'Not Acceptable',
    408: 'Request Timeout', 409: 'Conflict', 410: 'Gone',
    411: 'Length Required', 412: 'Precondition Failed',
    413: 'Request Entity Too Large', 414: 'Request URI Too Long',
    415: 'Unsupported Media Type', 416: 'Requested Range Not Satisfiable',
    417: 'Expectation Failed', 418: "I'm a teapot",
    422: 'Unprocessable Entity', 428: 'Precondition Required',
    429: 'Too Many Requests', 431: 'Request Header Fields Too Large',
    500: 'Internal Server Error', 501: 'Not Implemented',
    502: 'Bad Gateway', 503: 'Service Unavailable', 504: 'Gateway Timeout',
    505: 'HTTP Version Not Supported',
}
# the other codes of the IANA registry as of RFC 7231 that have a name here
OTHER = {
    100: 'Continue', 101: 'Switching Protocols', 102: 'Processing',
    200: 'OK', 201: 'Created', 202: 'Accepted',
    203: 'Non Authoritative Information', 204: 'No Content',
    205: 'Reset Content', 206: 'Partial Content', 207: 'Multi Status',
    226: 'IM Used', 300: 'Multiple Choices', 301: 'Moved Permanently',
    302: 'Found', 303: 'See Other', 304: 'Not Modified', 305: 'Use Proxy',
    307: 'Temporary Redirect', 402: 'Payment Required',
    407: 'Proxy Authentication Required', 423: 'Locked',
    424: 'Failed Dependency', 426: 'Upgrade Required', 449: 'Retry With',
    507: 'Insufficient Storage', 510: 'Not Extended',
}
CODES = sorted(CLASSES)
SUBCLASSES = {'ClientDisconnected': 400, 'SecurityError': 400}
TEXT = st.text('abé<>&" ', max_size=8)
CODE = st.one_of(st.sampled_from(CODES), st.sampled_from(CODES),
                 st.sampled_from([0, 1, 99, 200, 302, 402, 407, 499, 600, -1]))
ENTRY = st.tuples(CODE, st.sampled_from(CODES + ['Own', 'Key']))
RESPONSES = ['response', 'function', 'text', 'none']


@st.composite
def abort_cases(draw):
    aborters = draw(st.lists(st.tuples(
        st.sampled_from(['mapping', 'extra', 'both', 'neither']),
        st.lists(ENTRY, max_size=4), st.lists(ENTRY, max_size=4)),
        max_size=3))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('abort'), st.integers(0, 3), CODE,
                  st.one_of(st.none(), TEXT),
                  st.sampled_from(['pos', 'kw', 'response'])),
        st.tuples(st.just('object'), st.integers(0, 3),
                  st.sampled_from(RESPONSES)),
        st.tuples(st.just('change'), st.integers(0, 3), ENTRY)),
        min_size=1, max_size=8))
    return aborters, ops


def check_abort(case, t):
    from verktyg import exceptions
    from verktyg.responses import Response
    aborters, ops = case

    class Own(exceptions.HTTPException):
        code = 599

    def cls_of(x):
        if x == 'Own':
            return Own
        if x == 'Key':
            return exceptions.BadRequestKeyError
        return getattr(exceptions, CLASSES[x])
    default = {c: cls_of(c) for c in CODES}
    t.eq({c: k for c, k in exceptions.default_exceptions.items()
          if c in CLASSES}, default, 'default_exceptions')
    known = [(exceptions.abort, default, None, None)]
    for kind, mapping, extra in aborters:
        m = {c: cls_of(k) for c, k in mapping}
        e = {c: cls_of(k) for c, k in extra}
        t.nontrivial()
        if kind == 'mapping':
            known.append((exceptions.Aborter(m), dict(m), m, None))
        elif kind == 'extra':
            known.append((exceptions.Aborter(extra=e), dict(default, **{}), None, e))
            known[-1][1].update(e)
        elif kind == 'both':
            model = dict(m)
            model.update(e)
            known.append((exceptions.Aborter(m, e), model, m, e))
        else:
            known.append((exceptions.Aborter(), dict(default), None, None))
    for op in ops:
        aborter, model, m, e = known[op[1] % len(known)]
        if op[0] == 'change':
            # changes of the mappings do not concern the aborter
            for d in (m, e):
                if d is not None:
                    d[op[2][0]] = cls_of(op[2][1])
            continue
        if op[0] == 'object':
            obj = {'response': Response('x'), 'function': lambda *a: [],
                   'text': 'text', 'none': None}[op[2]]
            exc = t.raises(exceptions.HTTPException, aborter, obj)
            t.ok(type(exc) is exceptions.HTTPException and
                 exc.response is obj, 'abort(%r): %r', obj, exc)
            t.eq((str(exc), exc.name, exc.code), (
                '???: Unknown Error', 'Unknown Error', None),
                'text of an exception without a code')
            t.ok(isinstance(repr(exc), str), 'repr')
            if op[2] != 'none':
                # with arguments it can only be meant as a code
                t.raises(LookupError, aborter, obj, description='x')
                t.raises(LookupError, aborter, obj, 'x')
                t.raises(LookupError, aborter, '404', response=None)
            continue
        code, description, how = op[2:]
        want = model.get(code)
        args, kw = (), {}
        if description is not None:
            t.nontrivial()
            if how == 'pos' and code != 405:
                args = (description,)
            else:
                kw = {'description': description}
        response = object()
        if how == 'response' and code != 405 and want is not \
                exceptions.MethodNotAllowed:
            kw['response'] = response
        if want is None:
            t.label('unknown code')
            t.nontrivial()
            exc = t.raises(LookupError, aborter, code, *args, **kw)
            t.ok(not isinstance(exc, exceptions.HTTPException),
                 'abort(%r) raised %r', code, exc)
            continue
        exc = t.raises(exceptions.HTTPException, aborter, code, *args, **kw)
        t.ok(type(exc) is want, 'abort(%r) raised %r, expected %r', code,
             exc, want)
        if want is exceptions.MethodNotAllowed and args:
            t.eq(exc.valid_methods, args[0], 'valid methods')
        elif want is not exceptions.BadRequestKeyError or not args:
            t.eq(exc.description,
                 want.description if description is None else description,
                 'description')
        t.ok(exc.response is kw.get('response'), 'response')


@st.composite
def exc_cases(draw):
    return draw(st.lists(st.tuples(
        st.sampled_from(list(CLASSES.values()) + list(SUBCLASSES)),
        st.one_of(st.none(), TEXT), st.booleans(),
        st.one_of(st.none(), st.lists(st.sampled_from(
            ['GET', 'POST', 'PUT']), max_size=3))), min_size=1, max_size=4))


def check_exceptions(case, t):
    from verktyg import exceptions
    codes = {v: k for k, v in CLASSES.items()}
    codes.update(SUBCLASSES)
    made = []
    for name, description, keyword, methods in case:
        cls = getattr(exceptions, name)
        t.ok(name in exceptions.__all__, '%s is not exported', name)
        default = cls.description
        t.ok(isinstance(default, str) and default, 'description of %s', name)
        if name == 'MethodNotAllowed':
            exc = cls(methods, description)
            t.eq(exc.valid_methods, methods, 'valid_methods')
        elif keyword:
            exc = cls(description=description)
        else:
            exc = cls(description)
        t.nontrivial(description is not None)
        want = default if description is None else description
        made.append((exc, codes[name], want, name))
        t.eq(cls.description, default, 'default description')
        t.ok(isinstance(exc, exceptions.HTTPException), name)
    for exc, code, description, name in made:
        for e in (exc, copy.copy(exc), pickle.loads(pickle.dumps(exc))):
            t.eq((type(e).__name__, e.code, e.description, e.response),
                 (name, code, description, None), 'exception')
            t.eq(e.name, NAMES[code], 'name')
            t.eq(str(e), '%d: %s' % (code, NAMES[code]), 'str')
            t.eq(repr(e), "<%s '%s'>" % (name, e), 'repr')
            t.eq(getattr(e, 'valid_methods', None),
                 getattr(exc, 'valid_methods', None), 'valid methods')


BASES = ['KeyError', 'ValueError', 'LookupError', 'TypeError', 'Own',
         'OSError', 'ZeroDivisionError']


@st.composite
def wrap_cases(draw):
    return draw(st.lists(st.tuples(
        st.sampled_from([c for c in CODES if c != 405]),
        st.sampled_from(BASES), st.one_of(st.none(), st.just('Named')),
        st.one_of(TEXT, st.integers(-3, 3)), st.one_of(st.none(), TEXT)),
        min_size=1, max_size=4))


def check_wrap(case, t):
    import builtins
    from verktyg import exceptions

    class Own(Exception):
        pass
    made = []
    for code, base, name, arg, description in case:
        cls = getattr(exceptions, CLASSES[code])
        b = Own if base == 'Own' else getattr(builtins, base)
        w = cls.wrap(b, name) if name else cls.wrap(b)
        made.append((code, base, name, arg, description, cls, b, w))
    t.nontrivial(any(base != 'KeyError' for _, base, _, _, _ in case))
    for code, base, name, arg, description, cls, b, w in made:
        t.ok(issubclass(w, cls) and issubclass(w, b), 'bases of %r', w)
        t.eq(w.__name__, name or CLASSES[code] + base, 'name')
        t.eq(w.__module__, __name__, 'module')
        for exc in (w(arg), w(arg, description),
                    w(arg, description=description)):
            t.eq(exc.args, (arg,), 'args')
            t.eq((exc.code, exc.name), (code, NAMES[code]), 'code')
        t.eq(exc.description, cls.description if description is None
             else description, 'description')
        for caught in (cls, b, exceptions.HTTPException):
            try:
                raise exc
            except caught as e:
                t.ok(e is exc, 'caught another exception')
    exc = exceptions.BadRequestKeyError(case[0][3])
    for e in (exc, copy.copy(exc), pickle.loads(pickle.dumps(exc))):
        t.eq((type(e), e.args, e.code, e.description),
             (exceptions.BadRequestKeyError, (case[0][3],), 400,
              exceptions.BadRequest.description), 'BadRequestKeyError')


@st.composite
def name_cases(draw):
    return draw(st.lists(st.one_of(
        st.sampled_from(CODES), st.sampled_from(sorted(OTHER)),
        st.integers(100, 599)), min_size=1, max_size=5))


def check_names(case, t):
    from verktyg import exceptions
    from verktyg.responses import Response
    names = dict(OTHER)
    names.update(NAMES)
    for code in case:
        class Own(exceptions.HTTPException):
            pass
        Own.code = code
        if code in names:
            t.eq(Own('x').name, names[code], 'name of %d' % code)
            t.eq(str(Own()), '%d: %s' % (code, names[code]), 'str')
            t.eq(Response(status=code).status,
                 '%d %s' % (code, names[code].upper()), 'status line')
            t.nontrivial()
        else:
            t.label('unknown')
            t.ok(Own().name and str(Own()).startswith('%d: ' % code),
                 'text of an unknown code: %r', Own())


SUBS = [
    Sub('long', st.lists(st.tuples(
        st.sampled_from(list(CLASSES.values()) + list(SUBCLASSES)),
        stretched(TEXT, 900), st.booleans(), st.one_of(
            st.none(), many(st.sampled_from(['GET', 'POST', 'X-Y']), 3, 40))),
        min_size=1, max_size=4), check_exceptions, quick=200),
    Sub('many', st.tuples(
        many(st.tuples(
            st.sampled_from(['mapping', 'extra', 'both', 'neither']),
            many(ENTRY, 3, 40), many(ENTRY, 3, 40)), 1, 6),
        many(st.one_of(
            st.tuples(st.just('abort'), st.integers(0, 6), CODE,
                      st.one_of(st.none(), stretched(TEXT, 300)),
                      st.sampled_from(['pos', 'kw', 'response'])),
            st.tuples(st.just('object'), st.integers(0, 6),
                      st.sampled_from(RESPONSES)),
            st.tuples(st.just('change'), st.integers(0, 6), ENTRY)),
            10, 50)), check_abort, quick=200),
    Sub('names', name_cases(), check_names, quick=2400),
    Sub('abort', abort_cases(), check_abort, quick=6000),
    Sub('exceptions', exc_cases(), check_exceptions, quick=3200),
    Sub('wrap', wrap_cases(), check_wrap, quick=2400),
]
