"""C07: exception dispatch."""
import random

from hypothesis import strategies as st

from harness.core import Sub
from harness.models import negotiation as N

ID = 'C07'
RULE = (
    'Generated exception hierarchies (multiple inheritance, HTTP and '
    'built-in bases), exception handlers for some of the classes with '
    'generated representations, registered singly or through nested '
    'dispatchers between lookups. Oracle: walk the method resolution '
    'order, negotiate among the handlers of each class (model of C05), '
    'fall through when none is acceptable, None at the end. Lookups are '
    'repeated with one header exchanged. large: up to 60 classes and 100 '
    'handlers in layers. Non-trivial: the handler found belongs to a base '
    'class, or several handlers compete, or a class is passed over '
    'because its handlers are not acceptable.'
)
ASSUMPTIONS = ['see C05']

BASES = ['Exception', 'ValueError', 'LookupError', 'HTTPException',
         'NotFound', 'BadRequest', 'RequestRedirect', 'NotAcceptable']


def base(name):
    from verktyg import exceptions
    from verktyg.routing import RequestRedirect
    if name == 'RequestRedirect':
        return RequestRedirect
    if hasattr(exceptions, name):
        return getattr(exceptions, name)
    return {'Exception': Exception, 'ValueError': ValueError,
            'LookupError': LookupError}[name]


@st.composite
def hierarchy(draw):
    """A list of lists of indices; indices below len(BASES) are the built-in
    ones."""
    out = []
    for i in range(draw(st.integers(0, 5))):
        out.append(draw(st.lists(
            st.integers(0, len(BASES) + i - 1), min_size=1, max_size=2,
            unique=True)))
    return out


def make_classes(h):
    classes = [base(n) for n in BASES]
    for i, parents in enumerate(h):
        ps = tuple(classes[p] for p in parents)
        try:
            # some have the same name
            c = type('E%d' % (i % 3), ps, {})
        except TypeError:       # no consistent method resolution order
            c = type('E%d' % (i % 3), ps[:1], {})
        classes.append(c)
    return classes


@st.composite
def cases(draw):
    h = draw(hierarchy())
    n = len(BASES) + len(h)
    # mostly the generated classes and their bases
    cls = st.integers(0, n - 1)
    handler = st.tuples(cls, N.representation())
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        ops.append(('add', draw(st.lists(st.one_of(
            handler, st.lists(handler, min_size=1, max_size=3),
            # much about one class
            st.tuples(cls, st.lists(N.representation(), min_size=4,
                                    max_size=7)).map(
                lambda x: [(x[0], r) for r in x[1]])),
            max_size=4))))
        for _ in range(draw(st.integers(1, 3))):
            ops.append(('lookup', draw(st.integers(
                draw(st.sampled_from([0, n // 2])), n - 1)),
                draw(N.accept_headers())))
    return h, draw(st.booleans()), N.again(ops)


def check_dispatch(case, t):
    from verktyg.exception_dispatch import (
        ExceptionDispatcher, ExceptionHandler)
    h, in_ctor, ops = case
    classes = make_classes(h)
    table = {}
    count = [0]
    d = None

    def real(spec):
        ident = count[0]
        count[0] += 1

        def action(app, req, *exc):
            return ident
        table.setdefault(classes[spec[0]], []).append((ident, spec[1]))
        return ExceptionHandler(
            classes[spec[0]], action, **N.rep_kwargs(spec[1]))

    for op in ops:
        if op[0] == 'add':
            factories = []
            for item in op[1]:
                if isinstance(item, list):
                    factories.append(ExceptionDispatcher(
                        [real(s) for s in item]))
                    t.label('nested')
                else:
                    factories.append(real(item))
            if d is None and in_ctor:
                d = ExceptionDispatcher(factories)
            else:
                if d is None:
                    d = ExceptionDispatcher()
                d.add_exception_handlers(*factories)
            continue
        _, ci, accepts = op
        cls = classes[ci]
        want = None
        passed = False
        for k in cls.__mro__:
            cands = table.get(k)
            if not cands:
                continue
            i = N.select([r for _, r in cands], accepts)
            if i is None:
                passed = True
                continue
            want = cands[i][0]
            t.nontrivial(k is not cls or len(cands) > 1 or passed)
            t.label('own class' if k is cls else 'base class')
            if len(cands) > 1:
                t.label('several candidates')
            break
        if passed:
            t.label('passed over')
        kw = N.header_kwargs(accepts)
        if all(v is None for v in kw.values()):
            t.label('defaults')
            kw = {}
        got = d.lookup(cls, **kw)
        if want is None:
            t.label('none')
            t.ok(got is None, 'no handler is suitable, got %r', got)
        else:
            t.ok(got is not None, 'no handler, expected #%d', want)
            t.eq(got(None, None, cls, None, None), want, 'handler')


def check_large(case, t):
    """Deep hierarchies, many handlers."""
    from verktyg.exception_dispatch import (
        ExceptionDispatcher, ExceptionHandler)
    n, k, seed = case
    rng = random.Random(seed)
    classes = [base(rng.choice(BASES)) for _ in range(3)]
    chain = rng.random() < .5
    for i in range(rng.choice([3, 20, 60])):
        parents = (classes[-1],) if chain else tuple(
            rng.sample(classes, rng.choice([1, 1, 2])))
        try:
            classes.append(type('E', parents, {}))
        except TypeError:
            classes.append(type('E', parents[:1], {}))
    d = ExceptionDispatcher()
    table = {}

    def make(ident):
        return lambda app, req, *exc: ident

    total = rng.choice([1, 5, 40, 100])
    while total > 0:
        layer = []
        for _ in range(rng.choice([1, 3, 30])):
            total -= 1
            cls, rep = rng.choice(classes), N.large_rep(rng)
            table.setdefault(cls, []).append((total, rep))
            layer.append(ExceptionHandler(
                cls, make(total), **N.rep_kwargs(rep)))
        for _ in range(rng.choice([0, 0, 1, 12])):
            layer = [ExceptionDispatcher(layer)]
        d.add_exception_handlers(*layer)
        for _ in range(3):
            cls = rng.choice(classes)
            accepts = N.large_accepts(rng, n) if rng.random() < .7 else {}
            want = None
            for m in cls.__mro__:
                i = N.select([r for _, r in table.get(m, ())], accepts)
                if i is not None:
                    want = table[m][i][0]
                    break
            got = d.lookup(cls, **N.header_kwargs(accepts))
            t.eq(None if got is None else got(None, None, cls, None, None),
                 want, 'handler')
            t.nontrivial(want is not None)
            t.label('none' if want is None else 'found')


SUBS = [
    Sub('large', N.LARGE, check_large, quick=300),
    Sub('dispatch', cases(), check_dispatch, quick=5000),
]
