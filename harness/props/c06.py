"""C06: handler dispatch by endpoint, method and representation."""
import random

from hypothesis import strategies as st

from harness.core import Sub
from harness.models import negotiation as N

ID = 'C06'
RULE = (
    'Histories over a Dispatcher: Binding, View (one, several or default '
    'methods), JsonView, ClassView and nested Dispatcher objects are '
    'added between lookups of (endpoint, method, Accept*). Oracle: a dict '
    'of endpoint -> method -> registration ordered bindings, HEAD falling '
    'back to GET, the errors 501/405/406 in that order, and the '
    'negotiation model of C05. The selected binding is called to see that '
    'it is the right one and receives its arguments. One case in three is '
    'dense: few names and methods, so that many bindings meet. Lookups '
    'are repeated with one header exchanged. large: up to 150 bindings of '
    'many names and methods in layers. Non-trivial: a lookup for an '
    'endpoint with two or more bindings, or one that must fail although '
    'the endpoint exists.'
)
ASSUMPTIONS = ['see C05']

NAMES = ['index', 'show', '', ('a', 1)]
METHODS = ['GET', 'POST', 'HEAD', 'PUT', 'DELETE']
# a class view knows no others
MORE = METHODS + ['PATCH', 'PURGE']


@st.composite
def binding(draw, names=NAMES, usual=None):
    rep = draw(N.representation())
    name = draw(st.sampled_from(names))
    kind = draw(st.sampled_from(
        ['binding', 'view', 'view', 'json', 'class', 'expose']))
    if usual is not None:
        methods = draw(st.sampled_from(usual))
        if kind == 'json' or kind == 'class':
            methods = [methods]
    elif kind == 'binding':
        methods = draw(st.sampled_from([None, 'GET', 'POST', 'HEAD']))
    else:
        methods = draw(st.one_of(
            st.none(), st.sampled_from(MORE),
            st.lists(st.sampled_from(METHODS if kind == 'class' else MORE),
                     min_size=0, max_size=3,
                     unique=True)))
    if kind == 'json':
        rep = {'content_type': 'application/json', 'qs': rep['qs']}
    elif kind == 'class':
        rep = {}
        methods = methods or ['GET']    # a class has methods
        if isinstance(methods, str):
            methods = [methods]
        methods = [m for m in methods if m in METHODS] or ['PUT']
    return {'kind': kind, 'name': name, 'methods': methods, 'rep': rep}


def items(*args):
    b = binding(*args)
    return st.lists(st.one_of(
        b, b, st.lists(b, min_size=1, max_size=3)), min_size=1, max_size=3)


@st.composite
def cases(draw):
    ops = []
    names, usual, asked = NAMES, None, MORE + ['OPTIONS', 'get']
    if draw(st.booleans()):
        # much about little: what was looked up changes again and again
        names = draw(st.sampled_from([['show'], ['index', 'show']]))
        usual = draw(st.sampled_from([
            ['GET', 'HEAD'], ['GET', 'HEAD', 'POST'], ['PUT', 'GET']]))
        asked = usual + ['HEAD']
    for _ in range(draw(st.integers(1, 4 if usual else 3))):
        ops.append(('add', draw(items(names, usual))))
        if draw(st.integers(0, 4)) == 0:
            # some of what is there already, once more
            ops.append(('again', draw(st.integers(0, 5))))
        for _ in range(draw(st.integers(1, 3))):
            ops.append(('lookup', draw(st.sampled_from(names)),
                        draw(st.sampled_from(asked)),
                        draw(N.accept_headers())))
    return draw(st.booleans()), N.again(ops)


class App(object):
    debug = False


def realise(b, ident):
    from verktyg.dispatch import Binding
    from verktyg.responses import Response
    from verktyg.views import View, JsonView, ClassView

    def action(app, req, *args, **kw):
        return (ident, app, req, args, tuple(sorted(kw.items())))

    def json_action(app, req, *args, **kw):
        # JsonView renders; hand the marker out through a Response
        r = (Response if ident % 2 else SubResponse)('x')
        r.marker = (ident, app, req, args, tuple(sorted(kw.items())))
        return r

    class SubResponse(Response):
        pass

    kw = N.rep_kwargs(b['rep'])
    m = b['methods']
    if b['kind'] == 'binding':
        if m is None:
            return Binding(b['name'], action, **kw)
        return Binding(b['name'], action, method=m, **kw)
    if b['kind'] in ('view', 'expose'):
        if m is None:
            return View(b['name'], action, **kw)
        return View(b['name'], action, methods=m, **kw)
    if b['kind'] == 'json':
        return JsonView(b['name'], json_action, methods=m,
                        qs=b['rep']['qs'])

    # some of the methods are inherited, others the object's own
    class Parent(ClassView):
        name = 'nobody'

    class V(Parent):
        name = b['name']
    v = V()
    for i, meth in enumerate(m):
        where = (V, v, Parent)[(ident + i) % 3]
        setattr(where, meth, action if where is v else staticmethod(action))
    return v


def methods_of(b):
    m = b['methods']
    if m is None:
        return ['GET']
    return [m] if isinstance(m, str) else list(m)


def check_dispatch(case, t):
    from verktyg.dispatch import Dispatcher
    from verktyg.views import expose
    from verktyg.exceptions import (
        NotImplemented, MethodNotAllowed, NotAcceptable)
    in_ctor, ops = case
    table = {}
    registered = []
    counter = [0]
    d = None

    def note(b):
        ident = counter[0]
        counter[0] += 1
        for m in methods_of(b):
            table.setdefault(b['name'], {}).setdefault(m, []).append(
                (ident, b))
            registered.append((b['name'], m))
        return ident

    added = []

    for op in ops:
        if op[0] == 'again':
            if not added:
                continue
            b, factory = added[op[1] % len(added)]
            t.label('added again')
            ident = next(i for v in table.get(b['name'], {}).values()
                         for i, other in v if other is b) \
                if methods_of(b) else None
            for m in methods_of(b):
                table[b['name']][m].append((ident, b))
                registered.append((b['name'], m))
            d.add_bindings(factory)
            continue
        if op[0] == 'add':
            factories = []
            for item in op[1]:
                if isinstance(item, list):
                    inner = Dispatcher()
                    for b in item:
                        inner.add_bindings(realise(b, note(b)))
                    factories.append(inner)
                else:
                    # note first: the marker is the number it got
                    ident = note(item)
                    factories.append(realise(item, ident))
                    added.append((item, factories[-1]))
            if d is None and in_ctor:
                d = Dispatcher(factories)
            else:
                if d is None:
                    d = Dispatcher()
                d.add_bindings(*factories)
            t.eq(sorted(((b.name, b.method) for b in d.get_bindings()),
                        key=repr),
                 sorted(registered, key=repr), 'get_bindings')
            continue
        _, name, method, accepts = op
        kw = N.header_kwargs(accepts)

        def look():
            # a caller may leave out what it has nothing to say about
            if all(v is None for v in kw.values()):
                t.label('defaults')
                return (d.lookup(name) if method == 'GET'
                        else d.lookup(name, method))
            return d.lookup(name, method, **kw)
        if name not in table:
            t.label('501')
            t.raises(NotImplemented, look)
            continue
        with_name = table[name]
        cands = with_name.get(method)
        if cands is None and method == 'HEAD':
            cands = with_name.get('GET')
            if cands is not None:
                t.label('HEAD as GET')
        if cands is None:
            t.label('405')
            t.nontrivial()
            t.raises(MethodNotAllowed, look)
            continue
        i = N.select([b['rep'] for _, b in cands], accepts)
        if i is None:
            t.label('406')
            t.nontrivial()
            t.raises(NotAcceptable, look)
            continue
        got = look()
        t.label('found')
        if len(cands) > 1:
            t.nontrivial()
            t.label('several candidates')
        app, req = App(), object()
        res = got(app, req, 1, k=2)
        res = getattr(res, 'marker', res)
        t.eq(res[0], cands[i][0], 'binding selected for %r' % (op,))
        t.ok(res[1] is app and res[2] is req, 'wrong application or request')
        t.eq(res[3:], ((1,), (('k', 2),)), 'arguments')
        t.eq(got.name, name, 'name of the binding')
        t.eq(got.method, method if method in with_name else 'GET',
             'method of the binding')


def check_large(case, t):
    """Many names, many methods, many bindings, in many layers."""
    from verktyg.dispatch import Binding, Dispatcher
    from verktyg.views import View
    from verktyg.exceptions import (
        NotImplemented, MethodNotAllowed, NotAcceptable)
    n, k, seed = case
    rng = random.Random(seed)
    names = ['name%d' % i for i in range(rng.choice([1, 1, 5, 40]))]
    methods = ['GET', 'HEAD', 'POST', 'M-SEARCH'] + [
        'M%d' % i for i in range(rng.choice([0, 0, 3, 20]))]
    table = {}
    d = Dispatcher()

    def make(ident):
        def action(app, req):
            return ident
        return action

    total = rng.choice([20, 60, 150])
    while total > 0:
        layer = Dispatcher()
        for i in range(rng.choice([1, 3, 30])):
            total -= 1
            name, rep = rng.choice(names), N.large_rep(rng)
            if rng.random() < .5:
                mine = [rng.choice(methods)]
                b = Binding(name, make(total), method=mine[0],
                            **N.rep_kwargs(rep))
            else:
                mine = rng.sample(methods, rng.randint(1, len(methods)))
                b = View(name, make(total), methods=mine,
                         **N.rep_kwargs(rep))
            for m in mine:
                table.setdefault((name, m), []).append((total, rep))
            layer.add_bindings(b)
        for _ in range(rng.choice([0, 0, 1, 12])):
            layer = Dispatcher([layer])
        d.add_bindings(layer)
        for _ in range(2):
            accepts = N.large_accepts(rng, n) if rng.random() < .7 else {}
            name = rng.choice(names + ['nobody'])
            m = rng.choice(methods + ['HEAD', 'OTHER'])
            kw = N.header_kwargs(accepts)
            cands = table.get((name, m))
            if cands is None and m == 'HEAD':
                cands = table.get((name, 'GET'))
            if not any(x[0] == name for x in table):
                t.raises(NotImplemented, d.lookup, name, m, **kw)
            elif cands is None:
                t.raises(MethodNotAllowed, d.lookup, name, m, **kw)
            else:
                i = N.select([r for _, r in cands], accepts)
                if i is None:
                    t.raises(NotAcceptable, d.lookup, name, m, **kw)
                    t.label('406')
                else:
                    t.eq(d.lookup(name, m, **kw)(None, None), cands[i][0],
                         'one of %d bindings' % len(cands))
                    t.nontrivial(len(cands) > 1)
                    t.label('found')
    t.eq(sorted((b.name, b.method) for b in d.get_bindings()),
         sorted(x for x, v in table.items() for _ in v), 'get_bindings')


SUBS = [
    Sub('large', N.LARGE, check_large, quick=300),
    Sub('dispatch', cases(), check_dispatch, quick=5000),
]
