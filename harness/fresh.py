"""What a parser returns belongs to its caller: parsing the same thing again,
after the first result was scribbled over, gives an equal result."""
from harness.core import Violation


def picture(x, depth=0):
    """A copy of the contents of x that does not change along with it."""
    if depth > 6:
        return '...'
    if isinstance(x, (tuple, list)):
        return [type(x).__name__] + [picture(y, depth + 1) for y in x]
    if isinstance(x, (set, frozenset)):
        return [type(x).__name__] + sorted(map(repr, x))
    if isinstance(x, dict):
        try:
            items = list(x.items(multi=True))
        except TypeError:
            items = list(x.items())
        return [type(x).__name__] + sorted(
            (repr(k), repr(picture(v, depth + 1))) for k, v in items)
    if hasattr(x, '__dict__') and not callable(x):
        res = [type(x).__name__] + sorted(
            (k, repr(picture(v, depth + 1))) for k, v in vars(x).items()
            if not callable(v))
        try:
            return res + list(map(repr, x))
        except TypeError:
            return res
    return repr(x)


def scribble(x, depth=0):
    """Changes x in all the ways its type allows."""
    if depth > 6:
        return
    if isinstance(x, (tuple, list)):
        for y in x:
            scribble(y, depth + 1)
    elif isinstance(x, dict):
        for y in list(x.values()):
            scribble(y, depth + 1)
    for change in (
        lambda: x.pop(next(iter(x))),
        lambda: x.append('scribble'),
        lambda: x.__setitem__('scribble', 'scribble'),
        lambda: x.add('scribble'),
        lambda: x.reverse(),
    ):
        try:
            change()
        except Exception:
            pass
    for name, value in list(getattr(x, '__dict__', {}).items()):
        if not name.startswith('_') and not callable(value):
            scribble(value, depth + 1)
            try:
                setattr(x, name, 'scribble')
            except Exception:
                pass


def attempt(func, args, kw):
    try:
        return func(*args, **kw)
    except Exception as e:
        return 'raised ' + type(e).__name__


def fresh(func, *args, **kw):
    """func(*args, **kw), called twice."""
    first = attempt(func, args, kw)
    before = picture(first)
    scribble(first)
    again = func(*args, **kw)
    if picture(again) != before:
        raise Violation('%s%r a second time: %r, the first time: %r' % (
            getattr(func, '__name__', func), args, picture(again), before))
    return again
