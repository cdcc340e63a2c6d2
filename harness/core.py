"""Shared machinery: generated-case execution, shrinking, replay, evidence.

A property is a module in harness.props with

    ID    property id
    RULE  text: how cases are made and what makes one non-trivial
    SUBS  list of Sub

A Sub is one generated check: a Hypothesis strategy producing *plain literal
data* (so that a shrunk case can be written down with repr() and replayed
without Hypothesis) and a function check(case, t) that drives the code from
/repo through its public interface and compares what it did with an oracle.
"""
import hashlib
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CPU_LIMIT = 15.0          # CPU seconds for one case (typical: milliseconds)
SHRINK_SECONDS = 40


class Violation(AssertionError):
    """The code under test did something the property forbids."""


class NonTermination(Violation):
    pass


class Deadline(BaseException):
    """The time for this run is used up."""


class Skip(Exception):
    """Case lies outside of the property's domain."""


class T(object):
    """Per case recorder handed to check functions."""
    __slots__ = ('labels', 'nt')

    def __init__(self):
        self.labels = set()
        self.nt = False

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def fail(self, fmt, *args):
        raise Violation(fmt % args if args else fmt)

    def eq(self, got, want, what=''):
        if got != want or (
            type(got) is bool) != (type(want) is bool
        ):
            raise Violation('%s: got %r, expected %r' % (what, got, want))

    def ok(self, cond, fmt, *args):
        if not cond:
            raise Violation(fmt % args if args else fmt)

    def raises(self, exc, func, *args, **kw):
        """func(*args) must raise exc; returns the exception."""
        try:
            res = func(*args, **kw)
        except exc as e:
            return e
        raise Violation('%s%r returned %r instead of raising %r' % (
            getattr(func, '__name__', func), args, res, exc))

    def only_raises(self, excs, func, *args, **kw):
        """returns (True, value) or (False, exception)"""
        try:
            return True, func(*args, **kw)
        except excs as e:
            return False, e


class Sub(object):
    def __init__(self, name, strategy, check, quick=400, thorough=None,
                 examples=()):
        self.name = name
        self.strategy = strategy
        self.check = check
        # counts are written down for a run of some seconds
        self.quick = quick * 5 // 2
        self.thorough = thorough or quick * 40
        self.examples = list(examples)


def describe_exception(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if f.filename.startswith(REPO + os.sep)]
    loc = ''
    if where:
        f = where[-1]
        loc = ' at %s:%s in %s' % (
            os.path.relpath(f.filename, REPO), f.lineno, f.name)
    return '%s: %s%s' % (type(e).__name__, str(e)[:300], loc)


HARNESS_ERRORS = (ImportError, NameError, SyntaxError, OSError)


def touches_repo(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def _on_alarm(signum, frame):
    raise NonTermination(
        'one case used more than %s s of CPU time' % CPU_LIMIT)


def run_case(sub, case, limit=CPU_LIMIT):
    """Runs one case.  Returns T.  Raises Violation or a harness error."""
    t = T()
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        try:
            sub.check(case, t)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except (Violation, Skip):
        raise
    except HARNESS_ERRORS as e:
        if touches_repo(e):
            raise Violation('unexpected ' + describe_exception(e)) from e
        raise
    except Exception as e:
        # The check functions use the results of the code under test; on the
        # unchanged tree they never raise, so an exception here means the code
        # raised, or returned something of a kind the property rules out.
        raise Violation('unexpected ' + describe_exception(e)) from e
    return t


def limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def run_shard(args):
    """Runs one shard of one sub check in this process."""
    sub, seed, count, deadline, keep = args
    if time.monotonic() > deadline:
        return {
            'sub': sub.name, 'evaluations': 0, 'skipped': count, 'outside': 0,
            'nontrivial': set(), 'labels': {}, 'samples': [],
            'violation': None, 'error': None,
        }
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings, given
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    limit_memory()

    res = {
        'sub': sub.name, 'evaluations': 0, 'skipped': 0, 'outside': 0,
        'nontrivial': set(), 'labels': {}, 'samples': [],
        'violation': None, 'error': None,
    }
    state = {'fail': None, 'stop': False, 'first': None, 'history': []}

    def one(case):
        if state['stop']:
            return
        if state['fail'] is None and time.monotonic() > deadline:
            raise Deadline
        counting = state['fail'] is None
        if counting:
            res['evaluations'] += 1
            state['history'].append(case)
            if len(state['history']) > 100:
                del state['history'][0]
        try:
            t = run_case(sub, case)
        except Skip:
            res['outside'] += 1
            return
        except Violation as e:
            if state['first'] is None:
                state['first'] = (case, str(e), list(state['history'][:-1]))
            state['fail'] = (case, str(e))
            if isinstance(e, NonTermination):
                state['stop'] = True
            raise
        if counting:
            for l in t.labels:
                res['labels'][l] = res['labels'].get(l, 0) + 1
            if t.nt:
                h = hashlib.blake2b(
                    repr(case).encode('utf-8', 'surrogatepass'),
                    digest_size=8
                ).digest()
                if h not in res['nontrivial']:
                    res['nontrivial'].add(h)
                    n = len(res['nontrivial'])
                    if n <= keep or n in (50, 200, 800):
                        r = repr(case)
                        if len(r) <= 1500:
                            res['samples'].append(r)

    try:
        for case in sub.examples:
            one(case)
        test = settings(
            max_examples=count, database=None, deadline=None,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False, print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )(hypothesis.seed(seed)(given(sub.strategy)(one)))
        test()
    except Violation:
        pass
    except Deadline:
        res['skipped'] = max(0, count - res['evaluations'])
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if state['fail'] is None:
            res['error'] = ''.join(traceback.format_exception(e))[-3000:]
    if state['fail'] is not None:
        case, msg = state['fail']
        history = None
        # does the shrunk case reproduce on its own?
        try:
            run_case(sub, case)
            reproduces = False
        except Violation as e:
            reproduces = True
            msg = str(e)
        except Exception:
            reproduces = False
        if not reproduces:
            # depends on what ran before: keep the history
            case, msg, history = state['first']
        res['violation'] = {
            'sub': sub.name, 'case': case, 'message': msg,
            'history': history,
        }
    return res


def run_shards(jobs, procs):
    if procs <= 1 or len(jobs) == 1:
        return [_shard_entry(j) for j in range(len(jobs))]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        return pool.map(_shard_entry, range(len(jobs)), chunksize=1)


JOBS = []


def _shard_entry(i):
    return run_shard(JOBS[i])
