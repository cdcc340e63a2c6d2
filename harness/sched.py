"""Runs functions in threads under a generated, repeatable schedule.

Threads pass a baton: only the one that holds it runs.  Every line executed in
the code under test is a step, and the schedule says after which steps the
baton goes to which thread.  Nothing depends on timing, except that a thread
which does not step for a while although it has the baton (it waits for a lock
held by one that was suspended) gives it up, so that code using locks is run
correctly too.

Steps right after a line that may have changed something others can see (it
stores into an attribute, an item or a global, or calls a method that changes
a container) are recorded: schedules that switch there find more.  That only
guides the search, what counts is what the threads return.
"""
import dis
import sys
import threading

from harness import core

STALL = 0.25
STORES = ('STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'STORE_SLICE',
          'STORE_DEREF', 'DELETE_ATTR', 'DELETE_SUBSCR', 'DELETE_GLOBAL')
CHANGES = ('append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear',
           'add', 'discard', 'update', 'setdefault', 'sort', 'reverse',
           '__setitem__', '__setattr__', 'set', 'read', 'write', 'seek')
_stores = {}


def stores(code):
    """the lines of a code object that may change something"""
    lines = _stores.get(code)
    if lines is None:
        lines = set()
        line = None
        for i in dis.get_instructions(code):
            line = i.starts_line if i.starts_line is not None else line
            if i.opname in STORES or (
                    i.opname in ('LOAD_ATTR', 'LOAD_METHOD') and
                    i.argval in CHANGES):
                lines.add(i.positions.lineno or line)
        _stores[code] = lines
    return lines


class Scheduler(object):
    def __init__(self, funcs, switches):
        """switches: list of (step, k): before step number `step` hand over to
        the k-th of the other threads that are not done"""
        self.funcs = funcs
        self.switches = sorted(switches)
        self.mutex = threading.Lock()
        self.gates = [threading.Semaphore(0) for _ in funcs]
        self.done = [False] * len(funcs)
        self.results = [None] * len(funcs)
        self.current = 0
        self.steps = 0
        self.taken = 0
        self.finished = threading.Event()
        self.waiting = [True] * len(funcs)
        self.abort = False
        self.pending = None
        self.points = []

    def pick(self, k):
        others = [i for i in range(len(self.funcs))
                  if i != self.current and not self.done[i]]
        return others[k % len(others)] if others else None

    def hand_over(self, to):
        # with the mutex held
        self.current = to
        if self.waiting[to]:
            self.waiting[to] = False
            self.gates[to].release()

    def step(self, me):
        while True:
            with self.mutex:
                if self.abort:
                    return
                if self.current == me:
                    self.steps += 1
                    if not self.switches or \
                            self.switches[0][0] > self.steps:
                        return
                    _, k = self.switches.pop(0)
                    to = self.pick(k)
                    if to is None:
                        return
                    self.taken += 1
                    self.hand_over(to)
                self.waiting[me] = True
            self.gates[me].acquire()
            with self.mutex:
                if self.current == me or self.abort:
                    return

    def body(self, me):
        self.gates[me].acquire()
        prefix = core.REPO + '/'

        def trace(frame, event, arg):
            code = frame.f_code
            if not code.co_filename.startswith(prefix):
                return None
            changing = stores(code)
            prev = None

            def local(frame, event, arg):
                nonlocal prev
                if event == 'line':
                    after = prev or self.pending
                    if after is not None and self.current == me:
                        self.points.append((self.steps + 1, after))
                    self.pending = None
                    prev = (code, frame.f_lineno) \
                        if frame.f_lineno in changing else None
                    self.step(me)
                elif event == 'return' and prev is not None:
                    self.pending = prev
                return local
            return local
        sys.settrace(trace)
        try:
            try:
                self.results[me] = ('returned', self.funcs[me]())
            finally:
                sys.settrace(None)
        except Exception as e:
            self.results[me] = (
                'raised', core.describe_exception(e), e)
        with self.mutex:
            self.done[me] = True
            if all(self.done):
                self.finished.set()
            elif self.current == me:
                self.hand_over(self.pick(0))

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True)
                   for i in range(len(self.funcs))]
        for t in threads:
            t.start()
        with self.mutex:
            self.hand_over(0)
        seen = None
        stalls = 0
        try:
            while not self.finished.wait(STALL):
                with self.mutex:
                    now = (self.steps, self.current)
                    if now == seen:
                        to = self.pick(stalls)
                        stalls += 1
                        if stalls > 200:
                            raise core.Violation(
                                'deadlock: none of the requests goes on')
                        if to is not None:
                            self.hand_over(to)
                    seen = now
        except BaseException:
            self.abort = True
            for g in self.gates:
                g.release()
                g.release()
            raise
        for t in threads:
            t.join()
        return self.results


def run(funcs, switches):
    """-> (results, steps, switches taken, steps after changes)"""
    s = Scheduler(funcs, switches)
    r = s.run()
    seen = {}
    points = []
    for step, where in s.points:
        seen[where] = seen.get(where, 0) + 1
        if seen[where] == 1:
            points.append(step)
    return r, s.steps, s.taken, points
