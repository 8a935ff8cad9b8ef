"""Control over the instants of the interpreter: step budgets, faults injected at chosen
lines, and a deterministic thread scheduler. All of it rides on sys.monitoring events of
the code in /repo/src/wizard, so nothing in /repo has to be changed."""

from __future__ import annotations

import os
import sys
import threading
import time

from . import env

MON = sys.monitoring
TOOL = 4
WIZ = os.path.realpath(os.path.join(env.SRC, "wizard")) + os.sep
GENERATED = WIZ + "antlr4" + os.sep

_kind_cache: dict[str, int] = {}


def kind_of(filename: str) -> int:
    """0: other code, 1: interpreter, 2: generated parser, 3: antlr4 runtime"""
    k = _kind_cache.get(filename)
    if k is None:
        f = os.path.realpath(filename)
        if f.startswith(GENERATED):
            k = 2
        elif f.startswith(WIZ):
            k = 1
        elif (os.sep + "antlr4" + os.sep) in f:
            k = 3
        else:
            k = 0
        _kind_cache[filename] = k
    return k


class Budget:
    """Raises SimStop in the monitored code once it used too many steps. Budgets nest."""

    active: list = []

    def __init__(self, limit: int, cpu: float = 0):
        self.limit = limit
        self.cpu = cpu          # seconds of processor time, for what does much in a step
        self.spent = 0
        self.blown = False

    def __enter__(self):
        if not Budget.active:
            MON.use_tool_id(TOOL + 1, "dst-budget")
            ev = MON.events
            MON.register_callback(TOOL + 1, ev.PY_START, _spend)
            MON.register_callback(TOOL + 1, ev.JUMP, _spend)
            MON.set_events(TOOL + 1, ev.PY_START | ev.JUMP)
            MON.restart_events()
        Budget.active.append(self)
        return self

    def __exit__(self, *exc):
        Budget.active.remove(self)
        if not Budget.active:
            MON.set_events(TOOL + 1, 0)
            MON.free_tool_id(TOOL + 1)
        return False


def _spend(code, *where):
    if kind_of(code.co_filename) == 0:
        return MON.DISABLE
    for b in Budget.active:
        b.spent += 1
        if b.spent > b.limit or (b.cpu and not b.spent & 0x3fff and time.process_time() > b.cpu):
            b.blown = True
            raise env.SimStop("budget")


class Lines:
    """Calls tick(code, line) at every line of the interpreter (and at every function
    start of the generated parser)."""

    def __init__(self, tick, starts=True):
        self.tick = tick
        self.starts = starts
        self.n = 0

    def __enter__(self):
        MON.use_tool_id(TOOL, "dst-lines")
        ev = MON.events
        MON.register_callback(TOOL, ev.LINE, self._line)
        MON.register_callback(TOOL, ev.PY_START, self._start)
        MON.set_events(TOOL, ev.LINE | (ev.PY_START if self.starts else 0))
        MON.restart_events()
        return self

    def __exit__(self, *exc):
        MON.set_events(TOOL, 0)
        MON.free_tool_id(TOOL)
        return False

    def _line(self, code, line):
        # the line events of a resumed generator depend on what ran in the process before
        if kind_of(code.co_filename) != 1 or code.co_flags & 0x20:
            return MON.DISABLE
        self.n += 1
        self.tick(code, line)

    def _start(self, code, off):
        # predicates are evaluated or not depending on what was parsed before
        if kind_of(code.co_filename) != 2 or "sempred" in code.co_name:
            return MON.DISABLE
        self.n += 1
        self.tick(code, 0)


class Watch:
    """Follows one runner: notes the observable state at the start of each step, and
    optionally injects a fault at the n-th line executed in the interpreter.

    fault = [n, exception type, token, where] with where "exec" (only while a context
    executes) or "any"."""

    def __init__(self, runner, fault=None, count_execs=True):
        self.count_execs = count_execs
        self.runner = runner
        self.fault = fault
        self.count = 0       # lines of the interpreter
        self.execs = 0       # ... while a context executes
        self.fired = None
        self.ctx = None
        self.step_snap = None
        self.steps = []
        self.keep = []
        self.lines = Lines(self._tick, starts=(fault is not None and fault[3] == "any"))

    def __enter__(self):
        self.lines.__enter__()
        return self

    def __exit__(self, *exc):
        return self.lines.__exit__(*exc)

    def _tick(self, code, line):
        r = self.runner
        if r.in_env:
            return
        self.count += 1
        try:
            ctx = r.context()
        except AttributeError:
            ctx = None
        if ctx is not self.ctx:
            self.ctx = ctx
            self.keep.append(ctx)
            r.in_env += 1
            try:
                self.step_snap = None if ctx is None else env.snap_state(ctx.state)
            finally:
                r.in_env -= 1
            self.steps.append(self.step_snap)
        f = self.fault
        if f is None:
            if self.count_execs and self._executing():
                self.execs += 1
            return
        if self.fired is not None:
            return
        if f[3] == "exec":
            if not self._executing():
                return
            self.execs += 1
            if self.execs < f[0]:
                return
        elif self.count < f[0]:
            return
        self.fired = [code.co_name, line, self.step_snap]
        raise env.make_exc(f[1], f[2])

    def _executing(self):
        fr = sys._getframe(2)
        while fr is not None:
            c = fr.f_code
            if c.co_name == "exec" and kind_of(c.co_filename) == 1:
                return True
            fr = fr.f_back
        return False


class Threads:
    """Runs callables in threads of which exactly one proceeds at a time. `switches` is
    a list of [n, t]: after n lines of the interpreter, thread t (mod runnable)
    proceeds. After its end the threads run to completion in order."""

    def __init__(self, tasks, switches):
        self.tasks = tasks
        self.switches = [list(s) for s in switches]
        self.sem = [threading.Semaphore(0) for _ in tasks]
        self.done = [False] * len(tasks)
        self.results = [None] * len(tasks)
        self.errors = [None] * len(tasks)
        self.current = 0
        self.pos = 0
        self.left = self.switches[0][0] if self.switches else -1
        self.events = 0
        self.taken = 0
        self.finished = threading.Event()
        self.ids = {}
        self.stalls = 0
        self.trace = []

    def _tick(self, code, line):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        self.events += 1
        if self.left < 0 or me != self.current:
            return
        self.left -= 1
        while self.left <= 0 and self.pos < len(self.switches):
            t = self.switches[self.pos][1]
            self.pos += 1
            self.left = self.switches[self.pos][0] if self.pos < len(self.switches) else -1
            live = [i for i in range(len(self.tasks)) if not self.done[i]]
            nxt = live[t % len(live)]
            if nxt != me:
                self.taken += 1
                if len(self.trace) < 200:
                    self.trace.append([self.events, me, nxt, code.co_name, line])
                self.current = nxt
                self.sem[nxt].release()
                self.sem[me].acquire()
                return

    def _body(self, i):
        self.ids[threading.get_ident()] = i
        self.sem[i].acquire()
        try:
            self.results[i] = self.tasks[i]()
        except BaseException as e:  # noqa: BLE001
            self.errors[i] = e
        self.done[i] = True
        live = [k for k in range(len(self.tasks)) if not self.done[k]]
        if live:
            self.current = live[0]
            self.sem[live[0]].release()
        else:
            self.finished.set()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.tasks))]
        with Lines(self._tick):
            for t in ths:
                t.start()
            self.sem[0].release()
            last = -1
            while not self.finished.wait(2.0):
                # the thread whose turn it is may wait for a lock of one that is
                # parked: let another one proceed
                if self.events == last:
                    live = [k for k in range(len(self.tasks)) if not self.done[k]]
                    if len(live) > 1:
                        self.stalls += 1
                        cur = self.current
                        nxt = live[(live.index(cur) + 1) % len(live)] if cur in live else live[0]
                        self.current = nxt
                        self.sem[nxt].release()
                last = self.events
            for t in ths:
                t.join()
        for e in self.errors:
            if e is not None:
                raise e
        return self.results
