"""
Deterministic scheduler for real Python threads.

Exactly one simulated thread runs at a time; at every scheduling point (a line, or a bytecode in
"fine" runs, of the code in scope; a lock operation; a wait) the seeded strategy decides who runs
next.  The only real synchronisation objects are one private `_thread` lock per simulated thread.
"""
from __future__ import annotations

import _thread
import sys
import threading
import time
import types

MON = sys.monitoring
EV = MON.events
TOOL = 4

REAL_LOCK = _thread.allocate_lock
REAL_RLOCK = threading.RLock

SIM: "Sim | None" = None
RNGVAL = [0]  # what the library's random number source returns in this run


class HarnessError(BaseException):
    """The simulator itself is in an impossible state."""


# ---------------------------------------------------------------------------------------------
# code in scope

SCOPE_PREFIXES: list[str] = []  # filenames whose code is scheduled / faulted
GEN_FILENAMES = {"<string>"}  # code generated by pyserde (and by dataclasses) through exec
WORKLOAD_PREFIX = "<wl:"


def in_scope(code: types.CodeType) -> bool:
    fn = code.co_filename
    if fn in GEN_FILENAMES or fn.startswith(WORKLOAD_PREFIX):
        return True
    for p in SCOPE_PREFIXES:
        if fn.startswith(p):
            return True
    return False


def frame_in_scope(frame) -> bool:
    """in_scope, minus code that third parties generate with exec under the same file name."""
    if frame.f_code.co_filename in GEN_FILENAMES:
        name = frame.f_globals.get("__name__")
        return not isinstance(name, str) or name in WORKLOAD_MODULES or name.split(".")[0] in ("serde", "builtins")
    return in_scope(frame.f_code)


WORKLOAD_MODULES: set[str] = set()


def origin(code: types.CodeType) -> str:
    fn = code.co_filename
    if fn in GEN_FILENAMES:
        return "gen"
    if fn.startswith(WORKLOAD_PREFIX):
        return "user"
    return "serde"


# ---------------------------------------------------------------------------------------------
# locks


class SimLock:
    """threading.Lock as seen by code in scope."""

    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        s = SIM
        tid = s.cur() if s is not None else None
        return ("t", tid) if tid is not None else ("x", _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        s = SIM
        tid = s.cur() if s is not None else None
        me = self._me()
        if tid is not None:
            s.sync("acquire")
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        if tid is None:
            if self._owner is not None:
                if not blocking:
                    return False
                # nobody else can run now: a self-deadlock outside of a simulated run
                raise HarnessError("lock held outside of a simulated run")
        else:
            deadline = None
            if timeout is not None and timeout >= 0:
                deadline = s.now + timeout
            while self._owner is not None:
                if not blocking:
                    return False
                if deadline is not None and s.now >= deadline:
                    return False
                s.block(tid, self, deadline)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        s = SIM
        tid = s.cur() if s is not None else None
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant:
            if self._owner != self._me():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._count = 0
        if s is not None:
            s.wake(self)
            if tid is not None:
                s.sync("release")

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == self._me()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st


_THREADING_MODULES = {"threading", "queue", "concurrent.futures.thread", "concurrent.futures._base"}


def _caller_in_scope() -> bool:
    f = sys._getframe(2)
    while f is not None and f.f_globals.get("__name__") in _THREADING_MODULES:
        f = f.f_back
    return f is not None and in_scope(f.f_code)


def _lock_factory(*a, **k):
    return SimLock() if _caller_in_scope() else REAL_LOCK(*a, **k)


def _rlock_factory(*a, **k):
    return SimRLock() if _caller_in_scope() else REAL_RLOCK(*a, **k)


def install_lock_seam():
    threading.Lock = _lock_factory
    threading._allocate_lock = _lock_factory
    threading.RLock = _rlock_factory


# ---------------------------------------------------------------------------------------------
# strategies


class Strategy:
    name = "base"

    def start(self, sim):
        pass

    def choose(self, sim, tid, code, where):
        return tid

    def pick(self, sim, ready):
        """Forced choice: the running thread blocked or finished."""
        return ready[0]


CPU_TIME = time.process_time
LIGHT_CPU = 40.0  # seconds, for runs that take a fraction of one


class Solo(Strategy):
    name = "solo"


class RandomGap(Strategy):
    name = "random"

    def __init__(self, rng):
        self.rng = rng
        self.p = 1.0 / rng.choice([2, 4, 10, 30, 100, 300, 1000])

    def choose(self, sim, tid, code, where):
        if self.rng.random() < self.p:
            r = sim.ready_others(tid)
            if r:
                return self.rng.choice(r)
        return tid

    def pick(self, sim, ready):
        return self.rng.choice(ready)


class PCT(Strategy):
    name = "pct"

    def __init__(self, rng, length):
        self.rng = rng
        self.length = max(10, length)
        self.d = rng.choice([1, 1, 2, 2, 3, 4, 6])

    def start(self, sim):
        n = sim.n
        prio = list(range(100, 100 + n))
        self.rng.shuffle(prio)
        self.prio = prio
        self.changes = {}
        for i in range(self.d):
            self.changes[self.rng.randrange(1, self.length)] = i

    def choose(self, sim, tid, code, where):
        c = self.changes.get(sim.step)
        if c is not None:
            self.prio[tid] = 50 - c
        best = tid
        for t in sim.ready_list:
            if self.prio[t] > self.prio[best]:
                best = t
        return best

    def pick(self, sim, ready):
        return max(ready, key=lambda t: self.prio[t])


class Swarm(Strategy):
    """Switch only at a random subset of code sites; half the time when they are hit."""

    name = "swarm"

    def __init__(self, rng):
        self.rng = rng
        self.frac = rng.choice([0.01, 0.03, 0.1, 0.3])
        self.sites = {}

    def choose(self, sim, tid, code, where):
        k = (code.co_qualname, where) if code is not None else ("sync", where)
        on = self.sites.get(k)
        if on is None:
            on = self.sites[k] = self.rng.random() < self.frac
        if on and self.rng.random() < 0.5:
            r = sim.ready_others(tid)
            if r:
                return self.rng.choice(r)
        return tid

    def pick(self, sim, ready):
        return self.rng.choice(ready)


class OneShot(Strategy):
    """Run one thread up to a chosen step, then the others to completion, then resume it."""

    name = "oneshot"

    def __init__(self, rng, length, n):
        self.rng = rng
        self.first = rng.randrange(n)
        self.at = rng.randrange(1, max(2, length // max(1, n)))
        self.done = False

    def start(self, sim):
        pass

    def choose(self, sim, tid, code, where):
        if not self.done and tid == self.first and sim.lstep[tid] >= self.at:
            self.done = True
            r = sim.ready_others(tid)
            if r:
                return self.rng.choice(r)
        return tid

    def pick(self, sim, ready):
        if not self.done and self.first in ready:
            return self.first
        others = [t for t in ready if t != self.first]
        return self.rng.choice(others) if others else ready[0]


class Replay(Strategy):
    name = "replay"

    def __init__(self, switches, forced):
        self.sw = {(a, b): c for a, b, c in switches}
        self.fo = {(a, b): c for a, b, c in forced}

    def choose(self, sim, tid, code, where):
        nxt = self.sw.get((tid, sim.lstep[tid]))
        if nxt is not None and nxt != tid and sim.state[nxt] == "ready":
            return nxt
        return tid

    def pick(self, sim, ready):
        t = self.fo.get(sim.forced_key)
        return t if t in ready else ready[0]


STORES = {"STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "STORE_DEREF", "STORE_SLICE", "DELETE_ATTR", "DELETE_SUBSCR",
          "DELETE_GLOBAL"}
MUTATORS = {"append", "add", "pop", "update", "setdefault", "clear", "remove", "discard", "extend", "insert", "popitem",
            "appendleft", "popleft", "rotate", "reverse", "sort", "move_to_end", "cache_clear", "set", "reset", "__setitem__",
            "setattr", "delattr", "__setattr__", "__enter__", "__exit__", "acquire", "release"}
_STORE_SITES: dict[int, tuple] = {}


def stores(code, fine):
    """Lines (offsets) of code that may write to something shared."""
    k = _STORE_SITES.get(id(code))
    if k is None:
        lines, offs = set(), set()
        line = None
        import dis

        for i in dis.get_instructions(code):
            if i.starts_line is not None:
                line = i.starts_line if i.starts_line is not True else i.positions.lineno
            if i.opname in STORES or (i.opname in ("LOAD_ATTR", "LOAD_METHOD", "LOAD_GLOBAL", "LOAD_NAME") and i.argval in MUTATORS):
                lines.add(line)
                offs.add(i.offset)
        k = _STORE_SITES[id(code)] = (code, lines, offs)
    return k[2] if fine else k[1]


class Recorder(Strategy):
    """Alone, noting the code sites passed: key -> [times, may store]."""

    name = "solo"

    def __init__(self):
        self.sites = {}

    def choose(self, sim, tid, code, where):
        if code is not None:
            k = (code.co_qualname, where)
            s = self.sites.get(k)
            if s is None:
                self.sites[k] = [1, where in stores(code, sim.fine)]
            else:
                s[0] += 1
        return tid


class Counting(Strategy):
    """Alone, marking the fault points that follow a store to something shared."""

    name = "solo"

    def choose(self, sim, tid, code, where):
        if code is not None and where in stores(code, sim.fine):
            sim.hot = 3
        return tid


def executes(frame, line):
    """Is this frame (of the current thread) still at that line?"""
    f = sys._getframe(1)
    while f is not None:
        if f is frame:
            return f.f_lineno == line
        f = f.f_back
    return False


class Site(Strategy):
    """Preempt whoever comes to a chosen code site first, just before or just after it; prefers sites that store."""

    name = "site"

    def __init__(self, rng, sites):
        self.rng = rng
        every, st = {}, {}
        for k in sorted(sites):
            every.setdefault(k[0], []).append(k)
            if sites[k][1]:
                st.setdefault(k[0], []).append(k)
        self.todo = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            by = st if st and rng.random() < 0.75 else every
            k = rng.choice(by[rng.choice(list(by))])
            n = 1 if rng.random() < 0.6 else rng.randrange(1, sites[k][0] + 1)
            self.todo.append([k, n, rng.random() < 0.6])
        self.todo.reverse()
        self.there = {}  # thread -> frame that executes the chosen line

    def choose(self, sim, tid, code, where):
        if not self.todo or code is None:
            return tid
        k, n, after = t = self.todo[-1]
        hit = False
        if after:
            fr = self.there.get(tid)
            if fr is not None and not (not sim.fine and executes(fr, k[1])):
                self.there[tid] = None
                hit = True
            if (code.co_qualname, where) == k and self.there.get(tid) is None:
                f = sys._getframe(1)
                while f is not None and f.f_code is not code:
                    f = f.f_back
                self.there[tid] = f
        else:
            hit = (code.co_qualname, where) == k
        if hit:
            t[1] -= 1
            if t[1] <= 0:
                r = sim.ready_others(tid)
                if r:
                    self.todo.pop()
                    self.there.clear()
                    return self.rng.choice(r)
        return tid

    def pick(self, sim, ready):
        return self.rng.choice(ready)


def make_strategy(desc, rng, length, n, sites=None):
    """desc: {"kind":...} ; rng: random.Random of the schedule seed; sites: from Recorder."""
    k = desc["kind"]
    if k == "site" and n > 1:
        return Site(rng, sites) if sites else OneShot(rng, length, n)
    if k == "solo" or n == 1:
        return Solo()
    if k == "replay":
        return Replay(desc["switches"], desc["forced"])
    if k == "random":
        return RandomGap(rng)
    if k == "pct":
        return PCT(rng, length)
    if k == "swarm":
        return Swarm(rng)
    if k == "oneshot":
        return OneShot(rng, length, n)
    raise HarnessError(f"unknown strategy {k}")


# ---------------------------------------------------------------------------------------------
# the simulator


class Fault:
    """
    Raise `exc` in thread `tid` at the `at`-th fault point of its operation number `op`.
    kinds: "start" (function entry: signals, exhausted stack), "after" (loop jump, return from a C
    call: where else CPython delivers signals), "call" (in place of a C call: failing allocation).
    """

    def __init__(self, tid, at, make, kinds=("start", "after"), op=0):
        self.tid = tid
        self.op = op
        self.at = at
        self.make = make
        self.kinds = kinds
        self.count = 0
        self.fired = None
        self.exc = None


class Sim:
    def __init__(self, n, strategy, *, step_limit=3_000_000, fine=False, observer=None):
        self.n = n
        self.strategy = strategy
        self.fine = fine
        self.step_limit = step_limit
        self.observer = observer
        self.state = ["ready"] * n
        self.blocked_on = [None] * n
        self.deadline = [None] * n
        self.ready_list = list(range(n))
        self.sem = []
        for _ in range(n):
            l = REAL_LOCK()
            l.acquire()
            self.sem.append(l)
        self.main = REAL_LOCK()
        self.main.acquire()
        self.tids = {}
        self.masked = [0] * n
        self.step = 0
        self.now = 0.0
        self.lstep = [0] * n
        self.forced_n = [0] * n
        self.forced_key = None
        self.switches = []
        self.forced = []
        self.trace = []  # (tid, site) at each switch
        self.current = None
        self.verdict = None  # None | "deadlock" | "livelock" | "harness"
        self.detail = None
        self.faults = []
        self.armed = [None] * n
        self.fault_sites = None  # list to record sites when counting
        self.light = False
        self.hot = 0  # fault points to come that are close to a store
        self.errors = []

    # -- identity -----------------------------------------------------------------------------
    def cur(self):
        return self.tids.get(_thread.get_ident())

    def ready_others(self, tid):
        return [t for t in self.ready_list if t != tid]

    # -- scheduling points --------------------------------------------------------------------
    def on_line(self, code, where):
        tid = self.tids.get(_thread.get_ident())
        if tid is None or self.masked[tid]:
            return
        self.point(tid, code, where)

    def point(self, tid, code, where):
        self.step += 1
        self.lstep[tid] += 1
        if self.observer is not None:
            self.masked[tid] += 1
            try:
                self.observer(self, tid, code, where)
            finally:
                self.masked[tid] -= 1
        if self.step > self.step_limit:
            self.stop("livelock", f"step limit {self.step_limit} reached")
        nxt = self.strategy.choose(self, tid, code, where)
        if nxt != tid:
            self.switches.append((tid, self.lstep[tid], nxt))
            self.trace.append((tid, code.co_qualname if code is not None else "sync", where))
            self.transfer(tid, nxt)

    def sync(self, what):
        tid = self.cur()
        if tid is None or self.masked[tid]:
            return
        self.point(tid, None, what)

    def transfer(self, tid, nxt):
        self.current = nxt
        self.sem[nxt].release()
        self.sem[tid].acquire()

    # -- blocking -----------------------------------------------------------------------------
    def block(self, tid, on, deadline=None):
        if self.masked[tid]:
            # masked sections (harness code) must never block on a simulated object
            self.stop("harness", f"thread {tid} blocks on {type(on).__name__} in a harness section")
        self.state[tid] = "blocked"
        self.blocked_on[tid] = on
        self.deadline[tid] = deadline
        self.ready_list = [t for t in range(self.n) if self.state[t] == "ready"]
        nxt = self.pick_next(tid)
        if nxt is None:
            self.stop("deadlock", self.describe_blocked())
        if nxt != tid:
            self.transfer(tid, nxt)

    def wake(self, on):
        for t in range(self.n):
            if self.state[t] == "blocked" and self.blocked_on[t] is on:
                self._ready(t)

    def _ready(self, t):
        self.state[t] = "ready"
        self.blocked_on[t] = None
        self.deadline[t] = None
        self.ready_list = [u for u in range(self.n) if self.state[u] == "ready"]

    def pick_next(self, tid):
        ready = self.ready_list
        if not ready:
            timed = [
                (self.deadline[t], t)
                for t in range(self.n)
                if self.state[t] == "blocked" and self.deadline[t] is not None
            ]
            if not timed:
                return None
            d, t = min(timed)
            self.now = max(self.now, d)
            self._ready(t)
            ready = self.ready_list
        self.forced_n[tid] += 1
        self.forced_key = (tid, self.forced_n[tid])
        nxt = self.strategy.pick(self, ready)
        self.forced.append((tid, self.forced_n[tid], nxt))
        self.trace.append((tid, "forced", nxt))
        return nxt

    def describe_blocked(self):
        out = []
        for t in range(self.n):
            if self.state[t] == "blocked":
                o = self.blocked_on[t]
                out.append(f"t{t} waits for {getattr(o, 'name', type(o).__name__)}")
        return "; ".join(out)

    def stop(self, verdict, detail):
        """End the run; the calling thread never continues."""
        self.verdict = verdict
        self.detail = detail
        self.main.release()
        REAL_LOCK_FOREVER = REAL_LOCK()
        REAL_LOCK_FOREVER.acquire()
        REAL_LOCK_FOREVER.acquire()

    # -- faults -------------------------------------------------------------------------------
    def fault_point(self, code, where, kind):
        tid = self.tids.get(_thread.get_ident())
        if tid is None or self.masked[tid]:
            return
        f = self.armed[tid]
        if f is None or f.fired is not None or kind not in f.kinds:
            return
        f.count += 1
        if self.fault_sites is not None:
            self.hot -= 1
            self.fault_sites.append((code.co_qualname, where, kind, origin(code), self.hot >= 0))
        if f.count == f.at:
            f.fired = (code.co_qualname, line_of(code, where), kind, origin(code))
            f.exc = f.make()
            raise f.exc

    def arm(self, tid, op):
        if self.light and all(f.op < op for f in self.faults):
            self.uninstall()  # nothing more to watch
        for f in self.faults:
            if f.tid == tid and f.op == op:
                self.armed[tid] = f

    def disarm(self, tid):
        self.armed[tid] = None

    # -- running ------------------------------------------------------------------------------
    def run(self, bodies, prepare=None):
        """bodies: one callable per thread.  Returns when all are done or the run is stopped."""
        global SIM
        SIM = self
        started = []

        def entry(tid, body):
            self.tids[_thread.get_ident()] = tid
            self.sem[tid].acquire()
            try:
                body()
            except BaseException as e:  # noqa: B902  harness bug: ops catch everything
                import traceback

                self.masked[tid] += 1
                self.errors.append("".join(traceback.format_exception(e)))
            self.masked[tid] += 1
            self.state[tid] = "done"
            self.ready_list = [t for t in range(self.n) if self.state[t] == "ready"]
            for t in range(self.n):
                o = self.blocked_on[t]
                if self.state[t] == "blocked" and isinstance(o, DoneOf) and o.tid == tid:
                    self._ready(t)
            nxt = self.pick_next(tid)
            if nxt is None:
                if any(s == "blocked" for s in self.state):
                    self.verdict = "deadlock"
                    self.detail = self.describe_blocked()
                self.main.release()
                return
            self.current = nxt
            self.sem[nxt].release()

        old_size = threading.stack_size(64 * 1024 * 1024)
        for i, b in enumerate(bodies):
            t = threading.Thread(target=entry, args=(i, b), daemon=True, name=f"sim{i}")
            t.start()
            started.append(t)
        threading.stack_size(old_size)
        self.strategy.start(self)
        self.install()
        try:
            self.forced_key = ("m", 0)
            first = self.strategy.pick(self, self.ready_list) if self.n > 1 else 0
            self.forced.append(("m", 0, first))
            self.current = first
            self.sem[first].release()
            if self.light:
                self.wait_unwatched()
            else:
                self.main.acquire()
        finally:
            self.uninstall()
            SIM = None
        if self.errors:
            raise HarnessError(self.errors[0])

    def wait_unwatched(self):
        """No steps are counted: bound the processor time instead."""

        start = CPU_TIME()
        while not self.main.acquire(timeout=0.5):
            if CPU_TIME() - start > LIGHT_CPU:
                self.verdict = "livelock"
                self.detail = f"more than {LIGHT_CPU} s of processor time"
                return

    # -- monitoring ---------------------------------------------------------------------------
    def install(self):
        # (one thread that nobody watches needs no scheduling points)
        self.light = self.n == 1 and type(self.strategy) is Solo and self.observer is None
        if self.light and not self.faults:
            return
        local = 0 if self.light else EV.INSTRUCTION if self.fine else EV.LINE
        kinds = {k for f in self.faults for k in f.kinds}
        if "after" in kinds:
            local |= EV.JUMP | EV.CALL
        if "call" in kinds:
            local |= EV.CALL
        start = "start" in kinds
        self.local = local

        def py_start(code, off):
            if not frame_in_scope(sys._getframe(1)):
                return MON.DISABLE
            if MON.get_local_events(TOOL, code) != local:
                MON.set_local_events(TOOL, code, local)
            if start:
                self.fault_point(code, off, "start")
                return None
            return MON.DISABLE

        def jump(code, off, dest):
            if dest <= off:
                self.fault_point(code, off, "after")

        def call(code, off, fn, arg0):
            # (taking or giving back a lock allocates nothing)
            if not isinstance(fn, types.FunctionType) and not isinstance(getattr(fn, "__self__", None), SimLock):
                self.fault_point(code, off, "call")

        def c_return(code, off, fn, arg0):
            self.fault_point(code, off, "after")

        if MON.get_tool(TOOL) is None:
            MON.use_tool_id(TOOL, "verif-sim")
        MON.restart_events()
        MON.register_callback(TOOL, EV.LINE, self.on_line)
        MON.register_callback(TOOL, EV.INSTRUCTION, self.on_line)
        MON.register_callback(TOOL, EV.PY_START, py_start)
        MON.register_callback(TOOL, EV.JUMP, jump)
        MON.register_callback(TOOL, EV.CALL, call)
        MON.register_callback(TOOL, EV.C_RETURN, c_return)
        MON.set_events(TOOL, EV.PY_START)

    def uninstall(self):
        if MON.get_tool(TOOL) is None:
            return
        MON.set_events(TOOL, 0)
        for e in (EV.LINE, EV.INSTRUCTION, EV.PY_START, EV.JUMP, EV.CALL, EV.C_RETURN):
            MON.register_callback(TOOL, e, None)

    # -- waiting primitives for workload callbacks --------------------------------------------
    def wait_done(self, tid_other):
        tid = self.cur()
        while self.state[tid_other] != "done":
            self.block(tid, DoneOf(tid_other))


class DoneOf:
    def __init__(self, tid):
        self.tid = tid
        self.name = f"end of t{tid}"


class Flag:
    """A one-shot event a workload callback can wait for."""

    def __init__(self, name):
        self.name = f"flag {name}"
        self.on = False

    def set(self):
        self.on = True
        if SIM is not None:
            SIM.wake(self)

    def wait(self):
        s = SIM
        tid = s.cur()
        while not self.on:
            s.block(tid, self)


class masked:
    """Code of the harness running on a simulated thread: no scheduling, no faults."""

    def __enter__(self):
        s = SIM
        self.t = s.cur() if s is not None else None
        if self.t is not None:
            s.masked[self.t] += 1

    def __exit__(self, *a):
        if self.t is not None:
            SIM.masked[self.t] -= 1


def line_of(code, off):
    ln = None
    for a, b, l in code.co_lines():
        if a <= off < b:
            ln = l
    return ln
