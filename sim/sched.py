"""Deterministic thread scheduler.

Real Python threads, exactly one runnable at a time.  Yield points are the trace events (lines, or single
bytecodes) of frames of the library under test; who runs next is decided by an explicit list of preemptions
(thread, thread-local step, target), so a plan is one exactly repeatable interleaving.  Locks created by the
library are cooperative: blocking on one is a scheduling decision, all threads blocked is a deadlock.
"""
import os, sys, threading, _thread, contextlib, random, traceback

REPO = os.path.realpath(os.environ.get("SIM_REPO", "/repo"))
PREFIX = os.path.join(REPO, "e2cnn") + os.sep

_RealLock = threading.Lock
_RealRLock = threading.RLock
current = None  # active Scheduler


class Deadlock(BaseException):
    pass


class Abort(BaseException):
    pass


class CoopRLock:
    reentrant = True

    def __init__(self):
        self._real = _RealRLock() if self.reentrant else _RealLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = current
        me = _thread.get_ident()
        if s is None or me not in s.idents:
            r = self._real.acquire(blocking, timeout)
            if r:
                self._owner = me
                self._count += 1
            return r
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        s.lock_ops += 1
        while self._owner is not None:
            if not blocking or timeout >= 0:
                return False
            s.contended += 1
            s.block(self)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        s = current
        me = _thread.get_ident()
        if s is None or me not in s.idents:
            self._count -= 1
            if self._count <= 0:
                self._owner = None
                self._count = 0
            self._real.release()
            return
        if self.reentrant and self._owner != me:
            raise RuntimeError("cannot release un-acquired lock")
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s.wake(self)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self.__init__()


class CoopLock(CoopRLock):
    reentrant = False


ALL_LOCKS = []


@contextlib.contextmanager
def patched_locks():
    def mk(cls):
        def f(*a, **k):
            caller = sys._getframe(1).f_code.co_filename
            if os.path.realpath(caller).startswith(PREFIX):
                l = cls()
                ALL_LOCKS.append(l)
                return l
            return (_RealRLock if cls is CoopRLock else _RealLock)()
        return f
    old = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = mk(CoopLock), mk(CoopRLock)
    try:
        yield
    finally:
        threading.Lock, threading.RLock = old


class Scheduler:
    def __init__(self, preempts=(), opcodes=False, max_steps=3_000_000, record=None):
        self.plan = {}
        for t, n, to in preempts:
            self.plan[(t, n)] = to
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.idents = {}
        self.steps = 0
        self.local = []
        self.switches = 0
        self.fired = 0
        self.lock_ops = 0
        self.contended = 0
        self.record = record      # optional: dict tid -> list of sites per local step
        self.sites = {}
        self.log = []             # (tid, local step, target, reason)

    # -- primitives (called by the running thread only)
    def _pass_to(self, me, to, reason):
        self.switches += 1
        self.log.append((me, self.local[me], to, reason))
        self.gates[to].release()
        self.gates[me].acquire()
        if self.abort:
            raise Abort()

    def _pick(self, me, prefer=None):
        if prefer is not None and self.state[prefer] == "run" and prefer != me:
            return prefer
        n = len(self.state)
        for d in range(1, n + 1):
            t = (me + d) % n
            if t != me and self.state[t] == "run":
                return t
        return None

    def block(self, lock):
        me = self.idents[_thread.get_ident()]
        self.state[me] = "blocked"
        self.waiting[me] = lock
        # run the owner in preference: it is the one who can make progress
        owner = self.idents.get(lock._owner)
        to = self._pick(me, owner)
        if to is None:
            self.deadlock = [t for t, s in enumerate(self.state) if s == "blocked"]
            self.abort = True
            self.state[me] = "run"
            raise Deadlock()
        self._pass_to(me, to, "lock")

    def wake(self, lock):
        for t, l in list(self.waiting.items()):
            if l is lock:
                del self.waiting[t]
                self.state[t] = "run"

    def point(self, me, frame):
        self.steps += 1
        n = self.local[me] = self.local[me] + 1
        if self.record is not None:
            key = (frame.f_code.co_filename[len(PREFIX):], frame.f_lineno)
            self.record[me].append(self.sites.setdefault(key, len(self.sites)))
        if self.steps > self.max_steps:
            self.overrun = True
            self.abort = True
            raise Abort()
        to = self.plan.get((me, n))
        if to is not None:
            self.fired += 1
            t = self._pick(me, to)
            if t is not None:
                self._pass_to(me, t, "preempt")

    def _tracer(self, me):
        prefix = PREFIX
        opc = self.opcodes

        def local(frame, event, arg):
            if event == "line" and not opc:
                self.point(me, frame)
            elif event == "opcode":
                self.point(me, frame)
            return local

        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(prefix):
                if opc:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return glob

    def run(self, fns):
        global current
        n = len(fns)
        self.state = ["run"] * n
        self.waiting = {}
        self.local = [0] * n
        self.abort = False
        self.deadlock = None
        self.overrun = False
        self.gates = [_RealLock() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        if self.record is not None:
            for i in range(n):
                self.record[i] = []
        done = _RealLock()
        done.acquire()
        results = [None] * n
        left = [n]

        def body(i):
            self.gates[i].acquire()
            self.idents[_thread.get_ident()] = i
            try:
                if not self.abort:
                    sys.settrace(self._tracer(i))
                    try:
                        results[i] = ("ok", fns[i]())
                    finally:
                        sys.settrace(None)
                else:
                    results[i] = ("abort",)
            except Abort:
                results[i] = ("abort",)
            except Deadlock:
                results[i] = ("deadlock",)
            except BaseException as e:  # noqa
                results[i] = ("exc", type(e).__name__, str(e)[:2000], traceback.format_exc()[-3000:])
            sys.settrace(None)
            self.state[i] = "done"
            self.idents.pop(_thread.get_ident(), None)
            left[0] -= 1
            if left[0] == 0:
                done.release()
                return
            if self.abort:
                # unwind the others one after the other
                for t, s in enumerate(self.state):
                    if s != "done":
                        self.state[t] = "run"
                        self.waiting.pop(t, None)
                        self.gates[t].release()
                        return
            t = self._pick(i)
            if t is None:
                # everybody left is blocked on a lock nobody will release
                self.deadlock = [t for t, s in enumerate(self.state) if s == "blocked"]
                self.abort = True
                t = self.deadlock[0]
                self.state[t] = "run"
                self.waiting.pop(t, None)
            self.log.append((i, self.local[i], t, "exit"))
            self.gates[t].release()

        import gc
        gc.disable()
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        current = self
        for t in threads:
            t.start()
        self.gates[0].release()
        done.acquire()
        for t in threads:
            t.join()
        current = None
        gc.enable()
        return results


def pick_preempts(rng, record, nsites, count, bias=0.7):
    """Choose preemption points from a profiled sequential run: mostly uniform over code sites (so that rare
    code gets its share), sometimes uniform over steps."""
    n = len(record)
    by_site = {}
    for t, tr in record.items():
        for k, s in enumerate(tr):
            by_site.setdefault((t, s), []).append(k + 1)
    keys = sorted(by_site)
    out = []
    if not keys:
        return out
    for _ in range(count):
        if rng.random() < bias:
            t, s = rng.choice(keys)
            k = rng.choice(by_site[(t, s)])
        else:
            t = rng.choice(sorted({k[0] for k in keys}))
            k = rng.randint(1, max(1, len(record[t])))
        others = [x for x in range(n) if x != t]
        out.append([t, k, rng.choice(others)])
    out.sort()
    return out
