"""The seams: every source of nondeterminism or failure the simulator owns.

* allocator      FaultMode, a TorchDispatchMode that sees every aten / quantized
                 op (also those issued inside TorchScript) and can make the n-th
                 allocating op fail;
* interrupts     line-level KeyboardInterrupt / fault injection in repo code;
* RNG            torch, random, numpy seeded per run; FaultMode may rewrite the
                 draws of individual random ops;
* clock          time.time/monotonic/perf_counter go through SimClock;
* scheduler      ThreadSim: real threads, one runs at a time, switches only at
                 line events of repo code chosen by the plan;
* disk/streams   see diskio.py.
"""
import linecache
import os
import random
import sys
import threading
import zlib
import time as _time
import warnings

warnings.filterwarnings("ignore")
REPO = os.environ.get("EBSD_REPO", "/repo")
REPO_PKG = os.path.join(REPO, "ebsdtorch") + os.sep

_real_clock = {n: getattr(_time, n) for n in ("time", "monotonic", "perf_counter")}


class SimClock:
    def __init__(self):
        self.active = False
        self.script = []
        self.i = 0
        self.now = 0.0
        self.reads = 0

    def start(self, script, now=1000.0):
        """script: increments applied at each clock read; negative = clock step back."""
        self.active, self.script, self.i, self.now, self.reads = True, list(script), 0, now, 0

    def stop(self):
        self.active = False

    def read(self):
        if self.i < len(self.script):
            self.now += self.script[self.i]
            self.i += 1
        elif self.script:
            self.now += abs(self.script[-1])
        self.reads += 1
        return self.now


CLOCK = SimClock()
# the simulated clock belongs to the thread(s) of the run only
_clock_threads = set()


def _mk(name):
    real = _real_clock[name]

    def f():
        if CLOCK.active and threading.get_ident() in _clock_threads:
            return CLOCK.read()
        return real()

    f.__name__ = name
    return f


def install_clock():
    for n in _real_clock:
        setattr(_time, n, _mk(n))


real_time = _real_clock["time"]
real_monotonic = _real_clock["monotonic"]

_real_lock, _real_rlock = threading.Lock, threading.RLock


def import_repo():
    """Import the code under test from the working tree, seams installed first."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    install_clock()
    import torch

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    # TorchScript specialises code after a few calls, which changes the last bits:
    # one seed must be one execution, so every call takes the plain interpreter
    torch._C._jit_set_profiling_executor(False)
    torch._C._jit_set_profiling_mode(False)
    torch._C._set_graph_executor_optimize(False)
    # memory that is read before it is written has a defined content in the simulation
    torch.use_deterministic_algorithms(True, warn_only=True)
    # libraries the code under test uses create their locks before ours exist
    import h5py, matplotlib.pyplot, PIL.Image, numpy, torch.ao.quantization  # noqa: F401,E401
    import torch._dynamo  # noqa: F401
    import ebsdtorch

    got = os.path.realpath(os.path.dirname(ebsdtorch.__file__))
    if got != os.path.realpath(os.path.join(REPO, "ebsdtorch")):
        raise RuntimeError(f"ebsdtorch imported from {got}, not from {REPO}")
    return torch


def reset_world(plan):
    import numpy as np
    import torch

    s = int(plan.get("world_seed", 0)) & 0x7FFFFFFF
    torch.manual_seed(s)
    random.seed(s)
    np.random.seed(s)
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    CLOCK.stop()
    _clock_threads.clear()
    _clock_threads.add(threading.get_ident())


def leave_world():
    CLOCK.stop()
    sys.settrace(None)
    threading.Lock, threading.RLock = _real_lock, _real_rlock


# ------------------------------------------------------------------ allocator

from torch.utils._python_dispatch import TorchDispatchMode  # noqa: E402

from .core import MARK, SimFault, Violation  # noqa: E402

_alloc_cache = {}


def _allocates(func):
    r = _alloc_cache.get(func)
    if r is None:
        sch = func._schema
        r = (
            not any(a.alias_info is not None for a in sch.arguments)
            and any("Tensor" in str(x.type) for x in sch.returns)
            and "scalar_dense" not in str(func)
        )
        _alloc_cache[func] = r
    return r


class Sites:
    """The occasions for a fault during a dry run, and a seeded choice among them.

    The lower half of frac is uniform over time, the upper half is uniform over
    the distinct source lines of the repository (in order of first execution) and
    then over their occurrences, so that rare lines are reached as often as loops.
    """

    def __init__(self):
        self.first, self.seq = {}, []

    def add(self, key):
        self.seq.append(self.first.setdefault(key, len(self.first)))

    def pick(self, frac):
        n, s = len(self.seq), len(self.first)
        if n == 0:
            return 0
        if frac < 0.5:
            return min(n - 1, int(2 * frac * n))
        w = min(2 * frac - 1, 0.999999) * s
        i = int(w)
        occ = [k for k, v in enumerate(self.seq) if v == i]
        return occ[min(len(occ) - 1, int((w - i) * len(occ)))]


def _repo_line():
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith(REPO_PKG):
            return f.f_code.co_filename, f.f_lineno
        f = f.f_back
    return None


class FaultMode(TorchDispatchMode):
    """Counts allocating ops; the fail_at-th one (0-based) fails.

    draw: optional callable(func_name, out_tensor, args) -> None that may
    rewrite the result of random ops in place (adversarial random streams).
    max_ops: deterministic step budget; exceeding it means no progress.
    """

    RANDOM = ("uniform", "rand.", "rand_", "randn", "randint", "randperm", "bernoulli", "normal")

    def __init__(self, fail_at=None, draw=None, max_ops=None, record=False):
        super().__init__()
        self.fail_at = fail_at
        self.draw = draw
        self.max_ops = max_ops
        self.n_alloc = 0
        self.n_ops = 0
        self.fired = None
        self.sites = Sites() if record else None

    def pick(self, frac):
        return self.sites.pick(frac)

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n_ops += 1
        if self.max_ops is not None and self.n_ops > self.max_ops:
            raise SimFault("step budget exceeded (no-progress)")
        if _allocates(func):
            k = self.n_alloc
            self.n_alloc += 1
            if self.sites is not None:
                self.sites.add(_repo_line())
            if self.fail_at is not None and k == self.fail_at:
                self.fired = str(func)
                raise SimFault(f"{MARK}: out of memory at allocation #{k} ({func})")
        out = func(*args, **(kwargs or {}))
        if self.draw is not None:
            name = str(func)
            if name.startswith("aten.") and any(x in name for x in self.RANDOM):
                o2 = self.draw(name, out, args)
                if o2 is not None:
                    out = o2
        return out


def count_allocs(fn):
    m = FaultMode()
    with m:
        fn()
    return m.n_alloc


def dry_allocs(fn):
    m = FaultMode(record=True)
    with m:
        fn()
    return m


# ---------------------------------------------------------- line-level faults


def _is_with(path, lineno):
    return linecache.getline(path, lineno).lstrip().startswith("with ")


class LineFault:
    """Raise exc_factory() at the at-th line event executed in repo code."""

    def __init__(self, at=None, exc_factory=lambda: KeyboardInterrupt("simulated-fault: ctrl-c"), max_lines=None, only=None):
        self.at, self.exc_factory, self.max_lines = at, exc_factory, max_lines
        self.n = 0
        self.fired = None
        self.only = only
        self.sites = Sites() if at is None and max_lines is None else None

    def pick(self, frac):
        return self.sites.pick(frac)

    def _global(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(REPO_PKG) and (self.only is None or self.only in f):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            k = self.n
            self.n += 1
            if self.sites is not None:
                self.sites.add((frame.f_code.co_filename, frame.f_lineno))
            if self.max_lines is not None and self.n > self.max_lines:
                raise Violation("no-progress", f"more than {self.max_lines} lines executed")
            # (never at a "with" line: its second event comes before __exit__, outside the
            # protected range, where the interpreter delivers no interrupt)
            if self.at is not None and k >= self.at and self.fired is None and not _is_with(frame.f_code.co_filename, frame.f_lineno):
                self.fired = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                raise self.exc_factory()
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


# ------------------------------------------------------------------ scheduler


class SimLock:
    """Lock handed to repo code created during a threaded run."""

    sim = None

    def __init__(self, reentrant=False):
        self.owner, self.depth, self.re = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while True:
            if self.owner is None or (self.re and self.owner == me):
                self.owner = me
                self.depth += 1
                return True
            if not blocking:
                return False
            if SimLock.sim is None or not SimLock.sim.block():
                if SimLock.sim is None:
                    raise SimFault("lock contention outside a threaded run")
                raise Violation("deadlock", "all runnable threads wait for a lock")

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner, self.depth = None, 0

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class sim_locks:
    """Locks created inside this block are the simulator's (never nest threads here)."""

    def __enter__(self):
        threading.Lock = lambda: SimLock(False)
        threading.RLock = lambda: SimLock(True)

    def __exit__(self, *a):
        threading.Lock, threading.RLock = _real_lock, _real_rlock
        return False


_repo_modules = {}


def repo(name):
    """Import a module of the code under test (its module-level locks are simulated)."""
    m = _repo_modules.get(name)
    if m is None:
        import importlib

        with sim_locks():
            m = importlib.import_module(name)
        _repo_modules[name] = m
    return m


class OpPoints(TorchDispatchMode):
    """Every torch op of the thread is a scheduling point (also inside TorchScript)."""

    def __init__(self, sim, tid):
        super().__init__()
        self.sim, self.tid = sim, tid

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.sim._at(self.tid, f"op:{func.__name__}")
        return func(*args, **(kwargs or {}))


class ThreadSim:
    """Deterministic scheduler over real threads.

    switches: list of [step, target] pairs; step counts line events executed in
    repo code by all threads together. Only one thread is ever released.
    sites: list of [victim, mod, hit, occurrence, target]: when the victim thread
    reaches, for the given time, a source line whose hash is hit modulo mod, it
    is preempted there (so that every line is equally likely, however
    often others are executed); the others run on.
    ops: torch ops are scheduling points as well (TorchScript has no lines), the
    compiled functions run unoptimised so that every run has the same ops.
    """

    def __init__(self, fns, switches, ctx, max_steps=400000, sites=(), ops=False):
        self.fns = fns
        self.ops = ops
        self.sites = [list(map(int, s)) for s in sites]
        self.site_hits = {}
        self.switch = {}
        for s, t in switches:
            self.switch.setdefault(int(s), int(t))
        self.ctx = ctx
        self.step = 0
        self.max_steps = max_steps
        n = len(fns)
        self.sems = []
        self.done = [False] * n
        self.result = [None] * n
        self.error = [None] * n
        self.current = None
        self.finished = None
        self.where = [None] * n
        self.n_switches = 0
        self.trace = []
        self.tids = {}
        self.abort = None

    # -- called from the running thread only
    def _handover(self, me, target):
        self.n_switches += 1
        self.trace.append((self.step, me, target))
        self.ctx.state("ilv", *[w for w in self.where], me, target)
        self.current = target
        self.sems[target].release()
        self.sems[me].acquire()

    def _point(self, tid, frame):
        self._at(tid, f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}")

    def _at(self, tid, where):
        self.step += 1
        if self.step > self.max_steps:
            raise Violation("no-progress", "threaded run exceeded its step budget")
        self.where[tid] = where
        t = self.switch.get(self.step)
        if self.sites and t is None:
            h = zlib.crc32(self.where[tid].encode())
            for i, (victim, mod, hit, occ, target) in enumerate(self.sites):
                if victim % len(self.fns) == tid and h % max(1, mod) == hit % max(1, mod):
                    self.site_hits[i] = self.site_hits.get(i, 0) + 1
                    if self.site_hits[i] == occ + 1:
                        t = target
                        break
        if t is not None:
            n = len(self.fns)
            for d in range(n):
                cand = (t + d) % n
                if cand == tid:
                    break
                if not self.done[cand]:
                    self._handover(tid, cand)
                    break

    def block(self):
        """The running thread cannot proceed: run somebody else. False if nobody can."""
        tid = self.tids[threading.get_ident()]
        self.step += 1
        if self.step > self.max_steps:
            return False
        n = len(self.fns)
        for d in range(1, n):
            cand = (tid + d) % n
            if not self.done[cand]:
                self._handover(tid, cand)
                return True
        return False

    def _body(self, tid):
        self.tids[threading.get_ident()] = tid
        self.sems[tid].acquire()

        def local(frame, event, arg):
            if event == "line":
                self._point(tid, frame)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(REPO_PKG):
                return local
            return None

        sys.settrace(glob)
        try:
            if self.ops:
                import torch

                with torch.jit.optimized_execution(False), OpPoints(self, tid):
                    self.result[tid] = self.fns[tid]()
            else:
                self.result[tid] = self.fns[tid]()
        except BaseException as e:  # noqa: BLE001
            self.error[tid] = e
        finally:
            sys.settrace(None)
            self.done[tid] = True
            for cand in range(len(self.fns)):
                if not self.done[cand]:
                    self.current = cand
                    self.sems[cand].release()
                    break
            else:
                self.finished.release()

    def run(self):
        from .core import HarnessError

        SimLock.sim = self
        # a thread object's own locks are real ones: its start-up is not a scheduling point
        keep = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = _real_lock, _real_rlock
        self.sems = [threading.Semaphore(0) for _ in self.fns]
        self.finished = threading.Semaphore(0)
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ths:
            t.start()
        threading.Lock, threading.RLock = keep
        self.sems[0].release()
        ok = self.finished.acquire(timeout=90)
        SimLock.sim = None
        if not ok:
            raise HarnessError("threaded run stuck (a thread blocked outside the simulator)")
        for t in ths:
            t.join()
        self.ctx.steps += self.step
        self.ctx.log("threads", len(self.fns), "steps", self.step, "switches", self.trace)
        if self.n_switches:
            self.ctx.fault("preemption", self.n_switches)
        return self.result, self.error
