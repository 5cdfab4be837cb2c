"""A simulated OpenCL device: the real kernel source, compiled for the host, run under our scheduler.

Work items run one by one in an order the plan decides.  Atomic updates go to the memory as they are;
plain writes by several work items to the same place are lost updates, as on a device that runs them
side by side.  Accesses through atomics outside the buffers are recorded instead of performed.
"""
import ctypes
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import types

import numpy as np

from ..core import HarnessError, SimFault, Violation

FLAGS = ["-x", "cl", "-cl-std=CL1.2", "-target", "x86_64-unknown-linux-gnu", "-O1", "-fPIC", "-Xclang", "-finclude-default-header", "-w"]

SHIM = r"""
#include <cmath>
#include <cstdint>
#include <cstddef>
typedef float f2 __attribute__((ext_vector_type(2)));
typedef float f3 __attribute__((ext_vector_type(3)));
typedef float f4 __attribute__((ext_vector_type(4)));
static size_t gid, gsize;
static uintptr_t lo[16], hi[16];
static int nbuf;
static uint64_t n_bad, n_log, cap;
static uint32_t *log_buf;  // (buffer, word) pairs of atomic accesses
extern "C" void sim_item(size_t g, size_t n) { gid = g; gsize = n; }
extern "C" void sim_buffers(int n, uint64_t *l, uint64_t *h) { nbuf = n; for (int i = 0; i < n; i++) { lo[i] = l[i]; hi[i] = h[i]; } }
extern "C" void sim_log(uint32_t *p, uint64_t c) { log_buf = p; cap = c; n_log = 0; n_bad = 0; }
extern "C" uint64_t sim_bad() { return n_bad; }
extern "C" uint64_t sim_logged() { return n_log; }
static int find(volatile unsigned *p) {
    uintptr_t a = (uintptr_t)p;
    for (int i = 0; i < nbuf; i++) if (a >= lo[i] && a + 4 <= hi[i]) {
        if (n_log < cap) { log_buf[2 * n_log] = i; log_buf[2 * n_log + 1] = (uint32_t)((a - lo[i]) / 4); }
        n_log++;
        return 1;
    }
    n_bad++;
    return 0;
}
#define A(name, expr) { if (!find(p)) return 0; unsigned o = *p; *p = (expr); return o; }
unsigned ainc(volatile unsigned *p) asm("_Z10atomic_incPU8CLglobalVj");
unsigned ainc(volatile unsigned *p) A(inc, o + 1)
unsigned adec(volatile unsigned *p) asm("_Z10atomic_decPU8CLglobalVj");
unsigned adec(volatile unsigned *p) A(dec, o - 1)
unsigned aadd(volatile unsigned *p, unsigned v) asm("_Z10atomic_addPU8CLglobalVjj");
unsigned aadd(volatile unsigned *p, unsigned v) A(add, o + v)
unsigned asub(volatile unsigned *p, unsigned v) asm("_Z10atomic_subPU8CLglobalVjj");
unsigned asub(volatile unsigned *p, unsigned v) A(sub, o - v)
unsigned oinc(volatile unsigned *p) asm("_Z8atom_incPU8CLglobalVj");
unsigned oinc(volatile unsigned *p) A(inc, o + 1)
unsigned oadd(volatile unsigned *p, unsigned v) asm("_Z8atom_addPU8CLglobalVjj");
unsigned oadd(volatile unsigned *p, unsigned v) A(add, o + v)
size_t g0(unsigned d) asm("_Z13get_global_idj");
size_t g0(unsigned d) { return d ? 0 : gid; }
size_t g1(unsigned d) asm("_Z15get_global_sizej");
size_t g1(unsigned d) { return d ? 1 : gsize; }
size_t g2(unsigned d) asm("_Z12get_local_idj");
size_t g2(unsigned d) { return 0; }
size_t g3(unsigned d) asm("_Z14get_local_sizej");
size_t g3(unsigned d) { return 1; }
size_t g4(unsigned d) asm("_Z12get_group_idj");
size_t g4(unsigned d) { return d ? 0 : gid; }
#define F1(q, mangled) float x_##q(float a) asm(mangled); float x_##q(float a) { return q##f(a); }
#define N1(q, n, mangled) float nat_##q(float a) asm(mangled); float nat_##q(float a) { return q##f(a); }
F1(sin, "_Z3sinf") F1(cos, "_Z3cosf") F1(tan, "_Z3tanf") F1(log, "_Z3logf") F1(exp, "_Z3expf") F1(acos, "_Z4acosf") F1(asin, "_Z4asinf")
F1(atan, "_Z4atanf") F1(fabs, "_Z4fabsf") F1(sqrt, "_Z4sqrtf") F1(floor, "_Z5floorf") F1(ceil, "_Z4ceilf") F1(log2, "_Z4log2f") F1(exp2, "_Z4exp2f")
F1(log1p, "_Z5log1pf") F1(expm1, "_Z5expm1f") F1(round, "_Z5roundf") F1(trunc, "_Z5truncf") F1(log10, "_Z5log10f") F1(cbrt, "_Z4cbrtf")
N1(sin, a, "_Z10native_sinf") N1(cos, a, "_Z10native_cosf") N1(log, a, "_Z10native_logf") N1(exp, a, "_Z10native_expf") N1(sqrt, a, "_Z11native_sqrtf")
#define F2(q, mangled) float x_##q(float a, float b) asm(mangled); float x_##q(float a, float b) { return q##f(a, b); }
F2(pow, "_Z3powff") F2(atan2, "_Z5atan2ff") F2(fmax, "_Z4fmaxff") F2(fmin, "_Z4fminff") F2(fmod, "_Z4fmodff") F2(hypot, "_Z5hypotff") F2(copysign, "_Z8copysignff")
float powr(float a, float b) asm("_Z4powrff"); float powr(float a, float b) { return powf(a, b); }
float pown(float a, int b) asm("_Z4pownfi"); float pown(float a, int b) { return powf(a, (float)b); }
float rsq(float a) asm("_Z5rsqrtf"); float rsq(float a) { return 1.0f / sqrtf(a); }
float mx(float a, float b) asm("_Z3maxff"); float mx(float a, float b) { return fmaxf(a, b); }
float mn(float a, float b) asm("_Z3minff"); float mn(float a, float b) { return fminf(a, b); }
int mxi(int a, int b) asm("_Z3maxii"); int mxi(int a, int b) { return a > b ? a : b; }
int mni(int a, int b) asm("_Z3minii"); int mni(int a, int b) { return a < b ? a : b; }
float clampf(float x, float a, float b) asm("_Z5clampfff"); float clampf(float x, float a, float b) { return fminf(fmaxf(x, a), b); }
int clampi(int x, int a, int b) asm("_Z5clampiii"); int clampi(int x, int a, int b) { return x < a ? a : x > b ? b : x; }
float ffma(float a, float b, float c) asm("_Z3fmafff"); float ffma(float a, float b, float c) { return fmaf(a, b, c); }
float fmad(float a, float b, float c) asm("_Z3madfff"); float fmad(float a, float b, float c) { return a * b + c; }
float sgn(float a) asm("_Z4signf"); float sgn(float a) { return a > 0 ? 1.0f : a < 0 ? -1.0f : a; }
float dot2(f2 a, f2 b) asm("_Z3dotDv2_fS_"); float dot2(f2 a, f2 b) { return a.x * b.x + a.y * b.y; }
float dot3(f3 a, f3 b) asm("_Z3dotDv3_fS_"); float dot3(f3 a, f3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
float dot4(f4 a, f4 b) asm("_Z3dotDv4_fS_"); float dot4(f4 a, f4 b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
float len3(f3 a) asm("_Z6lengthDv3_f"); float len3(f3 a) { return sqrtf(dot3(a, a)); }
float len4(f4 a) asm("_Z6lengthDv4_f"); float len4(f4 a) { return sqrtf(dot4(a, a)); }
f3 nrm3(f3 a) asm("_Z9normalizeDv3_f"); f3 nrm3(f3 a) { return a / sqrtf(dot3(a, a)); }
f4 nrm4(f4 a) asm("_Z9normalizeDv4_f"); f4 nrm4(f4 a) { return a / sqrtf(dot4(a, a)); }
int isn(float a) asm("_Z5isnanf"); int isn(float a) { return a != a; }
int isi(float a) asm("_Z5isinff"); int isi(float a) { return __builtin_isinf(a); }
int isf(float a) asm("_Z8isfinitef"); int isf(float a) { return __builtin_isfinite(a); }
"""

_libs = {}


def build(source):
    key = hashlib.sha256(source.encode()).hexdigest()
    if key in _libs:
        return _libs[key]
    d = tempfile.mkdtemp(prefix="sim-ocl-")
    try:
        with open(os.path.join(d, "k.cl"), "w") as f:
            f.write(source)
        with open(os.path.join(d, "shim.cpp"), "w") as f:
            f.write(SHIM)
        p = subprocess.run(["clang", *FLAGS, "-c", "k.cl", "-o", "k.o"], cwd=d, capture_output=True, text=True)
        if p.returncode:
            if "k.cl" in p.stderr:
                raise RuntimeError("the kernel does not compile: " + p.stderr[:500])
            raise HarnessError("clang: " + p.stderr[:500])
        p = subprocess.run(["clang++", "-O1", "-fPIC", "-shared", "-w", "shim.cpp", "k.o", "-o", "k.so", "-lm"], cwd=d, capture_output=True, text=True)
        if p.returncode:
            raise HarnessError("linking the kernel: " + p.stderr[:500])
        lib = ctypes.CDLL(os.path.join(d, "k.so"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    lib.sim_item.argtypes = [ctypes.c_size_t, ctypes.c_size_t]
    lib.sim_buffers.argtypes = [ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p]
    lib.sim_log.argtypes = [ctypes.c_void_p, ctypes.c_uint64]
    lib.sim_bad.restype = ctypes.c_uint64
    lib.sim_logged.restype = ctypes.c_uint64
    _libs[key] = lib
    return lib


class Buf:
    """device memory with guard words on both sides"""

    PAD = 64

    def __init__(self, arr):
        a = np.ascontiguousarray(arr)
        self.shape, self.dtype = a.shape, a.dtype
        words = -(-a.nbytes // 4)
        self.mem = np.full(words + 2 * self.PAD + 4, 0xA5A5A5A5, dtype=np.uint32)
        self.start = self.PAD + (-(self.mem.ctypes.data // 4 + self.PAD)) % 4  # 16 byte aligned
        self.words = words
        self.view = self.mem[self.start : self.start + words]
        self.view[:] = 0
        self.view.view(np.uint8)[: a.nbytes] = np.frombuffer(a.tobytes(), dtype=np.uint8)

    def array(self):
        n = int(np.prod(self.shape)) * self.dtype.itemsize
        return np.frombuffer(self.view.tobytes()[:n], dtype=self.dtype).reshape(self.shape).copy()

    def guards_ok(self):
        return bool((self.mem[: self.start] == 0xA5A5A5A5).all() and (self.mem[self.start + self.words :] == 0xA5A5A5A5).all())

    @property
    def ptr(self):
        return self.mem.ctypes.data + 4 * self.start


class Device:
    """what the plan decides: order of work items, faults, scripted answers"""

    def __init__(self):
        self.reset()

    def reset(self, order=None, fail_at=None, lazy=False, force_seeds=None, scripted=None, max_launches=None):
        self.order, self.fail_at, self.lazy, self.force_seeds, self.scripted, self.max_launches = order, fail_at, lazy, force_seeds, scripted, max_launches
        self.calls = 0
        self.fired = None
        self.launches = []  # dict(n, args, seeds)
        self.results = []  # arrays handed back to the host
        self.bad = None

    def call(self, what):
        k = self.calls
        self.calls += 1
        if self.fail_at is not None and k == self.fail_at:
            self.fired = what
            raise SimFault(f"simulated-fault: device error in {what} (call {k})")

    def execute(self, lib, name, n, args):
        fn = getattr(lib, name)
        fn.restype = None
        bufs = [a for a in args if isinstance(a, Buf)]
        cargs = []
        for a in args:
            if isinstance(a, Buf):
                cargs.append(ctypes.c_void_p(a.ptr))
            elif isinstance(a, np.floating):
                cargs.append(ctypes.c_float(float(a)) if a.dtype.itemsize == 4 else ctypes.c_double(float(a)))
            elif isinstance(a, np.integer):
                cargs.append({4: ctypes.c_int if a.dtype.kind == "i" else ctypes.c_uint, 8: ctypes.c_long}[a.dtype.itemsize](int(a)))
            else:
                raise TypeError(f"kernel argument of type {type(a)} has no size")
        L = (ctypes.c_uint64 * len(bufs))(*[b.ptr for b in bufs])
        H = (ctypes.c_uint64 * len(bufs))(*[b.ptr + 4 * b.words for b in bufs])
        lib.sim_buffers(len(bufs), L, H)
        log = np.zeros(2 * 200000, dtype=np.uint32)
        before = [b.view.copy() for b in bufs]
        plain = [np.zeros(b.words, dtype=bool) for b in bufs]  # plainly written by an earlier item
        atomics = [np.zeros(b.words, dtype=np.uint32) for b in bufs]
        for g in self.order(n) if self.order else range(n):
            lib.sim_item(g, n)
            lib.sim_log(log.ctypes.data, len(log) // 2)
            pre = [b.view.copy() for b in bufs]
            fn(*cargs)
            if lib.sim_bad():
                self.bad = f"work item {g}: {lib.sim_bad()} accesses outside the buffers"
            m = lib.sim_logged()
            if m > len(log) // 2:
                raise HarnessError("atomic log overflow")
            ev = log[: 2 * m].reshape(-1, 2)
            for i, b in enumerate(bufs):
                at = np.zeros(b.words, dtype=bool)
                at[ev[ev[:, 0] == i, 1]] = True
                w = (b.view != pre[i]) & ~at
                if w.any():
                    # written by two items side by side: one update is lost
                    lost = w & plain[i]
                    b.view[lost] = before[i][lost] + (b.view[lost] - pre[i][lost])
                    plain[i] |= w
                if not b.guards_ok():
                    self.bad = f"work item {g}: write outside the buffers"


DEV = Device()


class Queue:
    def __init__(self, ctx=None, *a, **k):
        DEV.call("queue")
        self.pending = []

    def put(self, job):
        self.pending.append(job)
        if not DEV.lazy:
            self.run()

    def run(self):
        while self.pending:
            self.pending.pop(0)()

    def finish(self):
        DEV.call("finish")
        self.run()

    flush = finish


class Event:
    def __init__(self, q):
        self.q = q

    def wait(self):
        self.q.finish()


class Array:
    def __init__(self, queue, arr):
        self.queue, self.data, self.shape, self.dtype = queue, Buf(arr), arr.shape, arr.dtype

    def get(self, *a, **k):
        DEV.call("read")
        self.queue.run()
        r = self.data.array()
        if self.data.dtype == np.uint32 and len(self.shape) > 2:
            if DEV.scripted is not None:
                r = DEV.scripted(len(DEV.results), r)
            DEV.results.append(r.copy())
        return r

    def fill(self, v, *a, **k):
        self.queue.run()
        self.data = Buf(np.full(self.shape, v, dtype=self.dtype))
        return self


class Program:
    def __init__(self, ctx, source):
        self.source = source

    def build(self, *a, **k):
        DEV.call("build")
        self.lib = build(self.source)
        return self

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        def kernel(queue, gsize, lsize, *args, **k):
            DEV.call("launch")
            if DEV.max_launches is not None and len(DEV.launches) >= DEV.max_launches:
                raise Violation("no-progress", f"more than {DEV.max_launches} launches")
            n = int(np.prod(gsize))
            rec = dict(n=n, args=[None if isinstance(a, Buf) else float(a) for a in args], seeds=None)
            DEV.launches.append(rec)
            lib = self.lib

            def job():
                for a in args:
                    if isinstance(a, Buf) and len(a.shape) == 2:
                        rec["seeds"] = a.array()
                if DEV.scripted is None:
                    DEV.execute(lib, name, n, args)

            queue.put(job)
            return Event(queue)

        return kernel


def _zeros(queue, shape, dtype=np.float32, **k):
    DEV.call("allocate")
    return Array(queue, np.zeros(shape, dtype=dtype))


def _empty(queue, shape, dtype=np.float32, **k):
    DEV.call("allocate")
    return Array(queue, np.full(shape, 77, dtype=dtype))  # (what is there is arbitrary)


def _to_device(queue, arr, **k):
    DEV.call("upload")
    arr = np.asarray(arr)
    if DEV.force_seeds is not None and arr.ndim == 2 and arr.dtype == np.uint32:
        arr = DEV.force_seeds(arr)
    return Array(queue, arr)


def install():
    if "pyopencl" in sys.modules and getattr(sys.modules["pyopencl"], "_simulated", False):
        return
    cl, ar = types.ModuleType("pyopencl"), types.ModuleType("pyopencl.array")
    cl._simulated = True

    def ctx(*a, **k):
        DEV.call("context")
        return object()

    cl.create_some_context = ctx
    cl.Context = ctx
    cl.CommandQueue, cl.Program = Queue, Program
    ar.zeros, ar.empty, ar.to_device, ar.Array = _zeros, _empty, _to_device, Array
    cl.array = ar
    sys.modules["pyopencl"], sys.modules["pyopencl.array"] = cl, ar
