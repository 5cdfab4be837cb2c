"""C31 Wigner d: tables by recursion and their look-up, in every order of angles, degrees, precisions, layouts, failures and threads."""
import math

import torch

from .. import seams
from . import _kern

RULE = (
    "one run = a seeded history of 3-10 Wigner d tables (extended exponent, logarithmic; below, at and above a right angle, both ends of the range, single and double precision, degree 0-28 and now and then 120), look-ups in right-angle tables "
    "with both signs and orders of the indices, index conversions up to 2^40 and transform weights in random batch sizes, with failing allocations, and two to three threads; tables are compared with the matrix exponential of the rotation "
    "generator; non-trivial = a call after another call, failure or preemption"
)
COMPONENTS = {"real": ["ebsdtorch.harmonics.wigner_d_xnum", "ebsdtorch.harmonics.wigner_d_logspace", "TorchScript interpreter", "torch CPU kernels", "real Python threads, one released at a time"], "stub": _kern.STUB}
MODULES = ["ebsdtorch.harmonics.wigner_d_xnum", "ebsdtorch.harmonics.wigner_d_logspace"]
DEEP_SHRINK = True
CPU = torch.device("cpu")
F64 = torch.float64


def X():
    return seams.repo("ebsdtorch.harmonics.wigner_d_xnum")


def W():
    return seams.repo("ebsdtorch.harmonics.wigner_d_logspace")


# reference: exp(-i beta Jy), rows and columns -l..l; in the convention of the code the two orders are transposed

_eig = {}


def d_full(l, beta):
    """(2l+1, 2l+1), entry [l + m, l + n]"""
    if l not in _eig:
        m = torch.arange(-l, l + 1, dtype=F64)
        jp = torch.diag(torch.sqrt(l * (l + 1) - m[:-1] * (m[:-1] + 1)), -1)
        _, U = torch.linalg.eigh((jp - jp.T).to(torch.complex128) / 2j)
        _eig[l] = m, U
    m, U = _eig[l]
    return ((U * torch.exp(-1j * beta * m)) @ U.conj().T).real.T.contiguous()


_tables = {}


def block(l, beta):
    i, j = torch.tril_indices(l + 1, l + 1)
    return d_full(l, beta)[l + i, l + j]


def half_pi_table(deg, dtype):
    if deg not in _tables:
        _tables[deg] = torch.cat([block(l, math.pi / 2) for l in range(deg + 1)])
    return _tables[deg].to(dtype)


def rng(op, k=0):
    return torch.Generator().manual_seed((op["seed"] * 7 + k) & 0x7FFFFFFF)


def pick(op, k, options):
    return options[int(torch.randint(0, len(options), (), generator=rng(op, k)))]


def uniform(op, k):
    return float(torch.rand((), generator=rng(op, k), dtype=F64))


def degree(op):
    return pick(op, 1, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 20, 24, 28, 28] + ([120] if op["seed"] % 23 == 0 else []))


H = math.pi / 2


def tiny(op):
    """small on a logarithmic scale"""
    return 10 ** (-1 - 11 * uniform(op, 6))


def low(op):
    return pick(op, 2, [0.0, 1e-8, 1e-3, 0.5, math.acos(1 / 3), math.pi / 3, math.nextafter(H, 0)] + [tiny(op)] * 2 + [H - tiny(op)] * 2 + [H * uniform(op, 3)] * 6)


def high(op):
    return pick(op, 2, [math.nextafter(H, 4), math.pi - 1e-3, math.pi, 2 * math.pi / 3, 2.0] + [math.pi - tiny(op)] * 2 + [H + tiny(op)] * 2 + [H + H * uniform(op, 3)] * 6)


def beta_deg(angle):
    return lambda op: [angle(op), degree(op), _kern.dtype(op)]


def beta_any(op):
    b = pick(op, 4, [low, high, lambda o: H])(op)
    return [torch.tensor(b, dtype=F64), degree(op)]


def judge_table(ctx, op, keep, y, what):
    beta, deg = float(keep[0]), keep[1]
    dtype = keep[2] if len(keep) > 2 else F64
    n = (deg + 1) * (deg + 2) * (deg + 3) // 6
    ctx.check(tuple(y.shape) == (n,), f"{what}:shape", lambda: f"{tuple(y.shape)} instead of {(n,)}")
    ctx.check(y.dtype == dtype, f"{what}:dtype", str(y.dtype))
    ctx.check(bool(torch.isfinite(y).all()), f"{what}:not-finite", lambda: f"angle {beta!r}, degree {deg}")
    tol = 1e-12 + 1e-14 * deg**1.5 if dtype == F64 else 4e-6 * max(deg, 2) ** 1.5
    for l in range(deg + 1) if deg <= 28 else sorted({0, 5, deg // 2, deg - 1, deg}):
        at = l * (l + 1) * (l + 2) // 6
        want = block(l, beta)
        d = (y[at : at + len(want)].double() - want).abs()
        ctx.check(bool((d < tol).all()), f"{what}:value", lambda: f"angle {beta!r}, degree {l} of {deg}: off by {d.max().item():.2e}")


# look-ups


def lmn(op):
    deg = degree(op) if op["seed"] % 23 else 28
    n = tuple(op["shape"])
    l = torch.randint(0, deg + 1, n, generator=rng(op, 5))
    if uniform(op, 8) < 0.3:
        l = torch.full(n, deg)
    u = torch.rand((2,) + n, generator=rng(op, 6), dtype=F64)
    edge = torch.randint(0, 4, (2,) + n, generator=rng(op, 7))
    mn = torch.floor(u * (2 * l + 1)).long() - l
    mn = torch.where(edge == 0, torch.where(u < 0.34, -l, torch.where(u < 0.67, l, torch.zeros_like(l))), mn)
    mn[1] = torch.where(edge[0] == 1, torch.where(u[0] < 0.5, mn[0], -mn[0]), mn[1])
    return deg, l, mn[0], mn[1]


def ints(op):
    return pick(op, 9, [torch.int64, torch.int32])


def coords(op):
    deg, l, m, n = lmn(op)
    half_pi_table(deg, F64)  # made here, so that a failing allocation hits the look-up
    return [torch.stack([l, m, n], -1).to(ints(op)), deg, _kern.dtype(op), pick(op, 10, [False, True])]


def coords_mn(op):
    deg, l, m, n = lmn(op)
    half_pi_table(deg, F64)
    if l.numel():
        l0 = int(l.flatten()[0])
        m, n = m.clamp(-l0, l0), n.clamp(-l0, l0)
    else:
        l0 = deg
    return [m.to(ints(op)), n.to(ints(op)), l0, deg, _kern.dtype(op), pick(op, 10, [False, True])]


def look(fn):
    def call(c, deg, dtype, swap):
        t = half_pi_table(deg, dtype).clone()
        return [fn()(t, c, swap), t]

    return call


def look_mn(m, n, l, deg, dtype, swap):
    t = half_pi_table(deg, dtype).clone()
    return [W().read_mn_wigner_d_half_pi_table(t, m, n, l, swap), t]


def judge_look(ctx, op, keep, y, what):
    if len(keep) == 4:
        c, deg, dtype, swap = keep
        l, m, n = c.long().unbind(-1)
    else:
        m, n, l0, deg, dtype, swap = keep
        m, n = m.long(), n.long()
        l = torch.full(m.shape, l0)
    v, t = y
    ctx.check(torch.equal(t, half_pi_table(deg, dtype)), f"{what}:table-modified")
    ctx.check(tuple(v.shape) == tuple(l.shape), f"{what}:shape", lambda: f"{tuple(v.shape)} instead of {tuple(l.shape)}")
    if swap:
        m, n = n, m
    want = torch.tensor([float(d_full(a, H)[a + b, a + c]) for a, b, c in zip(l.flatten().tolist(), m.flatten().tolist(), n.flatten().tolist())], dtype=F64).reshape(l.shape)
    bad = (v.double() - want).abs() > (1e-12 if dtype == F64 else 2e-7)
    ctx.check(not bool(bad.any()), f"{what}:value", lambda: f"degree {l[bad][0]} orders {m[bad][0]}, {n[bad][0]}: {v[bad][0]} instead of {want[bad][0]}")


# positions in a table


def position(l, m, n):
    return l * (l + 1) * (l + 2) // 6 + m * (m + 1) // 2 + n


def fundamental(op):
    top = pick(op, 1, [3, 30, 400, 1170, 1171, 1500, 5000, 18000])
    n = tuple(op["shape"])
    u = torch.rand((3,) + n, generator=rng(op, 2), dtype=F64)
    e = torch.randint(0, 4, (3,) + n, generator=rng(op, 3))
    l = torch.where(e[0] == 0, torch.full(n, top), torch.floor(u[0] ** 0.5 * (top + 1)).long())
    m = torch.where(e[1] == 0, l, torch.where(e[1] == 1, torch.zeros_like(l), torch.floor(u[1] * (l + 1)).long()))
    k = torch.where(e[2] == 0, m, torch.where(e[2] == 1, torch.zeros_like(l), torch.floor(u[2] * (m + 1)).long()))
    return top, l, m, k


def make_coords(op):
    top, l, m, n = fundamental(op)
    return [torch.stack([l, m, n], -1).to(torch.int32 if top <= 1170 and op["seed"] % 2 else torch.int64)]


def make_index(op):
    top, l, m, n = fundamental(op)
    if not l.numel():
        return None
    return [position(l, m, n).to(torch.int32 if top <= 1170 and op["seed"] % 2 else torch.int64)]


def judge_index(ctx, op, keep, y, what):
    want = position(*keep[0].long().unbind(-1))
    ctx.check(tuple(y.shape) == tuple(want.shape), f"{what}:shape")
    ctx.check(torch.equal(y.long(), want), f"{what}:value", lambda: f"{keep[0].reshape(-1, 3)[(y.long() != want).flatten()][:1].tolist()} at {y[y.long() != want][:1].tolist()}")


def judge_coords(ctx, op, keep, y, what):
    i = keep[0].long()
    ctx.check(tuple(y.shape) == tuple(i.shape) + (3,), f"{what}:shape")
    l, m, n = y.long().unbind(-1)
    ok = (position(l, m, n) == i) & (0 <= n) & (n <= m) & (m <= l)
    ctx.check(bool(ok.all()), f"{what}:value", lambda: f"{i[~ok][:1].tolist()} became {y[~ok][:1].tolist()}")


# transform weights


def weight_args(op):
    L = pick(op, 1, [2, 3, 4, 5, 7, 8])
    size = pick(op, 2, [7, 10, 33, 64, 1000, 10**7] + [1 + op["seed"] % (L**3)] * 3)
    return [L, "double" if op["dt"] == "f64" else "single", max(size, L**3 // 30 + 1)]


_weights = {}


def weights(kind, L):
    """dense reference in double precision, from the closed form with the reference table"""
    if (kind, L) in _weights:
        return _weights[kind, L]
    N = 2 * L
    lo = -(L - 1) if kind == "c" else 0
    out = torch.zeros(L * (2 * L - 1), N * (2 * L - 1), dtype=F64) if kind == "c" else torch.zeros(L * L, N * L, dtype=F64)
    for l in range(L):
        d = d_full(l, H)
        for m in range(max(lo, -l), l + 1):
            for n in range(l + 1):
                # the code asks for orders with the two swapped
                e = lambda a, b: float(d[l + b, l + a])  # noqa: E731
                if m % 2 == 0:
                    v = math.sqrt(N * (2 * l + 1) / (2.0 if n == 0 else 1.0)) * (-1.0 if m % 4 == 2 else 1.0) * e(n, -m) * e(n, 0)
                elif n == l:
                    v = 0.0
                else:
                    v = math.sqrt(N * (2 * l + 1)) * (-1.0 if m % 4 == 1 else 1.0) * e(n + 1, -m) * e(n + 1, 0)
                out[(m - lo) * L + l, N * (m - lo) + n] = v
    _weights[kind, L] = out
    return out


def judge_weights(kind):
    def judge(ctx, op, keep, got, what):
        L, precision, size = keep
        want = weights(kind, L)
        ctx.check(tuple(got.shape) == tuple(want.shape), f"{what}:shape", lambda: f"{tuple(got.shape)}")
        ctx.check(got.dtype == (F64 if precision == "double" else torch.float32), f"{what}:dtype")
        d = (got.double() - want).abs()
        ctx.check(bool((d < (1e-11 if precision == "double" else 2e-4)).all()), f"{what}:value", lambda: f"band {L}, {size} at a time, {precision}: entry {(d == d.max()).nonzero()[0].tolist()} off by {d.max().item():.2e}")

    return judge


SPECS = {
    "wigner_d_xnum": (beta_any, lambda b, n: X().wigner_d_xnum(b, n, CPU), judge_table),
    "wigner_d_lt_half_pi": (beta_deg(low), lambda b, n, t: W().wigner_d_lt_half_pi(b, n, t, CPU), judge_table),
    "wigner_d_eq_half_pi": (beta_deg(lambda op: H), lambda b, n, t: W().wigner_d_eq_half_pi(n, t, CPU), judge_table),
    "wigner_d_gt_half_pi": (beta_deg(high), lambda b, n, t: W().wigner_d_gt_half_pi(b, n, t, CPU), judge_table),
    "read_lmn": (coords, look(lambda: W().read_lmn_wigner_d_half_pi_table), judge_look),
    "read_mn": (coords_mn, look_mn, judge_look),
    "retrieve_wigner_d": (coords, look(lambda: X().retrieve_wigner_d), judge_look),
    "index_from_coords": (make_coords, lambda c: W().index_from_coords(c), judge_index),
    "xnum:index_from_coords": (make_coords, lambda c: X().index_from_coords(c), judge_index),
    "coords_from_index": (make_index, lambda i: W().coords_from_index(i), judge_coords),
    "csht_weights": (weight_args, lambda L, p, b: W().csht_weights_half_pi(L, CPU, p, b).to_dense(), judge_weights("c")),
    "rsht_weights": (weight_args, lambda L, p, b: W().rsht_weights_half_pi(L, CPU, p, b).to_dense(), judge_weights("r")),
}


def generate(r, tier):
    return _kern.generate(r, list(SPECS), n_ops=(3, 10))


def execute(plan, ctx):
    _kern.execute(plan, ctx, SPECS)
