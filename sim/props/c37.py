"""C37 quaternion arithmetic: composing, inverting, applying and interpolating rotations, in every batch, layout, history, failure and thread."""
import math

import torch

from .. import seams
from . import _kern, _rot
from ._ref import qmul

RULE = (
    "one run = a seeded history of 3-12 products, inverses, actions, norms, angles, interpolations and rotations between directions of ordinary and border rotations, with broadcast and plain batch shapes, precisions and memory "
    "layouts changing between calls, failing allocations, and two to three threads using the same arrays; every result is compared with float64 rotations; non-trivial = a call after another call, failure or preemption"
)
COMPONENTS = {"real": ["ebsdtorch.s2_and_so3.quaternions", "TorchScript interpreter", "torch CPU kernels", "real Python threads, one released at a time"], "stub": _kern.STUB}
MODULES = ["ebsdtorch.s2_and_so3.quaternions"]
DEEP_SHRINK = True


def qu():
    return seams.repo("ebsdtorch.s2_and_so3.quaternions")


def rng(op, k=0):
    return torch.Generator().manual_seed((op["seed"] * 3 + k) & 0x7FFFFFFF)


def rot(op, k=0):
    """unit quaternions of either sign, of a batch that may broadcast with the others"""
    shape = list(op["shape"])
    if k and op.get("wide") == k:  # this argument has one value for the whole batch
        shape = [1] * len(shape)
    q = _rot.rotations(op["seed"] + 17 * k, shape)
    if k and op["seed"] % 5 == 0:  # equal, opposite or nearly so
        q0 = _rot.rotations(op["seed"], shape)
        e = [0.0, 1e-12, 1e-7, 1e-4][op["seed"] % 4] * torch.randn(q0.shape, generator=rng(op, 2), dtype=torch.float64)
        q = (q0 + e) / (q0 + e).norm(dim=-1, keepdim=True)
    s = torch.rand(q.shape[:-1], generator=rng(op, 3 + k), dtype=torch.float64)[..., None]
    return torch.where(s < 0.5, -q, q)


def point(op, unit=False, k=0):
    shape = list(op["shape"])
    if not unit and op.get("wide") == 2:
        shape = [1] * len(shape)
    v = torch.randn(tuple(shape) + (3,), generator=rng(op, 9 + k), dtype=torch.float64)
    c = torch.randint(0, 5, v.shape[:-1], generator=rng(op, 11 + k))
    r = torch.randint(-1, 2, v.shape, generator=rng(op, 13 + k)).double()
    r = torch.where(r.abs().amax(-1, keepdim=True) > 0, r, torch.ones_like(r))
    v = torch.where((c == 0)[..., None], r, v)
    if unit:
        return v / v.norm(dim=-1, keepdim=True)
    return v * torch.tensor([1.0, 1e-3, 1e3], dtype=torch.float64)[op["seed"] % 3]


def make(*parts):
    def go(op):
        dt = _kern.dtype(op)
        out = []
        for p in parts:
            if p in ("a", "b", "c"):
                out.append(rot(op, "abc".index(p)).to(dt))
            elif p == "any":  # not of unit length
                q = rot(op)
                out.append((q * (0.01 + 10 * torch.rand(q.shape[:-1] + (1,), generator=rng(op, 5), dtype=torch.float64))).to(dt))
            elif p == "point":
                out.append(point(op).to(dt))
            elif p == "start":
                out.append(point(op, True).to(dt))
            elif p == "finish":
                u, v = point(op, True), point(op, True, 20)
                c = torch.randint(0, 8, u.shape[:-1], generator=rng(op, 21))
                e = 10.0 ** -torch.randint(1, 9, u.shape[:-1], generator=rng(op, 22)).double()
                v = torch.where((c == 0)[..., None], u, torch.where((c == 1)[..., None], -u, torch.where((c == 2)[..., None], u + e[..., None] * v, torch.where((c == 3)[..., None], -u + e[..., None] * v, v))))
                out.append((v / v.norm(dim=-1, keepdim=True)).to(dt))
            elif p == "t":
                out.append([0.0, 1.0, 0.5, 0.25, (op["seed"] % 1000) / 1000.0][op["seed"] % 5])
        return out

    return go


def eps(y):
    return 1.2e-7 if y.dtype == torch.float32 else 2.3e-16


def basics(ctx, y, x, shape, what):
    ctx.check(tuple(y.shape) == tuple(shape), f"{what}:shape", lambda: f"{tuple(y.shape)} instead of {tuple(shape)}")
    ctx.check(y.dtype == x.dtype, f"{what}:dtype", str(y.dtype))
    ctx.check(bool(torch.isfinite(y).all()), f"{what}:not-finite")


def near(ctx, y, want, tol, kind, what):
    d = (y.double() - want).abs()
    ctx.check(bool((d <= tol).all()), f"{what}:{kind}", lambda: f"off by {float(d.max()):.3e}")


def joint(*xs):
    return torch.broadcast_shapes(*[x.shape[:-1] for x in xs])


def std(q):
    return torch.where(q[..., :1] < 0, -q, q)


def near_std(ctx, y, want, tol, what):
    """the sign with non-negative real part; either one where that is zero to rounding"""
    ctx.check(bool((y[..., 0] >= 0).all()), f"{what}:negative-real-part")
    d = torch.minimum((y.double() - want).abs().amax(-1), torch.where(want[..., 0].abs() < tol, (y.double() + want).abs().amax(-1), torch.full_like(want[..., 0], math.inf)))
    ctx.check(bool((d <= tol).all()), f"{what}:product", lambda: f"off by {float(d.max()):.3e}")


def judge_prod(mode):
    def judge(ctx, op, keep, y, what):
        a = keep[0]
        p = keep[0].double()
        for b in keep[1:]:
            p = qmul(p, b.double())
        n = {"raw": (4,), "std": (4,), "axis": (3,), "real": ()}[mode]
        basics(ctx, y, a, joint(*keep) + n, what)
        p = p.expand(joint(*keep) + (4,))
        if mode == "raw":
            near(ctx, y, p, 8 * eps(a), "product", what)
        elif mode == "std":
            near_std(ctx, y, std(p), 8 * eps(a), what)
        elif mode == "axis":
            near(ctx, y, p[..., 1:], 8 * eps(a), "product", what)
        else:
            near(ctx, y, p[..., 0].abs(), 10 * eps(a), "real-part", what)

    return judge


def judge_one(mode):
    def judge(ctx, op, keep, y, what):
        a = keep[0]
        basics(ctx, y, a, a.shape, what)
        A = a.double()
        if mode == "conj":
            near(ctx, y, A * torch.tensor([1.0, -1, -1, -1], dtype=torch.float64), 2 * torch.finfo(y.dtype).eps * float(A.abs().max()) if A.numel() else 0.0, "inverse", what)
        elif mode == "std":
            near_std(ctx, y, std(A), 0.0 if a.dtype == torch.float64 else 1e-30, what)
        elif mode == "norm":
            near(ctx, y, A / A.norm(dim=-1, keepdim=True), 4 * eps(a), "normalised", what)
        else:
            near_std(ctx, y, std(A / A.norm(dim=-1, keepdim=True)), 4 * eps(a), what)

    return judge


def judge_apply(ctx, op, keep, y, what):
    q, v = keep
    basics(ctx, y, q, torch.broadcast_shapes(q.shape[:-1], v.shape[:-1]) + (3,), what)
    want = (_rot.to_matrix(q.double()) @ v.double()[..., None])[..., 0]
    near(ctx, y, want, 40 * eps(q) * (1 + v.double().norm(dim=-1)[..., None]), "rotated", what)


def judge_angle(ctx, op, keep, y, what):
    q = keep[0]
    basics(ctx, y, q, q.shape[:-1], what)
    Q = q.double()
    want = 2 * torch.atan2(Q[..., 1:].norm(dim=-1), Q[..., 0])
    near(ctx, y, want, 8 * eps(q) + 4 * eps(q) * want, "angle", what)


def judge_slerp(ctx, op, keep, y, what):
    a, b, t = keep
    basics(ctx, y, a, joint(a, b) + (4,), what)
    A, B, Y = (x.double() / x.double().norm(dim=-1, keepdim=True) for x in (a, b, y))
    near(ctx, y.double().norm(dim=-1), torch.ones(y.shape[:-1], dtype=torch.float64), 8 * eps(a), "not-unit", what)
    d = _rot.apart(A, B)
    # half-turn apart: both ways are as long
    for end, part in ((A, t), (B, 1 - t)):
        near(ctx, _rot.apart(end, Y), part * d, 40 * eps(a) + 1e-8 * d, "way", what)


def judge_between(ctx, op, keep, y, what):
    u, v = keep
    basics(ctx, y, u, u.shape[:-1] + (4,), what)
    Y, U, V = y.double(), u.double(), v.double()
    near(ctx, Y.norm(dim=-1), torch.ones(u.shape[:-1], dtype=torch.float64), 2e-6 if u.dtype == torch.float32 else 1e-9, "not-unit", what)
    # next to opposite points the axis is as good as the difference from the opposite point
    loose = eps(u) * 60 + 4 * torch.where((U + V).norm(dim=-1) < 2e-6, (U + V).norm(dim=-1), torch.zeros_like(U[..., 0]))
    near(ctx, (_rot.to_matrix(Y) @ U[..., None])[..., 0], V, loose[..., None], "end-point", what)
    least = torch.atan2(torch.linalg.cross(U, V, dim=-1).norm(dim=-1), (U * V).sum(-1))
    near(ctx, _rot.angle(Y), least, loose, "not-the-shortest", what)


SPECS = {
    "qu_prod_raw": (make("a", "b"), lambda a, b: qu().qu_prod_raw(a, b), judge_prod("raw")),
    "qu_prod": (make("a", "b"), lambda a, b: qu().qu_prod(a, b), judge_prod("std")),
    "qu_prod_axis": (make("a", "b"), lambda a, b: qu().qu_prod_axis(a, b), judge_prod("axis")),
    "qu_prod_pos_real": (make("a", "b"), lambda a, b: qu().qu_prod_pos_real(a, b), judge_prod("real")),
    "qu_triple_prod_pos_real": (make("a", "b", "c"), lambda a, b, c: qu().qu_triple_prod_pos_real(a, b, c), judge_prod("real")),
    "qu_conj": (make("any"), lambda a: qu().qu_conj(a), judge_one("conj")),
    "qu_std": (make("any"), lambda a: qu().qu_std(a), judge_one("std")),
    "qu_norm": (make("any"), lambda a: qu().qu_norm(a), judge_one("norm")),
    "qu_norm_std": (make("any"), lambda a: qu().qu_norm_std(a), judge_one("norm_std")),
    "qu_apply": (make("a", "point"), lambda q, v: qu().qu_apply(q, v), judge_apply),
    "qu_angle": (make("a"), lambda a: qu().qu_angle(a), judge_angle),
    "qu_slerp": (make("a", "b", "t"), lambda a, b, t: qu().qu_slerp(a, b, t), judge_slerp),
    "quaternion_rotate_sets_sphere": (make("start", "finish"), lambda u, v: qu().quaternion_rotate_sets_sphere(u, v), judge_between),
}


def generate(r, tier):
    return _kern.generate(r, list(SPECS), extra=lambda r: dict(wide=r.choice([0, 0, 1, 2])))


def execute(plan, ctx):
    _kern.execute(plan, ctx, SPECS)
