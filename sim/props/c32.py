"""C32 rigid motions: exponentials and logarithms are inverse to each other, in every batch, layout, history, failure and thread."""
import math

import torch

from .. import seams
from . import _kern, _rot

RULE = (
    "one run = a seeded history of 3-12 exponentials and logarithms of twists and rigid motions (matrix, split and quaternion form, the factors between them, and gradients) with no rotation, tiny rotations, half turns and beyond, with "
    "batch shapes, precisions and memory layouts changing between calls, failing allocations, and two to three threads using the same arrays; every result is compared with the float64 matrix exponential; non-trivial = a call after another call, failure or preemption"
)
COMPONENTS = {"real": ["ebsdtorch.lie_algebra.se3", "TorchScript interpreter", "torch autograd and CPU kernels", "real Python threads, one released at a time"], "stub": _kern.STUB}
MODULES = ["ebsdtorch.lie_algebra.se3"]
DEEP_SHRINK = True


def se3():
    return seams.repo("ebsdtorch.lie_algebra.se3")


def hat(w):
    z = torch.zeros_like(w[..., 0])
    a, b, c = w.unbind(-1)
    return torch.stack([z, -c, b, c, z, -a, -b, a, z], -1).reshape(w.shape[:-1] + (3, 3))


def motion(x):
    """4x4 rigid motion of a twist (rotation, translation), by the matrix exponential"""
    g = torch.cat([torch.cat([hat(x[..., :3]), x[..., 3:, None]], -1), torch.zeros(x.shape[:-1] + (1, 4), dtype=x.dtype)], -2)
    if not x.numel():
        return g
    return torch.matrix_exp(g)


def vmat(w):
    """integral of the rotation along the way: translation part for the three unit translations"""
    e = torch.eye(3, dtype=w.dtype)
    return torch.stack([motion(torch.cat([w, e[i].expand(w.shape)], -1))[..., :3, 3] for i in range(3)], -1)


def twists(op, far):
    q = _rot.rotations(op["seed"], op["shape"])
    t, n = _rot.angle(q), _rot.axis(q)
    g = torch.Generator().manual_seed(op["seed"] & 0x7FFFFFFF)
    k = torch.randint(0, 8, t.shape, generator=g)
    # around the places where series take over
    t = torch.where(k == 0, 10.0 ** (-4 * torch.rand(t.shape, generator=g, dtype=torch.float64)), t)
    if far:  # more than half a turn
        t = torch.where(k == 1, t + math.pi * torch.rand(t.shape, generator=g, dtype=torch.float64), t)
    tr = torch.randn(t.shape + (3,), generator=g, dtype=torch.float64) * torch.tensor([0.0, 1e-3, 1.0, 1.0, 300.0])[torch.randint(0, 5, t.shape, generator=g)][..., None].double()
    return torch.cat([n * t[..., None], tr], -1)


def make(what, far=True):
    def go(op):
        x = twists(op, far)
        dt = _kern.dtype(op)
        if what == "omega":
            return [x[..., :3].to(dt)]
        if what == "twist":
            return [x.to(dt)]
        if what == "grad":
            g = torch.Generator().manual_seed(op["seed"] & 0xFFFFFF)
            x[..., 3:] = x[..., 3:].clamp(-3, 3)
            return [x.to(dt), torch.randn(x.shape[:-1] + (3, 4), generator=g, dtype=torch.float64).to(dt)]
        m = motion(x)
        if what == "om":
            return [m.to(dt)]
        if what == "split":
            return [m[..., :3, :3].to(dt), m[..., :3, 3].to(dt)]
        return [_rot.from_q("qu", _rot.from_matrix(m[..., :3, :3])).to(dt), m[..., :3, 3].to(dt)]

    return go


def basics(ctx, y, x, shape, what):
    ctx.check(tuple(y.shape) == tuple(shape), f"{what}:shape", lambda: f"{tuple(y.shape)} instead of {tuple(shape)}")
    ctx.check(y.dtype == x.dtype, f"{what}:dtype", str(y.dtype))
    ctx.check(bool(torch.isfinite(y).all()), f"{what}:not-finite")


def eps(x):
    return 1.2e-7 if x.dtype == torch.float32 else 2.3e-16


def near(ctx, y, want, tol, x, kind, what):
    d = (y.double() - want).abs()
    over = d - tol
    ctx.check(bool((over <= 0).all()), f"{what}:{kind}", lambda: f"off by {float(d.flatten()[over.argmax()]):.3e}, {float(d.max()):.3e} at most")


def length(x):
    return x.double()[..., 3:].norm(dim=-1)


def judge_skew(ctx, op, keep, y, what):
    w = keep[0]
    basics(ctx, y, w, w.shape[:-1] + (3, 3), what)
    near(ctx, y, hat(w.double()), 0.0, w, "matrix", what)


SERIES = 3e-12  # what the series near zero leave out


def judge_rotation(ctx, w, y, what):
    basics(ctx, y, w, w.shape[:-1] + (3, 3), what)
    near(ctx, y, motion(torch.cat([w, w * 0], -1).double())[..., :3, :3], 25 * eps(w) + SERIES, w, "rotation", what)


def judge_v(ctx, w, y, what):
    basics(ctx, y, w, w.shape[:-1] + (3, 3), what)
    near(ctx, y, vmat(w.double()), 60 * eps(w) + SERIES, w, "factor", what)


def judge_both(ctx, op, keep, y, what):
    judge_rotation(ctx, keep[0], y[0], what)
    judge_v(ctx, keep[0], y[1], what)


def judge_v_inv(ctx, op, keep, y, what):
    w = keep[0]
    basics(ctx, y, w, w.shape[:-1] + (3, 3), what)
    one = y.double() @ vmat(w.double())
    near(ctx, one, torch.eye(3, dtype=torch.float64).expand(one.shape), 200 * eps(w) + SERIES, w, "not-inverse", what)


def judge_exp(ctx, op, keep, y, what):
    x = keep[0]
    basics(ctx, y, x, x.shape[:-1] + (4, 4), what)
    want = motion(x.double())
    near(ctx, y[..., :3, :3], want[..., :3, :3], 25 * eps(x) + SERIES, x, "rotation", what)
    near(ctx, y[..., :3, 3], want[..., :3, 3], (60 * eps(x) + SERIES) * length(x)[..., None] + 1e-30, x, "translation", what)
    near(ctx, y[..., 3, :], torch.tensor([0.0, 0, 0, 1], dtype=torch.float64).expand(y.shape[:-2] + (4,)), 0.0, x, "last-row", what)


def judge_split(ctx, op, keep, y, what):
    x = keep[0]
    basics(ctx, y[0], x, x.shape[:-1] + (3, 3), what)
    basics(ctx, y[1], x, x.shape[:-1] + (3,), what)
    want = motion(x.double())
    near(ctx, y[0], want[..., :3, :3], 25 * eps(x) + SERIES, x, "rotation", what)
    near(ctx, y[1], want[..., :3, 3], (60 * eps(x) + SERIES) * length(x)[..., None] + 1e-30, x, "translation", what)


def judge_quat(ctx, op, keep, y, what):
    x = keep[0]
    basics(ctx, y[0], x, x.shape[:-1] + (4,), what)
    basics(ctx, y[1], x, x.shape[:-1] + (3,), what)
    want = motion(x.double())
    near(ctx, y[0].double().norm(dim=-1), torch.ones(x.shape[:-1], dtype=torch.float64), 8 * eps(x) + 1e-9, x, "not-unit", what)
    near(ctx, _rot.to_matrix(y[0].double()), want[..., :3, :3], 25 * eps(x) + 1e-9, x, "rotation", what)
    near(ctx, y[1], want[..., :3, 3], (60 * eps(x) + SERIES) * length(x)[..., None] + 1e-30, x, "translation", what)


def judge_log(ctx, op, keep, y, what):
    if keep[0].shape[-1] == 4 and len(keep) == 1:
        R, t = keep[0][..., :3, :3].double(), keep[0][..., :3, 3].double()
    elif keep[0].shape[-1] == 4:
        R, t = _rot.to_matrix(keep[0].double()), keep[1].double()
    else:
        R, t = keep[0].double(), keep[1].double()
    basics(ctx, y, keep[0], t.shape[:-1] + (6,), what)
    Y, e = y.double(), eps(keep[0])
    ctx.check(bool((Y[..., :3].norm(dim=-1) <= math.pi + 4e-6).all()), f"{what}:more-than-half-a-turn")
    back = motion(Y)
    # stored rotations are rotations to rounding only, and quaternions hold tiny angles to rounding of one
    near(ctx, back[..., :3, :3], R, 40 * e + SERIES, keep[0], "not-inverse", what)
    near(ctx, back[..., :3, 3], t, (200 * e + SERIES) * (t.norm(dim=-1)[..., None] + 1e-30), keep[0], "translation", what)


def gradient(f):
    def go(x, c):
        x = x.detach().clone().requires_grad_(True)
        (f(x) * c).sum().backward()
        return x.grad

    return go


def judge_grad(ctx, op, keep, y, what):
    x, c = keep
    basics(ctx, y, x, x.shape, what)
    want = gradient(lambda v: motion(v)[..., :3, :])(x.double(), c.double()) if x.numel() else x.double()
    near(ctx, y, want, 3e-4 if x.dtype == torch.float32 else 1e-9, x, "gradient", what)


SPECS = {
    "skew": (make("omega"), lambda w: se3().skew(w), judge_skew),
    "w_exp": (make("omega"), lambda w: se3().w_exp(w), lambda ctx, op, k, y, what: judge_rotation(ctx, k[0], y, what)),
    "w_exp_vmat": (make("omega"), lambda w: se3().w_exp_vmat(w), judge_both),
    "w_to_v": (make("omega"), lambda w: se3().w_to_v(w), lambda ctx, op, k, y, what: judge_v(ctx, k[0], y, what)),
    "w_to_v_inv": (make("omega", False), lambda w: se3().w_to_v_inv(w), judge_v_inv),
    "se3_exp_map_om": (make("twist"), lambda x: se3().se3_exp_map_om(x), judge_exp),
    "se3_exp_map_split": (make("twist"), lambda x: se3().se3_exp_map_split(x), judge_split),
    "se3_exp_map_quat": (make("twist", False), lambda x: se3().se3_exp_map_quat(x), judge_quat),
    "se3_log_map_om": (make("om"), lambda m: se3().se3_log_map_om(m), judge_log),
    "se3_log_map_split": (make("split"), lambda m, t: se3().se3_log_map_split(m, t), judge_log),
    "se3_log_map_quat": (make("quat"), lambda q, t: se3().se3_log_map_quat(q, t), judge_log),
    "se3_exp_map_om:gradient": (make("grad"), gradient(lambda x: se3().se3_exp_map_om(x)[..., :3, :]), judge_grad),
    "se3_exp_map_split:gradient": (make("grad"), gradient(lambda x: torch.cat([se3().se3_exp_map_split(x)[0], se3().se3_exp_map_split(x)[1][..., None]], -1)), judge_grad),
}


def generate(r, tier):
    return _kern.generate(r, list(SPECS))


def execute(plan, ctx):
    _kern.execute(plan, ctx, SPECS)
