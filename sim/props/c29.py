"""C29 orientation representations: a rotation stays the same rotation through every conversion, batch, layout, failure and thread."""
import math

import torch

from .. import seams
from . import _kern, _rot

RULE = (
    "one run = a seeded history of 3-12 conversions and conversion chains (quaternion, matrix, Bunge, axis-angle, Rodrigues, homochoric, cubochoric, 6D) of mixed ordinary and border rotations, with batch shapes, precisions and memory "
    "layouts changing between calls, failing allocations, and two to three threads converting the same arrays; every result is compared with a float64 reference of the rotation; non-trivial = a call after another call, failure or preemption"
)
COMPONENTS = {"real": ["ebsdtorch.s2_and_so3.orientations", "TorchScript interpreter", "torch CPU kernels", "real Python threads, one released at a time"], "stub": _kern.STUB}
MODULES = ["ebsdtorch.s2_and_so3.orientations"]
DEEP_SHRINK = True
REPS = ["qu", "om", "ax", "ro", "ho", "cu", "bu"]
PAIRS = [a + "2" + b for a in REPS for b in REPS if a != b] + ["zh2om", "om2zh", "zh2qu", "qu2zh"]
VARIANTS = ["ho2ax:slow", "ho2ax:kikuchipy", "ho2ax:EMsoft", "ho2ax:newton"]
BALL = float(_rot.ho_radius(torch.tensor(math.pi, dtype=torch.float64)))
EDGE = math.pi ** (2 / 3) / 2


def mod():
    return seams.repo("ebsdtorch.s2_and_so3.orientations")


def call(name):
    def go(x):
        m = mod()
        if ":" in name:
            v = name.split(":")[1]
            if v == "slow":
                return m.ho2ax(x, False)
            if v == "newton":
                return m.ho2ax_newton(x)
            return m.ho2ax_reference(x, v)
        return getattr(m, name)(x)

    return go


def make(rep):
    def go(op):
        q = _rot.rotations(op["seed"], op["shape"])
        x = _rot.from_q(rep, q)
        if rep == "ro":
            # half turns: infinite
            x[..., 3] = torch.where(q[..., 0] == 0, torch.full_like(x[..., 3], math.inf), x[..., 3])
        if rep == "qu" and op["seed"] % 2:  # the opposite quaternion is the same rotation
            x = torch.where(torch.rand(x.shape[:-1], generator=torch.Generator().manual_seed(op["seed"]), dtype=x.dtype)[..., None] < 0.5, x, -x)
        if rep == "bu" and op["seed"] % 2:  # so are Euler angles another turn away
            x = x + 2 * math.pi * torch.randint(-1, 2, x.shape, generator=torch.Generator().manual_seed(op["seed"])) * torch.tensor([1.0, 0.0, 1.0], dtype=x.dtype)
        if rep == "zh":
            # two vectors that need not be orthonormal
            x = x * (1 + op["seed"] % 3)
        return [x.to(_kern.dtype(op))]

    return go


def tolerance(a, what, f32, t):
    """allowed angle between the rotations given and got (t = rotation angle)"""
    eps = 1.2e-7 if f32 else 2.3e-16
    b = what[3:5]
    if ":" in what and what.split(":")[1] in ("kikuchipy", "EMsoft"):
        # published fits of the cosine: small angles are cut off, and rounding counts twofold there
        return torch.where(t < 0.05, 1.5e-3, 3e-5) + 0 * t if f32 else torch.where(t < 2.2e-4, t + 1e-7, 1e-7 + 0 * t)
    tol = 40 * eps * t.clamp(min=0.02)
    if {a, b} & {"om", "bu", "zh"}:
        tol = tol + 60 * eps
    if b == "ro":  # nearly half turns are stored as half turns
        tol = tol + (4e-7 if f32 else 4e-10)
    if a in ("ho", "cu") and b not in ("ho", "cu") and not what.startswith(("ho2ax:slow", "ho2ax:newton")):
        tol = tol + 5e-8 * t  # the Chebyshev fit
    return tol + (0 if f32 else 1e-13)


def verify(a, b):
    def judge(ctx, op, keep, y, what):
        x = keep[0]
        want = x.shape[: x.dim() - (2 if a == "om" else 1)] + {"om": (3, 3), "ho": (3,), "cu": (3,), "bu": (3,), "zh": (6,)}.get(b, (4,))
        ctx.check(tuple(y.shape) == tuple(want), f"{what}:shape", lambda: f"{tuple(y.shape)} instead of {tuple(want)}")
        ctx.check(y.dtype == x.dtype, f"{what}:dtype", str(y.dtype))
        if not y.numel():
            return
        f32 = y.dtype == torch.float32
        eps = 4e-6 if f32 else 1e-7 if ":" in what else 1e-9
        X, Y = x.double(), y.double()
        q = _rot.to_q(a, X)
        t = _rot.angle(q)
        fin = Y.clone()
        if b == "ro":
            fin[..., 3] = torch.where(fin[..., 3] == math.inf, torch.zeros_like(fin[..., 3]), fin[..., 3])
        ctx.check(bool(torch.isfinite(fin).all()), f"{what}:not-finite", lambda: f"rotation by {t[~torch.isfinite(fin.reshape(t.shape + (-1,))).all(-1)].tolist()[:3]}")
        if b == "qu":
            ctx.check(bool(((Y.norm(dim=-1) - 1).abs() < eps).all()), f"{what}:not-unit")
            if a != "qu":
                ctx.check(bool((Y[..., 0] >= -eps).all()), f"{what}:negative-real-part", lambda: f"{float(Y[..., 0].min())}")
        elif b == "om":
            ctx.check(bool(((Y @ Y.transpose(-1, -2) - torch.eye(3, dtype=torch.float64)).abs() < eps).all()) and bool((torch.linalg.det(Y) > 0).all()), f"{what}:not-a-rotation-matrix")
        elif b in ("ax", "ro"):
            ctx.check(bool(((Y[..., :3].norm(dim=-1) - 1).abs() < eps).all()), f"{what}:axis-not-unit", lambda: f"{Y[..., :3].norm(dim=-1).flatten().tolist()[:4]}")
            ctx.check(bool((Y[..., 3] >= 0).all()) and (b == "ro" or bool((Y[..., 3] <= math.pi + eps).all())), f"{what}:angle-range")
        elif b == "ho":
            ctx.check(bool((Y.norm(dim=-1) <= BALL + eps).all()), f"{what}:outside-the-ball")
        elif b == "cu":
            ctx.check(bool((Y.abs() <= EDGE * (1 + 1e-6) + eps).all()), f"{what}:outside-the-cube")
        elif b == "bu":
            ctx.check(bool((Y >= 0).all()) and bool((Y[..., ::2] <= 2 * math.pi + eps).all()) and bool((Y[..., 1] <= math.pi + eps).all()), f"{what}:angle-range")
        d = _rot.apart(q, _rot.to_q(b, Y))
        over = d - tolerance(a, what, f32, t)
        ctx.check(bool((over <= 0).all()), f"{what}:other-rotation", lambda: f"off by {float(d.flatten()[over.argmax()]):.3e} for a rotation by {float(t.flatten()[over.argmax()]):.9g} about {_rot.axis(q).reshape(-1, 3)[over.argmax()].tolist()}")

    return judge


SPECS = {n: (make(n[:2]), call(n), verify(n[:2], n[3:5])) for n in PAIRS + VARIANTS}


def generate(r, tier):
    return _kern.generate(r, list(SPECS))


def execute(plan, ctx):
    _kern.execute(plan, ctx, SPECS)
