"""C33 sphere maps: square, hexagon and angles to directions and back, in every batch, layout, history, failure and thread."""
import math

import torch

from .. import seams
from . import _kern

RULE = (
    "one run = a seeded history of 3-12 equal-area maps (square and hexagon to hemisphere and back, side-by-side hemispheres, angles) of ordinary and border points and directions, with batch shapes, precisions and memory layouts changing "
    "between calls, failing allocations, and two to three threads mapping the same arrays; every result is compared with the float64 ring-and-side construction; non-trivial = a call after another call, failure or preemption"
)
COMPONENTS = {"real": ["ebsdtorch.s2_and_so3.sphere", "ebsdtorch.utils.rosca_lambert", "ebsdtorch.crystallography.kvectors (maps)", "TorchScript interpreter", "torch CPU kernels", "real Python threads, one released at a time"], "stub": _kern.STUB}
MODULES = ["ebsdtorch.s2_and_so3.sphere", "ebsdtorch.utils.rosca_lambert", "ebsdtorch.crystallography.kvectors"]
DEEP_SHRINK = True
R3 = math.sqrt(3)


def sphere():
    return seams.repo("ebsdtorch.s2_and_so3.sphere")


def utils():
    return seams.repo("ebsdtorch.utils.rosca_lambert")


def kv():
    return seams.repo("ebsdtorch.crystallography.kvectors")


# reference: rings of the square and the hexagon keep the area they enclose, azimuth is linear along a side


def from_polar(rho, t):
    """rho: square root of 1 - cos(declination)"""
    r = rho * torch.sqrt((2 - rho * rho).clamp(min=0))
    return torch.stack([r * torch.cos(t), r * torch.sin(t), 1 - rho * rho], -1)


def ring_square(p):
    a, b = p.unbind(-1)
    rho = p.abs().amax(-1)
    s = torch.where(rho > 0, rho, torch.ones_like(rho))
    q = math.pi / 4
    t = torch.where(
        a.abs() >= b.abs(), torch.where(a > 0, q * b / s, math.pi - q * b / s), torch.where(b > 0, 2 * q - q * a / s, -2 * q + q * a / s)
    )
    return rho, t


def ring_hexagon(p):
    x, y = p.unbind(-1)
    t = torch.atan2(y, x) % (2 * math.pi)
    c = torch.floor(t / (math.pi / 3)) * math.pi / 3 + math.pi / 6
    r = torch.hypot(x, y)
    h, l = r * torch.cos(t - c), r * torch.sin(t - c)
    return h / (R3 / 2), c + torch.where(h > 0, l / h.clamp(min=1e-300), torch.zeros_like(h)) * R3 * math.pi / 6


def to_square(v):
    """point of the square for the direction, ignoring the sign of z"""
    rho = torch.sqrt((v[..., :2] ** 2).sum(-1) / (1 + v[..., 2].abs()))
    t = torch.atan2(v[..., 1], v[..., 0])
    k = torch.round(t / (math.pi / 2))
    s = (t - k * math.pi / 2) / (math.pi / 4)
    k = k.long() % 4
    one = torch.ones_like(s)
    a = torch.where(k == 0, one, torch.where(k == 1, -s, torch.where(k == 2, -one, s)))
    b = torch.where(k == 0, s, torch.where(k == 1, one, torch.where(k == 2, -s, -one)))
    return torch.stack([a, b], -1) * rho[..., None]


def rng(op, k=0):
    return torch.Generator().manual_seed((op["seed"] * 5 + k) & 0x7FFFFFFF)


def dt(op):
    return _kern.dtype(op)


def square(op):
    p = 2 * torch.rand(tuple(op["shape"]) + (2,), generator=rng(op), dtype=torch.float64) - 1
    k = torch.randint(0, 9, p.shape[:-1], generator=rng(op, 1))
    p = torch.where((k == 0)[..., None], p.round(), p)  # centre, corners, middles of sides
    p = torch.where((k == 1)[..., None], p / p.abs().amax(-1, keepdim=True).clamp(min=1e-9), p)  # sides
    p = torch.where((k == 2)[..., None], torch.sign(p) * p.abs().amax(-1, keepdim=True), p)  # diagonals
    p = torch.where((k == 3)[..., None], p * torch.tensor([1.0, 0], dtype=torch.float64), p)
    p = torch.where((k == 4)[..., None], p * torch.tensor([0.0, -1], dtype=torch.float64), p)
    p = torch.where((k == 5)[..., None], p * 1e-5, p)
    return [p.to(dt(op))]


def hexagon(op):
    g = rng(op)
    n = tuple(op["shape"])
    s = torch.randint(0, 6, n, generator=g).double()
    h, l = torch.rand(n, generator=g, dtype=torch.float64), 2 * torch.rand(n, generator=g, dtype=torch.float64) - 1
    k = torch.randint(0, 8, n, generator=g)
    h = torch.where(k == 0, torch.ones_like(h), torch.where(k == 1, torch.zeros_like(h), torch.where(k == 2, h * 1e-5, h)))
    l = torch.where(k == 3, l.sign(), torch.where(k == 4, torch.zeros_like(l), l))
    h, l = h * R3 / 2, h * l / 2
    c = s * math.pi / 3 + math.pi / 6
    return [torch.stack([h * torch.cos(c) - l * torch.sin(c), h * torch.sin(c) + l * torch.cos(c)], -1).to(dt(op))]


def directions(op):
    v = torch.randn(tuple(op["shape"]) + (3,), generator=rng(op), dtype=torch.float64)
    k = torch.randint(0, 9, v.shape[:-1], generator=rng(op, 1))
    r = torch.randint(-1, 2, v.shape, generator=rng(op, 2)).double()
    r = torch.where(r.abs().amax(-1, keepdim=True) > 0, r, torch.ones_like(r))
    v = torch.where((k <= 1)[..., None], r, v)
    v = torch.where((k == 2)[..., None], v * torch.tensor([1.0, 1, 0], dtype=torch.float64), v)
    v = torch.where((k == 3)[..., None], v * torch.tensor([1e-4, 1e-4, 1], dtype=torch.float64), v)
    v = torch.where((k == 4)[..., None], v[..., :1] * torch.tensor([1.0, -1, 0], dtype=torch.float64) + v * torch.tensor([0.0, 0, 1], dtype=torch.float64), v)
    v = v / v.norm(dim=-1, keepdim=True)
    return [v.to(dt(op))]


def angles(op):
    v = directions(op)[0].double()
    t, p = torch.acos(v[..., 2].clamp(-1, 1)), torch.atan2(v[..., 1], v[..., 0])
    return [t.to(dt(op)), p.to(dt(op))]


def basics(ctx, y, x, n, what):
    want = x.shape[:-1] + (n,)
    ctx.check(tuple(y.shape) == tuple(want), f"{what}:shape", lambda: f"{tuple(y.shape)} instead of {tuple(want)}")
    ctx.check(y.dtype == x.dtype, f"{what}:dtype", str(y.dtype))
    ctx.check(bool(torch.isfinite(y).all()), f"{what}:not-finite", lambda: f"for {x[~torch.isfinite(y).all(-1)].tolist()[:2]}")


def judge_lift(ring):
    def judge(ctx, op, keep, y, what):
        p = keep[0]
        basics(ctx, y, p, 3, what)
        want = from_polar(*ring(p.double()))
        d = (y.double() - want).norm(dim=-1)
        tol = 4e-6 if y.dtype == torch.float32 else 1e-12
        if ring is ring_hexagon:  # at the tips a rounded point lies in the next sextant or outside
            tol *= 4
        ctx.check(bool((d < tol).all()), f"{what}:direction", lambda: f"{p[d == d.max()].tolist()[:1]} became {y[d == d.max()].tolist()[:1]} instead of {want[d == d.max()].tolist()[:1]}")

    return judge


def flat_error(y, want, x):
    """distance in the square; near the pole single directions hold 1 - z to rounding only"""
    d = (y - want).abs().amax(-1)
    e = 1.2e-7 if x.dtype == torch.float32 else 2.3e-16
    rho = torch.sqrt(((x.double()[..., :2] ** 2).sum(-1) / (1 + x.double()[..., 2].abs())).clamp(min=0))
    return d - (8 * e + torch.minimum(4 * e / rho.clamp(min=1e-300), torch.full_like(rho, 2.5 * math.sqrt(e))))


def judge_flat(ctx, op, keep, y, what):
    v = keep[0]
    basics(ctx, y, v, 2, what)
    want = to_square(v.double())
    over = flat_error(y.double(), want, v)
    ctx.check(bool((over <= 0).all()), f"{what}:point", lambda: f"{v[over == over.max()].tolist()[:1]} became {y[over == over.max()].tolist()[:1]} instead of {want[over == over.max()].tolist()[:1]}")


def judge_sides(ctx, op, keep, y, what):
    v = keep[0]
    basics(ctx, y, v, 2, what)
    want = to_square(v.double())
    south = v[..., 2] < 0
    Y = y.double().clone()
    ctx.check(bool(((y[..., 0] <= 1e-6) | south).all()) and bool(((y[..., 0] >= -1e-6) | ~south).all()), f"{what}:side")
    Y[..., 0] = (Y[..., 0] + torch.where(south, -0.5, 0.5)) * 2
    over = flat_error(Y, want, v)
    over = over - (2e-7 if y.dtype == torch.float32 else 1e-15)
    ctx.check(bool((over <= 0).all()), f"{what}:point", lambda: f"{v[over == over.max()].tolist()[:1]} became {y[over == over.max()].tolist()[:1]}")


def judge_there_and_back(ctx, op, keep, y, what):
    judge_flat(ctx, op, keep, y[0], what)
    v = keep[0]
    basics(ctx, y[1], y[0], 3, what)
    want = v.double() * torch.cat([torch.ones_like(v[..., :2]), torch.sign(v[..., 2:])], -1).double()
    d = (y[1].double() - want).norm(dim=-1)
    e = 1.2e-7 if v.dtype == torch.float32 else 2.3e-16
    # rounding of z moves directions near the pole, rounding of the point those near the edge
    ctx.check(bool((d < 6 * math.sqrt(e)).all()), f"{what}:not-inverse", lambda: f"{v[d == d.max()].tolist()[:1]} came back as {y[1][d == d.max()].tolist()[:1]}")


def judge_angles(ctx, op, keep, y, what):
    v = keep[0]
    basics(ctx, y, v, 2, what)
    x = v.double()
    t, p = y.double().unbind(-1)
    e = 1e-6 if y.dtype == torch.float32 else 1e-14
    r = torch.hypot(x[..., 0], x[..., 1])
    ctx.check(bool(((t - torch.atan2(r, x[..., 2])).abs() < 4 * e).all()), f"{what}:declination")
    off = torch.hypot(r * torch.cos(p) - x[..., 0], r * torch.sin(p) - x[..., 1])
    ctx.check(bool((off < 4 * e).all()), f"{what}:azimuth")


def judge_xyz(ctx, op, keep, y, what):
    t, p = (k.double() for k in keep)
    basics(ctx, y, keep[0][..., None], 3, what)
    want = torch.stack([torch.sin(t) * torch.cos(p), torch.sin(t) * torch.sin(p), torch.cos(t)], -1)
    ctx.check(bool(((y.double() - want).abs() < (1e-6 if y.dtype == torch.float32 else 1e-14)).all()), f"{what}:direction")


def round_trip(v):
    p = sphere().rosca_lambert(v)
    return [p, sphere().inv_rosca_lambert(p)]


SPECS = {
    "inv_rosca_lambert": (square, lambda x: sphere().inv_rosca_lambert(x), judge_lift(ring_square)),
    "rosca_lambert": (directions, lambda x: sphere().rosca_lambert(x), judge_flat),
    "rosca_lambert:back": (directions, round_trip, judge_there_and_back),
    "rosca_lambert_side_by_side": (directions, lambda x: sphere().rosca_lambert_side_by_side(x), judge_sides),
    "xyz_to_theta_phi": (directions, lambda x: sphere().xyz_to_theta_phi(x), judge_angles),
    "theta_phi_to_xyz": (angles, lambda t, p: sphere().theta_phi_to_xyz(t, p), judge_xyz),
    "square_to_hemisphere": (square, lambda x: utils().square_to_hemisphere(x), judge_lift(ring_square)),
    "square_to_hemisphere_v2": (square, lambda x: utils().square_to_hemisphere_v2(x), judge_lift(ring_square)),
    "hexagon_to_hemisphere": (hexagon, lambda x: utils().hexagon_to_hemisphere(x), judge_lift(ring_hexagon)),
    "kvectors:square_to_hemisphere": (square, lambda x: kv().square_to_hemisphere(x), judge_lift(ring_square)),
    "kvectors:hexagon_to_hemisphere": (hexagon, lambda x: kv().hexagon_to_hemisphere(x), judge_lift(ring_hexagon)),
}


def generate(r, tier):
    return _kern.generate(r, list(SPECS))


def execute(plan, ctx):
    _kern.execute(plan, ctx, SPECS)
