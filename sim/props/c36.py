"""C36 masks, pixel directions and deformed projections follow their geometry, in every batch, layout, history, failure and thread."""
import math

import torch

from .. import seams
from ..common import data
from . import _kern, _mp, _rot
from ._ref import qmul

RULE = (
    "one run = a seeded history of 3-12 radial masks, detector pixel grids (binned and with a periphery), directions of pixels (for dictionaries, for deformed crystals), projections of master patterns and conversions between pattern "
    "centres and rigid motions, with batch sizes, precisions and memory layouts changing between calls, failing allocations, invalid binnings in between, and two to three threads using the same arrays; every result is compared with "
    "float64 geometry; non-trivial = a call after another call, failure or preemption"
)
COMPONENTS = {
    "real": ["ebsdtorch.preprocessing.radial_mask", "ebsdtorch.ebsd.project_hrebsd", "ebsdtorch.ebsd.fitting (geometry functions)", "ebsdtorch.ebsd.geometry (pattern centre conversions)", "ebsdtorch.ebsd.master_pattern", "torch CPU kernels", "real Python threads, one released at a time"],
    "stub": _kern.STUB,
}
MODULES = ["ebsdtorch.preprocessing.radial_mask", "ebsdtorch.ebsd.project_hrebsd", "ebsdtorch.ebsd.fitting"]
DEEP_SHRINK = True
CPU = torch.device("cpu")


def fitting():
    return seams.repo("ebsdtorch.ebsd.fitting")


def hrebsd():
    return seams.repo("ebsdtorch.ebsd.project_hrebsd")


def rng(op, k=0):
    return torch.Generator().manual_seed((op["seed"] * 7 + k) & 0x7FFFFFFF)


def uni(op, shape, lo, hi, k):
    return lo + (hi - lo) * torch.rand(tuple(shape), generator=rng(op, k), dtype=torch.float64)


def eps(x):
    return 1.2e-7 if x.dtype == torch.float32 else 2.3e-16


def near(ctx, y, want, tol, what):
    ctx.check(tuple(y.shape) == tuple(want.shape), f"{what}:shape", lambda: f"{tuple(y.shape)} instead of {tuple(want.shape)}")
    d = (y.double() - want).abs()
    ctx.check(bool((d <= tol).all()), f"{what}:value", lambda: f"off by {float(d.nan_to_num(math.inf).max()):.3e}")


# radial mask -----------------------------------------------------------------
def make_mask(op):
    h, w = op["hw"]
    return [(h, w), [None, 0.0, 0.5, 1.0, 2.5, min(h, w) / 2, 100.0, 3.3][op["seed"] % 8], tuple(op["centre"])]


def judge_mask(ctx, op, keep, y, what):
    (h, w), radius, (a, b) = keep
    ctx.check(y.dtype == torch.bool and tuple(y.shape) == (h, w), f"{what}:shape", f"{y.dtype} {tuple(y.shape)}")
    r = min(h, w) / 2 if radius is None else radius
    d = (torch.arange(h).double()[:, None] - a * (h - 1)) ** 2 + (torch.arange(w).double()[None] - b * (w - 1)) ** 2
    exact = all(float(v * 4).is_integer() for v in (a * (h - 1), b * (w - 1), r))
    sure = torch.ones_like(y) if exact else (d - r * r).abs() > 1e-4 * (1 + r * r)
    bad = sure & (y != (d < r * r))
    ctx.check(not bool(bad.any()), f"{what}:pixels", lambda: f"{int(bad.sum())} pixels of {h}x{w}, radius {radius}, centre {a}, {b}")


# detector pixels -------------------------------------------------------------
def grid(h, w, b, pad=(0, 0, 0, 0)):
    """centres of binned pixels; pad = more of them (left, right, top, bottom)"""
    i = (torch.arange(-pad[2], h // b + pad[3]).double()) * b + (b - 1) / 2
    j = (torch.arange(-pad[0], w // b + pad[1]).double()) * b + (b - 1) / 2
    p = torch.stack(torch.meshgrid(i, j, indexing="ij"), -1).reshape(-1, 2)
    return torch.cat([p, torch.zeros_like(p[:, :1])], -1)


def shape_of(op):
    h, w = op["hw"]
    return h * op["b"], w * op["b"]


def judge_pixels(ctx, op, keep, y, what):
    (h, w), b, dt = keep
    ctx.check(y.dtype == dt, f"{what}:dtype", str(y.dtype))
    near(ctx, y, grid(h, w, b), 8 * eps(y) * (h + w), what)


def judge_periphery(ctx, op, keep, y, what):
    (h, w), b, (x0, x1, y0, y1), dt = keep
    p, pad, shape = y
    want = (int((x1 - 0.5) * w / b), int((0.5 - x0) * w / b), int((y1 - 0.5) * h / b), int((0.5 - y0) * h / b))
    ctx.check(tuple(pad) == want, f"{what}:padding", lambda: f"{tuple(pad)} instead of {want}")
    ctx.check(tuple(shape) == (h // b + want[2] + want[3], w // b + want[0] + want[1]), f"{what}:padded-shape", lambda: f"{tuple(shape)}")
    near(ctx, p, grid(h, w, b, want), 16 * eps(p) * (h + w + 4), what)


# directions ------------------------------------------------------------------
def pose(op, B):
    """twists that keep the detector in front of the sample"""
    x = uni(op, (B, 6), -1.0, 1.0, 1) * torch.tensor([1.0, 1.0, 1.0, 20.0, 20.0, 20.0], dtype=torch.float64)
    n = x[:, :3].norm(dim=-1, keepdim=True)
    x[:, :3] = x[:, :3] * torch.tensor([0.0, 1e-6, 0.5, 1.0, 1.0, 2.0], dtype=torch.float64)[torch.randint(0, 6, (B, 1), generator=rng(op, 2))] / n.clamp(min=0.3)
    return x


def expm(x):
    a, b, c = x[:, 0], x[:, 1], x[:, 2]
    z = torch.zeros_like(a)
    g = torch.stack([z, -c, b, x[:, 3], c, z, -a, x[:, 4], -b, a, z, x[:, 5], z, z, z, z], -1).reshape(-1, 4, 4)
    m = torch.matrix_exp(g)
    return m[:, :3, :3], m[:, :3, 3]


def unit(x):
    return x / x.norm(dim=-1, keepdim=True)


def deformed(q, f, p):
    """directions p (B, N, 3) in the crystal frame of orientations q, undone by the deformation"""
    v = torch.einsum("bij,bnj->bni", _rot.to_matrix(q), unit(p))
    return unit(torch.einsum("bij,bnj->bni", f, v))


def deformations(op, B):
    f = torch.eye(3, dtype=torch.float64).expand(B, 3, 3).clone()
    k = torch.randint(0, 4, (B,), generator=rng(op, 4))
    small = f + 0.02 * uni(op, (B, 3, 3), -1, 1, 5)
    large = f + 0.3 * uni(op, (B, 3, 3), -1, 1, 6)
    turn = _rot.to_matrix(_rot.rotations(op["seed"] + 3, [B]))
    for i in range(B):
        f[i] = [f[i], small[i], large[i], turn[i]][int(k[i])]
    return f


def make_hrebsd(op):
    B, dt = op["shape"][0], _kern.dtype(op)
    q = _rot.rotations(op["seed"], [B])
    x = pose(op, B)
    x[:, 5] = x[:, 5].abs() + 5  # pixels stay away from the source
    x[:, 5] += 2 * x[:, 3:5].norm(dim=-1)
    mask = [float(v) for v in torch.randint(0, 2, (6,), generator=rng(op, 8))]
    if mask[5] == 0.0 or op["seed"] % 3 == 0:
        mask = [1.0] * 6
    return [x.to(dt), q.to(dt), deformations(op, B).to(dt), tuple(mask), shape_of(op), op["b"], dt]


def call_hrebsd(x, q, f, mask, shape, b, dt):
    return hrebsd().hrebsd_coords(torch.tensor(mask, dtype=dt), x, q, f, shape, b, CPU, dt)


def sensitivity(p):
    """how far rounding of points of this size turns their direction"""
    return p.norm(dim=-1).amax() / p.norm(dim=-1, keepdim=True).clamp(min=1e-9)


def judge_hrebsd(ctx, op, keep, y, what):
    x, q, f, mask, (h, w), b, dt = keep
    x, q, f = x.double(), unit(q.double()), f.double()
    R, t = expm(x * torch.tensor(mask, dtype=torch.float64))
    p = torch.einsum("bij,nj->bni", R, grid(h, w, b)) + t[:, None]
    stretch = torch.linalg.norm(f, dim=(-2, -1)) / torch.linalg.svdvals(f)[:, -1].clamp(min=1e-3)
    size = (h + w + t.norm(dim=-1))[:, None, None]
    tol = 60 * eps(y) * stretch[:, None, None] * (1 + size / p.norm(dim=-1, keepdim=True))
    near(ctx, y, deformed(q, f, p), tol, what)
    still = (f == torch.eye(3, dtype=torch.float64)).all(-1).all(-1)
    if bool(still.any()):  # nothing deformed
        near(ctx, y[still], torch.einsum("bij,bnj->bni", _rot.to_matrix(q), unit(p))[still], tol[still], f"{what}:identity-deformation")
    turned = (torch.einsum("bij,bkj->bik", f, f) - torch.eye(3, dtype=torch.float64)).abs().amax((-2, -1)) < 1e-5
    if bool(turned.any()):  # a deformation that only turns the crystal
        r = _rot.from_matrix(f[turned]) if hasattr(_rot, "from_matrix") else None
        near(ctx, y[turned], torch.einsum("bij,bnj->bni", _rot.to_matrix(qmul(r, q[turned])), unit(p[turned])), tol[turned] + 1e-6, f"{what}:rotation-as-deformation")


def make_dictionary(op):
    B, dt = op["shape"][0], _kern.dtype(op)
    h, w = shape_of(op)
    x = pose(op, 1)
    R, t = expm(x)
    t = t + torch.tensor([0.0, 0.0, 30.0], dtype=torch.float64) * (1 if op["seed"] % 2 else -1)
    return [grid(h, w, op["b"]).to(dt), _rot.rotations(op["seed"], [B]).to(dt), R.to(dt), t.to(dt)]


def judge_dictionary(ctx, op, keep, y, what):
    p, q, R, t = (k.double() for k in keep)
    v = p @ R[0].T + t
    size = 1 + (p.norm(dim=-1).amax() + t.norm()) / v.norm(dim=-1, keepdim=True)
    want = torch.einsum("bij,nj->bni", _rot.to_matrix(unit(q)), unit(v))
    near(ctx, y, want, 60 * eps(keep[0]) * size, what)


def judge_apply(ctx, op, keep, y, what):
    p, _, R, t = (k.double() for k in keep)
    v = p @ R[0].T + t
    near(ctx, y, unit(v), 60 * eps(keep[0]) * (1 + (p.norm(dim=-1).amax() + t.norm()) / v.norm(dim=-1, keepdim=True)), what)


def make_project(op):
    B = op["shape"][0]
    S = [4, 6, 8, 12][op["seed"] % 4]
    img = data(op["seed"], (S, 2 * S), "positive", torch.float32)
    n = 2 * op["hw"][0] * op["hw"][1]
    v = _mp.dirs(B * n, op["seed"] + 1, torch.float32, ["normal", "poles", "equator", "diag", "axes"][op["seed"] % 5]).reshape(B, n, 3)
    return [img, v, op["vb"]]


def call_project(img, v, vb):
    with seams.sim_locks():
        mp = _mp.cls()(img.clone(), laue_group=1)
    return hrebsd().project_hrebsd(mp, v, virtual_binning=vb)


def judge_project(ctx, op, keep, y, what):
    img, v, vb = keep
    _mp.check(ctx, img, v, y, vb, False, what)


# pattern centres -------------------------------------------------------------
def make_centre(op):
    B, dt = op["shape"][0], _kern.dtype(op)
    pc = uni(op, (B, 3), 0.0, 1.0, 1)
    return [pc.to(dt), uni(op, (B,), -180.0, 180.0, 2).to(dt), uni(op, (B,), -89.0, 89.0, 3).to(dt), shape_of(op)]


def motion(pc, a, s, h, w):
    a, s = torch.deg2rad(a), torch.deg2rad(s)
    sa, ca, ss, cs = a.sin(), a.cos(), s.sin(), s.cos()
    z = torch.zeros_like(a)
    R = torch.stack([-sa, -ss * ca, cs * ca, z, cs, ss, -ca, ss * sa, -sa * cs], -1).reshape(-1, 3, 3)
    # the pattern centre in pixels from the centre of the first pixel, and the distance
    u, v, d = pc[:, 1] * h - 0.5, pc[:, 0] * w - 0.5, pc[:, 2] * h
    return R, torch.stack([v * ss * ca + u * sa + d * cs * ca, -v * cs + d * ss, -v * ss * sa + u * ca - d * sa * cs], -1)


def judge_to(ctx, op, keep, y, what):
    pc, a, s, (h, w) = keep
    R, t = motion(pc.double(), a.double(), s.double(), h, w)
    near(ctx, y[0], R, 60 * eps(pc), f"{what}:rotation")
    near(ctx, y[1], t, 60 * eps(pc) * (h + w), f"{what}:translation")


def make_motion(op):
    pc, a, s, (h, w) = make_centre(op)
    R, t = motion(pc.double(), a.double(), s.double(), h, w)
    return [R.to(pc.dtype), t.to(pc.dtype), (h, w)]


def judge_from(ctx, op, keep, y, what):
    R, t, (h, w) = keep
    pc, a, s = y
    ctx.check(tuple(pc.shape) == tuple(t.shape) and a.shape == t.shape[:-1] and s.shape == t.shape[:-1], f"{what}:shape", lambda: f"{tuple(pc.shape)} {tuple(a.shape)} {tuple(s.shape)}")
    R2, t2 = motion(pc.double(), a.double(), s.double(), h, w)
    near(ctx, R2, R.double(), 3000 * eps(R), f"{what}:tilts")
    near(ctx, t2, t.double(), 3000 * eps(R) * (h + w), f"{what}:centre")


SPECS = {
    "get_radial_mask": (make_mask, lambda s, r, c: seams.repo("ebsdtorch.preprocessing.radial_mask").get_radial_mask(s, r, c), judge_mask),
    "get_3D_pixel_coords": (lambda op: [shape_of(op), op["b"], _kern.dtype(op)], lambda s, b, dt: fitting().get_3D_pixel_coords(s, CPU, b, dt), judge_pixels),
    "get_3D_pixel_coords_with_periphery": (lambda op: [shape_of(op), op["b"], tuple(op["range"]), _kern.dtype(op)], lambda s, b, r, dt: fitting().get_3D_pixel_coords_with_periphery(s, CPU, *r, b, dt), judge_periphery),
    "hrebsd_coords": (make_hrebsd, call_hrebsd, judge_hrebsd),
    "generate_dictionary_coords": (make_dictionary, lambda p, q, R, t: fitting().generate_dictionary_coords(p, q, R, t), judge_dictionary),
    "apply_geometry": (make_dictionary, lambda p, q, R, t: fitting().apply_geometry(p, R, t), judge_apply),
    "project_hrebsd": (make_project, call_project, judge_project),
    "bruker_geometries_to_SE3": (make_centre, lambda pc, a, s, hw: fitting().bruker_geometries_to_SE3(pc, a, s, hw), judge_to),
    "bruker_geometry_to_SE3": (make_centre, lambda pc, a, s, hw: seams.repo("ebsdtorch.ebsd.geometry").bruker_geometry_to_SE3(pc, a, s, hw), judge_to),
    "fitting.bruker_geometry_from_SE3": (make_motion, lambda R, t, hw: fitting().bruker_geometry_from_SE3(R, t, hw), judge_from),
    "bruker_geometry_from_SE3": (make_motion, lambda R, t, hw: seams.repo("ebsdtorch.ebsd.geometry").bruker_geometry_from_SE3(R, t, hw), judge_from),
}


def bad_hrebsd(shape):
    e = torch.eye(3)[None]
    return lambda: hrebsd().hrebsd_coords(torch.ones(6), torch.ones(1, 6), torch.tensor([[1.0, 0, 0, 0]]), e, shape, 2, CPU)


BAD = {
    "height": _kern.reject(bad_hrebsd((5, 4)), "hrebsd_coords:binning-does-not-divide-height"),
    "width": _kern.reject(bad_hrebsd((4, 5)), "hrebsd_coords:binning-does-not-divide-width"),
}


def extra(r):
    return dict(
        hw=[r.randint(1, 9), r.randint(1, 9)],
        b=r.choice([1, 1, 2, 3, 4]),
        vb=r.choice([1, 1, 2]),
        centre=[r.choice([0.5, 0.5, 0.0, 1.0, 0.3, -0.2]), r.choice([0.5, 0.5, 0.0, 1.0, 0.71])],
        range=[r.choice([0.0, 0.2, 0.5]), r.choice([0.5, 0.7, 1.0]), r.choice([0.0, 0.25, 0.5]), r.choice([0.5, 0.6, 1.0])],
    )


def generate(r, tier):
    return _kern.generate(r, list(SPECS), shapes=[[1], [1], [2], [3], [5], [11]], bad=BAD, extra=extra)


def execute(plan, ctx):
    _kern.execute(plan, ctx, SPECS, BAD)
