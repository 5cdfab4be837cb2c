"""C38 blurring and downsampling keep size, level and position: in every image size, history, layout, failure and thread."""
import math

import torch

from .. import seams
from ..common import must_reject
from . import _kern

RULE = (
    "one run = a seeded history of 3-12 calls of Gaussian blurs (several widths, cut-offs and borders) and of blur-and-downsample (several factors, both interpolations) on images of odd, even, small and long shapes; each filter is used "
    "again after a failing allocation, a rejected image, a restore, and by two to three threads at once; every result is compared with a float64 model that applies one matrix per axis; non-trivial = a call after another call, failure or preemption"
)
COMPONENTS = {"real": ["ebsdtorch.preprocessing.resampling", "torch CPU kernels", "real Python threads, one released at a time"], "stub": _kern.STUB}
MODULES = ["ebsdtorch.preprocessing.resampling"]
DEEP_SHRINK = True
PARAMS = {"blur": ["sigma", "z", "mirror"], "down": ["factor", "mode", "corners"]}
SHAPES = [[1], [1], [2], [3], [5]]


def rs():
    return seams.repo("ebsdtorch.preprocessing.resampling")


def image(op):
    g = torch.Generator().manual_seed(op["seed"] % (2**31))
    h, w = op["size"]
    kind = op["kind"]
    x = torch.randn(op["shape"][0], 1, h, w, generator=g, dtype=torch.float64)
    if kind == "level":
        x = torch.ones_like(x) * 3.7
    elif kind == "spot":
        x = torch.zeros_like(x)
        x.view(-1)[op["seed"] % x.numel()] = 1.0
    elif kind == "ramp":
        x = x * 0 + torch.arange(w) + 2 * torch.arange(h)[:, None]
    return x.to(_kern.dtype(op))


def reach(sigma, z):
    return math.floor(z * sigma + 0.5 + 1e-9)


def blur_matrix(n, sigma, z, mirror):
    k = reach(sigma, z)
    j = torch.arange(-k, k + 1, dtype=torch.float64)
    g = torch.exp(-(j**2) / (2 * sigma**2))
    g = g / g.sum()
    m = torch.zeros(n, n, dtype=torch.float64)
    for i in range(n):
        for d, v in zip(range(-k, k + 1), g.tolist()):
            s = i + d
            if mirror:
                s = -s if s < 0 else s
                s = 2 * (n - 1) - s if s > n - 1 else s
            if 0 <= s < n:
                m[i, s] += v
    return m


def resize_matrix(n, out, mode, corners):
    m = torch.zeros(out, n, dtype=torch.float64)
    a = -0.75

    def near(t):
        return (a + 2) * t**3 - (a + 3) * t**2 + 1

    def far(t):
        return a * t**3 - 5 * a * t**2 + 8 * a * t - 4 * a

    for i in range(out):
        if corners:
            s = i * (n - 1) / (out - 1) if out > 1 else 0.0
        else:
            s = (i + 0.5) * n / out - 0.5
        if mode == "bilinear":
            s = max(s, 0.0)
        f = math.floor(s)
        t = s - f
        taps = [(f, 1 - t), (f + 1, t)] if mode == "bilinear" else [(f - 1, far(t + 1)), (f, near(t)), (f + 1, near(1 - t)), (f + 2, far(2 - t))]
        for p, v in taps:
            m[i, min(max(p, 0), n - 1)] += v
    return m


def apply(a, x, b):
    return a @ x.double() @ b.T


_pool = {}


def build(op):
    """the filter of this run with these settings, possibly restored from its saved state"""
    R = rs()
    key = (op["fn"], op["dt"]) + tuple(op[k] for k in PARAMS[op["fn"]])
    args = [op[k] for k in PARAMS[op["fn"]]]
    fresh = lambda: (R.GaussianBlur2d if op["fn"] == "blur" else R.BlurAndDownsample)(*args).to(_kern.dtype(op))  # noqa: E731
    if key not in _pool:
        _pool[key] = fresh()
    elif op["restored"]:
        n = fresh()
        n.load_state_dict(_pool[key].state_dict())
        _pool[key] = n
    return _pool[key]


def sizes(op):
    h, w = op["size"]
    sigma, z = (op["sigma"], op["z"]) if op["fn"] == "blur" else (2 * op["factor"] / 6, 3)
    return h, w, sigma, z


def make(op):
    h, w, sigma, z = sizes(op)
    if (op["fn"] == "down" or op["mirror"]) and reach(sigma, z) >= min(h, w):
        return None  # mirroring would repeat
    if op["fn"] == "down" and min(h, w) < op["factor"]:
        return None
    return [build(op), image(op)]


def judge(ctx, op, keep, y, what):
    x = keep[1]
    h, w, sigma, z = sizes(op)
    b = len(x)
    mirror = op["mirror"] if op["fn"] == "blur" else True
    want = apply(blur_matrix(h, sigma, z, mirror), x[:, 0], blur_matrix(w, sigma, z, mirror))
    if op["fn"] == "down":
        f = op["factor"]
        oh, ow = (math.floor(s / f + 1e-9) for s in (h, w))
        want = apply(resize_matrix(h, oh, op["mode"], op["corners"]), want, resize_matrix(w, ow, op["mode"], op["corners"]))
    ctx.check(tuple(y.shape) == (b, 1) + tuple(want.shape[1:]), f"{what}:size", lambda: f"an image of {h} x {w} became {tuple(y.shape[2:])}")
    ctx.check(y.dtype == x.dtype, f"{what}:dtype", str(y.dtype))
    e = float((y[:, 0].double() - want).abs().max())
    ctx.check(e <= 6e-6 * (1 + float(x.double().abs().max())), f"{what}:value", lambda: f"{h} x {w}: off by {e:.3e}")


def small(ctx, op):
    must_reject(ctx, lambda: rs().GaussianBlur2d(2.0)(torch.zeros(1, 1, 4, 4)), "accepted-small-image")


def channels(ctx, op):
    must_reject(ctx, lambda: rs().GaussianBlur2d(1.0)(torch.zeros(1, 2, 9, 9)), "accepted-two-channels")


SPECS = {"blur": (make, lambda m, x: m(x), judge), "down": (make, lambda m, x: m(x), judge)}


def side(r):
    return r.choice([r.randint(1, 9), r.randint(6, 24), r.randint(6, 24), r.choice([32, 41, 60])])


def settings(r):
    return dict(sigma=r.choice([0.3, 0.5, 0.7, 1.0, 1.3, 2.0, 3.1]), z=r.choice([1, 2, 3, 3, 4]), mirror=r.random() < 0.6, factor=r.choice([1.0, 1.5, 2.0, 2.0, 2.5, 3.0, 4.0, 5.0]), mode=r.choice(["bicubic", "bicubic", "bilinear"]), corners=r.random() < 0.3)


def generate(r, tier):
    # few filters and sides, so that a filter sees several images and sizes return
    filters = [settings(r) for _ in range(r.choice([1, 1, 2, 3]))]
    sides = [side(r) for _ in range(r.choice([2, 2, 3, 5]))]

    def extra(r):
        return dict(r.choice(filters), size=[r.choice(sides), r.choice(sides)], kind=r.choice(["noise", "noise", "level", "spot", "ramp"]), restored=r.random() < 0.2)

    return _kern.generate(r, list(SPECS), shapes=SHAPES, extra=extra, bad=["small"])


def execute(plan, ctx):
    _pool.clear()
    _kern.execute(plan, ctx, SPECS, {"small": small})
