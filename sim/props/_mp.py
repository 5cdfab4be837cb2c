"""Reference master pattern interpolation (float64, written from the documented mapping)."""
import math

import torch

from .. import seams
from ..common import data


def cls():
    return seams.repo("ebsdtorch.ebsd.master_pattern").MasterPattern


def dirs(n, seed, dtype=torch.float32, kind="normal", scale=1.0):
    v = data(seed, (n, 3))
    if kind == "poles" and n:
        v[:, :2] *= 10.0 ** -(torch.arange(n) % 5).double()[:, None]
    elif kind == "equator" and n:
        v[:, 2] *= 10.0 ** -(torch.arange(n) % 4).double()
    elif kind == "diag" and n:
        v[:, 1] = v[:, 0] * torch.where(torch.arange(n) % 2 == 0, 1.0, -1.0)
    elif kind == "axes" and n:
        e = torch.cat([torch.eye(3), -torch.eye(3)]).double()
        v = e[torch.arange(n) % 6]
    v = v / v.norm(dim=-1, keepdim=True)
    return (v * scale).to(dtype)


def lambert(v):
    """(..., 3) any length -> (x, y) on the side by side square, float64."""
    v = v.double()
    v = v / v.norm(dim=-1, keepdim=True)
    x, y, z = v.unbind(-1)
    f = torch.sqrt((2 * (1 - z.abs())).clamp_min(0))
    rho = torch.hypot(x, y)
    phi = torch.atan2(y, x)
    # equal area map of the hemisphere to the unit square: the longer axis carries
    # the radius, the shorter the angle from it
    sec = torch.round(phi / (math.pi / 2))
    a = f / math.sqrt(2.0)
    b = a * (phi - sec * math.pi / 2) * (4 / math.pi)
    s = sec.long() % 4
    X = torch.where(s == 0, a, torch.where(s == 1, -b, torch.where(s == 2, -a, b)))
    Y = torch.where(s == 0, b, torch.where(s == 1, a, torch.where(s == 2, -b, -a)))
    return X / 2 - 0.5 + (z < 0).double(), Y, f


def sample(img, X, Y, align):
    H, W = img.shape
    if align:
        px, py = (X + 1) / 2 * (W - 1), (Y + 1) / 2 * (H - 1)
    else:
        px, py = ((X + 1) * W - 1) / 2, ((Y + 1) * H - 1) / 2
    px, py = px.clamp(0, W - 1), py.clamp(0, H - 1)
    x0, y0 = px.floor().clamp_max(max(W - 2, 0)), py.floor().clamp_max(max(H - 2, 0))
    fx, fy = px - x0, py - y0
    x0, y0 = x0.long(), y0.long()
    x1, y1 = (x0 + 1).clamp_max(W - 1), (y0 + 1).clamp_max(H - 1)
    i = img
    return i[y0, x0] * (1 - fx) * (1 - fy) + i[y0, x1] * fx * (1 - fy) + i[y1, x0] * (1 - fx) * fy + i[y1, x1] * fx * fy


def binned(img, k):
    H, W = img.shape[0] // k, img.shape[1] // k
    return img[: H * k, : W * k].reshape(H, k, W, k).mean(dim=(1, 3))


def reference(img, v, vb=1, align=False):
    """value and per-point tolerance of a float32 evaluation"""
    img = img.double()
    if vb > 1:
        img = binned(img, vb)
    shape = v.shape[:-1]
    X, Y, f = lambert(v.reshape(-1, 3))
    val = sample(img, X, Y, align).reshape(shape)
    rng = float(img.max() - img.min()) if img.numel() else 0.0
    eps = 6e-8 if v.dtype == torch.float32 else 1.2e-16
    ce = 8 * eps / f.clamp_min(math.sqrt(eps)) + 16 * eps
    tol = 2 * ce * max(img.shape) * rng + 16 * eps * (float(img.abs().max()) if img.numel() else 0)
    return val, tol.reshape(shape)


def check(ctx, img, v, out, vb, align, what):
    ref, tol = reference(img, v, vb, align)
    ctx.check(tuple(out.shape) == tuple(v.shape[:-1]), f"{what}:shape", f"{tuple(out.shape)} for {tuple(v.shape)}")
    if out.numel() == 0:
        return
    err = (out.double() - ref).abs()
    bad = err > tol
    ctx.check(not bool(bad.any()), f"{what}:value", lambda: f"{int(bad.sum())} of {bad.numel()} directions, max error {float(err.max()):.3e}, binning {vb}")
