"""C35 mutual information of images: exact for the binned values, in every batch, layout, history, failure and thread."""
import math

import torch

from .. import seams
from . import _kern

RULE = (
    "one run = a seeded history of 3-12 mutual informations of single images, of batches (paired and broadcast) and of all shifts of small images (also within masks) with 2-64 bins, extreme and constant values, every normalisation, unit and bin exclusion, precisions and memory "
    "layouts changing between calls, failing allocations, wrong batches in between, and two to three threads using the same images; every value is compared with one computed in float64 from the levels; "
    "non-trivial = a call after another call, failure or preemption"
)
COMPONENTS = {"real": ["ebsdtorch.utils.mutual_information ", "TorchScript interpreter", "torch CPU kernels", "real Python threads, one released at a time"], "stub": _kern.STUB}
MODULES = ["ebsdtorch.utils.mutual_information"]
DEEP_SHRINK = True
NORMS = ["none", "Kvalseth Sum", "Kvalseth Min", "Kvalseth Max", "Yao", "Strehl-Ghosh", "Logarithmic"]


def mod():
    return seams.repo("ebsdtorch.utils.mutual_information")


def rng(op, k=0):
    return torch.Generator().manual_seed((op["seed"] * 5 + k) & 0x7FFFFFFF)


def levels(op, bins, k, like=None):
    """integer levels (B, n) of the pixels of every image, with the end values where they lie exactly"""
    B = 1 if op["wide"] == k + 1 else op["shape"][0]
    n = op["npix"]
    g = rng(op, 10 * k)
    lev = torch.randint(0, bins, (B, n), generator=g)
    if like is not None:  # images related to the other ones
        same = torch.rand(B, n, generator=g) < torch.rand(B, 1, generator=g)
        o = (like * bins).div(op["bins"][0], rounding_mode="floor").expand(max(B, len(like)), n)[:B]
        lev = torch.where(same, o, lev)
        if op["rel"] == "same" and bins == op["bins"][0]:
            lev = o.clone()
        if op["rel"] == "mirror":
            lev = bins - 1 - o
    flat = torch.rand(B, generator=g) < 0.1
    lev = torch.where(flat[:, None], lev[:, :1], lev)
    if op["rel"] == "few":
        lev = lev // max(1, bins // 2) * max(1, bins // 2)
    return lev.clamp(0, bins - 1)


def values(lev, bins, op, k):
    """pixel values in the middle of their bins, some at the very ends of [0, 1]"""
    x = (lev.double() + 0.5) / bins
    e = torch.rand(lev.shape, generator=rng(op, 3 + k)) < 0.3
    x = torch.where(e & (lev == 0), torch.zeros_like(x), x)
    return torch.where(e & (lev == bins - 1), torch.ones_like(x), x)


def plogp(h):
    p = h.double() / h.sum()
    p = p[p > 0]
    return float(-(p * p.log()).sum())


def entropies(la, lb, na, nb, drop=False):
    j = torch.bincount(la * nb + lb, minlength=na * nb).reshape(na, nb)
    if drop:
        j = j[1:, 1:]
    if int(j.sum()) == 0:
        return None
    return plogp(j.sum(1)), plogp(j.sum(0)), plogp(j)


def make_batch(op):
    n = op["bins"][0]
    la = levels(op, n, 0)
    lb = levels(op, n, 1, la)
    out = []
    for k, lev in enumerate((la, lb)):
        x = values(lev, n, op, k)
        if op["normalize"]:
            # the smallest and largest values are the ends of the range
            const = (lev == lev[:, :1]).all(-1)
            x[:, 0], x[:, -1] = torch.where(const, x[:, 0], 0.0), torch.where(const, x[:, 0], 1.0)
            x = torch.where(const[:, None], x[:, :1], x)
            x = x * (0.1 + 50 * torch.rand(len(x), 1, generator=rng(op, 7 + k), dtype=torch.float64)) + torch.randn(len(x), 1, generator=rng(op, 8 + k), dtype=torch.float64)
        out.append(x.to(_kern.dtype(op)))
    return out + [n, op["normalize"]]


def bins_of(x, n, normalize):
    x = x.double()
    if normalize:
        lo, hi = x.min(-1, keepdim=True).values, x.max(-1, keepdim=True).values
        x = (x - lo) / torch.where(hi > lo, hi - lo, 1.0)
    return (x * n).floor().long().clamp(0, n - 1)


def judge_batch(ctx, op, keep, y, what):
    a, b, n, normalize = keep
    B = max(len(a), len(b))
    ctx.check(tuple(y.shape) == (B,), f"{what}:shape", str(tuple(y.shape)))
    la, lb = (bins_of(x, n, normalize).expand(B, -1) for x in (a, b))
    for i in range(B):
        ea, eb, ej = entropies(la[i], lb[i], n, n)
        got, want = float(y[i]), ea + eb - ej
        ctx.check(math.isfinite(got) and abs(got - want) <= 5e-5, f"{what}:value", lambda: f"{got} instead of {want}")


def make_pair(op):
    na, nb = op["bins"]
    la = levels(op, na, 0)[0]
    lb = levels(op, nb, 1, la[None])[0]
    h = 2 if op["npix"] % 2 == 0 else 1
    xs = [values(lev, n, op, k).to(_kern.dtype(op)).reshape(h, -1) for k, (lev, n) in enumerate(((la, na), (lb, nb)))]
    return xs + [na, nb, op["mode"], op["norm"], op["drop"]]


def make_batch_nmi(op):
    na, nb = op["bins"]
    la = levels(op, na, 0)
    lb = levels(op, nb, 1, la)
    h = 2 if op["npix"] % 2 == 0 else 1
    xs = [values(lev, n, op, k).to(_kern.dtype(op)).reshape(len(lev), h, -1) for k, (lev, n) in enumerate(((la, na), (lb, nb)))]
    return xs + [na, nb, op["mode"], op["norm"], op["drop"]]


def normalised(ctx, x, y, na, nb, mode, norm, drop, got, what):
    lx, ly = bins_of(x.reshape(-1), na, False), bins_of(y.reshape(-1), nb, False)
    e = entropies(lx, ly, na, nb, drop)
    if e is None:  # no pixel is left
        return
    ex, ey, ej = e
    mi = ex + ey - ej
    scale = 1 / math.log(2) if mode == "bits" else 1.0
    tol = 5e-5
    if norm == "none":
        want, tol = mi * scale, tol * scale
    else:
        log_mean = ey
        if norm == "Logarithmic" and min(ex, ey) > 0.05 and abs(ex - ey) > 1e-6:
            log_mean = (ex - ey) / (math.log(ex) - math.log(ey))
            tol += 3e-6 / abs(ex - ey)
        by = {"Kvalseth Sum": (ex + ey) / 2, "Kvalseth Min": min(ex, ey), "Kvalseth Max": max(ex, ey), "Yao": ej, "Strehl-Ghosh": math.sqrt(max(ex * ey, 0)), "Logarithmic": log_mean}[norm]
        if min(ex, ey) <= 0.05:  # an image of (nearly) one level carries no information to relate to
            return
        want, tol = mi / by, tol / by
    ctx.check(math.isfinite(got) and abs(got - want) <= tol, f"{what}:value", lambda: f"{got} instead of {want} ({norm}, {mode})")


def judge_pair(ctx, op, keep, y, what):
    normalised(ctx, *keep, float(y), what)


def judge_batch_nmi(ctx, op, keep, y, what):
    a, b = keep[:2]
    B = max(len(a), len(b))
    ctx.check(tuple(y.shape) == (B,), f"{what}:shape", str(tuple(y.shape)))
    for i in range(B):
        normalised(ctx, a[i % len(a)], b[i % len(b)], *keep[2:], float(y[i]), what)


def make_cross(op):
    nd, ns = op["bins"][0] % 20 + (op["bins"][0] % 20 < 2) * 2, op["bins"][1] % 20 + (op["bins"][1] % 20 < 2) * 2
    h, w = op["hw"]
    D, C = (1 if op["wide"] == k + 1 else op["shape"][0] for k in (0, 1))
    g = rng(op, 1)
    ld = torch.randint(0, nd, (D, h, w), generator=g)
    ls = torch.randint(0, ns, (C, h, w), generator=g)
    if op["rel"] == "same":  # the same scene, moved
        ls = (ld[:1] * ns).div(nd, rounding_mode="floor").expand(C, h, w).roll((op["seed"] % h, op["seed"] % w), (-2, -1)).clone()
    if op["rel"] == "few":
        ld = torch.zeros_like(ld)
    x, y = values(ld, nd, op, 0).to(_kern.dtype(op)), values(ls, ns, op, 1).to(_kern.dtype(op))
    masks = [(torch.rand(D if k == 0 else C, h, w, generator=g) < op["mask"][k]).to(_kern.dtype(op)) if op["mask"][k] < 1 else None for k in (0, 1)]
    if op["seed"] % 2:
        x, y = x[:, None], y[:, None]
    return [x, y, masks[0], masks[1], nd, ns, op["chunk"], op["const"], op["norm"]]


def entropy_of(h):
    p = h / h.sum(-1, keepdim=True)
    return -(torch.where(p > 0, p * p.clamp(min=1e-300).log(), torch.zeros_like(p))).sum(-1)


def judge_cross(ctx, op, keep, got, what):
    x, y, mx, my, nd, ns, _, const, norm = keep
    h, w = x.shape[-2:]
    D, C = len(x), len(y)
    ctx.check(tuple(got.shape) == (D, C, h, w), f"{what}:shape", str(tuple(got.shape)))
    one = lambda x, n, m: torch.nn.functional.one_hot(bins_of(x.reshape(-1, h, w), n, False), n).movedim(-1, 1).double() * (1.0 if m is None else m.reshape(-1, 1, h, w).double())  # noqa: E731
    od, os_ = one(x, nd, mx), one(y, ns, my)
    joint = torch.stack([torch.stack([torch.einsum("dihw,cjhw->dcij", od.roll((-(a - h // 2), -(b - w // 2)), (-2, -1)), os_) for b in range(w)], -1) for a in range(h)], -2).permute(0, 1, 4, 5, 2, 3)
    total = joint.sum((-2, -1))
    ej = entropy_of(joint.flatten(-2))
    if const:
        e = entropy_of(od.sum((-2, -1)))[:, None, None, None].expand(D, C, h, w)
        f = entropy_of(os_.sum((-2, -1)))[None, :, None, None].expand(D, C, h, w)
    else:
        e, f = entropy_of(joint.sum(-1)), entropy_of(joint.sum(-2))
    mi = (e + f - ej).clamp(min=0.0)
    mi = torch.where(total > 0, mi, torch.zeros_like(mi)).nan_to_num(0.0)
    tol = torch.full_like(mi, 1e-4)
    ok = total > 0 if const else torch.ones_like(mi, dtype=torch.bool)  # nothing is said where nothing overlaps
    if norm != "none":
        ok = (total > 0) & (torch.minimum(e, f) > 0.05) & (ej > 0.05)
        mean = torch.where((e - f).abs() > 1e-3, (e - f) / (e.log() - f.log()), f)
        by = {"Kvalseth Sum": (e + f) / 2, "Kvalseth Min": torch.minimum(e, f), "Kvalseth Max": torch.maximum(e, f), "Yao": ej, "Strehl-Ghosh": (e * f).sqrt(), "Logarithmic": mean}[norm]
        mi = torch.where(ok, mi / by, mi)
        tol = tol / by.clamp(min=0.05) + (3e-3 if norm == "Logarithmic" else 0)
    bad = ok & ~((got.double() - mi).abs() <= tol)
    ctx.check(not bool(bad.any()), f"{what}:value", lambda: f"{got[bad][:3].tolist()} instead of {mi[bad][:3].tolist()} ({norm})")


SPECS = {
    "mutual_information": (make_batch, lambda a, b, n, z: mod().mutual_information(a, b, n_bins=n, normalize=z), judge_batch),
    "binned_nmi": (make_pair, lambda x, y, na, nb, m, z, d: mod().binned_nmi(x, y, na, nb, mode=m, norm_mode=z, exclude_lowest_bin=d), judge_pair),
    "batch_binned_nmi": (make_batch_nmi, lambda x, y, na, nb, m, z, d: mod().batch_binned_nmi(x, y, na, nb, mode=m, norm_mode=z, exclude_lowest_bin=d), judge_batch_nmi),
    "cmif": (
        make_cross,
        lambda x, y, mx, my, nd, ns, c, k, z: mod().cmif(x, y, dst_ind=mx, src_ind=my, bins_dst=nd, bins_src=ns, chunk_size=c, constant_marginal=k, norm_mode=z),
        judge_cross,
    ),
}
BAD = {
    "batches": _kern.reject(lambda: mod().mutual_information(torch.rand(2, 8), torch.rand(3, 8), 4), "mutual_information:batches-of-two-and-three"),
    "nmi-batches": _kern.reject(lambda: mod().batch_binned_nmi(torch.rand(2, 8), torch.rand(3, 8), 4, 4), "batch_binned_nmi:batches-of-two-and-three"),
    "sizes": _kern.reject(lambda: mod().cmif(torch.rand(1, 4, 5), torch.rand(1, 5, 4)), "cmif:images-of-different-sizes"),
    "norm": _kern.reject(lambda: mod().binned_nmi(torch.rand(8), torch.rand(8), 4, 4, norm_mode="?"), "binned_nmi:unknown-normalisation"),
}


def extra(r):
    bins = r.choice([2, 3, 4, 5, 8, 13, 16, 32, 49, 64, 64, 200, 256, 300] if r.random() < 0.3 else [2, 3, 4, 5, 8, 13, 16, 32, 49, 64])
    return dict(
        bins=[bins, bins if r.random() < 0.5 else r.choice([2, 3, 7, 16, 31])],
        npix=70000 if r.random() < 0.02 else r.choice([2, 3, 16, 17, 60, 256, 900, 5000]),
        wide=r.choice([0, 0, 0, 1, 2]),
        rel=r.choice(["some", "some", "same", "mirror", "few"]),
        normalize=r.random() < 0.6,
        mode=r.choice(["nats", "bits"]),
        norm=r.choice(["none"] * 3 + NORMS),
        drop=r.random() < 0.3,
        row=False,
        hw=[r.randint(1, 7), r.randint(1, 7)],
        mask=[r.choice([1.0, 1.0, 0.6]), r.choice([1.0, 1.0, 0.6])],
        chunk=r.choice([1, 2, 8]),
        const=r.random() < 0.3,
    )


def generate(r, tier):
    return _kern.generate(r, list(SPECS), shapes=[[1], [1], [2], [3], [5]], bad=BAD, extra=extra)


def execute(plan, ctx):
    _kern.execute(plan, ctx, SPECS, BAD)
