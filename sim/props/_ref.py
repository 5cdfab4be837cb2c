"""Refinement worlds: patterns with known phases and start orientations deep inside the zone."""
import math

import torch

from .. import seams
from ..common import data
from . import _idx, _mp, c33
from ._rot import qmul
from .c25 import group


def gen_world(r, smooth=False, sym=False):
    W = _idx.gen_world(r, phases=r.choice([1, 1, 2, 3]))
    W["pats"] = [r.choice(["near", "near", "exact", "rand", "const"]) for _ in range(r.choice([1, 1, 2, 3, 5, 8]))]
    P = len(W["phases"])
    W["assign"] = [r.randrange(P) for _ in W["pats"]] if r.random() < 0.7 else [r.randrange(P)] * len(W["pats"])
    W["start"] = round(r.choice([0.0, 3.0, 10.0]), 2)
    W["off"] = round(r.uniform(0.3, 4.0), 2)
    W["scan"] = r.random() < 0.3
    W["smooth"] = smooth
    W["sym"] = sym and r.random() < 0.5
    if W["sym"]:  # symmetric images, starts anywhere in the zone, many next to its border
        W["S"] = r.choice([24, 32])
        W["border"] = r.choice([0.0, 0.5, 1.0])
    return W


def axis_angle(seed, n, deg):
    v = data(seed, (n, 3))
    v = v / v.norm(dim=1, keepdim=True)
    h = math.radians(deg) / 2
    return torch.cat([torch.full((n, 1), math.cos(h), dtype=torch.float64), math.sin(h) * v], 1)


def symmetric_image(seed, laue, S):
    """smooth function on the sphere with the symmetry of the group and of inversion, on the pixels of the refinement"""
    k = 4.0 / (2 * S - 1)
    c = torch.arange(2 * S, dtype=torch.float64) * k
    x = torch.where(torch.arange(2 * S) < S, c - 1, c - 3)
    y = torch.arange(S, dtype=torch.float64) * 2 / (S - 1) - 1
    p = torch.stack(torch.broadcast_tensors(x[None], y[:, None]), -1)
    v = c33.from_polar(*c33.ring_square(p))
    v[:, S:, 2] *= -1
    g = group(laue)
    centres = data(seed, (6, 3))
    centres = centres / centres.norm(dim=1, keepdim=True)
    amps = data(seed + 1, (6,))
    width = 6.0 + 2.0 * len(g) ** 0.5
    f = torch.zeros(S, 2 * S, dtype=torch.float64)
    for a, m in zip(amps, centres):
        for d in _idx.rotate(g, m[None])[:, 0]:
            for s in (1, -1):
                f += a * torch.exp(width * (s * (v @ d) - 1))
    f = f - f.mean()
    return (0.6 * f / f.std()).float()


def reduced(q, laue):
    """(n, 4) equivalents with the largest real part, float64"""
    c = qmul(group(laue)[None], q.double()[:, None])
    j = c[..., 0].abs().argmax(1)
    q = c[torch.arange(len(q)), j]
    return torch.where(q[:, :1] < 0, -q, q)


def margin(q, laue):
    """how much the real part exceeds those of all equivalents; negative outside the zone"""
    w = qmul(group(laue)[None], q.double()[:, None])[..., 0].abs()
    return w[:, 0] - (w[:, 1:].amax(1) if w.shape[1] > 1 else torch.full_like(w[:, 0], -1.0))


class RefWorld(_idx.World):
    """sample: the interpolation of the master pattern the refinement uses"""

    rims = False

    def __init__(self, w, mode="bilinear"):
        ww = dict(w, pats=["rand" if p in ("near", "exact") else p for p in w["pats"]])
        super().__init__(ww)
        self.mode = mode
        n = self.n
        if w.get("smooth"):
            for k, x in enumerate(self.imgs):
                y = x[None, None]
                for _ in range(2):
                    y = torch.nn.functional.avg_pool2d(torch.nn.functional.pad(y, (1, 1, 1, 1), mode="replicate"), 3, 1)
                self.imgs[k] = (y[0, 0] * 3).contiguous()
                with seams.sim_locks():
                    self.mps[k] = _mp.cls()(self.imgs[k].clone(), laue_group=w["phases"][k]["laue"])
        self.sym = bool(w.get("sym"))
        if self.sym:
            for k, p in enumerate(w["phases"]):
                self.imgs[k] = symmetric_image(p["seed"], p["laue"], w["S"])
                with seams.sim_locks():
                    self.mps[k] = _mp.cls()(self.imgs[k].clone(), laue_group=p["laue"])
        P = len(self.mps)
        self.assign = torch.tensor([(w["assign"][i] if i < len(w["assign"]) else 0) % P for i in range(n)])
        self.q0 = axis_angle(w["seed"] + 5, n, w["start"]).float()
        self.q0 = self.q0 / self.q0.norm(dim=1, keepdim=True)
        if self.sym:
            self.q0 = self.starts(w["border"]).float()
        self.scan = None
        if w["scan"]:
            # scan positions in detector pixel units
            self.scan = data(w["seed"] + 9, (n, 2), "positive").float() * 2 - 1
        true = qmul(axis_angle(w["seed"] + 6, n, w["off"]), self.q0.double())
        pats = self.pats.clone()
        for i, k in enumerate(w["pats"]):
            if k in ("near", "exact"):
                s = self.one(i, (true if k == "near" else self.q0.double())[i : i + 1], 1)[0].reshape(self.H, self.W)
                pats[i] = (s + 0.1).float()
        self.pats = pats
        E = seams.repo("ebsdtorch.ebsd.experiment_pats").ExperimentPatterns
        self.e = E(pats.clone())
        if self.scan is not None:
            self.e.set_spatial_coords(self.scan)
        self.store(self.e)

    def starts(self, border):
        """anywhere in the zone of the phase, a share next to its border"""
        n = self.n
        q = data(self.w["seed"] + 5, (n, 4))
        q = q / q.norm(dim=1, keepdim=True)
        u, d = data(self.w["seed"] + 8, (n,), "positive"), data(self.w["seed"] + 11, (n, 3))
        for i in range(n):
            laue = self.w["phases"][int(self.assign[i])]["laue"]
            x = reduced(q[i : i + 1], laue)
            if float(u[i] % 1.0) < border:
                # along the ray from the identity to the surface, then a little back
                ax, lo, hi = d[i] / d[i].norm(), 0.0, math.pi
                for _ in range(40):
                    m = (lo + hi) / 2
                    y = torch.cat([torch.tensor([math.cos(m / 2)], dtype=torch.float64), math.sin(m / 2) * ax])[None]
                    lo, hi = (m, hi) if float(margin(y, laue)) > 0 else (lo, m)
                m = max(0.0, lo - 1e-4 - 0.02 * float(u[i] % 0.1))
                x = torch.cat([torch.tensor([math.cos(m / 2)], dtype=torch.float64), math.sin(m / 2) * ax])[None]
            q[i] = x[0]
        return q

    def laue(self, i):
        return self.w["phases"][int(self.assign[i])]["laue"]

    def equivalents(self, i, q):
        """all orientations that mean the same for row i (images without symmetry: just itself)"""
        return qmul(group(self.laue(i)), q.double()[None]) if self.sym else q.double()[None]

    def store(self, e):
        """phases and start orientations, the way an indexing run leaves them"""
        for p in range(len(self.mps)):
            m = torch.where(self.assign == p, 1.0, 0.5)[:, None]
            e.set_raw_indexing_results(self.q0[:, None].clone(), m, p)
        e.combine_indexing_results(True)

    def vecs(self, b, i=None):
        v = self.model.project(self.model.pixels([b, b]))
        if i is not None and self.scan is not None and self.use_scan:
            v = v - torch.cat([self.scan[i].double(), torch.zeros(1, dtype=torch.float64)])
        return v / v.norm(dim=-1, keepdim=True)

    use_scan = True

    def one(self, i, q, b):
        """patterns of row i's phase and position at quaternions q, float64 (n, pixels)"""
        v = _idx.rotate(q, self.vecs(b, i))
        img = self.imgs[int(self.assign[i])].double()
        if b > 1:
            img = _mp.binned(img, b)
        X, Y, _ = _mp.lambert(v.reshape(-1, 3))
        if self.mode == "bilinear":
            s = _mp.sample(img, X, Y, True)
        else:
            s = torch.nn.functional.grid_sample(img[None, None], torch.stack([X, Y], -1)[None, None], mode=self.mode, padding_mode="border", align_corners=True)[0, 0, 0]
        return s.reshape(len(q), -1)
