"""Indexing worlds: master patterns, detector, experiment and a float64 model of what a search has to find."""
import torch

from .. import seams
from ..common import data
from . import _mp
from .c24 import Model

EPS = {"float32": 6e-8, "float64": 1.2e-16, "float16": 1e-3}
DT = {"float32": torch.float32, "float64": torch.float64, "float16": torch.float16}


def rotate(q, v):
    """(N, 4), (P, 3) -> (N, P, 3), v turned by q, float64"""
    q, v = q.double()[:, None, :], v.double()[None]
    w, u = q[..., :1], q[..., 1:]
    u, v = torch.broadcast_tensors(u, v)
    t = 2 * torch.linalg.cross(u, v, dim=-1)
    return v + w * t + torch.linalg.cross(u, t, dim=-1)


def gen_world(r, phases=None, resolutions=(16.0, 24.0, 32.0, 45.0)):
    n_ph = phases or r.choice([1, 1, 1, 2, 3])
    return dict(
        phases=[dict(laue=r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 11]), seed=r.randrange(2**31), amp=r.choice([1.0, 1.0, 1.3])) for _ in range(n_ph)],
        S=r.choice([12, 16]),
        hw=r.choice([[4, 4], [6, 6], [4, 8], [8, 6]]),
        pc=[round(r.uniform(0.3, 0.7), 3), round(r.uniform(0.2, 0.8), 3), round(r.uniform(0.4, 0.8), 3)],
        tilt=r.choice([70.0, 70.0, 60.0]),
        vec=r.choice([None, None, [round(r.uniform(-0.05, 0.05), 4) for _ in range(6)]]),
        opt=[r.random() < 0.3] * 3,
        pats=[r.choice(["rand", "dict", "dict", "const", "rand"]) for _ in range(r.choice([1, 2, 3, 5, 8, 13]))],
        grid=r.random() < 0.3,
        seed=r.randrange(2**31),
        res=r.choice(list(resolutions)),
    )


def level_rims(x, n=2):
    """both hemispheres with the same level near the equator, so that the side a direction on it falls on makes no difference"""
    x = x.clone()
    S = x.shape[0]
    rim = torch.ones(S, S, dtype=torch.bool)
    rim[n:-n, n:-n] = False
    x[torch.cat([rim, rim], 1)] = 0.0
    return x


class World:
    rims = True

    def __init__(self, w):
        self.w = w
        MP = _mp.cls()
        G = seams.repo("ebsdtorch.ebsd.geometry").EBSDGeometry
        E = seams.repo("ebsdtorch.ebsd.experiment_pats").ExperimentPatterns
        self.H, self.W = w["hw"]
        S = w["S"]
        self.imgs = []
        for p in w["phases"]:
            x = data(p["seed"], (S, 2 * S), "normal")
            x = torch.nn.functional.avg_pool2d(x[None, None], 3, 1, 1)[0, 0] * 2 * p["amp"]
            self.imgs.append((level_rims(x) if self.rims else x).float())
        with seams.sim_locks():
            self.mps = [MP(i.clone(), laue_group=p["laue"]) for i, p in zip(self.imgs, w["phases"])]
        self.g = G(
            (self.H, self.W), tilts_degrees=(0.0, w["tilt"], 0.0), proj_center=tuple(w["pc"]),
            se3_vector=None if w["vec"] is None else torch.tensor(w["vec"]), opt_rots=tuple(w["opt"]), opt_shifts=tuple(w["opt"]),
        )
        self.model = Model(dict(H=self.H, W=self.W, sx=0.0, sy=w["tilt"], dt=0.0, pc=w["pc"], vec=w["vec"], rots=w["opt"], shifts=w["opt"]))
        n = max(1, len(w["pats"]))
        pats = data(w["seed"], (n, self.H, self.W), "normal")
        for i, k in enumerate(w["pats"]):
            p = (w["seed"] + i) % len(self.imgs)
            if k == "dict":
                q = self.dictionary(p, w["res"])
                j = (w["seed"] // 7 + 31 * i) % len(q)
                s = self.sims(p, q[j : j + 1], 1)[0].reshape(self.H, self.W)
                pats[i] = s * (1.0 + 0.5 * (i % 3)) + 0.02 * pats[i] + 0.3
            elif k == "const":
                pats[i] = 0.25
        self.pats = pats.float()
        self.n = n
        shape = (n, self.H, self.W) if not w["grid"] or n % 2 else (2, n // 2, self.H, self.W)
        self.e = E(self.pats.clone().reshape(shape))
        self._cache = {}

    def directions(self, b):
        v = self.model.project(self.model.pixels([b, b]))
        return v / v.norm(dim=-1, keepdim=True)

    def sims(self, p, q, b, align=False):
        """simulated patterns (n, pixels), float64"""
        v = rotate(q, self.directions(b))
        return _sample(self.imgs[p], v, b, align)

    def dictionary(self, p, res):
        f = seams.repo("ebsdtorch.s2_and_so3.laue_fz_ori").sample_ori_fz_laue_angle
        return f(laue_id=self.w["phases"][p]["laue"], angular_resolution_deg=res, device=torch.device("cpu"), permute=False)

    def binnings(self):
        return [b for b in (1, 2) if self.H % b == 0 and self.W % b == 0 and self.w["S"] % b == 0]

    def exp(self, b, mask=None, subtract=True):
        x = _mp_bin(self.pats.double(), b).reshape(self.n, -1)
        if mask is not None:
            x = x[:, mask.flatten()]
        if subtract:
            x = x - x.mean(1, keepdim=True)
        return x

    def snapshot(self):
        return dict(
            pats=self.e.patterns.clone(), mps=[m.master_pattern.clone() for m in self.mps],
            geo={k: v.clone() for k, v in self.g.state_dict().items()},
        )

    def check_unchanged(self, ctx, s, what):
        ctx.check(torch.equal(self.e.patterns, s["pats"]), f"{what}:patterns-changed", "the experimental patterns were modified")
        for m, x in zip(self.mps, s["mps"]):
            ctx.check(torch.equal(m.master_pattern, x), f"{what}:master-pattern-changed", "")
        for k, v in self.g.state_dict().items():
            ctx.check(torch.equal(v, s["geo"][k]), f"{what}:geometry-changed", k)


def _mp_bin(x, b):
    n, H, W = x.shape
    return x.reshape(n, H // b, b, W // b, b).mean(dim=(2, 4)) if b > 1 else x


def _sample(img, v, b, align):
    img = img.double()
    if b > 1:
        img = _mp.binned(img, b)
    shape = v.shape[:-1]
    X, Y, _ = _mp.lambert(v.reshape(-1, 3))
    return _mp.sample(img, X, Y, align).reshape(shape)


def interp_error(world, p):
    """bound on the float32 interpolation error of one simulated pixel"""
    img = world.imgs[p]
    return 3e-6 * max(img.shape) * float(img.max() - img.min())


def scores(metric, D, Q):
    if metric == "angular":
        return Q @ D.T
    if metric == "euclidean":
        return ((Q[:, None] - D[None]) ** 2).sum(-1)
    return (Q[:, None] - D[None]).abs().sum(-1)


def tolerance(metric, D, Q, dtype, quant, ie):
    d = D.shape[1]
    sx, sq = float(D.abs().max()), float(Q.abs().max())
    s = sx + sq
    scale = {"angular": sx * sq, "euclidean": s * s, "manhattan": s}[metric] * (d + 2)
    rel = {"angular": sq, "euclidean": 4 * s, "manhattan": 1.0}[metric] * d * ie
    if quant and metric == "angular":
        # one step of the 7 bit activations and one of the 8 bit weights
        dq, dx = 2 * sq / 127 + 6.2e-5, 2 * sx / 127 + 6.2e-5
        return rel + float(D.abs().sum(1).max()) * dq + float(Q.abs().sum(1).max()) * dx + d * dq * dx + 1e-9
    eps = EPS[dtype]
    if metric == "euclidean":
        eps = max(eps, 6e-8)
    return rel + (16 if eps < 1e-4 else 4) * eps * scale + 1e-9


def locate(q, dic):
    """row of dic equal to each quaternion of q (up to sign), and the distance to it"""
    d1 = torch.cdist(q.double(), dic.double())
    d2 = torch.cdist(q.double(), -dic.double())
    d = torch.minimum(d1, d2)
    v, i = d.min(1)
    return i, v


def check_best(ctx, world, e, per_phase, metric, tol, topk, what):
    """per_phase: list of (dictionary quaternions, true scores (n_exp, n_dict))."""
    big = metric == "angular"
    sgn = 1.0 if big else -1.0
    best = torch.stack([(sgn * T).max(1).values for _, T in per_phase]).max(0).values
    ori, met = e.get_orientations(), e.best_metrics.double()
    n = world.n
    ctx.check(tuple(ori.shape) == (n, 4) and tuple(met.shape) == (n,), f"{what}:shape", f"{tuple(ori.shape)} {tuple(met.shape)}")
    rows = e.get_indices_per_phase()
    ph = torch.full((n,), -1)
    for k, idx in enumerate(rows):
        ctx.check(bool((ph[idx.long()] == -1).all()), f"{what}:phase-rows", "a pattern has several phases")
        ph[idx.long()] = k
    ctx.check(bool(((ph >= 0) & (ph < len(per_phase))).all()), f"{what}:phase", f"phases {ph.tolist()} of {len(per_phase)}")
    for k, (dic, T) in enumerate(per_phase):
        sel = torch.nonzero(ph == k).squeeze(-1)
        if not len(sel):
            continue
        i, dist = locate(ori[sel], dic)
        ctx.check(bool((dist < 1e-5).all()), f"{what}:orientation-not-in-dictionary", lambda: f"phase {k}: distance {dist.tolist()}")
        got = sgn * T[sel, i]
        short = best[sel] - got
        ctx.check(bool((short <= 2 * tol).all()), f"{what}:not-best", lambda: f"phase {k} patterns {sel.tolist()} fall short by {short.tolist()} tol {tol:.2e}")
        err = (met[sel] - T[sel, i]).abs()
        ctx.check(bool((err <= tol).all()), f"{what}:metric", lambda: f"phase {k} reported {met[sel].tolist()} true {T[sel, i].tolist()} tol {tol:.2e}")
    raw = getattr(e, "raw_indexing_results", None)
    if topk > 1 and raw is not None:
        for k, (dic, T) in enumerate(per_phase):
            q, m = raw[k]
            kk = min(topk, len(dic))
            ctx.check(tuple(q.shape) == (n, topk, 4), f"{what}:topk-shape", f"{tuple(q.shape)}")
            top = torch.sort(sgn * T, dim=1, descending=True).values[:, :kk]
            for j in range(n):
                i, dist = locate(q[j, :kk], dic)
                ctx.check(bool((dist < 1e-5).all()), f"{what}:topk-not-in-dictionary", f"pattern {j}")
                ctx.check(len(set(i.tolist())) == kk, f"{what}:topk-duplicate", f"pattern {j}: {i.tolist()}")
                got = torch.sort(sgn * T[j, i], descending=True).values
                ctx.check(bool((top[j] - got <= 2 * tol).all()), f"{what}:topk-not-best", lambda: f"pattern {j}: {got.tolist()} best {top[j].tolist()} tol {tol:.2e}")
    gap = 0
    for _, T in per_phase:
        s = torch.sort(sgn * T, dim=1, descending=True).values
        if s.shape[1] > 1:
            gap += int((s[:, 0] - s[:, 1] > 4 * tol).sum())
    ctx.probe("decided-pattern", gap)
