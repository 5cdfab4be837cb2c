import torch

from .. import seams
from ..common import data, gen

DT = {"float32": torch.float32, "float64": torch.float64}


def gen_cfg(r):
    return dict(
        n=r.choice([2, 3, 5, 10, 30, 80, 150]),
        d=r.choice([1, 2, 3, 5, 9, 16]),
        offset=r.choice([0, 0, 1, 30, 300, 1e4, -1e4]),
        spread=r.choice([1.0, 1.0, 1e-2, 40.0]),
        xdt=r.choice(["float32", "float32", "float64"]),
        cdt=r.choice(["float32", "float32", "float64"]),
        ddt=r.choice(["float32", "float32", "float64"]),
        corr=r.random() < 0.3,
        dseed=r.randrange(2**31),
    )


def make(cfg):
    n, d = max(1, cfg["n"]), max(1, cfg["d"])
    g = gen(cfg["dseed"])
    x = torch.randn(n, d, generator=g, dtype=torch.float64)
    if d > 1:  # correlated features of unlike variance
        mix = torch.randn(d, d, generator=g, dtype=torch.float64) / d**0.5 + torch.eye(d, dtype=torch.float64)
        x = x @ mix
    x = x * cfg["spread"] + float(cfg["offset"])
    return x.to(DT[cfg["xdt"]])


def build(cfg):
    return seams.repo("ebsdtorch.utils.pca_covmat").OnlineCovMatrix(
        max(1, cfg["d"]), covmat_dtype=DT[cfg["cdt"]], delta_dtype=DT[cfg["ddt"]], correlation=bool(cfg["corr"])
    )


def eps_of(cfg):
    return 6e-8 if "float32" in (cfg["xdt"], cfg["cdt"], cfg["ddt"]) else 1.2e-16


def check_stats(ctx, cfg, m, X, n_batches, label):
    """m has been fed exactly the rows X."""
    if X.shape[0] < 2:
        return
    X = X.double()
    ref = torch.cov(X.T).reshape(X.shape[1], X.shape[1])
    sig = torch.sqrt(torch.diag(ref).clamp_min(0))
    s, M = float(sig.max()), float(X.abs().max())
    eps = eps_of(cfg)
    tol = 40 * eps * (s * s + M * s + eps * M * M) * (1 + n_batches / 10)
    C = m.get_covmat()
    ctx.check(tuple(C.shape) == tuple(ref.shape), f"{label}:shape", f"{tuple(C.shape)}")
    C = C.double()
    if cfg["corr"]:
        if float(sig.min()) < 1e-3 * s or tol / float(sig.min()) ** 2 > 0.02:
            ctx.probe("correlation-ill-conditioned")
            return
        ref_out = ref / sig[:, None] / sig[None]
        tol_out = 4 * tol / float(sig.min()) ** 2 + 1e-5 * (eps > 1e-10)
    else:
        ref_out, tol_out = ref, tol
    err = float((C - ref_out).abs().max())
    ctx.check(err <= tol_out, f"{label}:covariance", lambda: f"max error {err:.3e} tolerance {tol_out:.3e} after {X.shape[0]} rows in {n_batches} batches, offset {cfg['offset']} spread {cfg['spread']}")
    V = m.get_eigenvectors()
    e2 = float((V.T @ V - torch.eye(V.shape[0], dtype=V.dtype)).abs().max())
    ctx.check(e2 < 1e-4, f"{label}:components-not-orthonormal", f"{e2}")
    V = V.double()
    D = V.T @ ref_out @ V
    lam = torch.diag(D)
    scale = float(ref_out.abs().max()) * X.shape[1]
    t3 = X.shape[1] * (2 * tol_out + 50 * eps * scale)
    off = float((D - torch.diag(lam)).abs().max())
    ctx.check(off <= t3, f"{label}:not-eigenvectors", lambda: f"off-diagonal {off:.3e} tol {t3:.3e}")
    ctx.check(bool((lam[1:] - lam[:-1] >= -2 * t3).all()), f"{label}:components-not-ascending", lambda: f"{lam.tolist()}")
