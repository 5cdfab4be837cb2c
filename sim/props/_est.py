"""Streaming estimators of the code under test, one interface."""
import copy

import torch

from .. import seams
from ..common import gen, same_bits
from . import _cov

DT = {"float32": torch.float32, "float64": torch.float64}
KINDS = ["cov", "kras", "oja", "oja++"]


def gen_cfg(r, kinds=KINDS):
    kind = r.choice(kinds)
    d = r.choice([1, 2, 3, 5, 8, 12])
    return dict(
        kind=kind,
        d=d,
        k=r.randint(1, min(d, 6)),
        dt=r.choice(["float32", "float32", "float64"]),
        eta=r.choice([0.5, 0.5, 0.05, 2.0]),
        corr=r.random() < 0.3,
        dseed=r.randrange(2**31),
        iseed=r.randrange(2**31),
    )


def build(cfg, seed=None):
    torch.manual_seed(cfg["iseed"] if seed is None else seed)
    d = max(1, cfg["d"])
    k = max(1, min(cfg["k"], d))
    if cfg["kind"] == "cov":
        return seams.repo("ebsdtorch.utils.pca_covmat").OnlineCovMatrix(d, covmat_dtype=DT[cfg["dt"]], delta_dtype=DT[cfg["dt"]], correlation=bool(cfg["corr"]))
    m = seams.repo("ebsdtorch.utils.pca_online")
    if cfg["kind"] == "kras":
        return m.KrasulinaPCA(d, k, eta=cfg["eta"], dtype=DT[cfg["dt"]])
    return m.OjaPCA(d, k, eta=cfg["eta"], dtype=DT[cfg["dt"]], use_oja_plus=cfg["kind"] == "oja++")


def batch(cfg, j, size):
    d = max(1, cfg["d"])
    g = gen(cfg["dseed"] * 7919 + j * 104729 + 13)
    basis = torch.randn(d, d, generator=gen(cfg["dseed"]), dtype=torch.float64)
    Q, _ = torch.linalg.qr(basis)
    scale = 0.6 ** torch.arange(d, dtype=torch.float64)
    return (torch.randn(size, d, generator=g, dtype=torch.float64) * scale @ Q.T).to(DT[cfg["dt"]])


def state(m):
    return {k: v.clone() for k, v in m.state_dict().items()}


def outputs(cfg, m, probe):
    """Everything a user can observe without changing the estimator."""
    out = []
    if cfg["kind"] == "cov":
        out = [m.get_covmat()]
    else:
        z = m.transform(probe)
        out = [z, m.inverse_transform(z), m.get_components()]
    return [o.clone() for o in out]


def equal(a, b):
    return all(same_bits(x, y) for x, y in zip(a, b)) and len(a) == len(b)


def same_state(a, b):
    return a.keys() == b.keys() and all(same_bits(a[k], b[k]) for k in a)
