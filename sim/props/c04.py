"""C04 streaming covariance: any batch schedule, any reads, gives the statistics of the whole set."""
import torch

from ..common import Reuse, gen, same_bits
from ..core import clip_partition, partition
from . import _cov

RULE = (
    "one run = one data set (offset, spread, dtypes) in a seeded row order, cut into seeded batches (including empty and single-row "
    "ones) with reads in between; non-trivial = more than one batch"
)
COMPONENTS = {"real": ["ebsdtorch.utils.pca_covmat", "torch CPU kernels"], "stub": []}
CFG_MIN = {"n": 2, "d": 1, "dseed": 0}


def generate(r, tier):
    cfg = _cov.gen_cfg(r)
    cfg["perm"] = r.choice([None, r.randrange(2**31)])
    cfg["reuse"] = r.random() < 0.4
    ops = []
    for size in partition(r, cfg["n"]):
        if r.random() < 0.15:
            ops.append(dict(size=0, read=r.random() < 0.5))
        ops.append(dict(size=size, read=r.random() < 0.3, layout=r.choice(["plain", "plain", "transposed", "strided"])))
    if r.random() < 0.15:
        ops.append(dict(size=0, read=True))
    return dict(cfg=cfg, ops=ops)


def execute(plan, ctx):
    cfg = plan["cfg"]
    X = _cov.make(cfg)
    if cfg.get("perm") is not None:
        X = X[torch.randperm(X.shape[0], generator=gen(cfg["perm"]))]
    m = _cov.build(cfg)
    seen = nb = 0
    kept = []
    pool = Reuse()
    sizes = clip_partition([o["size"] for o in plan["ops"]], X.shape[0])
    for j, size in enumerate(sizes):
        op = plan["ops"][j] if j < len(plan["ops"]) else dict(read=False)
        part = X[seen : seen + size]
        if op.get("layout") == "transposed":
            b = part.T.contiguous().T
        elif op.get("layout") == "strided":
            b = torch.stack([part, part + 1], dim=1)[:, 0]
        else:
            b = part.clone()
        if cfg.get("reuse"):
            b = pool(b)
        m(b)
        ctx.check(torch.equal(b, part), "batch-modified")
        seen += size
        nb += 1
        ctx.state(min(size, 3), min(nb, 5), op.get("layout"), abs(cfg["offset"]) > 100, cfg["xdt"], cfg["cdt"], cfg["ddt"], cfg["corr"])
        if size == 0:
            ctx.probe("empty-batch")
        if nb > 1:
            ctx.nontrivial = True
        if op["read"]:
            _cov.check_stats(ctx, cfg, m, X[:seen], nb, "midstream")
            if seen > 1:
                a = m.get_covmat()
                kept.append((a, a.clone()))
                ctx.check(same_bits(a, m.get_covmat()), "read-not-repeatable")
            ctx.probe("midstream-read")
    ctx.steps += nb
    _cov.check_stats(ctx, cfg, m, X[:seen], nb, "final")
    for a, b in kept:
        ctx.check(same_bits(a, b), "earlier-result-overwritten")
    if seen > 1:
        ctx.tensor("cov", m.get_covmat())
