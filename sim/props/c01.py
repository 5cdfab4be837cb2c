"""C01 streaming nearest neighbours: any arrival schedule gives the exact answer."""
import torch

from ..common import Reuse, must_reject
from ..core import clip_partition, partition
from . import _knn as K

RULE = (
    "one run = one matcher, one seeded data set, a seeded partition of the data into arriving chunks and, per chunk, a "
    "seeded delivery of all queries (whole, or disjoint slices in any order), with reads in between; non-trivial = more than one data or query chunk"
)
COMPONENTS = {"real": ["ebsdtorch.utils.knn (all)", "torch CPU kernels incl. int8 dynamic quantisation"], "stub": []}
CFG_MIN = {"n": 1, "q": 1, "d": 1, "topk": 1, "dseed": 0}


def gen_schedule(r, cfg):
    ops = []
    sizes = partition(r, cfg["n"])
    if cfg.get("reuse") and cfg["n"] > 1 and r.random() < 0.6:
        # a buffer of one size, as a stream is read
        z = r.randint(1, max(1, cfg["n"] // 2))
        sizes = [min(z, cfg["n"] - i) for i in range(0, cfg["n"], z)]
    for size in sizes:
        if r.random() < 0.3:
            deliver = "all"
        else:
            sizes = partition(r, cfg["q"])
            sl, s = [], 0
            for z in sizes:
                sl.append([s, z])
                s += z
            r.shuffle(sl)
            deliver = sl
        ops.append(dict(size=size, deliver=deliver, read=r.random() < 0.3))
    return ops


def generate(r, tier):
    cfg = K.gen_cfg(r, quant=r.random() < 0.25)
    cfg["src32"] = r.random() < 0.3
    cfg["reuse"] = r.random() < 0.4
    return dict(cfg=cfg, ops=gen_schedule(r, cfg))


def slices(deliver, q):
    """Any (possibly shrunk) list of slices, completed to cover every query once."""
    covered, out = set(), []
    for s, z in deliver:
        rows = [i for i in range(s, min(q, s + z)) if i not in covered]
        if rows and rows == list(range(rows[0], rows[-1] + 1)):
            out.append((rows[0], len(rows)))
            covered |= set(rows)
    for i in range(q):
        if i not in covered:
            out.append((i, 1))
    return out


def execute(plan, ctx):
    cfg = plan["cfg"]
    X, Q = K.make(cfg)
    knn = K.build(cfg)
    must_reject(ctx, lambda: knn.query_all(Q), "accepted-query-without-data")
    must_reject(ctx, lambda: knn.query_chunk(Q[:1], 0), "accepted-query-without-data")
    ctx.faults.pop("invalid-call", None)
    ctx.nontrivial = False
    sizes = clip_partition([o["size"] for o in plan["ops"]], X.shape[0])
    seen = 0
    n_chunks = 0
    pool, qpool = (Reuse(), Reuse()) if cfg.get("reuse") else (torch.clone, torch.clone)  # one buffer for all chunks of a size, or a new tensor for each
    for j, size in enumerate(sizes):
        op = plan["ops"][j] if j < len(plan["ops"]) else dict(deliver="all", read=False)
        if size == 0:
            continue
        Xc = pool(X[seen : seen + size])
        Qc = Q.clone()
        knn.set_data_chunk(Xc)
        seen += size
        n_chunks += 1
        if op["deliver"] == "all":
            knn.query_all(Qc)
            ctx.log("data", size, "all")
            shape = 1
        else:
            sl = slices(op["deliver"], Q.shape[0])
            for s, z in sl:
                knn.query_chunk(qpool(Q[s : s + z]) if cfg.get("reuse") else Qc[s : s + z], s)
            ctx.log("data", size, sl)
            shape = len(sl)
        ctx.state(cfg["metric"], cfg["quant"], cfg["dtype"], min(size, 4), min(shape, 4), size < cfg["topk"], op["deliver"] == "all", n_chunks > 1)
        if size < cfg["topk"]:
            ctx.probe("chunk-smaller-than-topk")
        ctx.check(torch.equal(Xc, X[seen - size : seen]) and torch.equal(Qc, Q), "caller-data-modified")
        if n_chunks > 1 or shape > 1:
            ctx.nontrivial = True
        if op.get("read"):
            K.check_result(ctx, cfg, X, Q, seen, knn, label="midstream")
            ctx.probe("midstream-read")
    ctx.steps += n_chunks
    K.check_result(ctx, cfg, X, Q, seen, knn)
    K.check_result(ctx, cfg, X, Q, seen, knn, label="second-read")
