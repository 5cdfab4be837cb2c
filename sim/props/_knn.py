import torch

from .. import seams
from ..common import CPU, data
from ..core import Violation

METRICS = ["angular", "euclidean", "manhattan"]
DT = {"float32": torch.float32, "float64": torch.float64, "float16": torch.float16}


def knn_cls():
    return seams.repo("ebsdtorch.utils.knn").ChunkedKNN


def gen_cfg(r, quant=False):
    metric = r.choice(METRICS)
    topk = r.choice([1, 1, 1, 2, 3, 5])
    n = r.choice([1, 2, 5, 17, 40, 75])
    cfg = dict(
        metric=metric,
        topk=topk,
        n=max(n, 1),
        q=r.choice([1, 2, 3, 6, 11]),
        d=r.choice([1, 2, 3, 4, 8, 33]),
        kind=r.choice(["ints", "ints", "dups", "normal", "normal", "big", "small", "positive", "negative", "equal"]),
        order=r.choice(["as-is", "as-is", "best-first", "best-last"]),
        dtype=r.choice(["float32", "float32", "float32", "float64", "float16"]),
        dseed=r.randrange(2**31),
        quant=quant,
    )
    if cfg["dtype"] == "float16" and cfg["kind"] not in ("ints", "dups", "equal"):
        cfg["kind"] = "ints"
    if cfg["dtype"] == "float16":
        cfg["d"] = min(cfg["d"], 8)
    if quant and r.random() < 0.6:
        cfg["metric"] = "angular"  # the only one that is quantised
    if quant and cfg["kind"] == "small":
        cfg["kind"] = "normal"
    return cfg


def make(cfg):
    n, q, d = max(1, cfg["n"]), max(1, cfg["q"]), max(1, cfg["d"])
    X = data(cfg["dseed"], (n, d), cfg["kind"])
    Q = data(cfg["dseed"] + 1, (q, d), cfg["kind"])
    if cfg["order"] != "as-is":
        s = truth(X, Q, cfg["metric"])[0]
        idx = torch.argsort(s, descending=(cfg["metric"] == "angular") == (cfg["order"] == "best-first"), stable=True)
        X = X[idx]
    dt = DT[cfg["dtype"]] if not cfg["quant"] else torch.float32
    # values as the matcher will see them
    src = torch.float32 if cfg.get("src32") else dt
    return X.to(src), Q.to(src)


def build(cfg):
    dt = DT[cfg["dtype"]]
    with seams.sim_locks():
        return knn_cls()(
            data_size=max(1, cfg["n"]),
            query_size=max(1, cfg["q"]),
            topk=max(1, cfg["topk"]),
            match_device=CPU,
            distance_metric=cfg["metric"],
            match_dtype=dt,
            quantized_via_ao=bool(cfg["quant"]),
        )


def truth(X, Q, metric):
    X, Q = X.double(), Q.double()
    if metric == "angular":
        return Q @ X.T
    if metric == "euclidean":
        return ((Q[:, None, :] - X[None]) ** 2).sum(-1)
    return (Q[:, None, :] - X[None]).abs().sum(-1)


def tolerance(X, Q, cfg):
    X, Q = X.double(), Q.double()
    sx = float(X.abs().max()) if X.numel() else 0.0
    sq = float(Q.abs().max()) if Q.numel() else 0.0
    d = X.shape[1]
    s = sx + sq + 1e-30
    scale = {"angular": sx * sq, "euclidean": s * s, "manhattan": s}[cfg["metric"]] * (d + 2)
    if cfg["quant"]:
        if cfg["metric"] == "angular":
            # one step of the 7 bit activations and one of the 8 bit weights, which are the entries; FBGEMM never uses an activation step below 6.1e-5
            dq, dx = 2 * sq / 127 + 6.2e-5, 2 * sx / 127 + 6.2e-5
            row = lambda Y: float(Y.abs().sum(1).max()) if Y.numel() else 0.0  # noqa: E731
            return row(X) * dq + row(Q) * dx + d * dq * dx + 1e-9
    eps = {"float32": 6e-8, "float64": 1.2e-16, "float16": 1e-3}[cfg["dtype"]]
    if cfg["kind"] in ("ints", "dups", "equal"):
        return 1e-9
    if cfg["metric"] == "euclidean":
        eps = max(eps, 6e-8)  # norms are computed in float32 by design
    return 16 * eps * scale


def check_result(ctx, cfg, X, Q, seen, knn, rows=None, label="final"):
    """knn has received X[:seen]; its answer has to be the exact top-k."""
    idx, val = knn.retrieve_topk()
    k = max(1, cfg["topk"])
    ctx.hold(label, idx, val)
    ctx.check(tuple(idx.shape) == (Q.shape[0], k) and tuple(val.shape) == (Q.shape[0], k), "result-shape", f"{tuple(idx.shape)} {tuple(val.shape)}")
    m = min(k, seen)
    if m == 0:
        return
    big = cfg["metric"] == "angular"
    T = truth(X[:seen], Q, cfg["metric"])
    best = torch.sort(T, dim=1, descending=big).values[:, :m]
    tol = tolerance(X, Q, cfg)
    rows = range(Q.shape[0]) if rows is None else rows
    idx, val = idx.long(), val.double()
    for i in rows:
        ii = idx[i, :m]
        ctx.check(bool(((ii >= 0) & (ii < seen)).all()), f"{label}:index-out-of-range", f"query {i}: {ii.tolist()} seen {seen}")
        ctx.check(len(set(ii.tolist())) == m, f"{label}:duplicate-neighbour", f"query {i}: {ii.tolist()}")
        got = T[i, ii]
        worse = (best[i] - torch.sort(got, descending=big).values) if big else (torch.sort(got).values - best[i])
        ctx.check(bool((worse <= tol).all()), f"{label}:not-nearest", f"query {i}: neighbours {ii.tolist()} score {got.tolist()} best {best[i].tolist()} tol {tol}")
        ctx.check(bool(((val[i, :m] - got).abs() <= tol).all()), f"{label}:metric-value", f"query {i}: reported {val[i,:m].tolist()} true {got.tolist()} tol {tol}")
        dv = val[i, :m]
        mono = (dv[:-1] >= dv[1:]) if big else (dv[:-1] <= dv[1:])
        ctx.check(bool(mono.all()), f"{label}:not-sorted", f"query {i}: {dv.tolist()}")
    if cfg["kind"] not in ("normal", "big", "small", "positive", "negative"):
        # exact arithmetic, but the winner among exact ties depends on batch shapes only
        ctx.tensor("val", val[:, :m])
    else:
        ctx.tensor("idx", idx[:, :m])
