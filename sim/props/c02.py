"""C02 nearest neighbours: a failing step changes nothing, its retry completes the search."""
import copy

import torch

from .. import seams
from ..common import alloc_fault_call, must_reject, same_bits
from ..core import clip_partition
from . import _knn as K
from .c01 import gen_schedule, slices

RULE = (
    "one run = the schedule of C01 in which chosen set/query calls first fail (n-th allocation of the call fails, or the call is "
    "malformed) and are then repeated; non-trivial = at least one injected failure"
)
COMPONENTS = {"real": ["ebsdtorch.utils.knn (all)", "torch CPU kernels"], "stub": ["allocator verdict of a chosen torch op"]}
CFG_MIN = {"n": 1, "q": 1, "d": 1, "topk": 1, "dseed": 0}


def generate(r, tier):
    cfg = K.gen_cfg(r, quant=r.random() < 0.25)
    cfg["n"] = min(cfg["n"], 40)
    ops = gen_schedule(r, cfg)
    for o in ops:
        p = r.choice([0.1, 0.5, 0.9])
        o["set_fault"] = round(r.random(), 4) if r.random() < p else None
        o["set_early"] = r.random() < 0.3  # the next chunk fails before this one's queries are in
        o["q_fault"] = round(r.random(), 4) if r.random() < p else None
        o["q_which"] = r.randrange(6)
        o["bad"] = r.choice([None, None, "dim", "rows", "type", "2bad"]) if r.random() < p else None
    return dict(cfg=cfg, ops=ops)


def snap(knn):
    return tuple(t.clone() for t in knn.retrieve_topk())


def unchanged(ctx, knn, before, what):
    after = knn.retrieve_topk()
    ctx.check(same_bits(before[0], after[0]) and same_bits(before[1], after[1]), f"{what}:result-changed-by-failed-call", lambda: f"before {before} after {after}")


def execute(plan, ctx):
    cfg = plan["cfg"]
    X, Q = K.make(cfg)
    knn = K.build(cfg)
    sizes = [s for s in clip_partition([o["size"] for o in plan["ops"]], X.shape[0])]
    seen, label = 0, cfg["metric"] + ("-q" if cfg["quant"] else "")

    def faulted(fn_of, frac, what):
        """One failing attempt at fn_of(knn); True if it did complete after all."""
        before = snap(knn)
        trial = copy.deepcopy(knn)
        failed = alloc_fault_call(ctx, lambda: fn_of(knn), lambda: fn_of(trial), frac, f"{what}-{label}")
        if failed:
            unchanged(ctx, knn, before, what)
        return not failed

    for j, size in enumerate(sizes):
        op = plan["ops"][j] if j < len(plan["ops"]) else dict(deliver="all")
        if size == 0:
            continue
        Xc = X[seen : seen + size]
        done = False
        if op.get("set_fault") is not None:
            done = faulted(lambda m: m.set_data_chunk(Xc), op["set_fault"], "set")
        if op.get("bad") in ("type", "2bad"):
            before = snap(knn)
            must_reject(ctx, lambda: knn.set_data_chunk(Xc.tolist()), "accepted-malformed-chunk")
            unchanged(ctx, knn, before, "set-bad")
        if not done:
            knn.set_data_chunk(Xc.clone())
        seen += size
        if op.get("set_early") and seen < X.shape[0] and op.get("q_fault") is not None:
            # the following chunk is announced too early and fails: this one stays current
            nxt = X[seen : seen + 1].double()
            before = snap(knn)
            trial = copy.deepcopy(knn)
            n = seams.count_allocs(lambda: trial.set_data_chunk(nxt))
            if n:
                trial = copy.deepcopy(knn)
                if alloc_fault_call(ctx, lambda: knn.set_data_chunk(nxt), lambda: trial.set_data_chunk(nxt), op["q_fault"], "early-" + label):
                    unchanged(ctx, knn, before, "early-set")
                    ctx.probe("failed-next-chunk-before-queries")
                else:
                    # absorbed: cannot continue this schedule meaningfully
                    ctx.probe("early-set-absorbed")
                    return
        if op.get("bad") in ("dim", "2bad") and Q.shape[1] > 1:
            before = snap(knn)
            must_reject(ctx, lambda: knn.query_all(torch.zeros(Q.shape[0], Q.shape[1] + 1)), "accepted-malformed-query")
            unchanged(ctx, knn, before, "query-bad")
            must_reject(ctx, lambda: knn.query_chunk(torch.zeros(1, Q.shape[1] + 1), 0), "accepted-malformed-query")
            unchanged(ctx, knn, before, "query-bad")
        if op.get("bad") == "rows":
            before = snap(knn)
            must_reject(ctx, lambda: knn.query_chunk(torch.zeros(2, Q.shape[1], dtype=Q.dtype), Q.shape[0] - 1), "accepted-query-past-end")
            unchanged(ctx, knn, before, "query-bad")
        calls = (
            [lambda m: m.query_all(Q)]
            if op["deliver"] == "all"
            else [lambda m, s=s, z=z: m.query_chunk(Q[s : s + z], s) for s, z in slices(op["deliver"], Q.shape[0])]
        )
        for k, call in enumerate(calls):
            done = False
            if op.get("q_fault") is not None and k == op["q_which"] % len(calls):
                done = faulted(call, op["q_fault"], "query-all" if op["deliver"] == "all" else "query-slice")
            if not done:
                call(knn)
        ctx.steps += 1 + len(calls)
    K.check_result(ctx, cfg, X, Q, seen, knn)
