"""C05 streaming estimators: a failed update is as if it never happened."""
import copy

import torch

from ..common import alloc_fault_call, must_reject
from . import _est

RULE = (
    "one run = one estimator and a seeded batch history in which chosen updates first fail (n-th allocation, or a malformed batch) and are "
    "repeated, next to an uninterrupted twin; non-trivial = at least one injected failure"
)
COMPONENTS = {"real": ["ebsdtorch.utils.pca_covmat", "ebsdtorch.utils.pca_online", "torch CPU kernels"], "stub": ["allocator verdict of a chosen torch op"]}
CFG_MIN = {"d": 1, "k": 1, "dseed": 0, "iseed": 0}


def generate(r, tier):
    cfg = _est.gen_cfg(r)
    ops = []
    for j in range(r.randint(1, 8)):
        ops.append(
            dict(
                id=j,
                size=r.choice([0, 1, 1, 2, 4, 9]),
                faults=[round(r.random(), 4) for _ in range(r.choice([0, 1, 1, 2]))],
                bad=r.choice([None, None, "width", "type", "int"]),
                rng=r.randrange(2**31),
            )
        )
    return dict(cfg=cfg, ops=ops)


def execute(plan, ctx):
    cfg = plan["cfg"]
    m, twin = _est.build(cfg), _est.build(cfg)
    probe = _est.batch(cfg, 9999, 3)
    for op in plan["ops"]:
        x = _est.batch(cfg, op["id"], op["size"])
        before, out0 = _est.state(m), _est.outputs(cfg, m, probe)

        def unchanged(what):
            ctx.check(_est.same_state(before, _est.state(m)), f"{what}:state-changed", lambda: f"{[k for k, v in _est.state(m).items() if not torch.equal(v, before[k])]}")
            ctx.check(_est.equal(out0, _est.outputs(cfg, m, probe)), f"{what}:output-changed")

        done = False
        for frac in op["faults"]:
            if done:
                break
            trial = copy.deepcopy(m)
            torch.manual_seed(op["rng"])

            def dry():
                torch.manual_seed(op["rng"])
                trial(x)
                torch.manual_seed(op["rng"])

            if alloc_fault_call(ctx, lambda: m(x), dry, frac, cfg["kind"]):
                unchanged("failed-update")
            else:
                done = True
        if not done and op["bad"] == "width" and x.shape[1] > 1 and op["size"] > 0:
            must_reject(ctx, lambda: m(torch.zeros(op["size"], x.shape[1] + 1, dtype=x.dtype)), "accepted-malformed-batch")
            unchanged("rejected-update")
        elif not done and op["bad"] == "type":
            must_reject(ctx, lambda: m(x.tolist()), "accepted-malformed-batch")
            unchanged("rejected-update")
        elif not done and op["bad"] == "int" and op["size"] > 0:
            must_reject(ctx, lambda: m(torch.zeros(op["size"], x.shape[1], dtype=torch.int64)), "accepted-malformed-batch")
            unchanged("rejected-update")
        if not done:
            torch.manual_seed(op["rng"])
            m(x)
        torch.manual_seed(op["rng"])
        twin(x)
        ctx.steps += 1
        ctx.state(cfg["kind"], min(op["size"], 2), len(op["faults"]), op["bad"], cfg["k"])
        ctx.check(_est.same_state(_est.state(twin), _est.state(m)), "retry-differs-from-uninterrupted", lambda: f"{[k for k, v in _est.state(m).items() if not torch.equal(v, twin.state_dict()[k])]}")
    ctx.check(_est.equal(_est.outputs(cfg, twin, probe), _est.outputs(cfg, m, probe)), "final-output-differs")
    for o in _est.outputs(cfg, m, probe):
        ctx.tensor("out", o)
