"""C08 master pattern: the value depends on the direction and the data, never on the access history."""
import copy

import torch

from .. import seams
from ..common import alloc_fault_call, data, must_reject, same_bits
from . import _mp

RULE = (
    "one run = one master pattern and a seeded history of interpolations (shape, binning, special directions), binning, normalisation, "
    "contrast, reload, precision changes, cache overflow and failing calls, every answer compared with a float64 reference on the current data; "
    "non-trivial = at least two interpolations with something in between"
)
COMPONENTS = {"real": ["ebsdtorch.ebsd.master_pattern", "ebsdtorch.s2_and_so3.sphere", "ebsdtorch.utils.factorize", "ebsdtorch.preprocessing.clahe", "torch CPU kernels"], "stub": ["allocator verdict of a chosen torch op"]}
CFG_MIN = {"h": 2, "dseed": 0}
SHAPES = [[], [1], [2], [7], [12], [30], [3, 4], [2, 3, 5], [1, 1], [5, 1, 2], [0], [0, 3], [2, 0], [101], [64]]


def generate(r, tier):
    cfg = dict(h=r.choice([4, 6, 7, 12, 24]), dseed=r.randrange(2**31), tuple=r.random() < 0.3, laue=r.choice([1, 2, 11]))
    ops = []
    for _ in range(r.randint(3, 14)):
        a = r.choice(["interp"] * 9 + ["bin", "minmax", "zeromean", "standard", "clahe", "load", "double", "float", "overflow", "bad", "edit"])
        o = dict(op=a, seed=r.randrange(2**31))
        if a == "interp":
            o.update(
                shape=r.choice(SHAPES), vb=r.choice([1, 1, 2, 2, 3, 4]), kind=r.choice(["normal", "normal", "poles", "equator", "diag", "axes"]),
                scale=r.choice([1.0, 1.0, 1e-2, 250.0]), norm=r.random() < 0.8, align=r.random() < 0.2,
                fault=round(r.random(), 4) if r.random() < 0.25 else None, layout=r.choice(["plain", "plain", "t"]),
            )
        elif a == "bin":
            o["k"] = r.choice([2, 3, 4])
        elif a in ("minmax", "zeromean", "standard", "clahe"):
            o["fault"] = round(r.random(), 4) if r.random() < 0.5 else None
        elif a == "bad":
            o["what"] = r.choice(["norm", "dim", "vb"])
        elif a == "overflow":
            o["n"] = r.choice([30, 101, 105])
        ops.append(o)
    return dict(cfg=cfg, ops=ops)


def execute(plan, ctx):
    cfg = plan["cfg"]
    h = max(2, cfg["h"])
    img0 = data(cfg["dseed"], (h, 2 * h), "positive", torch.float32)
    m = _mp.cls()((img0[:, :h].clone(), img0[:, h:].clone()) if cfg["tuple"] else img0.clone(), laue_group=cfg["laue"])
    n_interp = between = 0

    def cur():
        return m.master_pattern.detach().clone()

    ctx.check(torch.equal(cur(), img0), "constructor-changes-pattern")
    for op in plan["ops"]:
        a = op["op"]
        before = cur()
        dt = before.dtype
        if a == "interp":
            n = 1
            for s in op["shape"]:
                n *= s
            v = _mp.dirs(n, op["seed"], dt, op["kind"], op["scale"] if op["norm"] else 1.0)
            v = v.reshape(tuple(op["shape"]) + (3,))
            if op["layout"] == "t" and v.dim() >= 3:
                v = v.transpose(0, 1)
            vb = op["vb"] if min(before.shape) // op["vb"] >= 2 else 1
            vin = v.clone() if op["layout"] == "plain" else v
            keep = v.clone()

            def call(obj=m):
                return obj.interpolate(vin, normalize_coords=op["norm"], virtual_binning=vb, align_corners=op["align"])

            if op["fault"] is not None:
                trial = copy.deepcopy(m)
                if alloc_fault_call(ctx, call, lambda: call(trial), op["fault"], f"interp-{vb}"):
                    ctx.check(same_bits(before, cur()), "failed-interpolation-changed-pattern")
            out = call()
            if not op["norm"] and dt == torch.float32:
                pass  # unit to rounding only: same tolerance applies
            _mp.check(ctx, before, keep, out, vb, op["align"], "interp")
            ctx.check(torch.equal(vin, keep), "coordinates-modified")
            ctx.check(same_bits(before, cur()), "interpolation-changed-pattern")
            again = call()
            ctx.check(same_bits(out, again), "not-repeatable")
            ctx.hold("interp", out)
            with torch.no_grad():
                again.fill_(7.0)  # what a caller does with a result stays with the caller
            if op["seed"] % 5 < 2 and op["layout"] == "plain":
                # the caller fills the same tensor with other directions
                other = _mp.dirs(n, op["seed"] + 1, dt, "normal", op["scale"] if op["norm"] else 1.0).reshape(v.shape)
                vin.copy_(other)
                _mp.check(ctx, before, other, call(), vb, op["align"], "interp:refilled")
            n_interp += 1
            ctx.nontrivial = n_interp >= 2 and between > 0
            ctx.state("interp", vb, tuple(op["shape"]), op["kind"], between > 0)
            ctx.steps += 1
            continue
        between += 1
        if a == "bin":
            k = op["k"] if min(before.shape) // op["k"] >= 2 else 1
            m.bin(k)
            ctx.check(same_bits(before, cur()), "bin-changed-pattern")
        elif a in ("minmax", "zeromean", "standard", "clahe"):
            if a == "clahe":
                if min(before.shape) < 4 or dt != torch.float32:
                    continue
                if float(before.min()) < 0 or float(before.max()) > 1:
                    m.normalize("minmax")
                    before = cur()
                if float(before.min()) < 0 or float(before.max()) > 1:
                    continue

                def call(obj=m):
                    obj.apply_clahe(grid_shape=(2, 2), n_bins=16)
            else:
                if float(before.std()) < 1e-3:
                    continue

                def call(obj=m):
                    obj.normalize(a)

            done = False
            if op["fault"] is not None:
                trial = copy.deepcopy(m)
                if alloc_fault_call(ctx, call, lambda: call(trial), op["fault"], a):
                    ctx.check(same_bits(before, cur()), f"failed-{a}-changed-pattern")
                else:
                    done = True
            if not done:
                call()
            b, c = before.double(), cur().double()
            if a == "minmax":
                ref = (b - b.min()) / (1e-4 + b.max() - b.min())
            elif a == "zeromean":
                ref = b - b.mean()
            elif a == "standard":
                ref = (b - b.mean()) / b.std()
            else:
                ref = None
                ctx.check(tuple(c.shape) == tuple(b.shape) and bool((c >= -1e-5).all() and (c <= 1 + 1e-5).all()), "clahe-range")
            if ref is not None:
                s = float(b.abs().max()) / max(float(b.std()), 1e-9) if a != "zeromean" else float(b.abs().max())
                e = float((c - ref).abs().max())
                ctx.check(e <= 1e-5 * (1 + s), f"{a}:value", lambda: f"error {e:.2e}")
        elif a == "load":
            new = data(op["seed"], before.shape, "positive", torch.float64).to(dt)
            sd = m.state_dict()
            key = [k for k in sd if k.endswith("master_pattern")]
            m.load_state_dict({k: (new if k in key else t) for k, t in sd.items()})
            ctx.check(torch.equal(cur(), new), "load-not-effective")
        elif a in ("double", "float"):
            m = m.to(torch.float64 if a == "double" else torch.float32)
        elif a == "edit":
            with torch.no_grad():
                m.master_pattern[0, 0] += 3.0
        elif a == "overflow":
            for n in range(1, op["n"]):
                m.interpolate(_mp.dirs(n, 3, dt))
            ctx.probe("shape-cache-overflow" if op["n"] > 100 else "shape-cache-filled")
        elif a == "bad":
            if op["what"] == "norm":
                must_reject(ctx, lambda: m.normalize("nonsense"), "accepted-bad-normalisation")
            elif op["what"] == "dim":
                must_reject(ctx, lambda: m.interpolate(torch.zeros(4, 2, dtype=dt)), "accepted-2d-coordinates")
            else:
                must_reject(ctx, lambda: m.interpolate(_mp.dirs(3, 1, dt), virtual_binning=10 * max(before.shape)), "accepted-oversized-binning")
            ctx.check(same_bits(before, cur()), "rejected-call-changed-pattern")
        ctx.log(a)
        ctx.steps += 1
    ctx.tensor("final", cur())
