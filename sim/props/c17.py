"""C17 experiment record store: a table under any operation history."""
import copy

import torch

from .. import seams
from ..common import alloc_fault_call, data, must_reject, same_bits

RULE = (
    "one run = a seeded scan (one pattern, a list or a grid) and a seeded history of whole-table and indexed writes, reads, pattern retrievals, "
    "phase assignments, rejected calls and allocation failures, compared with a plain table after every operation; non-trivial = an indexed write, a rejected call or a fault happened"
)
COMPONENTS = {"real": ["ebsdtorch.ebsd.experiment_pats.ExperimentPatterns (records, phases, retrieval)"], "stub": ["torch allocator (fail the n-th allocation)"]}

FIELDS = {"coords": 2, "ori": 4}
IDX = ["long", "long", "neg", "bool", "empty", "all", "one"]


def generate(r, tier):
    shape = r.choice([[1, 1], [1], [1, 5], [2, 3], [3, 4], [7], [12], []])
    ops = []
    for _ in range(r.randint(4, 24)):
        k = r.choice(["set", "set", "set-idx", "set-idx", "set-idx", "get", "get", "pats", "pats", "phase", "inv", "bad", "bad", "mutate"])
        op = dict(op=k, field=r.choice(["coords", "ori", "ori"]), idx=r.choice(IDX), seed=r.randrange(2**31))
        if k == "pats":
            op["bin"] = r.choice([1, 1, 2, 3, 4])
        if k == "bad":
            op["bad"] = r.choice(["range", "range", "range-neg", "count", "count-idx", "shape"])
        if k == "phase":
            op["phases"] = r.choice([1, 1, 2, 3, 4])
            op["higher"] = r.random() < 0.5
            op["clear"] = r.random() < 0.6
            op["topk"] = r.choice([1, 1, 3])
            op["first"] = r.choice([0, 0, 0, 1, 2])
        if k in ("set", "set-idx", "phase", "inv", "pats") and r.random() < 0.2:
            op["fault"] = round(r.random(), 4)
        if k in ("set", "set-idx"):
            op["reuse"] = r.random() < 0.5
        ops.append(op)
    return dict(cfg=dict(shape=shape, hw=r.choice([[4, 4], [12, 12], [6, 4], [3, 3]]), seed=r.randrange(2**31)), ops=ops)


def indices(op, n):
    g = torch.Generator().manual_seed(op["seed"] & 0x7FFFFFFF)
    perm = torch.randperm(n, generator=g)
    k = op["idx"]
    if k == "empty":
        i = perm[:0]
    elif k == "all":
        i = perm
    elif k == "one":
        i = perm[:1]
    else:
        i = perm[: max(1, int(torch.randint(1, n + 1, (1,), generator=g)))]
    if k == "neg":
        return i - n, i
    if k == "bool":
        m = torch.zeros(n, dtype=torch.bool)
        m[i] = True
        return m, torch.nonzero(m).squeeze(-1)
    return i, i


class Table:
    def __init__(self, pats, n):
        self.pats, self.n = pats, n
        self.coords = self.ori = self.inv = self.phases = None
        self.raw = {}


def getter(e, f):
    return {"coords": e.get_spatial_coords, "ori": e.get_orientations, "inv": e.get_inv_f_matrix}[f]


def setter(e, f):
    return {"coords": e.set_spatial_coords, "ori": e.set_orientations}[f]


def audit(ctx, e, t, what):
    for f in ("coords", "ori", "inv"):
        m = getattr(t, f)
        if m is None:
            continue
        ctx.check(same_bits(getter(e, f)(), m), f"{what}:{f}", f"after {what} the stored {f} differ from the table")
    ctx.check(same_bits(e.get_patterns(torch.arange(t.n), 1), t.pats), f"{what}:patterns", f"{what} changed the patterns")
    if t.phases is not None:
        got = e.get_indices_per_phase()
        want = [torch.nonzero(t.phases == i).squeeze(-1) for i in range(int(t.phases.max()) + 1)]
        ctx.check(
            len(got) == len(want) and all(torch.equal(a.long(), b) for a, b in zip(got, want)),
            f"{what}:phase-rows",
            lambda: f"{[a.tolist() for a in got]} expected {[b.tolist() for b in want]}",
        )


def execute(plan, ctx):
    E = seams.repo("ebsdtorch.ebsd.experiment_pats").ExperimentPatterns
    cfg = plan["cfg"]
    H, W = cfg["hw"]
    full = data(cfg["seed"], (*cfg["shape"], H, W), "normal", torch.float32)
    e = E(full.clone())
    n = 1
    for s in cfg["shape"]:
        n *= s
    t = Table(full.reshape(n, H, W), n)
    ctx.check(e.n_patterns == n, "n-patterns", f"{e.n_patterns} for {n}")
    pool = {}
    mine = []  # tensors the caller still owns, with their expected content
    for i, op in enumerate(plan["ops"]):
        k, f = op["op"], op["field"]
        idx, rows = indices(op, n)
        fault = op.get("fault")

        def call(fn, k=k, fault=fault):
            """True if the call took effect"""
            if fault is None:
                fn(e)
                return True
            twin = copy.deepcopy(e)
            return not alloc_fault_call(ctx, lambda: fn(e), lambda: fn(twin), fault, k)

        def again(x, name, op=op):
            """the caller fills the same tensor with new values"""
            if not op.get("reuse"):
                return x
            key = (name, tuple(x.shape), x.dtype)
            if key not in pool:
                pool[key] = torch.empty_like(x)
            return pool[key].copy_(x)

        if k == "set":
            v = again(data(op["seed"], (n, FIELDS[f]), "normal", torch.float32), f)
            if call(lambda o: setter(o, f)(v)):
                setattr(t, f, v.clone())
            if not op.get("reuse"):
                mine.append((v, v.clone()))
        elif k == "set-idx":
            v = again(data(op["seed"], (len(rows), FIELDS[f]), "normal", torch.float32), f)
            idx = again(idx, "idx")
            if getattr(t, f) is None or (op["idx"] == "bool" and len(rows) != n):
                continue  # (a mask needs as many values as patterns to pass the shape check)
            ctx.nontrivial = True
            if call(lambda o: setter(o, f)(v, idx)):
                getattr(t, f)[rows] = v
        elif k == "mutate":
            for v, _ in mine:  # the caller reuses its own buffers
                v.fill_(float(i))
            mine = []
        elif k == "get":
            m = getattr(t, f)
            if m is None:
                if f == "coords":
                    must_reject(ctx, lambda: getter(e, f)(), "read-before-write", f)
                continue
            ctx.check(same_bits(getter(e, f)(idx), m[rows]), f"read:{f}", f"rows {rows.tolist()}")
        elif k == "pats":
            b = op["bin"]
            if H % b or W % b:
                continue
            if fault is not None:
                call(lambda o: o.get_patterns(idx, b))
                continue
            got = e.get_patterns(idx, b)
            want = t.pats[rows].double().reshape(len(rows), H // b, b, W // b, b).mean(dim=(2, 4))
            ctx.check(tuple(got.shape) == tuple(want.shape), "retrieve:shape", f"{tuple(got.shape)}")
            if b == 1:
                ctx.check(torch.equal(got, t.pats[rows]), "retrieve:rows", f"rows {rows.tolist()}")
            elif len(rows):
                ctx.check(bool(((got.double() - want).abs() <= 1e-5).all()), "retrieve:binned", f"binning {b}")
        elif k == "inv":
            v = data(op["seed"], (n, 3, 3), "normal", torch.float32)
            if op["idx"] == "empty":
                arg, want = None, torch.eye(3).expand(n, 3, 3).clone()
            elif op["idx"] == "neg":
                arg, want = v.reshape(n, 9).clone(), v
            else:
                arg, want = v.clone(), v
            if call(lambda o: o.set_inv_f_matrix(arg)):
                t.inv = want
        elif k == "phase":
            if op["clear"]:
                e.clear_raw_indexing_results()
                t.raw = {}
            g = torch.Generator().manual_seed(op["seed"] & 0x7FFFFFFF)
            for p in range(op["first"], op["first"] + op["phases"]):
                q = torch.randn(n, op["topk"], 4, generator=g)
                m = torch.sort(torch.randn(n, op["topk"], generator=g), dim=1, descending=op["higher"]).values
                e.set_raw_indexing_results(q.clone(), m.clone(), p)
                t.raw[p] = (q, m)
            ids = sorted(t.raw)
            M = torch.stack([t.raw[p][1][:, 0] for p in ids])
            Q = torch.stack([t.raw[p][0][:, 0] for p in ids])
            w = M.argmax(0) if op["higher"] else M.argmin(0)
            if call(lambda o: o.combine_indexing_results(op["higher"])):
                t.phases = torch.tensor(ids)[w]
                t.ori = Q[w, torch.arange(n)].clone()
                ctx.check(same_bits(e.best_metrics, M[w, torch.arange(n)]), "phase:best-metric", "")
        elif k == "bad":
            b = op["bad"]
            if b in ("range", "range-neg"):
                if getattr(t, f) is None:
                    continue
                good = rows[: max(0, n - 1)]
                bad = torch.tensor([n + op["seed"] % 3 if b == "range" else -n - 1 - op["seed"] % 3])
                ii = torch.cat([good, bad])
                v = data(op["seed"], (len(ii), FIELDS[f]), "normal", torch.float32)
                must_reject(ctx, lambda: setter(e, f)(v, ii), "accepted-out-of-range", f"{ii.tolist()} of {n}")
            elif b == "count":
                v = data(op["seed"], (n + 1 + op["seed"] % 2, FIELDS[f]), "normal", torch.float32)
                must_reject(ctx, lambda: setter(e, f)(v), "accepted-wrong-count", f"{tuple(v.shape)} of {n}")
            elif b == "count-idx":
                if getattr(t, f) is None or op["idx"] == "bool":
                    continue
                v = data(op["seed"], (len(rows) + 2, FIELDS[f]), "normal", torch.float32)
                must_reject(ctx, lambda: setter(e, f)(v, idx), "accepted-wrong-count", f"{tuple(v.shape)} for {len(rows)} rows")
            else:
                v = data(op["seed"], (n, 3), "normal", torch.float32)
                must_reject(ctx, lambda: e.set_orientations(v), "accepted-wrong-shape", f"{tuple(v.shape)}")
        audit(ctx, e, t, k)
        ctx.steps += 1
        ctx.state(k, f, op["idx"], n, t.coords is None, t.ori is None, t.phases is None if t.phases is None else tuple(t.phases.tolist()))
        ctx.log(i, k, f, op["idx"], len(rows))
    if t.ori is not None:
        ctx.tensor("ori", e.get_orientations())
