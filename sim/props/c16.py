"""C16 gradient refinement: no pattern gets worse, easy patterns get better, batching does not matter."""
import torch

from .. import seams
from . import _idx, _ref

RULE = (
    "one run = a seeded world with 1-3 phases (some possibly empty) and start orientations off by a seeded angle, and 1-2 gradient refinements with seeded batch size, learning rate "
    "(from useless to absurd), step count, binning and precision, then the same refinement one pattern at a time; every pattern's normalised match is evaluated in float64; "
    "non-trivial = several batches, several phases or several patterns per batch"
)
MODULES = ["ebsdtorch.ebsd.refining", "ebsdtorch.ebsd.geometry", "ebsdtorch.ebsd.master_pattern"]
COMPONENTS = {"real": ["ebsdtorch.ebsd.refining.orientation_grad_refinement", "ebsd.geometry", "ebsd.master_pattern", "ebsd.experiment_pats", "torch Adam"], "stub": ["wall clock of the progress display"]}


def generate(r, tier):
    W = _ref.gen_world(r, smooth=True, sym=True)
    W["scan"] = False
    W["off"] = round(r.choice([0.0, 0.5, 1.0, 2.0, 4.0]), 2)
    ops = []
    for _ in range(r.choice([1, 1, 2])):
        ops.append(
            dict(
                batch=r.choice([1, 2, 3, 5, 100]), bin=r.choice([1, 1, 2]), iters=r.choice([0, 1, 2, 5, 10, 20]), lr=r.choice([1e-4, 1e-3, 1e-3, 3e-3, 0.05, 1.0]),
                dtype=r.choice(["float32", "float32", "float64", "float16"]), avg=r.random() < 0.8,
            )
        )
    return dict(cfg=W, ops=ops)


def score(world, X, i, q, b, least=100):
    """normalised dot product of pattern i with its simulation at q, and how uncertain float32 makes it"""
    D = world.one(i, q[None].double(), b)[0]
    D = D - D.mean()
    x = X[i]
    nd, nx = float(D.norm()), float(x.norm())
    ie = _idx.interp_error(world, int(world.assign[i])) * 4  # (bicubic weights)
    if nx < 1e-6 or nd <= least * ie:
        return None, None  # without contrast there is no match
    return float(D @ x) / nd / nx, 2 * ie * len(x) ** 0.5 / nd + 1e-6


def best(world, X, i, q, b):
    """of the orientations equivalent to q: the best score, its uncertainty, and the spread"""
    s = [score(world, X, i, c, b, 0) for c in world.equivalents(i, q)]
    s = [c for c in s if c[0] is not None]
    if not s:
        return None, None, 0.0
    return max(s)[0], max(c[1] for c in s), max(s)[0] - min(s)[0]


def reach(world, X, i, q, op):
    """the match plain Adam in float64 arrives at, in the worst of the equivalent orientations"""
    x = X[i] / X[i].norm()
    q = q[None].double().clone().requires_grad_(True)
    opt = torch.optim.Adam([q], lr=op["lr"])

    def val():
        D = world.one(i, q / q.norm(), op["bin"])[0]
        D = D - D.mean()
        return (D / D.norm()) @ x

    for _ in range(op["iters"]):
        opt.zero_grad()
        (-val()).backward()
        opt.step()
        with torch.no_grad():
            q /= q.norm()
    with torch.no_grad():
        found = float(val())
        if world.sym:
            found = min((score(world, X, i, c, op["bin"])[0] or -1.0) for c in world.equivalents(i, (q / q.norm())[0]))
        return found


def refine(m, world, e, op, batch):
    m.orientation_grad_refinement(
        world.mps[0] if len(world.mps) == 1 else world.mps, world.g, e, max(1, batch), virtual_binning=op["bin"], n_iter=op["iters"], learning_rate=op["lr"],
        average_pattern_center=op["avg"], match_dtype=_idx.DT[op["dtype"]],
    )


def execute(plan, ctx):
    m = seams.repo("ebsdtorch.ebsd.refining")
    E = seams.repo("ebsdtorch.ebsd.experiment_pats").ExperimentPatterns
    world = _ref.RefWorld(plan["cfg"], mode="bicubic")
    e, n = world.e, world.n
    snap = world.snapshot()
    if n > 1 or len(world.mps) > 1:
        ctx.nontrivial = True
    for op in plan["ops"]:
        if op["bin"] not in world.binnings():
            op["bin"] = 1
        b = op["bin"]
        q0 = e.get_orientations().clone()
        ph0, met0 = e.get_indices_per_phase(), e.best_metrics.clone()
        X = world.exp(b)
        seams.CLOCK.start([0.0, 0.02, 1.0], now=1e6)
        refine(m, world, e, op, op["batch"])
        world.check_unchanged(ctx, snap, "refine")
        q1 = e.get_orientations().clone()
        ctx.check(tuple(q1.shape) == (n, 4) and bool(torch.isfinite(q1).all()), "not-finite", f"{q1.tolist()}")
        ctx.check(bool(((q1.double().norm(dim=1) - 1).abs() < 1e-4).all()), "not-unit", f"{q1.norm(dim=1).tolist()}")
        for a, c in zip(ph0, e.get_indices_per_phase()):
            ctx.check(torch.equal(a, c), "phases-changed", "")
        ctx.check(torch.equal(met0, e.best_metrics), "metrics-changed", "")
        # each pattern alone
        twin = E(world.pats.clone())
        world.store(twin)
        twin.set_orientations(q0.clone())
        refine(m, world, twin, op, 1)
        qt = twin.get_orientations()
        eps = 4 * _idx.EPS[op["dtype"]] * X.shape[1] ** 0.5 if op["dtype"] == "float16" else 0.0
        for i in range(n):
            s0, t0 = score(world, X, i, q0[i], b)
            if s0 is None:
                continue
            if world.sym:
                ctx.check(float(_ref.margin(q1[i : i + 1], world.laue(i))) > -2e-5, "outside-zone", lambda: f"pattern {i}: {q1[i].tolist()} in group {world.laue(i)}")
                ctx.probe("symmetric-images")
            s1, t1, spread = best(world, X, i, q1[i], b)
            ctx.check(s1 is not None, "lost-contrast", f"pattern {i}")
            tol = 2 * (t0 + t1) + eps
            ctx.check(s1 >= s0 - tol, "worse", lambda: f"pattern {i}: {s1} from {s0} tol {tol:.2e}")
            st, tt, spread_t = best(world, X, i, qt[i], b)
            if op["lr"] <= 3e-3 and st is not None:
                ctx.check(abs(s1 - st) <= 1e-3 + tol + spread + spread_t, "batch-dependent", lambda: f"pattern {i}: {s1} in a batch of {op['batch']}, {st} alone")
                ctx.probe("compared-alone")
            ctx.probe("improved" if s1 > s0 + 1e-6 else "kept")
            # a match close to the true orientation, and steps that are neither useless nor wild
            if plan["cfg"]["pats"][i : i + 1] == ["near"] and op["dtype"] != "float16" and 1 - s0 > 0.005 and 1e-3 <= op["lr"] <= 3e-3 and op["iters"] >= 5:
                if not reach(world, X, i, q0[i], op) >= s0 + 0.25 * (1 - s0):
                    continue  # stuck in a local optimum
                ctx.check(s1 >= s0 + 0.02 * (1 - s0), "no-progress", lambda: f"pattern {i}: {s1} from {s0} after {op['iters']} steps of {op['lr']}")
                ctx.probe("progress-decided")
        ctx.steps += op["iters"] * n
        ctx.sim_time += seams.CLOCK.now - 1e6
        ctx.state(n, op["batch"], len(world.mps), b, op["iters"], op["lr"], op["dtype"])
        ctx.log("refine", op["batch"], op["iters"])
        ctx.tensor("ori", q1)
