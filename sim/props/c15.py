"""C15 grid refinement: every pattern follows its own grid search, whatever else is in its batch."""
import math

import torch

from .. import seams
from . import _idx, _ref

RULE = (
    "one run = a seeded world with 1-3 phases (some possibly empty), start orientations and scan positions, and 1-2 grid refinements with seeded batch size, grid, steps, "
    "binning and precision; each pattern is followed by a float64 grid search of its own as long as the choice is unambiguous; non-trivial = several batches, several phases or several patterns per batch"
)
MODULES = ["ebsdtorch.ebsd.refining", "ebsdtorch.ebsd.geometry", "ebsdtorch.ebsd.master_pattern"]
COMPONENTS = {"real": ["ebsdtorch.ebsd.refining.orientation_grid_refinement", "ebsd.geometry", "ebsd.master_pattern", "ebsd.experiment_pats", "s2_and_so3"], "stub": ["wall clock of the progress display"]}


def generate(r, tier):
    W = _ref.gen_world(r, sym=True)
    ops = []
    for _ in range(r.choice([1, 1, 2])):
        ops.append(
            dict(
                edge=r.choice([0.3, 0.8, 1.5, 3.0, 6.0]), batch=r.choice([1, 2, 3, 5, 100]), bin=r.choice([1, 1, 2]), iters=r.choice([1, 2, 3, 4]), axial=r.choice([1, 1, 2, 3]),
                radius=r.choice([1, 1, 2]), shrink=r.choice([0.5, 0.5, 0.7]), avg=r.random() < 0.6, dtype=r.choice(["float32", "float32", "float32", "float64", "float16"]),
            )
        )
    return dict(cfg=W, ops=ops)


def grid(op):
    """local grid in cubochoric coordinates, the order is irrelevant"""
    k = op["radius"]
    s = op["edge"] * math.pi ** (2 / 3) / 360.0 / k
    pts = []
    for a in range(-k, k + 1):
        for b in range(-k, k + 1):
            for c in range(-k, k + 1):
                if [a, b, c].count(0) >= 3 - op["axial"]:
                    pts.append([a * s, b * s, c * s])
    return torch.tensor(pts, dtype=torch.float64)


def match(world, i, q, exp, op, pick):
    """the best (worst) match of the orientations equivalent to q"""
    D = world.one(i, world.equivalents(i, q), op["bin"])
    s = (D - D.mean(1, keepdim=True)) @ exp
    return s.max() if pick is max else s.min()


def follow(world, i, q, op, exp, cu2qu):
    """(first-grid best score, start score, path or None, tol)"""
    G = grid(op)
    scale = 1.0
    first = start = None
    path, amb = [], False
    ie = _idx.interp_error(world, int(world.assign[i]))
    d = len(exp)
    tol = 0.0
    for j in range(op["iters"]):
        cand = _ref.qmul(cu2qu((G * scale).float()).double(), q[None])  # (float32: small angles lose accuracy there)
        crossing = torch.zeros(len(cand), dtype=torch.bool)
        if world.sym:
            crossing = _ref.margin(cand, world.laue(i)) < 1e-4
            cand = _ref.reduced(cand, world.laue(i))
        D = world.one(i, cand, op["bin"])
        D = D - D.mean(1, keepdim=True)
        S = D @ exp
        eps = max(_idx.EPS[op["dtype"]], 6e-8)
        # pattern values, float32 candidates and the matching precision
        tol = max(tol, float(exp.abs().sum()) * ie * 1.5 + 4 * eps * (d + 2) * float(D.abs().max()) * float(exp.abs().max()) + 1e-9)
        v, k = S.max(0)
        if bool(crossing.any()):
            # the equivalents of a candidate differ in the last digits of the images' symmetry
            amb = True
        if first is None and amb:
            low = torch.stack([match(world, i, x, exp, op, min) for x in cand])
            first, start = float(low.max()), float(match(world, i, q, exp, op, min))
            break
        if first is None:
            c = int((G == 0).all(1).nonzero()[0])
            first, start = float(v), float(S[c])
        o = torch.sort(S, descending=True).values
        if amb or len(o) > 1 and float(o[0] - o[1]) <= 4 * tol:
            amb = True
            break
        q = cand[k]
        path.append(float(v))
        if bool((G[k] == 0).all()):
            scale *= op["shrink"]
    return first, start, (None if amb else (q, path)), tol


def clip(world, op):
    if op["bin"] not in world.binnings():
        op["bin"] = 1
    if world.scan is None:
        op["avg"] = True
    # every candidate stays inside the fundamental zone where the images have no symmetry
    if not world.sym:
        op["edge"] = min(op["edge"], round(world.room / (1.8 * op["iters"]), 3))


def execute(plan, ctx):
    m = seams.repo("ebsdtorch.ebsd.refining")
    cu2qu = seams.repo("ebsdtorch.s2_and_so3.orientations").cu2qu
    world = _ref.RefWorld(plan["cfg"])
    e = world.e
    snap = world.snapshot()
    n = world.n
    world.room = 27.0 - plan["cfg"]["start"]
    used = set(world.assign.tolist())
    if n > 1 or len(world.mps) > 1:
        ctx.nontrivial = True
    for op in plan["ops"]:
        clip(world, op)
        if op["edge"] < 0.2:
            break
        if not world.sym:
            world.room -= 1.8 * op["iters"] * op["edge"]
        world.use_scan = not op["avg"]
        q0 = e.get_orientations().clone()
        ph0 = e.get_indices_per_phase()
        met0 = e.best_metrics.clone()
        X = world.exp(op["bin"])
        ref = [follow(world, i, q0[i].double(), op, X[i], cu2qu) for i in range(n)]
        seams.CLOCK.start([0.0, 0.02, 1.0], now=1e6)
        dots = m.orientation_grid_refinement(
            world.mps[0] if len(world.mps) == 1 else world.mps, world.g, e, op["edge"], max(1, op["batch"]), virtual_binning=op["bin"], n_iter=op["iters"],
            axial_grid_dimension=op["axial"], kernel_radius_in_steps=op["radius"], shrink_factor=op["shrink"], average_pattern_center=op["avg"], match_dtype=_idx.DT[op["dtype"]],
        )
        world.check_unchanged(ctx, snap, "refine")
        ctx.hold("scores", *dots)
        q1 = e.get_orientations()
        ctx.check(tuple(q1.shape) == (n, 4), "shape", f"{tuple(q1.shape)}")
        ctx.check(bool(((q1.double().norm(dim=1) - 1).abs() < 1e-4).all()), "not-unit", f"{q1.norm(dim=1).tolist()}")
        for a, b in zip(ph0, e.get_indices_per_phase()):
            ctx.check(torch.equal(a, b), "phases-changed", "")
        ctx.check(torch.equal(met0, e.best_metrics), "metrics-changed", "")
        for i in range(n):
            first, start, path, tol = ref[i]
            s = float(match(world, i, q1[i], X[i], op, max))
            if world.sym:
                ctx.check(float(_ref.margin(q1[i : i + 1], world.laue(i))) > -2e-5, "outside-zone", lambda: f"pattern {i}: {q1[i].tolist()} in group {world.laue(i)}")
                ctx.probe("symmetric-images")
            ctx.check(s >= start - 2 * tol, "worse-than-start", lambda: f"pattern {i}: {s} from {start} tol {tol:.2e}")
            ctx.check(s >= first - 2 * tol, "worse-than-grid", lambda: f"pattern {i}: {s}, best of its grid {first} tol {tol:.2e}")
            if path is not None:
                ctx.probe("path-followed")
                q, sc = path
                dq = min(float((q1[i].double() - q).norm()), float((q1[i].double() + q).norm()))
                ctx.check(dq < 2e-5, "not-its-own-search", lambda: f"pattern {i}: {dq:.2e} away from its own grid search, score {s} expected {sc[-1]}")
                got = dots[int(world.assign[i])][i].double()
                ctx.check(bool(((got - torch.tensor(sc, dtype=torch.float64)).abs() <= 2 * tol).all()), "reported-dots", lambda: f"pattern {i}: {got.tolist()} expected {sc} tol {tol:.2e}")
        ctx.steps += op["iters"] * n
        ctx.sim_time += seams.CLOCK.now - 1e6
        ctx.state(n, op["batch"], len(used), len(world.mps), op["bin"], op["axial"], op["radius"], op["iters"], op["avg"], op["dtype"])
        ctx.log("refine", op["batch"], op["axial"])
        ctx.tensor("ori", q1)
