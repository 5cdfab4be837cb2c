"""C25 sampling: grids do not depend on the random state, cover the zone, and random samplers stay in it."""
import math

import torch

from .. import seams
from ..common import data
from ._rot import qmul

RULE = (
    "one run = a seeded series of grid and random sampling calls for several symmetries and sizes under changing random states and scripted random streams (extremes, streaks, chosen permutations); every grid is compared "
    "with earlier grids of the same request, with float64 symmetry operations and with probe orientations; non-trivial = one request repeated under another random state, or a scripted stream"
)
MODULES = ["ebsdtorch.s2_and_so3.laue_fz_ori", "ebsdtorch.s2_and_so3.sampling", "ebsdtorch.s2_and_so3.laue_fz_s2"]
COMPONENTS = {"real": ["ebsdtorch.s2_and_so3.laue_fz_ori, laue_fz_s2, sampling, orientations"], "stub": ["torch random stream and permutations"]}


def axis_rot(axis, deg):
    h = math.radians(deg) / 2
    a = torch.tensor(axis, dtype=torch.float64)
    return torch.cat([torch.tensor([math.cos(h)], dtype=torch.float64), math.sin(h) * a / a.norm()])


Z, X, XYZ, XY = [0, 0, 1.0], [1.0, 0, 0], [1.0, 1, 1], [1.0, 1, 0]
GENS = {
    1: [], 2: [(Z, 180)], 3: [(Z, 180), (X, 180)], 4: [(Z, 90)], 5: [(Z, 90), (X, 180)], 6: [(Z, 120)], 7: [(Z, 120), (X, 180)], 8: [(Z, 60)], 9: [(Z, 60), (X, 180)], 10: [(Z, 180), (X, 180), (XYZ, 120)], 11: [(Z, 90), (X, 90)],
}
ORDER = {1: 1, 2: 2, 3: 4, 4: 4, 5: 8, 6: 3, 7: 6, 8: 6, 9: 12, 10: 12, 11: 24}
_groups = {}


def group(laue):
    if laue not in _groups:
        els = [torch.tensor([1.0, 0, 0, 0], dtype=torch.float64)]
        gens = [axis_rot(*g) for g in GENS[laue]]
        grew = True
        while grew:
            grew = False
            for e in list(els):
                for g in gens:
                    p = qmul(e[None], g[None])[0]
                    if not any(abs(float(p @ x)) > 1 - 1e-9 for x in els):
                        els.append(p)
                        grew = True
        assert len(els) == ORDER[laue]
        _groups[laue] = torch.stack(els)
    return _groups[laue]


def generate(r, tier):
    ops = []
    keys = []
    for _ in range(r.choice([2, 3, 4])):
        keys.append(
            dict(
                what=r.choice(["angle", "angle", "angle", "count", "count", "rosca", "fib", "so3fib", "s2fib", "cube"]), laue=r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]), res=r.choice([12.0, 16.0, 20.0, 25.0, 30.0, 45.0]), n=r.choice([1, 10, 24, 100, 177, 300, 700, 900]),
                mode=r.choice(["avg", "max"]), edge=r.choice([1, 2, 3, 5, 6, 9, 10, 11]),
            )
        )
    for _ in range(r.choice([4, 6, 9])):
        op = r.choice(["grid", "grid", "grid", "random", "random", "cover"])
        ops.append(dict(op=op, k=r.randrange(4), permute=r.random() < 0.5, seed=r.randrange(2**31), stream=r.choice(["natural", "natural", "zeros", "ones", "half", "streaks", "extremes"]), fn=r.choice(["cu", "uniform", "uniform64"]), n=r.choice([0, 1, 2, 17, 500]), perm=r.choice(["natural", "natural", "identity", "reverse", "roll"])))
    return dict(cfg={}, keys=keys, ops=ops)


def known_input(plan, k):
    # the sampler divides by the symmetry twice: groups with symmetry are sampled more coarsely than asked
    # (only that kind is listed, and it is raised after everything else in the run held)
    return any(x["what"] == "angle" and x["laue"] >= 2 for x in plan["keys"])


def sort_rows(q):
    q = q.double()
    for j in (3, 2, 1, 0):
        if j < q.shape[1]:
            q = q[torch.sort(q[:, j], stable=True).indices]
    return q


def inside(ctx, q, laue, what):
    """every quaternion is the one of its equivalents that turns least"""
    q = q.double()
    if not len(q):
        return
    w = torch.stack([(q @ (g * torch.tensor([1.0, -1, -1, -1], dtype=torch.float64))).abs() for g in group(laue)]).max(0).values
    ctx.check(bool((w - q[:, 0].abs() <= 2e-6).all()), f"{what}:outside-zone", lambda: f"Laue group {laue}: {int((w - q[:, 0].abs() > 2e-6).sum())} of {len(q)} quaternions are not in the fundamental zone")


def nearest(q, probes, laue):
    """angle (degrees) from each probe to the nearest of q under the symmetry"""
    G = group(laue)
    eq = qmul(probes.double()[:, None], G[None])
    best = torch.stack([(eq[:, j] @ q.double().T).abs().max(1).values for j in range(len(G))]).max(0).values
    return torch.rad2deg(2 * torch.acos(best.clamp(max=1)))


def rand_quats(seed, n):
    v = data(seed, (n, 4))
    return v / v.norm(dim=1, keepdim=True)


def execute(plan, ctx):
    O = seams.repo("ebsdtorch.s2_and_so3.laue_fz_ori")
    S = seams.repo("ebsdtorch.s2_and_so3.sampling")
    F = seams.repo("ebsdtorch.s2_and_so3.laue_fz_s2")
    cpu = torch.device("cpu")
    memory = {}
    late = []
    keys = plan["keys"]
    if not keys:
        return

    def call(key, permute, seed, perm):
        def draw(name, out, args):
            if "randperm" in name:
                n = out.numel()
                i = torch.arange(n, dtype=out.dtype)
                if perm == "reverse":
                    i = i.flip(0)
                elif perm == "roll":
                    i = i.roll(n // 3)
                out.copy_(i)

        torch.manual_seed(seed % 2**31)
        w = key["what"]

        def go():
            if w == "angle":
                return O.sample_ori_fz_laue_angle(laue_id=key["laue"], angular_resolution_deg=key["res"], device=cpu, permute=permute)
            if w == "count":
                return O.sample_ori_fz_laue(laue_id=key["laue"], target_n_samples=key["n"], device=cpu, permute=permute)
            if w == "rosca":
                return F.sample_s2_fz_laue_rosca(laue_id=key["laue"], target_n_samples=key["n"], device=cpu)
            if w == "fib":
                return F.sample_s2_fz_laue_fibonacci(laue_id=key["laue"], target_n_samples=key["n"], device=cpu)
            if w == "cube":
                return S.so3_cubochoric_grid(key["edge"], cpu)
            if w == "so3fib":
                return S.so3_fibonacci(key["n"], cpu)
            return S.s2_fibonacci(key["n"], cpu, mode=key["mode"])

        if perm == "natural":
            return go()
        with seams.FaultMode(draw=draw):
            return go()

    for op in plan["ops"]:
        if op["op"] == "random":
            run_random(ctx, S, op)
            continue
        j = op["k"] % len(keys)
        key = keys[j]
        w = key["what"]
        permute = op["permute"] and w in ("angle", "count")
        q = call(key, permute, op["seed"], op["perm"])
        ctx.steps += len(q)
        d = 4 if w in ("angle", "count", "so3fib", "cube") else 3
        ctx.check(q.dim() == 2 and q.shape[1] == d, "shape", f"{tuple(q.shape)}")
        ctx.check(bool(torch.isfinite(q).all()) and bool(((q.double().norm(dim=1) - 1).abs() < 1e-5).all()), f"{w}:not-unit", lambda: f"norms {q.double().norm(dim=1).min()} .. {q.double().norm(dim=1).max()}")
        again = call(key, permute, op["seed"], op["perm"])
        ctx.check(torch.equal(again, q), f"{w}:not-reproducible", "the same random state gives another result")
        ctx.hold(w, q)
        again.fill_(0.5)  # what a caller does with a result stays with the caller
        if j in memory:
            was, n_was = memory[j]
            ctx.check(len(q) == n_was, f"{w}:size-depends-on-state", f"{len(q)} and {n_was} samples")
            ctx.check(torch.equal(sort_rows(q), was), f"{w}:set-depends-on-state", "the same request gives another set of samples")
            if not permute:
                ctx.probe("repeat")
            ctx.nontrivial = True
        else:
            memory[j] = (sort_rows(q), len(q))
        if not permute:
            k2 = (j, "order")
            if k2 in memory:
                ctx.check(torch.equal(memory[k2], q), f"{w}:order-depends-on-state", "")
            memory[k2] = q.clone()
        if w in ("angle", "count"):
            inside(ctx, q, key["laue"], w)
            ctx.check(bool((q[:, 0] >= -1e-7).all()), f"{w}:negative-scalar", "")
            # a sample is there once (equivalent quaternions on faces of the zone aside)
            ctx.check(len(torch.unique(q.double().round(decimals=5), dim=0)) == len(q), f"{w}:duplicates", "")
        if w == "cube":
            cube(ctx, q, key["edge"], op)
        if w in ("so3fib", "s2fib"):
            ctx.check(len(q) == key["n"], f"{w}:count", f"{len(q)} for {key['n']}")
            if op["op"] == "cover" and key["n"] >= 10:
                even(ctx, q.double(), w, key, op)
        if op["op"] == "cover" and w in ("angle", "count") and len(q) >= 1:
            cover(ctx, q, key, op, late)
        if op["op"] == "cover" and w in ("rosca", "fib") and len(q):
            cover_s2(ctx, q, key, op)
        ctx.state(w, key["laue"], permute, op["perm"], len(q))
        ctx.log(w, key["laue"], permute, len(q))
    # last, so that this listed finding hides nothing else
    ctx.check(not late, "angle:coarser-than-requested-with-symmetry", lambda: late[0])


def cover(ctx, q, key, op, late):
    laue = key["laue"]
    ang = nearest(q, rand_quats(op["seed"], 300), laue)
    worst = float(ang.max())
    # what the number of samples allows: equal volumes, cubic cells, a missing layer at the faces
    n_full = len(q) * ORDER[laue]
    cell = math.degrees(math.sqrt(3) * math.pi ** (2 / 3) / n_full ** (1 / 3))
    if len(q) >= 20:
        ctx.check(worst <= 3 * cell, f"{key['what']}:gap", lambda: f"Laue group {laue}: an orientation is {worst:.1f} deg from the nearest of {len(q)} samples (cells of {cell:.1f} deg)")
        ctx.probe("covered")
    if key["what"] == "angle":
        if laue >= 2 and 1.2 * key["res"] < worst <= 1.8 * key["res"] * ORDER[laue] ** (1 / 3):
            late.append(f"Laue group {laue}: an orientation is {worst:.1f} deg from the nearest sample, {key['res']} deg requested")
        else:
            ctx.check(worst <= 1.2 * key["res"], "angle:coarser-than-requested", lambda: f"Laue group {laue}: an orientation is {worst:.1f} deg from the nearest sample, {key['res']} deg requested")
    elif key["n"] >= 100:
        ctx.check(0.4 * key["n"] <= len(q) <= 2 * key["n"], "count:size", lambda: f"Laue group {laue}: {len(q)} samples for {key['n']} requested")


def cube(ctx, q, n, op):
    """the grid of the whole rotation space: each rotation once, every part of the space alike"""
    q = q.double()
    ctx.check(len(q) == n**3, "cube:count", lambda: f"{len(q)} for {n} per edge")
    ctx.check(bool((q[:, 0] >= -1e-7).all()), "cube:negative-scalar", "")
    dot = (q @ q.T).abs()
    dot.fill_diagonal_(0)
    ctx.check(float(dot.max()) < 1 - 1e-6, "cube:rotation-twice", lambda: f"{n} per edge")
    if op["op"] == "cover" and n >= 3:
        ang = nearest(q, rand_quats(op["seed"], 300), 1)
        cell = math.degrees(math.sqrt(3) * math.pi ** (2 / 3) / n)
        ctx.check(float(ang.max()) <= 2 * cell, "cube:gap", lambda: f"{n} per edge: {float(ang.max()):.1f} deg, cells of {cell:.1f} deg")
        # cells of equal volume, moved by half a cell along each edge
        for t in (90.0, 120.0, 150.0):
            h = math.radians(t)
            share = float((2 * torch.acos(q[:, 0].clamp(max=1)) < h).double().mean())
            ctx.check(abs(share - (h - math.sin(h)) / math.pi) <= 1.5 / n, "cube:uneven", lambda: f"{n} per edge: {share:.3f} of the rotations turn less than {t}")
        ctx.probe("covered-cube")


def even(ctx, q, w, key, op):
    """separation and covering radius in units of the spacing, against those of the published lattices"""
    rot = w == "so3fib"
    unit = len(q) ** (1 / 3 if rot else 1 / 2)
    near, far, mode = (1.0, 2.6, "") if rot else (2.9, 2.85, "avg") if key["mode"] == "avg" else (3.0, 6.5, "max")
    probe = data(op["seed"], (600, q.shape[1]))
    probe = probe / probe.norm(dim=1, keepdim=True)

    def ang(a, b):
        # (chords keep the digits of small angles)
        d = torch.cdist(a, b)
        if rot:
            d = torch.minimum(d, torch.cdist(a, -b))
        return 2 * torch.asin((d / 2).clamp(max=1))

    d = ang(q, q)
    d.fill_diagonal_(9.0)
    sep, cov = float(d.min()) * unit, float(ang(probe, q).min(1).values.max()) * unit
    ctx.check(sep >= near, f"{w}:clumped", lambda: f"{len(q)} samples {mode}: the closest two are {sep:.2f} spacings apart, {near} expected")
    ctx.check(cov <= far, f"{w}:hole", lambda: f"{len(q)} samples {mode}: the farthest point is {cov:.2f} spacings away, {far} expected")
    ctx.probe("spread")


def cover_s2(ctx, q, key, op):
    laue = key["laue"]
    v = data(op["seed"], (300, 3))
    v = v / v.norm(dim=1, keepdim=True)
    from ._idx import rotate

    eq = rotate(group(laue), v).reshape(-1, 3)
    eq = torch.cat([eq, -eq])
    best = (eq @ q.double().T).max(1).values.reshape(2, len(group(laue)), 300).amax((0, 1))
    worst = float(torch.acos(best.clamp(max=1)).max())
    if len(q) >= 20:
        full = len(q) * 2 * ORDER[laue]
        cell = math.sqrt(4 * math.pi / full)
        ctx.check(worst <= 3.5 * cell, f"{key['what']}:s2-gap", lambda: f"Laue group {laue}: a direction is {math.degrees(worst):.1f} deg from the nearest of {len(q)} samples (cells of {math.degrees(cell):.1f} deg)")
        ctx.probe("covered-s2")


def run_random(ctx, S, op):
    n, k = op["n"], op["stream"]
    cpu = torch.device("cpu")
    torch.manual_seed(op["seed"] % 2**31)
    g = torch.Generator()
    g.manual_seed(op["seed"] % 2**31)

    def draw(name, out, args):
        if not out.is_floating_point():
            return None
        top = 1 - torch.finfo(out.dtype).eps / 2
        u = torch.rand(out.shape, generator=g, dtype=torch.float64)
        if k == "zeros":
            u = torch.zeros_like(u)
        elif k == "ones":
            u = torch.full_like(u, top)
        elif k == "half":
            u = torch.full_like(u, 0.5)
        elif k == "streaks":
            u = (u * 3).floor() / 2
        elif k == "extremes":
            u = torch.where(u < 0.3, 0.0, torch.where(u < 0.6, 1.0, torch.where(u < 0.8, 1e-30, u)))
        out.copy_(u.clamp(0, top))

    if op["fn"] == "cu":
        fn = lambda: S.so3_cu_rand(n, cpu)  # noqa: E731
    else:
        dt = torch.float64 if op["fn"] == "uniform64" else torch.float32
        fn = lambda: S.so3_uniform_quat(n, cpu, dt)  # noqa: E731
    if k == "natural":
        q = fn()
    else:
        with seams.FaultMode(draw=draw):
            q = fn()
        ctx.fault("scripted-stream")
    ctx.check(tuple(q.shape) == (n, 4), "random:shape", f"{tuple(q.shape)}")
    ctx.check(bool(torch.isfinite(q).all()), f"random:not-finite", lambda: f"{op['fn']} with stream {k}: {int((~torch.isfinite(q)).any(1).sum())} of {n}")
    ctx.check(bool(((q.double().norm(dim=1) - 1).abs() < 1e-5).all()), "random:not-unit", lambda: f"{op['fn']} with stream {k}")
    if op["fn"] == "cu":
        ctx.check(bool((q[:, 0] >= 0).all()), "random:negative-scalar", f"stream {k}")
    if k == "natural" and n >= 500:
        # second moments of uniform rotations: q q^T has mean I / 4, variances below 1/16
        m = q.double().T @ q.double() / n - torch.eye(4, dtype=torch.float64) / 4
        ctx.check(float(m.abs().max()) < 7 * 0.25 / math.sqrt(n), "random:not-uniform", lambda: f"{op['fn']}: second moments off by {float(m.abs().max()):.3f}")
        ctx.check(len(torch.unique(q, dim=0)) > n - 3, "random:repeats", "")
    ctx.state("random", op["fn"], k, n)
    ctx.log("random", op["fn"], k, n)
    ctx.steps += n
