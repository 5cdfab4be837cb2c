"""C14 interrupted or out-of-memory indexing and refinement."""
import torch

from .. import seams
from ..common import same_bits
from . import _idx, _ref, c11, c13, c15, c16

RULE = (
    "one run = two identical seeded worlds and a seeded history of 1-3 calls (dictionary or PCA indexing, grid or gradient refinement); the twin world runs each call undisturbed, "
    "the other one is interrupted at a seeded source line or runs out of memory at a seeded allocation, is inspected, and runs the call again; non-trivial = a fault fired inside a call"
)
MODULES = ["ebsdtorch.ebsd.indexing", "ebsdtorch.ebsd.refining", "ebsdtorch.ebsd.geometry", "ebsdtorch.ebsd.master_pattern", "ebsdtorch.s2_and_so3.laue_fz_ori"]
COMPONENTS = {
    "real": ["ebsdtorch.ebsd.indexing", "ebsd.refining", "ebsd.experiment_pats", "ebsd.master_pattern", "ebsd.geometry", "utils.knn", "utils.pca_covmat"],
    "stub": ["torch allocator (failing allocations)", "interrupt delivery (line of repo code)", "torch random stream", "wall clock of the progress display"],
}


def generate(r, tier):
    W = _ref.gen_world(r)
    W["scan"] = False
    W["res"] = r.choice([32.0, 45.0])
    for p in W["phases"]:
        p["laue"] = r.choice([7, 9, 11, 11])
    ops = []
    for _ in range(r.choice([1, 2, 3])):
        k = r.choice(["index", "index", "pca", "grid", "grid", "grad"])
        fault = dict(how=r.choice(["line", "alloc"]), at=round(r.random(), 5), n=r.choice([1, 1, 2]))
        if k in ("index", "pca"):
            c = c11.gen_call(r, W, allow_quant=False)
            P = len(W["phases"])
            c.update(phases=r.sample(range(P), r.randint(1, P)), pca=k == "pca", dtype="float32", dchunk=r.choice([7, 50, 256]), echunk=r.choice([2, 3, 256]))
            if k == "pca" and c["metric"] == "manhattan":
                c["metric"] = "euclidean"
            if c["pca"]:
                c["mask"] = None
            if r.random() < 0.3:
                fault["at"] = round(1 - 0.05 * r.random(), 5)  # while the results are stored
        elif k == "grid":
            c = dict(edge=0.8, batch=r.choice([1, 2, 3]), bin=r.choice([1, 1, 2]), iters=r.choice([1, 2]), axial=r.choice([1, 2]), radius=1, shrink=0.5, avg=True, dtype="float32")
        else:
            c = dict(batch=r.choice([1, 2, 3]), bin=r.choice([1, 2]), iters=r.choice([1, 3]), lr=1e-3, dtype="float32", avg=True)
        ops.append(dict(op=k, c=c, fault=fault))
    return dict(cfg=W, ops=ops)


def call(world, k, c):
    if k in ("index", "pca"):
        c11.clock(c["seed"])
        c13.run_call(world, c, c["_b"], c["_mask"])
        return
    seams.CLOCK.start([0.0, 0.02, 1.0], now=1e6)
    torch.manual_seed(0)
    m = seams.repo("ebsdtorch.ebsd.refining")
    if k == "grad":
        c16.refine(m, world, world.e, c, c["batch"])
    else:
        m.orientation_grid_refinement(
            world.mps[0] if len(world.mps) == 1 else world.mps, world.g, world.e, c["edge"], max(1, c["batch"]), virtual_binning=c["bin"], n_iter=c["iters"],
            axial_grid_dimension=c["axial"], kernel_radius_in_steps=c["radius"], shrink_factor=c["shrink"], average_pattern_center=True, match_dtype=torch.float32,
        )


def fields(e):
    return dict(orientation=e.get_orientations().clone(), phase=e.phases.clone(), metric=e.best_metrics.clone())



def dry_run(world, k, c, how):
    m = seams.FaultMode(record=True) if how == "alloc" else seams.LineFault()
    with m:
        call(world, k, c)
    return m


def row_state(old, new, now, i):
    """which of (old, new) row i of a field is"""
    a = same_bits(now[i], old[i]) if now.shape == old.shape and now.dtype == old.dtype else False
    b = same_bits(now[i], new[i]) if now.shape == new.shape and now.dtype == new.dtype else False
    return a, b


def execute(plan, ctx):
    world, twin = _ref.RefWorld(plan["cfg"]), _ref.RefWorld(plan["cfg"])
    snap = world.snapshot()
    n = world.n
    for op in plan["ops"]:
        k, c, f = op["op"], op["c"], op["fault"]
        if k in ("index", "pca"):
            c["phases"] = [p for p in c["phases"] if p < len(world.mps)]
            if not c["phases"]:
                continue
            b, mask = c11.prepare(world, c)
            if any(len(world.dictionary(p, c["res"])) < max(2, c["topk"]) for p in c["phases"]):
                continue
            c = dict(c, _b=b, _mask=mask)
        else:
            if c["bin"] not in world.binnings():
                c["bin"] = 1
            if int(world.e.phases.max()) >= len(world.mps):
                continue
        old = fields(world.e)
        dry = dry_run(twin, k, c, f["how"])
        new = fields(twin.e)
        for rep in range(f["n"]):
            at = dry.pick(f["at"] if rep == 0 else 1 - f["at"] / 2)
            sim = seams.LineFault(at=at) if f["how"] == "line" else seams.FaultMode(fail_at=at)
            failed = False
            try:
                with sim:
                    call(world, k, c)
            except (KeyboardInterrupt, Exception):  # noqa: BLE001
                if sim.fired is None:
                    raise
                failed = True
            if sim.fired is not None:
                ctx.fault("interrupt" if f["how"] == "line" else "alloc-failure")
                ctx.nontrivial = True
                ctx.state(k, sim.fired)
                ctx.log("fault", k, f["how"], at)
            if not failed:
                break
            world.check_unchanged(ctx, snap, f"{k} {f['how']}")
            now = fields(world.e)
            ctx.check(tuple(now["orientation"].shape) == (n, 4) and len(now["phase"]) == n and len(now["metric"]) == n, f"{k}:shape", "")
            for i in range(n):
                st = {x: row_state(old[x], new[x], now[x], i) for x in now}
                for x, (a, bb) in st.items():
                    ctx.check(a or bb, f"{k}:record-neither-old-nor-new", lambda: f"{x} of pattern {i} after {sim.fired}: {now[x][i].tolist()}, was {old[x][i].tolist()}, would be {new[x][i].tolist()}")
                if f["how"] == "alloc":
                    ctx.check(all(a for a, _ in st.values()) or all(bb for _, bb in st.values()), f"{k}:record-mixed", lambda: f"pattern {i} after {sim.fired}: {st}")
            ctx.probe("partial" if not all(same_bits(now[x], old[x]) for x in now) else "untouched")
            if k in ("grid", "grad"):
                world.e.set_orientations(old["orientation"].clone())
        else:
            call(world, k, c)
        now = fields(world.e)
        for x in now:
            ctx.check(same_bits(now[x], new[x]), f"{k}:rerun-differs", lambda: f"{x} after a {f['how']} fault and a rerun: {now[x].tolist()}, undisturbed {new[x].tolist()}")
        world.check_unchanged(ctx, snap, f"{k} rerun")
        ctx.steps += 2 + f["n"]
        ctx.sim_time += seams.CLOCK.now - 1e6
        ctx.tensor("ori", now["orientation"])
