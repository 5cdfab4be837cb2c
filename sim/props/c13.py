"""C13 multi-phase assignment over histories of indexing runs."""
import torch

from .. import seams
from . import _idx, c11, c12

RULE = (
    "one run = a seeded world of 2-3 phases and a seeded history of 2-5 indexing runs, each over its own list of phases (any order and number), top-k, metric, "
    "chunking and method (dictionary or PCA with all components), some interrupted part-way or rejected, with manual record writes in between; after every completed run each record "
    "is compared with a float64 search over exactly that run's phases; non-trivial = at least two runs over different phase lists"
)
MODULES = ["ebsdtorch.ebsd.indexing", "ebsdtorch.s2_and_so3.laue_fz_ori"]
COMPONENTS = {
    "real": ["ebsdtorch.ebsd.indexing (both methods)", "ebsd.experiment_pats raw results and combination", "utils.knn", "utils.pca_covmat"],
    "stub": ["torch random stream", "wall clock of the progress display", "interrupt delivery (line of repo code)"],
}


def generate(r, tier):
    W = _idx.gen_world(r, phases=r.choice([2, 2, 3]), resolutions=(24.0, 32.0, 45.0))
    if r.random() < 0.3:  # the same crystal under two names: exact ties
        W["phases"][-1] = dict(W["phases"][0])
    P = len(W["phases"])
    ops = []
    for _ in range(r.randint(2, 5)):
        ids = r.sample(range(P), r.randint(1, P))
        c = c11.gen_call(r, W, allow_quant=False)
        c.update(phases=ids, pca=r.random() < 0.25, dtype=r.choice(["float32", "float32", "float64"]), mask=None, event=r.choice([None, None, None, "interrupt", "write", "reject"]), at=round(r.random(), 4))
        if c["pca"]:
            c["dtype"] = "float32"
            if c["metric"] == "manhattan":
                c["metric"] = "angular"
        c["dchunk"], c["echunk"] = r.choice([7, 50, 256, 100000]), r.choice([2, 3, 256])
        ops.append(c)
    return dict(cfg=W, ops=ops)


def run_call(world, c, b, mask):
    if not c.get("pca"):
        return c11.call_index(world, c, b, mask, phases=c["phases"])
    m = seams.repo("ebsdtorch.ebsd.indexing")
    torch.manual_seed(c["seed"])
    c11.clock(c["seed"])
    with seams.sim_locks():
        m.pca_dictionary_index_orientations(
            [world.mps[p] for p in c["phases"]], world.g, world.e, n_pca_components=world.H * world.W // (b * b), signal_mask=mask,
            subtract_exp_pat_mean=c["subtract"], experiment_chunk_size=max(1, c["echunk"]), dictionary_resolution_learn_deg=c["res"],
            dictionary_resolution_index_deg=c["res"], dictionary_chunk_size=max(1, c["dchunk"]), virtual_binning=b,
            top_k_matches=max(1, c["topk"]), distance_metric=c["metric"], match_dtype=_idx.DT[c["dtype"]], quantized_via_ao=False,
        )


def execute(plan, ctx):
    world = _idx.World(plan["cfg"])
    snap = world.snapshot()
    lists = set()
    for c in plan["ops"]:
        c["phases"] = [p for p in c["phases"] if p < len(world.mps)]
        if not c["phases"]:
            continue
        b, mask = c11.prepare(world, c)
        per_phase, tol = c11.truth(world, c, b, mask, c["phases"])
        if any(len(d) < max(2 if c.get("pca") else 1, c["topk"]) for d, _ in per_phase):
            continue  # (components of a single pattern are undefined)
        if c.get("pca"):
            tol *= 8  # (the rotation to components in float32)
        if c["event"] == "interrupt":
            with seams.LineFault() as lf:
                run_call(world, c, b, mask)
            _idx.check_best(ctx, world, world.e, per_phase, c["metric"], tol, max(1, c["topk"]), "history")
            cut = seams.LineFault(at=lf.pick(c["at"]))
            try:
                with cut:
                    run_call(world, c, b, mask)
            except KeyboardInterrupt:
                ctx.fault("interrupt")
                ctx.log("interrupted", cut.fired)
        elif c["event"] == "write" and world.e.get_orientations() is not None:
            world.e.set_orientations(torch.tensor([[1.0, 0, 0, 0]]).repeat(world.n, 1))
        elif c["event"] == "reject":
            bad = dict(c, metric="no-such-metric", pca=False)
            try:
                run_call(world, bad, b, mask)
            except Exception:  # noqa: BLE001
                ctx.fault("invalid-call")
            else:
                ctx.fail("accepted-unknown-metric")
        run_call(world, c, b, mask)
        _idx.check_best(ctx, world, world.e, per_phase, c["metric"], tol, max(1, c["topk"]), "history")
        world.check_unchanged(ctx, snap, "indexing")
        lists.add(tuple(c["phases"]))
        ctx.steps += 1
        ctx.state(c["phases"], c["metric"], c["topk"], bool(c.get("pca")), c["event"])
        ctx.log("run", c["phases"], c["metric"], c["topk"])
        ctx.tensor("ori", world.e.get_orientations())
    ctx.nontrivial = ctx.nontrivial or len(lists) > 1
