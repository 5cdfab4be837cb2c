"""C11 dictionary indexing equals exhaustive search, for every chunking, order and seed."""
import torch

from .. import seams
from ..common import data
from . import _idx

RULE = (
    "one run = a seeded crystal/detector/scan world and a seeded indexing call (dictionary and pattern chunking, seed of the dictionary order, metric, "
    "mask, binning, background option, top-k, precision or int8 matching, 1-3 phases), compared with a float64 exhaustive search; "
    "non-trivial = the dictionary or the patterns were processed in more than one chunk"
)
COMPONENTS = {
    "real": ["ebsdtorch.ebsd.indexing.dictionary_index_orientations", "ebsd.geometry", "ebsd.master_pattern", "ebsd.experiment_pats", "utils.knn", "utils.progressbar", "s2_and_so3 sampling"],
    "stub": ["torch random stream (seeded dictionary order)", "wall clock of the progress display"],
}
CHUNKS = [1, 2, 3, 5, 7, 16, 50, 256, 100000]


def gen_call(r, W, allow_quant=True):
    return dict(
        dchunk=r.choice(CHUNKS), echunk=r.choice(CHUNKS), res=W["res"], bin=r.choice([1, 1, 2]), topk=r.choice([1, 1, 1, 2, 4]),
        metric=r.choice(["angular", "angular", "angular", "euclidean", "manhattan"]), dtype=r.choice(["float32", "float32", "float32", "float64", "float16"]),
        quant=allow_quant and r.random() < 0.2, subtract=r.random() < 0.7, mask=r.choice([None, None, "rand", "few"]), mseed=r.randrange(2**31), seed=r.randrange(2**31),
    )


def generate(r, tier):
    W = _idx.gen_world(r)
    calls = [gen_call(r, W) for _ in range(r.choice([1, 1, 2, 3]))]
    return dict(cfg=W, ops=calls)


def prepare(world, c):
    b = c["bin"] if c["bin"] in world.binnings() else 1
    H, W = world.H // b, world.W // b
    mask = None
    if c["mask"]:
        x = data(c["mseed"], (H, W), "positive")
        mask = x > (0.3 if c["mask"] == "rand" else 0.7)
        if int(mask.sum()) < 2:
            mask = torch.ones(H, W, dtype=torch.bool)
    return b, mask


def clock(r_seed):
    seams.CLOCK.start([0.0, 0.01, 0.5, 3.0, 0.0, 0.2], now=1e6 + r_seed % 1000)


def call_index(world, c, b, mask, phases=None, fn=None):
    m = seams.repo("ebsdtorch.ebsd.indexing")
    ids = list(range(len(world.mps))) if phases is None else phases
    mps = [world.mps[p] for p in ids]
    torch.manual_seed(c["seed"])
    clock(c["seed"])
    with seams.sim_locks():
        m.dictionary_index_orientations(
            mps[0] if len(mps) == 1 and c["seed"] % 2 else mps, world.g, world.e, signal_mask=mask, subtract_exp_pat_mean=c["subtract"],
            experiment_chunk_size=max(1, c["echunk"]), dictionary_resolution_degrees=c["res"], dictionary_chunk_size=max(1, c["dchunk"]),
            virtual_binning=b, top_k_matches=max(1, c["topk"]), distance_metric=c["metric"], match_dtype=_idx.DT[c["dtype"]], quantized_if_x86=bool(c["quant"]),
        )


def truth(world, c, b, mask, phases=None):
    ids = list(range(len(world.mps))) if phases is None else phases
    Q = world.exp(b, mask, c["subtract"])
    out, tol = [], 0.0
    for p in ids:
        dic = world.dictionary(p, c["res"])
        D = world.sims(p, dic, b)
        if mask is not None:
            D = D[:, mask.flatten()]
        D = D - D.mean(1, keepdim=True)
        out.append((dic, _idx.scores(c["metric"], D, Q)))
        tol = max(tol, _idx.tolerance(c["metric"], D, Q, c["dtype"], c["quant"], _idx.interp_error(world, p)))
    return out, tol


def execute(plan, ctx):
    world = _idx.World(plan["cfg"])
    snap = world.snapshot()
    for c in plan["ops"]:
        b, mask = prepare(world, c)
        m0 = None if mask is None else mask.clone()
        per_phase, tol = truth(world, c, b, mask)
        if any(len(d) < max(1, c["topk"]) for d, _ in per_phase):
            continue
        if sum(len(d) > c["dchunk"] for d, _ in per_phase) or world.n > c["echunk"]:
            ctx.nontrivial = True
        call_index(world, c, b, mask)
        world.check_unchanged(ctx, snap, "indexing")
        ctx.check(m0 is None or torch.equal(mask, m0), "mask-changed", "")
        _idx.check_best(ctx, world, world.e, per_phase, c["metric"], tol, max(1, c["topk"]), "index")
        ctx.steps += sum(-(-len(d) // max(1, c["dchunk"])) for d, _ in per_phase) * -(-world.n // max(1, c["echunk"]))
        ctx.sim_time += seams.CLOCK.now - 1e6
        ctx.state([len(d) for d, _ in per_phase], c["dchunk"], c["echunk"], c["metric"], b, c["mask"], c["topk"], c["dtype"], c["quant"])
        ctx.log("index", [len(d) for d, _ in per_phase], world.n)
        ctx.tensor("ori", world.e.get_orientations())
