"""C12 PCA dictionary indexing equals search in the leading component space."""
import torch

from .. import seams
from . import _idx, c11

RULE = (
    "one run = a seeded crystal/detector/scan world and a seeded PCA indexing call (chunking of both passes, dictionary order, number of components, learning and "
    "indexing resolution, metric, mask, binning, top-k, precision, 1-2 phases), compared with a float64 search in the float64 component space; runs whose requested "
    "component count has no eigenvalue gap use the nearest one that has; non-trivial = more than one chunk"
)
COMPONENTS = {
    "real": ["ebsdtorch.ebsd.indexing.pca_dictionary_index_orientations", "utils.pca_covmat.OnlineCovMatrix", "utils.knn", "ebsd.geometry", "ebsd.master_pattern", "ebsd.experiment_pats"],
    "stub": ["torch random stream (seeded dictionary order)", "wall clock of the progress display"],
}
GAP = 0.03


def generate(r, tier):
    W = _idx.gen_world(r, phases=r.choice([1, 1, 1, 2]), resolutions=(16.0, 20.0, 28.0))
    ops = []
    for _ in range(r.choice([1, 1, 2])):
        c = c11.gen_call(r, W, allow_quant=True)
        c["metric"] = r.choice(["angular", "angular", "euclidean"])
        c["learn"] = r.choice([W["res"], W["res"], 12.0, 26.0])
        c["ncomp"] = r.choice([1, 2, 3, 5, 8, 12, 1000])
        if c["dtype"] == "float64":
            c["dtype"] = "float32"  # (the projected data is float32 anyway)
        ops.append(c)
    return dict(cfg=W, ops=ops)


def components(D, n):
    """(projector basis, gap) of the n leading components, n moved to the nearest clear gap"""
    d = D.shape[1]
    C = (D - D.mean(0)).T @ (D - D.mean(0)) / max(1, len(D) - 1)
    lam, vec = torch.linalg.eigh(C)
    lam, vec = lam.flip(0), vec.flip(1)
    n = min(n, d)
    for off in range(d + 1):
        for k in (n - off, n + off):
            if k == d:
                return vec, 1.0, d
            if 1 <= k < d and float(lam[k - 1] - lam[k]) > GAP * float(lam[0]):
                return vec[:, :k], float((lam[k - 1] - lam[k]) / lam[0]), k
    return vec, 1.0, d


def execute(plan, ctx):
    m = seams.repo("ebsdtorch.ebsd.indexing")
    world = _idx.World(plan["cfg"])
    snap = world.snapshot()
    for c in plan["ops"]:
        b, mask = c11.prepare(world, c)
        Q = world.exp(b, mask, c["subtract"])
        flat = None if mask is None else mask.flatten()
        ncomp, per_phase, tol, skip = c["ncomp"], [], 0.0, False
        sims = []
        for p in range(len(world.mps)):
            L = world.dictionary(p, c["learn"])
            I = world.dictionary(p, c["res"])  # noqa: E741
            DL, DI = world.sims(p, L, b), world.sims(p, I, b)
            if flat is not None:
                DL, DI = DL[:, flat], DI[:, flat]
            sims.append((I, DL - DL.mean(1, keepdim=True), DI - DI.mean(1, keepdim=True)))
        # one number of components that is well separated in every phase
        V0, _, ncomp = components(sims[0][1], ncomp)
        for p, (I, DL, DI) in enumerate(sims):
            V, gap, k = components(DL, ncomp)
            if k != ncomp or len(DL) < 2 or len(I) < max(1, c["topk"]):
                skip = True
                break
            D, q = DI @ V, Q @ V
            per_phase.append((I, _idx.scores(c["metric"], D, q)))
            lam_err = 4e-5 / gap  # float32 covariance and eigenvectors
            nD, nQ = float(DI.norm(dim=1).max()), float(Q.norm(dim=1).max())
            t = _idx.tolerance(c["metric"], D, q, c["dtype"], c["quant"], _idx.interp_error(world, p))
            t += 2 * lam_err * (nD * nQ if c["metric"] == "angular" else (nD + nQ) ** 2)
            tol = max(tol, t)
        if skip:
            ctx.probe("no-common-gap")
            continue
        if world.n > c["echunk"] or any(len(d) > c["dchunk"] for d, _ in per_phase):
            ctx.nontrivial = True
        torch.manual_seed(c["seed"])
        c11.clock(c["seed"])
        with seams.sim_locks():
            m.pca_dictionary_index_orientations(
                world.mps, world.g, world.e, n_pca_components=ncomp, signal_mask=mask, subtract_exp_pat_mean=c["subtract"], experiment_chunk_size=max(1, c["echunk"]),
                dictionary_resolution_learn_deg=c["learn"], dictionary_resolution_index_deg=c["res"], dictionary_chunk_size=max(1, c["dchunk"]),
                virtual_binning=b, top_k_matches=max(1, c["topk"]), distance_metric=c["metric"], match_dtype=_idx.DT[c["dtype"]], quantized_via_ao=bool(c["quant"]),
            )
        world.check_unchanged(ctx, snap, "indexing")
        _idx.check_best(ctx, world, world.e, per_phase, c["metric"], tol, max(1, c["topk"]), "pca-index")
        ctx.steps += sum(-(-len(d) // max(1, c["dchunk"])) for d, _ in per_phase) * -(-world.n // max(1, c["echunk"]))
        ctx.sim_time += seams.CLOCK.now - 1e6
        ctx.state([len(d) for d, _ in per_phase], c["dchunk"], c["echunk"], c["metric"], b, c["mask"], c["topk"], c["dtype"], ncomp, c["learn"] == c["res"])
        ctx.log("pca", [len(d) for d, _ in per_phase], world.n, ncomp)
        ctx.tensor("ori", world.e.get_orientations())
