"""C23 geometry fitting: the best pattern centre over the whole searched set, whatever the batching."""
import io
import math
import sys

import torch

from .. import seams
from ..common import alloc_fault_call, data, make_sites, make_switches, raise_thread_errors
from . import _idx, _mp
from .c24 import Model

RULE = (
    "one run = a seeded master pattern, detector, set of patterns (some simulated at a known geometry) and search range, fitted several times with seeded dictionary batch sizes, random states, failing allocations and "
    "interrupts in between; the returned centre and orientations are scored in float64 against every centre of the searched lattice and every dictionary orientation; non-trivial = the lattice has several centres and the dictionary several batches"
)
MODULES = ["ebsdtorch.ebsd.fitting", "ebsdtorch.ebsd.master_pattern", "ebsdtorch.s2_and_so3.laue_fz_ori"]
COMPONENTS = {
    "real": ["ebsdtorch.ebsd.fitting (metrics dot and mi)", "ebsdtorch.utils.mutual_information", "ebsdtorch.ebsd.master_pattern", "ebsdtorch.s2_and_so3 sampling", "ebsdtorch.utils.progressbar"],
    "stub": ["patterns (simulated)", "allocator verdict of a chosen torch op", "interrupt at a chosen source line", "thread scheduler", "random state"],
}
N_QUATS = {1: 24, 2: 12}


def generate(r, tier):
    b = r.choice([1, 1, 2])
    cfg = dict(
        laue=r.choice([3, 5, 7, 9, 11, 11, 11, 10, 1, 2]), H=b * r.choice([4, 5, 6]), W=b * r.choice([4, 6, 7]), b=b, S=r.choice([12, 16]), seed=r.randrange(2**31), res=r.choice([24.0, 32.0, 45.0]),
        x=[r.choice([0.0, 0.25, 0.3, 0.4, 0.5]), r.choice([0.5, 0.6, 0.75, 0.7, 1.0])], y=[r.choice([0.0, 0.25, 0.3, 0.5]), r.choice([0.5, 0.6, 0.75, 1.0])],
        z=r.choice([[0.4, 0.6, 3], [0.5, 0.5, 1], [0.35, 0.65, 2], [0.5, 0.7, 4]]), tilt=r.choice([70.0, 70.0, 60.0]), sec=r.choice([0.0, 0.0, 5.0]),
        pats=[r.choice(["sim", "sim", "rand", "const"]) for _ in range(r.choice([1, 1, 2, 4]))], offset=r.choice([0.0, 100.0]), metric=r.choice(["dot", "dot", "dot", "mi"]),
    )
    ops = [dict(op=r.choice(["fit", "fit", "fit", "alloc", "interrupt", "pair"]), batch=r.choice([1, 3, 7, 16, 50, 1000, 10**6]), seed=r.randrange(2**31), frac=round(r.random(), 4)) for _ in range(r.choice([1, 2, 3]))]
    return dict(cfg=cfg, ops=ops, switches=make_switches(r, 2, 1500), sites=make_sites(r, 2))


def lattice(lo, hi, n):
    """(offset k of the pattern in binned pixels, certainly searched?) for centres 0.5 - k / n in [lo, hi]"""
    out = []
    for k in range(-n, n + 1):
        pc = 0.5 - k / n
        if lo - 1e-5 <= pc <= hi + 1e-5:
            out.append((k, lo + 1e-5 <= pc <= hi - 1e-5 or k == 0))
    return out


def edgy(X, eps=4e-4):
    """rows with a value too close to the edge of a bin to say on which side it is"""
    y = X * 4
    return (((y - y.round()).abs() < eps) & (y.round() > 0.5) & (y.round() < 3.5)).any(1)


def mutual(P, Y):
    """mutual information of every row of P with every row of Y, 4 bins each"""
    p = torch.nn.functional.one_hot((4 * P).long().clamp(0, 3), 4).double()
    y = torch.nn.functional.one_hot((4 * Y).long().clamp(0, 3), 4).double()
    j = torch.einsum("ank,bnl->abkl", p, y) / P.shape[1]
    h = lambda x: -torch.special.xlogy(x, x)  # noqa: E731
    return h(j.sum(3)).sum(2) + h(j.sum(2)).sum(2) - h(j).sum((2, 3))


def execute(plan, ctx):
    c = plan["cfg"]
    fit = seams.repo("ebsdtorch.ebsd.fitting").spatial_fft_pc_fitter
    S, H, W, b = c["S"], c["H"], c["W"], c["b"]
    res = max(c["res"], 60.0 if c["laue"] in (1, 2) else 0.0)
    x = data(c["seed"], (S, 2 * S), "normal")
    img = _idx.level_rims(torch.nn.functional.avg_pool2d(x[None, None], 3, 1, 1)[0, 0] * 2).float()
    mi = c.get("metric") == "mi"
    if mi:  # histograms of values between 0 and 1
        img = 0.02 + 0.96 * (img - img.min()) / (img.max() - img.min())
    with seams.sim_locks():
        mp = _mp.cls()(img.clone(), laue_group=c["laue"])
    dic = seams.repo("ebsdtorch.s2_and_so3.laue_fz_ori").sample_ori_fz_laue_angle(laue_id=c["laue"], angular_resolution_deg=res, device=torch.device("cpu"), permute=False)
    D = len(dic)
    zs = [c["z"][0] + (c["z"][1] - c["z"][0]) * i / max(1, c["z"][2] - 1) for i in range(c["z"][2])]
    xs, ys = lattice(*c["x"], W // b), lattice(*c["y"], H // b)
    if D == 0 or D * len(zs) * len(xs) * len(ys) * (H // b) * (W // b) > (1_000_000 if mi else 6_000_000):
        ctx.log("too large", D)
        return

    def sims(kx, ky, z, q=None):
        m = Model(dict(H=H, W=W, sx=c["sec"], sy=c["tilt"], dt=0.0, pc=[0.5 - kx * b / W, 0.5 - ky * b / H, z], vec=None, rots=[False] * 3, shifts=[False] * 3))
        v = m.project(m.pixels([b, b]))
        return _idx._sample(img, _idx.rotate(dic if q is None else q, v / v.norm(dim=-1, keepdim=True)), b, False)

    n = len(c["pats"])
    if n == 0:
        return
    pats = data(c["seed"] + 1, (n, 1, H, W), "normal")
    xi, yi = xs[c["seed"] % len(xs)][0], ys[c["seed"] // 9 % len(ys)][0]
    for i, k in enumerate(c["pats"]):
        if k == "sim":
            s = sims(xi, yi, zs[c["seed"] % len(zs)], dic[(c["seed"] + 37 * i) % D][None])[0].reshape(H // b, W // b)
            pats[i, 0] = torch.kron(s, torch.ones(b, b, dtype=torch.float64)) * 3
        elif k == "const":
            pats[i] = 0.5
    pats = (pats + c["offset"]).float()
    P = pats.double().reshape(n, H // b, b, W // b, b).mean((2, 4)).reshape(n, -1)
    P = P - P.amin(1, keepdim=True)
    top = P.amax(1, keepdim=True)
    P = torch.where(top > 0, P / top.clamp(min=1e-12), P)
    if mi:
        if edgy(P, 4e-5).any():
            ctx.log("pattern on a bin edge")
            return
    else:
        P = P - P.mean(1, keepdim=True)

    def scores(Y, order=None):
        """(score of every pattern with every simulation, certainly so?)"""
        A = P if order is None else P[order]
        if mi:
            return mutual(A, Y), ~edgy(Y)
        return A @ Y.T, torch.ones(len(Y), dtype=torch.bool)

    # best score of every pattern at every centre
    best = {}
    for iz, z in enumerate(zs):
        for kx, sx in xs:
            for ky, sy in ys:
                v, ok = scores(sims(kx, ky, z))
                best[iz, kx, ky] = (v[:, ok].max(1).values if ok.any() else torch.full((n,), -torch.inf, dtype=torch.float64), sx and sy)
    sure = max(float(v.mean()) for v, s in best.values() if s)
    npad = (H // b) * (W // b) * 4
    spread = max(c["offset"], 1.0) * 4e-7 / max(float(top[top > 0].min()) if (top > 0).any() else 1.0, 1e-3)
    tol = (H // b) * (W // b) * (_mp_err(img) + spread * float(img.abs().max())) + 3e-6 * math.sqrt(npad) * float(img.abs().max()) * float(P.norm(dim=1).max() + 1e-9)
    if mi:
        tol = 2e-4

    def call(batch, seed, pats=None):
        torch.manual_seed(seed % 2**31)
        keep = sys.stdout
        sys.stdout = io.StringIO()
        try:
            return fit(
                mp, mine if pats is None else pats, pc_x_min=c["x"][0], pc_x_max=c["x"][1], pc_y_min=c["y"][0], pc_y_max=c["y"][1], pc_z_min=c["z"][0], pc_z_max=c["z"][1], pc_z_steps=c["z"][2], primary_tilt_deg=c["tilt"],
                secondary_tilt_deg=c["sec"], dictionary_resolution_deg=res, dictionary_indexing_batch_size=max(1, batch), virtual_binning=b, metric=c.get("metric", "dot"),
            )
        finally:
            sys.stdout = keep

    mine = pats.clone()

    def judge(result, order):
        pc, q = result
        ctx.check(torch.equal(mine, pats), "patterns-changed", lambda: f"by up to {float((mine - pats).abs().max()):.3e}")
        ctx.check(torch.equal(mp.master_pattern, img), "master-pattern-changed", "")
        pc = [float(v) for v in pc]
        fx, fy = (0.5 - pc[0]) * (W // b), (0.5 - pc[1]) * (H // b)
        iz = min(range(len(zs)), key=lambda i: abs(zs[i] - pc[2]))
        ctx.check(abs(zs[iz] - pc[2]) < 1e-4 and abs(fx - round(fx)) < 1e-3 and abs(fy - round(fy)) < 1e-3, "centre-off-lattice", lambda: f"{pc}")
        key = (iz, round(fx), round(fy))
        ctx.check(key in best, "centre-out-of-range", lambda: f"{pc} searched x {c['x']} y {c['y']}")
        ctx.check(tuple(q.shape) == (n, 4), "orientation-shape", f"{tuple(q.shape)}")
        i, dist = _idx.locate(q, dic)
        ctx.check(bool((dist < 1e-5).all()), "orientation-not-in-dictionary", lambda: f"{dist.tolist()}")
        # what was returned, if it is certain what that scores
        v, ok = scores(sims(key[1], key[2], zs[iz], dic[i]), order)
        if not ok.all():
            return None
        own = v.diagonal()
        got = float(own.mean()) if mi else float(best[key][0].mean())
        ctx.check(got >= sure - 2 * tol, "centre-not-best", lambda: f"{pc} scores {got:.6f}, the best centre {sure:.6f} (tol {tol:.1e})")
        if mi:
            ctx.probe("mi-decided")
        short = best[key][0][order] - own
        ctx.check(bool((short <= 2 * tol).all()), "orientation-not-best", lambda: f"{short.tolist()} below the best (tol {tol:.1e})")
        ctx.log(i.tolist())
        return key

    for op in plan["ops"]:
        batch = max(op["batch"], D // 12)
        if op["op"] == "alloc":
            alloc_fault_call(ctx, lambda: call(batch, op["seed"]), lambda: call(batch, op["seed"]), op["frac"], "fit")
        elif op["op"] == "interrupt":
            dry = seams.LineFault()
            with dry:
                call(batch, op["seed"])
            lf = seams.LineFault(dry.pick(op["frac"]))
            try:
                with lf:
                    call(batch, op["seed"])
            except KeyboardInterrupt:
                ctx.fault("interrupt")
        if op["op"] != "fit":
            ctx.check(torch.equal(mine, pats) and torch.equal(mp.master_pattern, img), "inputs-changed-by-failure", "")
        if op["op"] == "pair":
            # two callers at once, the second with the patterns in reverse
            other = mine.flip(0)
            turn = list(range(n))[::-1]
            sim = seams.ThreadSim([lambda: call(batch, op["seed"]), lambda: call(max(batch // 2, D // 12, 1), op["seed"] + 1, other)], plan["switches"], ctx, sites=plan["sites"])
            keep = sys.stdout
            try:
                both, errs = sim.run()
            finally:
                sys.stdout = keep
            raise_thread_errors(errs)
            ctx.check(torch.equal(other, mine.flip(0)), "patterns-changed", "")
            judge(both[1], turn)
            key = judge(both[0], list(range(n)))
            if sim.n_switches:
                ctx.nontrivial = True
        else:
            key = judge(call(batch, op["seed"]), list(range(n)))
        if key is None:
            continue
        if len(best) > 1 and D > batch:
            ctx.nontrivial = True
        means = sorted((float(v.mean()) for v, _ in best.values()), reverse=True)
        if len(means) > 1 and means[0] - means[1] > 4 * tol:
            ctx.probe("centre-decided")
        ctx.steps += len(best) * D
        ctx.state(op["op"], c["laue"], H, W, b, batch, key)
        ctx.log(op["op"], batch, key)


def _mp_err(img):
    return 3e-6 * max(img.shape) * float(img.max() - img.min())


CFG_MIN = {"H": 4, "W": 4}
