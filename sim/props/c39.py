"""C39 scans analysed one after another, again, in parts and side by side: each call sees its inputs as they are, and nothing else."""
import copy

import torch

from .. import seams
from ..common import data, make_sites, make_switches, raise_thread_errors, same_bits
from . import _idx, _ref, c11, c13, c15, c16
from .c24 import Model

RULE = (
    "one run = one to three scans that share master patterns and a detector geometry, and a seeded history of analyses (dictionary and component indexing, grid and gradient refinement) of single scans or of several at once in "
    "threads under a seeded line-level interleaving, between changes of the master patterns, the geometry and the patterns, with failing allocations and interrupts followed by a repetition; each result is compared with a float64 search "
    "of the inputs as they were at the call; non-trivial = an analysis after another analysis or change, or beside another one"
)
MODULES = ["ebsdtorch.ebsd.indexing", "ebsdtorch.ebsd.refining", "ebsdtorch.ebsd.geometry", "ebsdtorch.ebsd.master_pattern", "ebsdtorch.ebsd.experiment_pats", "ebsdtorch.utils.knn", "ebsdtorch.utils.pca_covmat"]
COMPONENTS = {
    "real": ["ebsdtorch.ebsd.indexing", "ebsd.refining", "ebsd.experiment_pats", "ebsd.master_pattern", "ebsd.geometry", "utils.knn", "utils.pca_covmat", "utils.progressbar", "real Python threads, one released at a time"],
    "stub": ["thread scheduler", "locks of the code under test", "torch allocator (failing allocations)", "interrupt delivery (line of repo code)", "torch random stream", "wall clock of the progress display"],
}
DEEP_SHRINK = True


def gen_index(r, W, pca=None):
    c = c11.gen_call(r, W, allow_quant=False)
    c.update(pca=r.random() < 0.3 if pca is None else pca, dtype=r.choice(["float32", "float32", "float64"]), dchunk=r.choice([3, 7, 50, 256]), echunk=r.choice([1, 2, 3, 256]), res=W["res"] * r.choice([1, 1, 1.25]))
    if c["pca"]:
        c["mask"] = None
        if c["metric"] == "manhattan":
            c["metric"] = "euclidean"
    return c


def gen_analysis(r, W):
    k = r.choice(["index", "index", "index", "grid", "grid", "grad"]) if W["refine"] else "index"
    if k == "index":
        return dict(kind=k, c=gen_index(r, W))
    if k == "grid":
        return dict(
            kind=k,
            c=dict(edge=r.choice([0.5, 1.5, 4.0]), batch=r.choice([1, 2, 3, 100]), bin=r.choice([1, 1, 2]), iters=r.choice([1, 2, 3]), axial=r.choice([1, 1, 2]), radius=1, shrink=0.5, avg=True, dtype=r.choice(["float32", "float32", "float64"])),
        )
    return dict(kind=k, c=dict(batch=r.choice([1, 2, 3]), bin=r.choice([1, 2]), iters=r.choice([1, 2, 4]), lr=r.choice([1e-3, 1e-2]), dtype="float32", avg=True))


def generate(r, tier):
    refine = r.random() < 0.6
    W = _ref.gen_world(r)
    W.update(scan=False, smooth=False, sym=False, refine=refine, opt=[False] * 3, phases=W["phases"][: r.choice([1, 1, 2])], res=r.choice([32.0, 45.0]))
    for p in W["phases"]:
        p["laue"] = 1 if refine else r.choice([3, 5, 7, 9, 10, 11])
    W["res"] = r.choice([45.0, 60.0]) if refine else r.choice([16.0, 24.0, 32.0])
    scans = [dict(pats=[r.choice(["near", "exact", "rand", "rand", "const"]) for _ in range(r.choice([1, 2, 3, 5]))], seed=r.randrange(2**31)) for _ in range(r.choice([1, 2, 2, 3]))]
    ops = []
    for _ in range(r.choice([2, 3, 4, 5])):
        a = r.choice(["one", "one", "one", "side", "side", "move", "master", "patterns"])
        o = dict(op=a, scan=r.randrange(3), seed=r.randrange(2**31))
        if a == "one":
            o.update(call=gen_analysis(r, W), fault=r.choice([None, None, None, "alloc", "line"]), at=round(r.random(), 4))
        elif a == "side":
            o.update(calls=[gen_analysis(r, W) for _ in range(r.choice([2, 2, 3]))], switches=make_switches(r, 3, 1500, r.choice([0, 1, 2, 4, 8, 20, 60])), sites=make_sites(r, 3))
        elif a == "move":
            o.update(pc=[round(r.uniform(0.3, 0.7), 3), round(r.uniform(0.2, 0.8), 3), round(r.uniform(0.4, 0.8), 3)], tilt=r.choice([70.0, 60.0]), vec=r.choice([None, [round(r.uniform(-0.05, 0.05), 4) for _ in range(6)]]), opt=r.random() < 0.3)
        elif a == "master":
            o.update(phase=r.randrange(2), how=r.choice(["load", "load", "minmax", "zeromean", "standard", "in-place"]))
        elif a == "patterns":
            o.update(how=r.choice(["in-place", "new", "clean"]))
        ops.append(o)
    return dict(cfg=W, scans=scans, ops=ops)


def simplify(plan):
    for k in range(1, len(plan["scans"])):
        p = copy.deepcopy(plan)
        p["scans"].pop(k)
        yield p
    for j, o in enumerate(plan["ops"]):
        if o["op"] == "side":
            for k in range(len(o["calls"])):
                p = copy.deepcopy(plan)
                p["ops"][j]["calls"].pop(k)
                yield p


class Scan(_ref.RefWorld):
    rims = True


class Lab:
    """scans that share master patterns and geometry"""

    def __init__(self, plan):
        W = plan["cfg"]
        self.W = W
        self.scans = [Scan(dict(W, pats=s["pats"] or ["rand"], seed=s["seed"], assign=W["assign"])) for s in plan["scans"]]
        a = self.scans[0]
        self.geo = dict(H=a.H, W=a.W, sx=0.0, sy=W["tilt"], dt=0.0, pc=W["pc"], vec=W["vec"], rots=W["opt"], shifts=W["opt"])
        for s in self.scans[1:]:
            s.mps, s.g, s.imgs = a.mps, a.g, a.imgs
        self.share()

    def share(self):
        for s in self.scans:
            s.model = Model(self.geo)
            s._cache = {}

    def move(self, op):
        on = [bool(op["opt"])] * 3
        self.geo = dict(self.geo, sy=op["tilt"], pc=op["pc"], vec=op["vec"], rots=on, shifts=on)
        g = seams.repo("ebsdtorch.ebsd.geometry").EBSDGeometry(
            (self.geo["H"], self.geo["W"]), tilts_degrees=(0.0, op["tilt"], 0.0), proj_center=tuple(op["pc"]), se3_vector=None if op["vec"] is None else torch.tensor(op["vec"]), opt_rots=tuple(on), opt_shifts=tuple(on)
        )
        self.scans[0].g.load_state_dict(g.state_dict())
        self.share()

    def master(self, op):
        a = self.scans[0]
        k = op["phase"] % len(a.mps)
        m = a.mps[k]
        S = a.w["S"]
        if op["how"] in ("load", "in-place"):
            x = data(op["seed"], (S, 2 * S), "normal")
            x = _idx.level_rims(torch.nn.functional.avg_pool2d(x[None, None], 3, 1, 1)[0, 0] * 2).float()
            if op["how"] == "load":
                m.load_state_dict({n: (x if "master_pattern" in n else t) for n, t in m.state_dict().items()})
            else:
                with torch.no_grad():
                    m.master_pattern.copy_(x)
        else:
            m.normalize(op["how"])
        a.imgs[k] = m.master_pattern.clone()
        self.share()

    def patterns(self, op, s):
        x = data(op["seed"], tuple(s.pats.shape), "normal").float()
        if op["how"] == "in-place":
            s.e.patterns.copy_(x.reshape(s.e.patterns.shape))
        elif op["how"] == "clean":
            s.e.normalize_per_pattern()
            x = s.e.patterns.clone().reshape(s.pats.shape)
        else:
            s.e = seams.repo("ebsdtorch.ebsd.experiment_pats").ExperimentPatterns(x.clone())
            s.store(s.e)
        s.pats = x


class Analysis:
    """one call and what it has to give"""

    def __init__(self, s, call):
        self.s, self.kind, self.c = s, call["kind"], dict(call["c"])
        c = self.c
        self.ok = True
        if c["bin"] not in s.binnings():
            c["bin"] = 1
        if self.kind == "index":
            c["phases"] = list(range(len(s.mps)))
            self.b, self.mask = c11.prepare(s, c)
            self.truth, self.tol = c11.truth(s, c, self.b, self.mask, c["phases"])
            self.ok = all(len(d) >= max(2, c["topk"]) for d, _ in self.truth)
            if c["pca"]:
                self.tol *= 8
        else:
            self.q0 = s.e.get_orientations().clone()
            self.old = record(s)
            for k, rows in enumerate(s.e.get_indices_per_phase()):
                s.assign[rows.long()] = k
            s.use_scan = False
            self.X = s.exp(c["bin"])
            if self.kind == "grid":
                s.mode = "bilinear"
                cu2qu = seams.repo("ebsdtorch.s2_and_so3.orientations").cu2qu
                self.ref = [c15.follow(s, i, self.q0[i].double(), c, self.X[i], cu2qu) for i in range(s.n)]

    def go(self):
        s, c = self.s, self.c
        if self.kind == "index":
            torch.manual_seed(c["seed"])
            m = seams.repo("ebsdtorch.ebsd.indexing")
            if c["pca"]:
                m.pca_dictionary_index_orientations(
                    s.mps, s.g, s.e, n_pca_components=s.H * s.W // (self.b * self.b), signal_mask=self.mask, subtract_exp_pat_mean=c["subtract"], experiment_chunk_size=c["echunk"], dictionary_resolution_learn_deg=c["res"],
                    dictionary_resolution_index_deg=c["res"], dictionary_chunk_size=c["dchunk"], virtual_binning=self.b, top_k_matches=max(1, c["topk"]), distance_metric=c["metric"], match_dtype=_idx.DT[c["dtype"]], quantized_via_ao=False,
                )
            else:
                m.dictionary_index_orientations(
                    s.mps, s.g, s.e, signal_mask=self.mask, subtract_exp_pat_mean=c["subtract"], experiment_chunk_size=c["echunk"], dictionary_resolution_degrees=c["res"], dictionary_chunk_size=c["dchunk"], virtual_binning=self.b,
                    top_k_matches=max(1, c["topk"]), distance_metric=c["metric"], match_dtype=_idx.DT[c["dtype"]], quantized_if_x86=False,
                )
            return
        m = seams.repo("ebsdtorch.ebsd.refining")
        if self.kind == "grad":
            c16.refine(m, s, s.e, c, c["batch"])
        else:
            m.orientation_grid_refinement(
                s.mps, s.g, s.e, c["edge"], c["batch"], virtual_binning=c["bin"], n_iter=c["iters"], axial_grid_dimension=c["axial"], kernel_radius_in_steps=1, shrink_factor=c["shrink"], average_pattern_center=True,
                match_dtype=_idx.DT[c["dtype"]],
            )

    def judge(self, ctx, what):
        s, c = self.s, self.c
        if self.kind == "index":
            _idx.check_best(ctx, s, s.e, self.truth, c["metric"], self.tol, max(1, c["topk"]), f"{what}:index")
            return
        q1 = s.e.get_orientations()
        ctx.check(tuple(q1.shape) == (s.n, 4) and bool(((q1.double().norm(dim=1) - 1).abs() < 1e-4).all()), f"{what}:{self.kind}:not-unit", "")
        for k in ("phase", "metric"):
            ctx.check(same_bits(record(s)[k], self.old[k]), f"{what}:{self.kind}:{k}-changed", "")
        for i in range(s.n):
            if self.kind == "grid":
                first, start, path, tol = self.ref[i]
                got = float(c15.match(s, i, q1[i], self.X[i], c, max))
                ctx.check(got >= max(start, first) - 2 * tol, f"{what}:grid:not-best", lambda: f"pattern {i}: {got} from {start}, best of its grid {first} tol {tol:.2e}")
                if path is not None:
                    q = path[0]
                    dq = min(float((q1[i].double() - q).norm()), float((q1[i].double() + q).norm()))
                    ctx.check(dq < 2e-5, f"{what}:grid:not-its-own-search", lambda: f"pattern {i}: {dq:.2e} away")
                    ctx.probe("path-followed")
            else:
                s.mode = "bicubic"
                s0, t0 = c16.score(s, self.X, i, self.q0[i], c["bin"])
                s1, t1, _ = c16.best(s, self.X, i, q1[i], c["bin"])
                s.mode = "bilinear"
                if s0 is not None and s1 is not None:
                    ctx.check(s1 >= s0 - 2 * (t0 + t1), f"{what}:grad:worse", lambda: f"pattern {i}: {s1} from {s0}")
                    ctx.probe("gradient-judged")


def tensors(x):
    if torch.is_tensor(x):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from tensors(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from tensors(v)


def record(s):
    e = s.e
    return dict(orientation=e.get_orientations().clone(), phase=e.phases.clone(), metric=e.best_metrics.clone(), patterns=e.patterns.clone())


def inputs(a):
    return dict(mps=[m.master_pattern.clone() for m in a.mps], geo={k: v.clone() for k, v in a.g.state_dict().items()})


def execute(plan, ctx):
    if not plan["scans"]:
        return
    lab = Lab(plan)
    a = lab.scans[0]
    done = 0

    def tick():
        seams.CLOCK.start([0.0, 0.02, 1.0], now=1e6)

    def untouched(before, ins, active, what):
        for s, r in zip(lab.scans, before):
            now = record(s)
            for k in now:
                if s in active and k != "patterns":
                    continue
                ctx.check(same_bits(now[k], r[k]), f"{what}:other-data-changed", lambda: k)
        now = inputs(a)
        ctx.check(all(torch.equal(x, y) for x, y in zip(now["mps"], ins["mps"])), f"{what}:master-pattern-changed", "")
        ctx.check(all(torch.equal(now["geo"][k], ins["geo"][k]) for k in now["geo"]), f"{what}:geometry-changed", "")

    for op in plan["ops"]:
        s = lab.scans[op["scan"] % len(lab.scans)]
        k = op["op"]
        if k == "move":
            lab.move(op)
            done += 1
            continue
        if k == "master":
            lab.master(op)
            done += 1
            continue
        if k == "patterns":
            lab.patterns(op, s)
            done += 1
            continue
        before, ins = [record(x) for x in lab.scans], inputs(a)
        tick()
        if k == "one":
            job = Analysis(s, op["call"])
            if not job.ok:
                continue
            ctx.log("one", job.kind)
            if op["fault"]:
                twin = copy.deepcopy(s.e, {id(t): t.detach().clone() for t in tensors(vars(s.e)) if not t.is_leaf})
                keep = s.e
                s.e = twin
                m = seams.FaultMode(record=True) if op["fault"] == "alloc" else seams.LineFault()
                with seams.sim_locks(), m:
                    job.go()
                s.e = keep
                at = m.pick(op["at"])
                sim = seams.FaultMode(fail_at=at) if op["fault"] == "alloc" else seams.LineFault(at=at)
                try:
                    with seams.sim_locks(), sim:
                        job.go()
                except (KeyboardInterrupt, Exception):  # noqa: BLE001
                    if sim.fired is None:
                        raise
                if sim.fired is not None:
                    ctx.fault("alloc-failure" if op["fault"] == "alloc" else "interrupt")
                    ctx.nontrivial = True
                untouched(before, ins, [s], f"failed-{job.kind}")
                if job.kind != "index":
                    s.e.set_orientations(job.q0.clone())
                tick()
            with seams.sim_locks():
                job.go()
            job.judge(ctx, "alone")
            untouched(before, ins, [s], job.kind)
            jobs = [job]
        else:
            jobs = []
            for j, c in enumerate(op["calls"][: len(lab.scans)]):
                x = lab.scans[(op["scan"] + j) % len(lab.scans)]
                job = Analysis(x, c)
                if job.ok:
                    jobs.append(job)
            if not jobs:
                continue
            ctx.log("side", [j.kind for j in jobs])
            sim = seams.ThreadSim([j.go for j in jobs], op["switches"], ctx, sites=op.get("sites", ()))
            with seams.sim_locks():
                _, errs = sim.run()
            raise_thread_errors(errs)
            for j in jobs:
                j.judge(ctx, "beside")
            untouched(before, ins, [j.s for j in jobs], "beside")
            if len(jobs) > 1:
                ctx.nontrivial = True
                ctx.probe("side-by-side")
        if done:
            ctx.nontrivial = True
        done += 1
        ctx.steps += len(jobs)
        ctx.sim_time += seams.CLOCK.now - 1e6
        ctx.state([j.kind for j in jobs], [j.c["bin"] for j in jobs], k, done)
        for j in jobs:
            ctx.tensor("ori", j.s.e.get_orientations())
