"""C03 nearest neighbours: disjoint query slices from several threads."""
from .. import seams
from ..common import make_sites, make_switches, raise_thread_errors
from ..core import clip_partition, partition
from . import _knn as K
from .c01 import slices

RULE = (
    "one run = chunks arriving one after the other; after each, two to four threads deliver disjoint query slices under a seeded "
    "line-level interleaving; non-trivial = at least one preemption inside the searched code"
)
COMPONENTS = {"real": ["ebsdtorch.utils.knn (all)", "torch CPU kernels", "real Python threads, one released at a time"], "stub": ["thread scheduler", "locks of the code under test, if it has any"]}
CFG_MIN = {"n": 1, "q": 2, "d": 1, "topk": 1, "dseed": 0}


def generate(r, tier):
    cfg = K.gen_cfg(r, quant=r.random() < 0.2)
    cfg["n"] = min(cfg["n"], 40)
    cfg["q"] = r.choice([2, 3, 6, 11, 16])
    cfg["threads"] = r.choice([2, 2, 3, 4])
    ops = []
    for size in partition(r, cfg["n"], r.choice(["one", "even", "random", "tail1", "head1"])):
        sizes = partition(r, cfg["q"], r.choice(["unit", "even", "random"]))
        sl, s = [], 0
        for z in sizes:
            sl.append([s, z])
            s += z
        r.shuffle(sl)
        nt = cfg["threads"]
        est = 25 * len(sl)
        ops.append(dict(size=size, deliver=sl, owner=[r.randrange(nt) for _ in sl], switches=make_switches(r, nt, est), sites=make_sites(r, nt)))
    return dict(cfg=cfg, ops=ops)


def simplify(plan):
    for i, o in enumerate(plan["ops"]):
        for k in range(len(o["switches"])):
            p = {**plan, "ops": [dict(x) for x in plan["ops"]]}
            p["ops"][i]["switches"] = o["switches"][:k] + o["switches"][k + 1 :]
            yield p


def execute(plan, ctx):
    cfg = plan["cfg"]
    X, Q = K.make(cfg)
    knn = K.build(cfg)
    seen = 0
    nt = max(2, cfg["threads"])
    for j, size in enumerate(clip_partition([o["size"] for o in plan["ops"]], X.shape[0])):
        op = plan["ops"][j] if j < len(plan["ops"]) else dict(deliver=[], owner=[], switches=[])
        if size == 0:
            continue
        knn.set_data_chunk(X[seen : seen + size].clone())
        seen += size
        work = [[] for _ in range(nt)]
        for k, (s, z) in enumerate(slices(op["deliver"], Q.shape[0])):
            t = op["owner"][k] if k < len(op["owner"]) else k
            work[t % nt].append((s, z))

        def body(items):
            def f():
                for s, z in items:
                    knn.query_chunk(Q[s : s + z].clone(), s)
            return f

        sim = seams.ThreadSim([body(w) for w in work], op["switches"], ctx, sites=op.get("sites", ()))
        _, errs = sim.run()
        raise_thread_errors(errs)
        K.check_result(ctx, cfg, X, Q, seen, knn, label="after-barrier")
    K.check_result(ctx, cfg, X, Q, seen, knn)
