"""C09 master pattern: concurrent interpolation from several threads."""
import torch

from .. import seams
from ..common import data, make_sites, make_switches, raise_thread_errors, same_bits
from . import _mp

RULE = (
    "one run = one master pattern with a partly filled shape cache and two to four threads, each interpolating a seeded list of shapes and "
    "binnings under a seeded line-level interleaving; non-trivial = at least one preemption inside the interpolated code"
)
COMPONENTS = {"real": ["ebsdtorch.ebsd.master_pattern", "ebsdtorch.utils.factorize", "torch CPU kernels", "real Python threads, one released at a time"], "stub": ["thread scheduler", "locks of the code under test, if it has any"]}
CFG_MIN = {"h": 4, "dseed": 0}
DEEP_SHRINK = True


def generate(r, tier):
    nt = r.choice([2, 2, 3, 4])
    prefill = r.choice([0, 0, 98, 99, 100, 100, 101, 101])
    sizes = [r.choice([1, 2, 3, 5, 7, 12, 30, 36, 97, 101, 120]) for _ in range(3)]  # shared sizes provoke collisions
    threads = []
    for _ in range(nt):
        threads.append([dict(n=r.choice(sizes) if r.random() < 0.7 else r.randint(1, 130), vb=r.choice([1, 1, 2, 2, 3, 4]), seed=r.randrange(2**31)) for _ in range(r.randint(1, 4))])
    if prefill and r.random() < 0.7:
        # near the limit of the cache what matters is which thread brings the new shapes
        for t in threads:
            for it in t:
                if r.random() < 0.8:
                    it["n"] = r.randint(prefill + 1, prefill + 40)
    return dict(cfg=dict(h=r.choice([8, 12]), dseed=r.randrange(2**31), prefill=prefill, order=r.choice(["up", "down"])), threads=threads, switches=make_switches(r, nt, 60 * sum(len(t) for t in threads), r.choice([0, 1, 2, 4, 8, 20, 60])), sites=make_sites(r, nt))


def execute(plan, ctx):
    cfg = plan["cfg"]
    if not plan["threads"]:
        return
    h = max(4, cfg["h"])
    img = data(cfg["dseed"], (h, 2 * h), "positive", torch.float32)
    with seams.sim_locks():
        m = _mp.cls()(img.clone(), laue_group=1)
    ns = list(range(1, cfg["prefill"] + 1))
    for n in ns if cfg["order"] == "up" else ns[::-1]:
        m.interpolate(_mp.dirs(n, 1))

    def body(items):
        def f():
            return [m.interpolate(_mp.dirs(it["n"], it["seed"]), virtual_binning=it["vb"]) for it in items]

        return f

    sim = seams.ThreadSim([body(t) for t in plan["threads"]], plan["switches"], ctx, sites=plan.get("sites", ()))
    res, errs = sim.run()
    raise_thread_errors(errs)
    for items, outs in zip(plan["threads"], res):
        for it, out in zip(items, outs):
            ctx.hold("threaded", out)
            _mp.check(ctx, img, _mp.dirs(it["n"], it["seed"]), out, it["vb"], False, "threaded")
    ctx.check(same_bits(m.master_pattern, img), "pattern-changed")
    if cfg["prefill"] >= 98:
        ctx.probe("near-cache-limit")
