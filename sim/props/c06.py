"""C06 checkpoint/restore: after a crash at any point, the last saved state continues exactly."""
import io

import torch

from .. import seams
from ..common import data, same_bits
from . import _est

RULE = (
    "one run = one stateful object (streaming estimator, master pattern, geometry) and a seeded operation history with checkpoints written to "
    "bytes, crashes that drop everything else (also half way through an operation), restore into a fresh object and replay from the checkpoint, "
    "next to an uninterrupted twin; non-trivial = at least one crash"
)
COMPONENTS = {
    "real": ["ebsdtorch.utils.pca_covmat", "ebsdtorch.utils.pca_online", "ebsdtorch.ebsd.master_pattern", "ebsdtorch.ebsd.geometry", "ebsdtorch.lie_algebra.se3", "torch.save/torch.load"],
    "stub": ["durable storage (in-memory bytes)", "process crash (objects dropped)"],
}
CFG_MIN = {"d": 1, "k": 1, "dseed": 0, "iseed": 0}


def generate(r, tier):
    what = r.choice(["est", "est", "est", "mp", "geo", "geo"])
    cfg = dict(_est.gen_cfg(r), what=what)
    if what == "mp":
        cfg.update(h=r.choice([4, 8, 9, 16]), laue=r.choice([1, 5, 11]))
    if what == "geo":
        cfg.update(rots=[r.random() < 0.5 for _ in range(3)], shifts=[r.random() < 0.5 for _ in range(3)], vec=[round(r.uniform(-0.2, 0.2), 3) for _ in range(6)], tilt=r.choice([70.0, 60.0, 0.0]), pc=[round(r.uniform(0.3, 0.7), 2) for _ in range(3)])
    ops = []
    for j in range(r.randint(2, 9)):
        p = r.random()
        if p < 0.2:
            ops.append(dict(op="save"))
        elif p < 0.45:
            ops.append(dict(op="crash", seed=r.randrange(2**31), half=r.choice([None, round(r.random(), 3)])))
        else:
            o = dict(op="step", id=j, rng=r.randrange(2**31), size=r.choice([0, 1, 2, 5, 9]))
            if what == "mp":
                o["act"] = r.choice(["minmax", "zeromean", "standard", "clahe", "interp", "interp2", "interp3", "load"])
            if what == "geo":
                o["act"] = r.choice(["sgd", "sgd", "sgd", "opt", "read"])
                o["rots"] = r.choice([None, [r.random() < 0.5 for _ in range(3)]])
                o["shifts"] = r.choice([None, [r.random() < 0.5 for _ in range(3)]])
                o["lr"] = r.choice([1e-3, 1e-2])
            ops.append(o)
    if not any(o["op"] == "crash" for o in ops):
        ops.insert(r.randint(1, len(ops)), dict(op="crash", seed=r.randrange(2**31), half=None))
    return dict(cfg=cfg, ops=ops)


# ---- one object kind = (fresh, step, observe)


def fresh(cfg, seed=None):
    if cfg["what"] == "est":
        return _est.build(cfg, seed)
    if cfg["what"] == "mp":
        M = seams.repo("ebsdtorch.ebsd.master_pattern").MasterPattern
        h = max(2, cfg["h"])
        img = data(cfg["dseed"] if seed is None else seed, (h, 2 * h), "positive", torch.float32)
        return M(img, laue_group=cfg["laue"])
    G = seams.repo("ebsdtorch.ebsd.geometry").EBSDGeometry
    if seed is None:
        return G(
            (4, 6), tilts_degrees=(0.0, cfg["tilt"], 5.0), proj_center=tuple(cfg["pc"]), se3_vector=torch.tensor(cfg["vec"]),
            opt_rots=tuple(cfg["rots"]), opt_shifts=tuple(cfg["shifts"]),
        )
    return G((4, 6))  # restored objects start from other values


def dirs(n, seed):
    v = data(seed, (n, 3))
    return (v / v.norm(dim=-1, keepdim=True)).float()


def step(cfg, m, op):
    torch.manual_seed(op["rng"])
    if cfg["what"] == "est":
        m(_est.batch(cfg, op["id"], op["size"]))
        return []
    if cfg["what"] == "mp":
        a = op["act"]
        if a in ("minmax", "zeromean", "standard"):
            m.normalize(a)
        elif a == "clahe":
            m.normalize("minmax")
            m.apply_clahe(grid_shape=(2, 2), n_bins=16)
        elif a == "load":
            m.load_state_dict({k: data(op["rng"], v.shape, "positive", v.dtype) if v.dtype.is_floating_point else v for k, v in m.state_dict().items()})
        else:
            n = max(1, op["size"])
            return [m.interpolate(dirs(n, op["rng"]), virtual_binning={"interp": 1, "interp2": 2, "interp3": 3}[a] if min(m.master_pattern.shape) >= 6 else 1)]
        return []
    if op["act"] == "opt":
        m.set_optimizable_se3_params(opt_rots=tuple(op["rots"]) if op["rots"] else None, opt_shifts=tuple(op["shifts"]) if op["shifts"] else None)
        return []
    c = m.get_coords_sample_frame((1, 1))
    if op["act"] == "read":
        return [c.detach().clone()]
    trained = c.requires_grad
    out = [torch.tensor([float(trained)])]
    if trained:
        for p in m.parameters():
            p.grad = None
        target = data(op["rng"], c.shape, "normal", torch.float32)
        ((c - target) ** 2).mean().backward()
        with torch.no_grad():
            for p in m.parameters():
                if p.grad is not None:
                    out.append(p.grad.clone())
                    p -= op["lr"] * p.grad / (1 + p.grad.norm())
    return out


def observe(cfg, m):
    if cfg["what"] == "est":
        return _est.outputs(cfg, m, _est.batch(cfg, 9999, 3))
    if cfg["what"] == "mp":
        out = [m.interpolate(dirs(7, 5))]
        if min(m.master_pattern.shape) >= 6:
            out += [m.interpolate(dirs(7, 5), virtual_binning=2), m.interpolate(dirs(6, 6), virtual_binning=3)]
        return [o.clone() for o in out]
    c = m.get_coords_sample_frame((1, 1))
    return [c.detach().clone(), torch.tensor([float(c.requires_grad)]), m.get_coords_sample_frame((2, 3)).detach().clone()]


def save(m):
    f = io.BytesIO()
    torch.save(m.state_dict(), f)
    return f.getvalue()


def equal(a, b):
    return len(a) == len(b) and all(same_bits(x, y) for x, y in zip(a, b))


def execute(plan, ctx):
    cfg = plan["cfg"]
    m, twin = fresh(cfg), fresh(cfg)
    disk, since = save(m), []
    for op in plan["ops"]:
        if op["op"] == "save":
            disk, since = save(m), []
            ctx.log("save", len(disk) > 0)
        elif op["op"] == "crash":
            if op["half"] is not None and since:
                # the process dies inside an operation; nothing of it survives
                mode = seams.FaultMode(fail_at=int(op["half"] * 12))
                try:
                    with mode:
                        step(cfg, m, dict(since[-1], rng=op["seed"]))
                except Exception:  # noqa: BLE001
                    if mode.fired is None:
                        raise
                    ctx.fault("crash-mid-operation")
            del m
            ctx.fault("crash")
            m = fresh(cfg, seed=op["seed"])
            m.load_state_dict(torch.load(io.BytesIO(disk)))
            for o in since:  # the operations since the checkpoint are repeated
                step(cfg, m, o)
            ctx.log("restored", len(since))
            ctx.check(equal(observe(cfg, twin), observe(cfg, m)), "restored-differs", lambda: f"{cfg['what']} {cfg['kind'] if cfg['what'] == 'est' else ''} after restore and {len(since)} repeated operations")
        else:
            a, b = step(cfg, twin, op), step(cfg, m, op)
            since.append(op)
            ctx.check(equal(a, b), "result-after-restore-differs", lambda: f"{cfg['what']} {op}: {a} vs {b}")
            ctx.state(cfg["what"], cfg["kind"], op.get("act"), min(len(since), 4))
        ctx.steps += 1
    ctx.check(equal(observe(cfg, twin), observe(cfg, m)), "final-differs", cfg["what"])
    for o in observe(cfg, m):
        ctx.tensor("out", o)
