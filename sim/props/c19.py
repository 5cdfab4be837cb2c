"""C19 Monte Carlo tally: every backscattered electron is counted once, whatever the random stream does."""
import math

import torch

from .. import seams
from ..common import data
from . import _mp

RULE = (
    "one run = a seeded material, beam, bin layout and number of electrons with seeded random streams handed to the simulation (constant per electron, identical electrons, permuted electrons, bursts of "
    "extreme values); the histogram is compared with a float64 electron-by-electron model or with the simulation of the same electrons in another arrangement; non-trivial = several electrons left through the same bin"
)
MODULES = ["ebsdtorch.simulation.monte_carlo"]
COMPONENTS = {"real": ["ebsdtorch.simulation.monte_carlo.bse_sim_mc"], "stub": ["torch random stream (every uniform draw is decided by the plan)"]}
MATERIALS = [[14.0, 2.33, 28.0855], [28.0, 8.911, 58.6934], [79.0, 19.3, 196.97], [13.0, 2.7, 26.98]]


def generate(r, tier):
    n = 16 * r.choice([1, 1, 2, 4])
    cfg = dict(
        E0=r.choice([30.0, 20.0, 12.0, 5.0]), mat=r.randrange(len(MATERIALS)), n=n, sigma=r.choice([70.0, 70.0, 60.0, 0.0, 10.0]), omega=r.choice([0.0, 0.0, 30.0, 90.0, 200.0]),
        eb=r.choice([1, 4, 16, 64]), ew=r.choice([0.05, 0.5, 1.0, 5.0]), db=r.choice([1, 5, 20]), dw=r.choice([0.05, 0.5, 2.0, 50.0]), nb=r.choice([3, 5, 11, 21]),
        steps=r.choice([1, 3, 10, 40]), seed=r.randrange(2**31),
    )
    cfg["sims"] = r.choice([0, 1, n, n, 2 * n, 3 * n + 5])
    cfg["bse"] = r.choice([10**9, 10**9, 10**9, 1, n, 0])
    ops = []
    for _ in range(r.choice([1, 2, 3])):
        ops.append(dict(op=r.choice(["model", "model", "same", "perm", "wild"]), groups=r.choice([1, 2, 5, 1000]), seed=r.randrange(2**31), dtype=r.choice(["float64", "float32"]), k=r.choice([2, 4])))
    return dict(cfg=cfg, ops=ops)


def simulate(ctx, cfg, stream, n, sims, bse, dtype, count=None):
    """stream(t) -> n values in [0, 1) for the t-th draw; returns the histogram, count[0] becomes the number of draws"""
    m = seams.repo("ebsdtorch.simulation.monte_carlo")
    Z, rho, A = MATERIALS[cfg["mat"] % len(MATERIALS)]
    t = [0]

    def draw(name, out, args):
        # any random op: uniform numbers decided by the plan, scaled as requested
        u = stream(t[0]).to(out.dtype)
        t[0] += 1
        lo, hi = 0.0, 1.0
        if "uniform" in name and len(args) > 2:
            lo, hi = float(args[1]), float(args[2])
        if out.dim() and out.shape[-1] == n:
            v = u.expand(out.shape)
        elif out.dim() and out.shape[0] == n:
            v = u.reshape([n] + [1] * (out.dim() - 1)).expand(out.shape)
        else:
            v = u[:1].expand(out.shape)
        top = 1.0 - torch.finfo(out.dtype).eps / 2
        out.copy_(v.clamp(0.0, top) * (hi - lo) + lo)

    bound = (-(-max(sims, 1) // n) + 1) * (cfg["steps"] + 2)
    m_ = seams.FaultMode(draw=draw, max_ops=2000 * bound + 5000)
    try:
        with m_:
            h = m.bse_sim_mc(
                cfg["E0"], cfg["eb"], cfg["nb"], cfg["db"], cfg["ew"], cfg["dw"], Z, rho, A, n, bse, sims, cfg["steps"], cfg["sigma"], cfg["omega"], dtype, torch.device("cpu")
            )
    except Exception:
        ctx.check(m_.n_ops <= m_.max_ops, "no-progress", f"{m_.n_ops} operations for {sims} simulated electrons of at most {cfg['steps']} steps")
        raise
    ctx.check(tuple(h.shape) == (cfg["eb"], cfg["db"], cfg["nb"], cfg["nb"]), "shape", f"{tuple(h.shape)}")
    ctx.check(bool((h >= 0).all()) and bool((h == h.round()).all()), "not-counts", "")
    ctx.steps += t[0]
    if count is not None:
        count[:] = [t[0]]
    return h.double()


def model(cfg, us):
    """electron by electron, every draw of electron i in step t is us(t)[i]; (histogram, ambiguous?, most in one bin and step, left, simulated, steps, timed out)"""
    Z, rho, A = MATERIALS[cfg["mat"] % len(MATERIALS)]
    n, E0 = len(us(0)), cfg["E0"]
    s, o = math.radians(cfg["sigma"]), math.radians(cfg["omega"])
    beam = torch.tensor([math.sin(s) * math.cos(o), math.sin(s) * math.sin(o), math.cos(s)], dtype=torch.float64)
    beam = beam / beam.norm()
    E = torch.full((n,), E0, dtype=torch.float64)
    z = torch.zeros(n, dtype=torch.float64)
    d = beam.repeat(n, 1)
    age = torch.zeros(n, dtype=torch.long)
    H = torch.zeros(cfg["eb"], cfg["db"], cfg["nb"], cfg["nb"], dtype=torch.float64)
    J = (9.76 * Z + 58.5 * Z**-0.19) * 1e-3
    bse = sims = most = loops = late = 0
    amb = False
    while bse < cfg["bse"] and sims < cfg["sims"]:
        u = us(loops)
        loops += 1
        al = 3.4e-3 * Z**0.66667 / E
        cross = 5.21 * 602.2 * (Z / E) ** 2 * (4 * math.pi / (al * (1 + al))) * ((511 + E) / (1024 + E)) ** 2
        step = -(1e7 * A / (rho * cross)) * torch.log(u)
        loss = 0.00785 * Z / (A * E) * torch.log(1.166 * E / J + 0.9911)
        cp = 1 - 2 * al * u / (1 + al - u)
        sp = torch.sqrt((1 - cp**2).clamp(min=0))
        ps = 2 * math.pi * u
        # turn by the polar angle about any axis across d, then by psi about d: the frame of Joy's formulas
        pole = d[:, 2].abs() > 0.99999
        q = torch.sqrt((1 - d[:, 2] ** 2).clamp(min=0))
        amb = amb or bool(((d[:, 2].abs() - 0.99999).abs() < 1e-7).any())
        e1 = torch.stack([d[:, 0] * d[:, 2], d[:, 1] * d[:, 2], -(q**2)], 1) / q.clamp(min=1e-300)[:, None]
        e2 = torch.stack([-d[:, 1], d[:, 0], torch.zeros(n, dtype=torch.float64)], 1) / q.clamp(min=1e-300)[:, None]
        sg = torch.sign(d[:, 2])
        ex = torch.tensor([1.0, 0, 0], dtype=torch.float64).expand(n, 3)
        ey = torch.tensor([0, 1.0, 0], dtype=torch.float64).expand(n, 3)
        ez = torch.tensor([0, 0, 1.0], dtype=torch.float64).expand(n, 3) * sg[:, None]
        e1, e2, e3 = torch.where(pole[:, None], ex, e1), torch.where(pole[:, None], ey, e2), torch.where(pole[:, None], ez, d)
        d = (sp * torch.cos(ps))[:, None] * e1 + (sp * torch.sin(ps))[:, None] * e2 + cp[:, None] * e3
        d = d / d.norm(dim=1, keepdim=True)
        path = (z / d[:, 2]).abs()
        z = z + step * d[:, 2]
        out = z < 0
        amb = amb or bool((z.abs() < 1e-9).any())
        E = E - step * rho * loss
        x = torch.nonzero(out)[:, 0]
        if len(x):
            fd = path[x] / (cfg["db"] * cfg["dw"]) * cfg["db"]
            fe = (E0 - E[x]) / cfg["ew"]
            X, Y, _ = _mp.lambert(d[x] * torch.tensor([1.0, 1.0, -1.0], dtype=torch.float64))
            xy = torch.stack([2 * (X + 0.5), Y], 1) * 0.499999 + 0.5
            fx = xy * cfg["nb"]
            for f in (fd, fe, fx):
                g = f[torch.isfinite(f)]
                amb = amb or bool((((g - g.round()).abs() < 1e-7) & (g.round() != 0)).any()) or bool((g < -1e-9).any())
            ok = torch.isfinite(fd) & torch.isfinite(fe) & (fd < cfg["db"]) & (fe < cfg["eb"]) & (fe >= 0)
            k = torch.stack([fe[ok].long(), fd[ok].long(), fx[ok, 0].long(), fx[ok, 1].long()], 1)
            step_h = torch.zeros_like(H)
            for row in k.tolist():
                step_h[tuple(row)] += 1
            most = max(most, int(step_h.max()))
            H += step_h
        age += 1
        new = (age > cfg["steps"]) | out
        age[new] = 0
        E[new] = E0
        z[new] = 0.0
        d[new] = beam
        bse += int(out.sum())
        sims += int(new.sum())
        late += int((new & ~out).sum())
    return H, amb, most, bse, sims, loops, late


def execute(plan, ctx):
    cfg = plan["cfg"]
    n = cfg["n"] = max(16, cfg["n"] // 16 * 16)
    for op in plan["ops"]:
        dt = torch.float64 if op["dtype"] == "float64" else torch.float32
        k = op["op"]
        if k == "model":
            vals = data(op["seed"], (max(1, op["groups"]),), "positive") * 0.94 + 0.03
            g = torch.Generator()
            g.manual_seed(op["seed"])
            u = vals[torch.randint(0, len(vals), (n,), generator=g)]
            H, amb, most, bse, sims, loops, _ = model(cfg, lambda t: u)
            cnt = [0]
            h = simulate(ctx, cfg, lambda t: u, n, cfg["sims"], cfg["bse"], torch.float64, cnt)
            if amb:
                continue
            ctx.check(torch.equal(h, H), "tally", lambda: f"{int(h.sum())} counts, {int(H.sum())} electrons left in range of {bse} ({sims} simulated); {int((h != H).sum())} bins differ")
            # other values in every step, the same for all draws of an electron in a step: however many draws a step takes
            if loops and cnt[0] % loops == 0:
                per = cnt[0] // loops

                def us(t):
                    return data(op["seed"] + 104729 * (t + 1), (n,), "positive") * 0.94 + 0.03

                H, amb, most2, bse, sims, loops, late = model(cfg, us)
                if not amb:
                    h = simulate(ctx, cfg, lambda t: us(t // per), n, cfg["sims"], cfg["bse"], torch.float64, cnt)
                    ctx.check(
                        torch.equal(h, H), "tally-changing-draws",
                        lambda: f"{int(h.sum())} counts, {int(H.sum())} electrons left in range of {bse} ({sims} simulated, {late} timed out); {int((h != H).sum())} bins differ",
                    )
                    ctx.probe("electrons-timed-out", late)
                    ctx.probe("electrons-decided", int(H.sum()))
                    most = max(most, most2)
            if most > 1:
                ctx.nontrivial = True
            ctx.probe("electrons-decided", int(H.sum()))
        elif k == "same":
            # K times the same electrons
            def stream(t, m):
                base = data(op["seed"] + 7919 * t, (16,), "positive")[: min(16, op["groups"])]
                x = base.repeat(-(-16 // len(base)))[:16]
                return x.repeat(m)

            K = op["k"]
            one = simulate(ctx, cfg, lambda t: stream(t, 1), 16, cfg["sims"], cfg["bse"], dt)
            many = simulate(ctx, cfg, lambda t: stream(t, K), 16 * K, K * cfg["sims"], K * cfg["bse"], dt)
            ctx.check(torch.equal(many, K * one), "not-counted-per-electron", lambda: f"{K} copies of the electrons give {int(many.sum())} counts, one gives {int(one.sum())}")
            ctx.nontrivial = ctx.nontrivial or float(one.sum()) > 0
        elif k == "perm":
            g = torch.Generator()
            g.manual_seed(op["seed"])
            p = torch.randperm(n, generator=g)
            a = simulate(ctx, cfg, lambda t: data(op["seed"] + 7919 * t, (n,), "positive"), n, cfg["sims"], cfg["bse"], dt)
            b = simulate(ctx, cfg, lambda t: data(op["seed"] + 7919 * t, (n,), "positive")[p], n, cfg["sims"], cfg["bse"], dt)
            ctx.check(torch.equal(a, b), "depends-on-electron-order", lambda: f"{int((a != b).sum())} bins differ")
        else:
            # bursts of extreme values: stays bounded, never counts more than left
            def wild(t):
                x = data(op["seed"] + 7919 * t, (n,), "positive")
                y = data(op["seed"] + 7919 * t + 1, (n,), "positive")
                x = torch.where(y < 0.15, torch.zeros(()).double(), x)
                return torch.where(y > 0.9, torch.full((), 1.0 - 2**-53).double(), x)

            h = simulate(ctx, cfg, wild, n, cfg["sims"], cfg["bse"], dt)
            ctx.fault("extreme-draws")
            lim = max(0, cfg["sims"]) + n - 1 if cfg["sims"] > 0 and cfg["bse"] > 0 else 0
            ctx.check(float(h.sum()) <= min(lim, cfg["bse"] + n - 1 if cfg["bse"] > 0 else 0), "too-many", f"{int(h.sum())} counts, {cfg['sims']} simulated")
        ctx.state(k, cfg["n"], cfg["sims"], cfg["bse"], cfg["steps"], op["groups"], cfg["omega"], cfg["sigma"])
        ctx.log(k)
