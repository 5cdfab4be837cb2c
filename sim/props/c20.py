"""C20 device Monte Carlo: real kernel, simulated device, every launch counted once."""
import math

import numpy as np
import torch

from .. import seams
from ..common import must_reject
from ..core import Violation
from . import _ocl
from .c19 import MATERIALS

RULE = (
    "one run = a seeded material, beam and bin layout and a seeded series of launches, simulations and resamplings; the real kernel source runs work item by work item in a seeded order, device calls fail at "
    "seeded points, read-backs are scripted; histograms are compared with float64 trajectories, with other orders and splits of the same work, and with the record of the device; "
    "non-trivial = several work items counted electrons, or a device fault fired"
)
COMPONENTS = {
    "real": ["ebsdtorch.crystallography.ebsd_mc (host code)", "EBSD_MC_KERNEL (OpenCL C source, compiled for the host)"],
    "stub": ["pyopencl and the device (memory, queue, scheduling of work items, faults)", "numpy random stream", "crystal (average atomic number, weight and density)"],
}


def setup():
    _ocl.install()
    m = seams.repo("ebsdtorch.crystallography.ebsd_mc")
    _ocl.build(m.EBSD_MC_KERNEL) if hasattr(m, "EBSD_MC_KERNEL") else None


def generate(r, tier):
    cfg = dict(
        mat=r.randrange(len(MATERIALS)), kV=r.choice([10.0, 20.0, 30.0]), sigma=r.choice([70.0, 70.0, 60.0, 10.0, 0.0]), omega=r.choice([0.0, 0.0, 30.0]), ew=r.choice([1.0, 2.0, 5.0]),
        dmode=r.choice(["log", "log", "linear"]), nd=r.choice([4, 9, 10, 20, 21]), nb=r.choice([3, 5, 9]), extra=r.choice([0, 1, 2, 4]), n=r.choice([1, 4, 16, 33, 64]), trials=r.choice([1, 2, 3, 7]),
        steps=r.choice([1, 5, 20, 60, 60]),
    )
    cfg["dw"] = r.choice([0.3, 0.1, 0.25]) if cfg["dmode"] == "log" else r.choice([0.5, 5.0])
    ops = []
    for _ in range(r.choice([1, 2, 3])):
        ops.append(
            dict(
                op=r.choice(["model", "model", "order", "same", "split", "sim", "sim", "sim", "steps", "resample", "history"]), seed=r.randrange(2**31), lazy=r.random() < 0.5,
                fault=r.choice([None, None, round(r.random(), 4)]), mass=r.choice([0.0, 0.5, 1.0, 2.5, 6.0]), script=r.choice([None, None, "zero", "one-zero", "big"]), k=r.choice([2, 3, 5]),
            )
        )
    return dict(cfg=cfg, ops=ops)


class Crystal:
    def __init__(self, mat):
        Z, rho, A = MATERIALS[mat % len(MATERIALS)]
        self.get_average_atomic_number, self.get_density, self.get_average_atomic_weight = torch.tensor(Z), torch.tensor(rho), torch.tensor(A)


def params(cfg, n=None, trials=None):
    Z, rho, A = MATERIALS[cfg["mat"] % len(MATERIALS)]
    return dict(
        n_electrons=n or cfg["n"], n_trials_per_electron=trials or cfg["trials"], starting_E_keV=cfg["kV"] + cfg["extra"] * cfg["ew"], n_exit_energy_bins=int(cfg["kV"] // cfg["ew"]) + cfg["extra"],
        n_exit_depth_bins=cfg["nd"], n_exit_direction_bins=cfg["nb"], depth_mode=cfg["dmode"], sigma=cfg["sigma"], omega=cfg["omega"], binsize_exit_energy=cfg["ew"], binsize_exit_depth=cfg["dw"],
        n_max_steps=cfg["steps"], atom_num=Z, unit_cell_density_rho=rho, atomic_weight_A=A, residual=0.0,
    )


def shuffled(seed):
    def order(n):
        p = np.random.RandomState(seed % 2**32).permutation(n)
        return [int(i) for i in p]

    return order


def lfsr(z):
    x, y, v, w = z
    b = (((x << 6) & 0xFFFFFFFF) ^ x) >> 13
    x = (((x & 4294967294) << 18) & 0xFFFFFFFF) ^ b
    b = (((y << 2) & 0xFFFFFFFF) ^ y) >> 27
    y = (((y & 4294967288) << 2) & 0xFFFFFFFF) ^ b
    b = (((v << 13) & 0xFFFFFFFF) ^ v) >> 21
    v = (((v & 4294967280) << 7) & 0xFFFFFFFF) ^ b
    b = (((w << 3) & 0xFFFFFFFF) ^ w) >> 12
    w = (((w & 4294967168) << 13) & 0xFFFFFFFF) ^ b
    return (x, y, v, w), (x ^ y ^ v ^ w) * 2.0**-32


def trajectories(cfg, seeds, trials):
    """float64: list of (bin or None, sure?) for every electron, the final random states"""
    p = params(cfg)
    Z, rho, A, E0 = p["atom_num"], p["unit_cell_density_rho"], p["atomic_weight_A"], p["starting_E_keV"]
    s, o = math.radians(cfg["sigma"]), math.radians(cfg["omega"])
    beam = (math.sin(s) * math.cos(o), math.sin(s) * math.sin(o), math.cos(s))
    J = (9.76 * Z + 58.5 * Z**-0.19) * 1e-3
    out, last = [], []
    for row in seeds.tolist():
        z = tuple(row)
        for _ in range(trials):
            d, E, depth = beam, E0, 0.0
            sure, hit, edge = True, None, False
            err = 2e-6
            for _ in range(cfg["steps"]):
                al = 3.4e-3 * Z**0.66667 / E
                cross = 5.21 * 602.2 * Z**2 / E**2 * (4 * math.pi / (al * (1 + al))) * ((511 + E) / (1024 + E)) ** 2
                z, u = lfsr(z)
                if u <= 0:
                    sure = False
                    u = 1e-12
                step = -(1e7 * A / rho / cross) * math.log(u)
                loss = 0.00785 * Z / A / E * math.log(1.166 * E / J + 0.9911)
                z, u = lfsr(z)
                cp = max(-1.0, min(1.0, 1 - 2 * al * u / (1 + al - u)))
                sp = math.sqrt(max(0.0, 1 - cp * cp))
                z, u = lfsr(z)
                c, w = math.cos(2 * math.pi * u), math.sin(2 * math.pi * u)
                # single precision: acos near a pole, division by the distance from the pole
                q2 = max(0.0, 1 - d[2] ** 2)
                err = err * 1.2 + 5e-7 / max(sp, 1e-3) + (3e-7 / max(q2, 1e-6) if abs(d[2]) <= 0.99999 else 0)
                if abs(abs(d[2]) - 0.99999) < 1e-5 + err:
                    sure = False
                if abs(d[2]) > 0.99999:
                    n = (sp * c, sp * w, math.copysign(1.0, d[2]) * cp)
                else:
                    q = math.sqrt(q2)
                    n = (sp * (d[0] * d[2] * c - d[1] * w) / q + d[0] * cp, sp * (d[1] * d[2] * c + d[0] * w) / q + d[1] * cp, -sp * c * q + d[2] * cp)
                m = math.sqrt(sum(x * x for x in n))
                d = tuple(x / m for x in n)
                esc = abs(depth / d[2]) if d[2] else math.inf
                eesc = esc * (err / max(abs(d[2]), 1e-9)) + err * (1 + abs(depth))
                depth += step * d[2]
                E -= step * rho * loss
                slack = err * (10 + abs(depth) + step)
                if abs(depth) < slack and depth != 0 or abs(E) < 1e-3 or err > 1e-2:
                    sure = False
                if E <= 0:
                    break
                if depth < 0:
                    fd = esc / cfg["dw"] if cfg["dmode"] == "linear" else math.log(esc + 1) / cfg["dw"]
                    ed = (eesc + 1e-6) / cfg["dw"] + 1e-5 * fd
                    fe = (E0 - E) / cfg["ew"]
                    ee = (slack + 1e-4) / cfg["ew"]
                    a, b = d[0], d[1]
                    f = math.sqrt(max(0.0, 2 * (1 - abs(d[2]))))
                    if abs(b) <= abs(a):
                        g = math.copysign(1.0, a) if a else 1.0
                        X, Y = g * f / math.sqrt(2), g * f * math.atan2(b * g, abs(a)) * 2 * math.sqrt(2) / math.pi
                    else:
                        g = math.copysign(1.0, b)
                        Y, X = g * f / math.sqrt(2), g * f * math.atan2(a * g, abs(b)) * 2 * math.sqrt(2) / math.pi
                    fx, fy = (X * 0.499999 + 0.5) * cfg["nb"], (Y * 0.499999 + 0.5) * cfg["nb"]
                    ex = (20 * err + 1e-5) * cfg["nb"] / max(f, 1e-2)
                    for v, e in ((fd, ed), (fe, ee), (fx, ex), (fy, ex)):
                        if abs(v - round(v)) < e and not (v == 0 and e < 1e-3):
                            edge = True
                    if fd < 0 or fe < 0:
                        edge = True
                    k = (int(fe), int(fd) if math.isfinite(fd) else 10**9, int(fx), int(fy))
                    hit = k if k[0] < p["n_exit_energy_bins"] and k[1] < cfg["nd"] and 0 <= k[2] < cfg["nb"] and 0 <= k[3] < cfg["nb"] else None
                    break
            out.append((hit, sure and not edge))
            if not sure:
                # where the random stream stands is unknown from here on
                z = None
                break
        last.append(z)
    return out, last


def healthy(ctx):
    ctx.check(_ocl.DEV.bad is None, "device-memory", str(_ocl.DEV.bad))


def launch(ctx, m, p, seed, **dev):
    _ocl.DEV.reset(**dev)
    np.random.seed(seed % 2**32)
    h = np.asarray(m.run_monte_carlo_simulation({}, p)).astype(np.int64)
    healthy(ctx)
    ctx.check(h.shape == (p["n_exit_energy_bins"], p["n_exit_depth_bins"], p["n_exit_direction_bins"], p["n_exit_direction_bins"]), "shape", f"{h.shape}")
    ctx.check(sum(x["n"] for x in _ocl.DEV.launches) == p["n_electrons"], "work-items", f"{[x['n'] for x in _ocl.DEV.launches]} work items for {p['n_electrons']}")
    ctx.check(h.sum() <= p["n_electrons"] * p["n_trials_per_electron"], "too-many", f"{h.sum()} of {p['n_electrons'] * p['n_trials_per_electron']} electrons")
    ctx.steps += p["n_electrons"]
    return h


def simulator(m, cfg, mass, n, override="cfg", fraction=0.01):
    return m.MonteCarloSimulator(
        cell=Crystal(cfg["mat"]), kV=cfg["kV"], incidence_angle=cfg["sigma"], binsize_exit_energy=cfg["ew"], binsize_exit_depth=cfg["dw"], n_depth_bins=cfg["nd"], depth_mode=cfg["dmode"],
        n_direction_bins=cfg["nb"], n_energy_bins_extra=cfg["extra"], find_steps_fraction=fraction, min_histogram_mass=mass, omega=cfg["omega"], n_max_steps_override=cfg["steps"] if override == "cfg" else override,
    )


def fold(h, cfg):
    t = torch.tensor(h.astype(np.float64))[cfg["extra"] :]
    return (t + t.flip(3)) / 2 if cfg["omega"] == 0.0 else t


def run_sim(ctx, m, cfg, op):
    n = max(4, cfg["n"])
    # how much one launch brings, to ask for a multiple of it
    probe = launch(ctx, m, params(cfg, n), op["seed"])
    one = float(fold(probe, cfg).sum())
    mass = op["mass"] * max(one, 1.0)
    sim = simulator(m, cfg, mass, n)
    script = None
    shape = probe.shape
    if op["script"]:
        rs = np.random.RandomState(op["seed"] % 2**32)

        def script(i, real):
            x = rs.randint(0, 4 if op["script"] != "big" else 2**20, size=shape).astype(np.uint32)
            if op["script"] == "zero" or (op["script"] == "one-zero" and i == 1):
                x[:] = 0
            return x

    dev = dict(order=shuffled(op["seed"]), lazy=op["lazy"], scripted=script, max_launches=400)

    def go():
        np.random.seed(op["seed"] % 2**32)
        return sim.run_simulation(n_electrons=n, n_trials_per_electron=cfg["trials"])

    if op["fault"] is not None:
        _ocl.DEV.reset(**dev)
        try:
            go()
        except Violation:
            raise
        except Exception:  # noqa: BLE001
            pass
        total = _ocl.DEV.calls
        dev["fail_at"] = int(op["fault"] * total)
        if op["script"]:
            rs.seed(op["seed"] % 2**32)
        _ocl.DEV.reset(**dev)
        try:
            go()
        except Violation:
            raise
        except Exception:  # noqa: BLE001
            if _ocl.DEV.fired:
                ctx.fault("device-" + _ocl.DEV.fired)
                ctx.nontrivial = True
        else:
            ctx.check(_ocl.DEV.fired is None, "swallowed-device-error", lambda: f"error in {_ocl.DEV.fired} and yet a result")
        dev.pop("fail_at")
        if op["script"]:
            rs.seed(op["seed"] % 2**32)
    _ocl.DEV.reset(**dev)
    try:
        h, total_sim = go()
    except Violation:
        raise
    except RuntimeError as ex:
        res = _ocl.DEV.results
        ctx.check(bool(res) and float(fold(res[-1], cfg).sum()) == 0, "fails-although-electrons-came-back", lambda: f"{ex} after {[int(x.sum()) for x in res]}")
        ctx.fault("empty-launch")
        healthy(ctx)
        return
    healthy(ctx)
    res = _ocl.DEV.results
    want = sum(fold(x, cfg) for x in res)
    got = h.double()
    ctx.check(tuple(got.shape) == tuple(want.shape), "sim-shape", f"{tuple(got.shape)} expected {tuple(want.shape)}")
    ctx.check(bool(((got - want).abs() <= 1e-5 * want.abs() + 1e-6).all()), "sim-sum", lambda: f"{float(got.sum())} in the result, the device returned {float(want.sum())} over {len(res)} launches")
    per = sum(x["n"] for x in _ocl.DEV.launches) * cfg["trials"]
    ctx.check(total_sim == per, "sim-total", f"reported {total_sim} electrons, launched {per}")
    acc = float(want.sum())
    ctx.check(acc >= mass * (1 - 1e-6), "sim-short", f"{acc} of the required {mass}")
    if len(res) > 1:
        ctx.check(acc - float(fold(res[-1], cfg).sum()) < mass * (1 + 1e-6), "sim-excess", f"{len(res)} launches for {mass}, the last one was not needed")
    if script is None:
        seeds = np.concatenate([x["seeds"] for x in _ocl.DEV.launches if x["seeds"] is not None])
        # some low bits of a seed have no influence: what counts is the generator one draw later
        after = np.array([lfsr(tuple(row))[0] for row in seeds.tolist()], dtype=np.uint64)
        ctx.check(len(np.unique(after, axis=0)) == len(after), "replayed-stream", f"{len(after)} work items but {len(np.unique(after, axis=0))} random streams")
        # the same electrons asked for directly
        for x, r in list(zip(list(_ocl.DEV.launches), res))[:2]:
            own = launch(ctx, m, params(cfg, n), op["seed"], force_seeds=lambda a, x=x: x["seeds"])
            ctx.check(bool((own == r.astype(np.int64)).all()), "sim-parameters", f"{r.sum()} counts in the simulation, {own.sum()} for the same electrons with its parameters")
    ctx.probe("launches", len(res))
    if acc > 0:
        ctx.nontrivial = True


def run_steps(ctx, m, cfg, op):
    rs = np.random.RandomState(op["seed"] % 2**32)
    p = params(cfg)
    shape = (p["n_exit_energy_bins"], p["n_exit_depth_bins"], cfg["nb"], cfg["nb"])
    fill = int(cfg["kV"] // cfg["ew"])
    good = rs.randint(0, 10)
    given = []

    def script(i, real):
        x = rs.randint(1, 5, size=shape).astype(np.uint32)
        if i < good:
            # something is missing in one of the energy bins that count
            if rs.rand() < 0.2:
                x[:] = 0
            else:
                x[cfg["extra"] + rs.randint(fill)] = 0
        elif cfg["extra"]:
            x[rs.randint(cfg["extra"])] = 0  # this one does not count
        given.append(x)
        return x

    _ocl.DEV.reset(scripted=script, max_launches=50, lazy=op["lazy"])
    sim = simulator(m, cfg, 1.0, None, override=None, fraction=2e-5)
    sizes = [250, 500, 750, 1000, 1250, 1500, 1750, 2000]
    k = len(_ocl.DEV.launches)
    ctx.check(sim.n_max_steps == sizes[min(good, 7)] and k == min(good + 1, 8), "steps-found", f"{sim.n_max_steps} after {k} launches, energies filled from launch {good}")
    ctx.check(all(x["n"] == 20 for x in _ocl.DEV.launches), "steps-share", f"{[x['n'] for x in _ocl.DEV.launches]} work items")
    # the search leaves no trace in what is simulated afterwards
    ask = []
    for s in (sim, simulator(m, cfg, 1.0, None, override=sim.n_max_steps)):
        _ocl.DEV.reset(scripted=lambda i, real: np.full(shape, 2, dtype=np.uint32), max_launches=50)
        s.run_simulation(**({"n_trials_per_electron": cfg["trials"]} if op["seed"] % 2 else {}))
        ask.append([(x["n"], [a for a in x["args"] if a is not None]) for x in _ocl.DEV.launches])
    ctx.check(ask[0] == ask[1], "search-changes-simulation", lambda: f"launches {ask[0]}, without a search {ask[1]}")


def run_history(ctx, m, cfg, op):
    """what a request launches does not depend on the requests before it"""
    rs = np.random.RandomState(op["seed"] % 2**32)
    p = params(cfg)
    shape = (p["n_exit_energy_bins"], p["n_exit_depth_bins"], cfg["nb"], cfg["nb"])
    each = np.full(shape, 1 + op["seed"] % 3, dtype=np.uint32)
    mass = op["mass"] * float(fold(each, cfg).sum())
    req = []
    for _ in range(rs.randint(2, 5)):
        x = {}
        if rs.rand() < 0.7:
            x["n_electrons"] = int(rs.randint(1, 30))
        if rs.rand() < 0.7:
            x["n_trials_per_electron"] = int(rs.randint(1, 9))
        req.append(x)

    def one(sim, x, fail_at=None):
        _ocl.DEV.reset(scripted=lambda i, real: each.copy(), max_launches=400, lazy=op["lazy"], fail_at=fail_at)
        np.random.seed(op["seed"] % 2**32)
        h, total = sim.run_simulation(**x)
        healthy(ctx)
        return h.double(), total, [(y["n"], [a for a in y["args"] if isinstance(a, (int, float, np.generic))]) for y in _ocl.DEV.launches]

    used = simulator(m, cfg, mass, None)
    for i, x in enumerate(req):
        h, t, ls = one(used, x)
        h0, t0, ls0 = one(simulator(m, cfg, mass, None), x)
        ctx.check(ls == ls0, "request-depends-on-earlier-requests", lambda: f"request {i} of {req}: launches {ls}, on a new simulator {ls0}")
        ctx.check(t == t0 and torch.equal(h, h0), "request-depends-on-earlier-requests", lambda: f"request {i} of {req}: {t} electrons simulated, on a new simulator {t0}")
        if i == 0 and op["fault"] is not None:
            calls = _ocl.DEV.calls
            try:
                one(used, dict(n_electrons=3, n_trials_per_electron=2), int(op["fault"] * calls))
            except Violation:
                raise
            except Exception:  # noqa: BLE001
                if _ocl.DEV.fired:
                    ctx.fault("device-" + _ocl.DEV.fired)
    ctx.nontrivial = True
    ctx.probe("requests", len(req))


def run_resample(ctx, m, cfg, op):
    """piecewise linear densities come through resampling unchanged"""
    c = dict(cfg, dmode="log", nd=cfg["nd"] + 2, steps=1, dw=[0.1, 0.2, 0.05, 0.25, 0.3][op["seed"] % 5])
    sim = simulator(m, c, 1.0, None)
    rs = np.random.RandomState(op["seed"] % 2**32)
    edges = np.exp(np.arange(c["nd"] + 1) * c["dw"]) - 1
    mid, size = (edges[1:] + edges[:-1]) / 2, np.diff(edges)
    fill = int(c["kV"] // c["ew"])
    lin = op["seed"] % 2 == 0
    # a linear depth scale inside the range of the bins
    w = float((mid[-1] - mid[0]) / 12)
    n = int((mid[-1] - 0.01 * w) / w)
    first = w / 2
    if first <= mid[0] * 1.001 or n < 2:
        w = float(mid[0] * 2.01)
        n = int((mid[-1] * 0.999) / w)
    if n < 2:
        return
    # depths that no bin covers cannot be read off
    far = torch.ones(fill, c["nd"], c["nb"], c["nb"])
    must_reject(ctx, lambda: sim.resample_to_linear(far, n_linear_bins=n + 2 + int(mid[-1] / w), linear_binsize=w, interpolation="linear"), "resample-beyond-range")
    x = w / 2 + w * np.arange(n)
    if x[-1] >= mid[-1] * 0.999 or x[0] <= mid[0]:
        return
    if lin:
        dens = rs.rand(fill, len(mid), c["nb"], c["nb"])  # any values, straight in between
        want = np.stack([[[np.interp(x, mid, dens[e, :, a, b]) for b in range(c["nb"])] for a in range(c["nb"])] for e in range(fill)])
        want = np.moveaxis(want, 3, 1)
    else:
        A, B = rs.rand(fill, 1, c["nb"], c["nb"]), rs.rand(fill, 1, c["nb"], c["nb"])
        dens = A + B * mid[None, :, None, None] / mid[-1]
        want = A + B * x[None, :, None, None] / mid[-1]
    h = torch.tensor(dens * size[None, :, None, None]).float()
    got = sim.resample_to_linear(h, n_linear_bins=n, linear_binsize=w, interpolation="linear" if lin else "quadratic")
    ctx.check(tuple(got.shape) == want.shape, "resample-shape", f"{tuple(got.shape)} expected {want.shape}")
    d = float((got.double() - torch.tensor(want)).abs().max())
    ctx.check(d < 2e-3 * float(np.abs(want).max()), "resample-wrong", lambda: f"{'linear' if lin else 'quadratic'}: off by {d:.3e}")
    ctx.probe("resampled")


def execute(plan, ctx):
    m = seams.repo("ebsdtorch.crystallography.ebsd_mc")
    cfg = plan["cfg"]
    _ocl.DEV.reset()
    cfg["n"], cfg["trials"], cfg["steps"] = max(1, cfg["n"]), max(1, cfg["trials"]), max(1, cfg["steps"])
    for op in plan["ops"]:
        k = op["op"]
        p = params(cfg)
        order = shuffled(op["seed"])
        if k == "model":
            h = launch(ctx, m, p, op["seed"], order=order, lazy=op["lazy"])
            seeds = np.concatenate([x["seeds"] for x in _ocl.DEV.launches])
            rows, last = trajectories(cfg, seeds, cfg["trials"])
            sure = np.zeros_like(h)
            unsure = cfg["n"] * cfg["trials"] - len(rows)
            for hit, ok in rows:
                if not ok:
                    unsure += 1
                elif hit is not None:
                    sure[hit] += 1
            rest = h - sure
            ctx.check(bool((rest >= 0).all()), "tally", lambda: f"{int((rest < 0).sum())} bins miss electrons: {h.sum()} counted, {sure.sum()} known to leave in range")
            ctx.check(rest.sum() <= unsure, "tally-excess", lambda: f"{rest.sum()} counts of {unsure} undecided electrons")
            ctx.probe("electrons-decided", int(sum(ok for _, ok in rows)))
            ctx.probe("electrons-undecided", int(unsure))
            ctx.nontrivial = ctx.nontrivial or sure.sum() > 1
        elif k == "order":
            a = launch(ctx, m, p, op["seed"])
            b = launch(ctx, m, p, op["seed"], order=order, lazy=op["lazy"])
            ctx.check(bool((a == b).all()), "depends-on-order", f"{int((a != b).sum())} bins differ between two orders of the work items")
            ctx.nontrivial = ctx.nontrivial or a.sum() > 1
        elif k == "same":
            K = op["k"]
            one = launch(ctx, m, p, op["seed"], order=order)
            s = np.concatenate([x["seeds"] for x in _ocl.DEV.launches])
            many = launch(ctx, m, params(cfg, K * cfg["n"]), op["seed"], order=order, lazy=op["lazy"], force_seeds=lambda x: np.resize(s, x.shape))
            ctx.check(bool((many == K * one).all()), "not-counted-per-item", lambda: f"{K} copies of the electrons give {many.sum()} counts, one gives {one.sum()}")
            ctx.nontrivial = ctx.nontrivial or one.sum() > 1
        elif k == "split":
            # the trials of a work item in one launch or in two
            t1 = 1 + op["seed"] % 3
            a = launch(ctx, m, params(cfg, trials=t1 + cfg["trials"]), op["seed"], order=order)
            _ocl.DEV.reset(order=order, lazy=op["lazy"])
            np.random.seed(op["seed"] % 2**32)
            mc = m.OpenCLMonteCarlo(p)
            h1 = mc.run_simulation(params(cfg, trials=t1)).astype(np.int64)
            h2 = mc.run_simulation(p).astype(np.int64)
            healthy(ctx)
            ctx.check(bool((h2 >= h1).all()) and bool((h2 == a).all()), "split", lambda: f"{h1.sum()} then {h2.sum()} counts in two launches, {a.sum()} in one")
            ctx.nontrivial = ctx.nontrivial or a.sum() > 1
        elif k == "sim":
            run_sim(ctx, m, cfg, op)
        elif k == "history":
            run_history(ctx, m, cfg, op)
        elif k == "steps":
            run_steps(ctx, m, cfg, op)
        else:
            run_resample(ctx, m, cfg, op)
        ctx.state(k, cfg["n"], cfg["trials"], cfg["steps"], cfg["dmode"], op["script"], op["mass"], op["lazy"])
        ctx.log(k, len(_ocl.DEV.launches))
