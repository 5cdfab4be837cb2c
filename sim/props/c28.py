"""C28 dynamical master patterns: chunks, voltage groups, descriptions, failures and concurrent runs."""
import contextlib
import copy
import io
import math

import torch

from .. import seams
from ..common import alloc_fault_call, gen, make_sites, make_switches, raise_thread_errors, same_bits
from ..core import PlanInvalid
from . import _cell as R
from .c27 import build, snapshot, unchanged

RULE = (
    "one run = a random small crystal (any space group) and a seeded sequence of dynamical simulations (voltages, depth weights and step, chunk size, options), some of them failing on an allocation or an interrupt and repeated, "
    "some concurrent with another crystal; every intensity is compared with a double-precision integration of the beam equations assembled pair by pair, and runs are compared with each other across chunk sizes, voltage groups, "
    "depth steps and descriptions; non-trivial = a result after a failure, a preemption or in a second grouping"
)
COMPONENTS = {
    "real": ["ebsdtorch.crystallography.ebsd_master", "ebsdtorch.crystallography.diffraction", "ebsdtorch.crystallography.kvectors", "ebsdtorch.crystallography.unit_cell", "ebsdtorch scattering factors", "torch CPU kernels", "tqdm", "real Python threads, one released at a time"],
    "stub": ["allocator", "interrupts", "thread scheduler", "clock", "standard error"],
}
CFG_MIN = {"sg": 1, "ghw": 1}
MODULES = ["ebsdtorch.crystallography.ebsd_master", "ebsdtorch.crystallography.diffraction", "ebsdtorch.crystallography.kvectors", "ebsdtorch.crystallography.unit_cell", "ebsdtorch.crystallography.groups"]
Z = [6, 8, 13, 14, 22, 26, 28, 29]


def setup():
    import tqdm

    tqdm.tqdm.monitor_interval = 0  # no thread of its own


def gen_crystal(r):
    sg = r.choice([r.randint(1, 230), r.randint(1, 15), r.randint(16, 142), r.randint(143, 194), r.randint(195, 230)])
    abc, ang = R.lattice_for(r, sg)
    atoms = []
    for _ in range(r.choice([1, 1, 2])):
        xyz = [r.choice([0.0, 0.5, 0.25]) for _ in range(3)] if r.random() < 0.6 else [round(r.uniform(0, 1), 3) for _ in range(3)]
        atoms.append([r.choice(Z), *xyz, r.choice([1.0, 1.0, 0.5]), r.choice([0.002, 0.005, 0.01])])
    return dict(sg=sg, setting=2 if sg in R.TWO and r.random() < 0.4 else 1, abc=abc, ang=ang, atoms=atoms, units="nm", aunits="deg", beams=r.choice([8, 15, 30, 45]))


def gen_sim(r):
    return dict(
        kv=[round(r.uniform(5, 30), 1) for _ in range(r.choice([1, 1, 2, 3]))], depths=r.choice([1, 2, 5, 12, 30, 110]), wseed=r.randrange(2**31), wkind=r.choice(["exp", "rand", "late", "first"]), step=r.choice([1.0, 1.0, 0.5, 2.0]),
        chunk=r.choice([1, 2, 3, 7, 16, 100, 1000]), core=r.random() < 0.7, phonon=r.random() < 0.8, absorb=r.random() < 0.8, sf=r.choice(["WK", "WK", "WK", "Hybrid"]),
    )


def generate(r, tier):
    ops = []
    for _ in range(r.randint(1, 4)):
        op = r.choice(["sim", "sim", "sim", "chunk", "group", "step", "p1", "tables", "sector", "restart"])
        ops.append(dict(gen_sim(r), op=op, chunk2=r.choice([1, 2, 5, 11, 40]), take=r.randrange(8), fault=r.choice(["alloc", "alloc", "line", None, None, None]), frac=round(r.random(), 3), ghw2=r.randint(1, 9)))
        if op == "sector":
            ops[-1]["groups"] = [gen_crystal(r) for _ in range(r.randint(2, 8))]
    threads = [gen_sim(r) for _ in range(2)] if r.random() < 0.25 else []
    return dict(cfg=dict(sg=0, ghw=r.choice([1, 2, 2, 3])), crystal=gen_crystal(r), other=gen_crystal(r), ops=ops, threads=threads, switches=make_switches(r, 2, 400, r.choice([0, 1, 2, 4, 8, 20])), sites=make_sites(r, 2))


def simplify(plan):
    for k, o in enumerate(plan["ops"]):
        for i in range(len(o.get("groups", []))):
            p = copy.deepcopy(plan)
            p["ops"][k]["groups"].pop(i)
            yield p
        if len(o["kv"]) > 1:
            p = copy.deepcopy(plan)
            p["ops"][k]["kv"] = o["kv"][:-1]
            yield p
        if o["depths"] > 2:
            p = copy.deepcopy(plan)
            p["ops"][k]["depths"] = o["depths"] // 2
            yield p
    if len(plan["crystal"]["atoms"]) > 1:
        p = copy.deepcopy(plan)
        p["crystal"]["atoms"].pop()
        yield p


def weights(o, n_v):
    """positive weights without a bin on the 95 % limit"""
    for k in range(100):
        g = gen(o["wseed"] + k)
        w = torch.rand(n_v, o["depths"], generator=g, dtype=torch.float64) + 0.05
        d = torch.arange(o["depths"], dtype=torch.float64)
        if o["wkind"] == "exp":
            w = w * torch.exp(-d / 4)
        elif o["wkind"] == "late":
            w = w * torch.where(d >= o["depths"] // 2, 1.0, 0.0) + 1e-3
        elif o["wkind"] == "first":
            w[:, 0] *= 50
        w = (w * 1000).float()
        cdf = w.double().cumsum(1) / w.double().sum(1, keepdim=True)
        if bool(((cdf - 0.95).abs() > 1e-4).all()):
            return w
    raise PlanInvalid("weights")


class Crystal:
    def __init__(self, d):
        self.d = d
        self.lat = R.Lattice(d["abc"], d["ang"])
        self.orb = [R.orbit(d["sg"], d["setting"], a[1:4]) for a in d["atoms"]]
        self.dmin = self.spacing()
        self.cell = build(d).set_fp_dtype(torch.float32)

    def spacing(self):
        """a spacing with about the wanted number of beams, away from any reflection"""
        d = self.d
        n = [int(x / 0.08) + 1 for x in d["abc"]]
        n = [min(k, 7) for k in n]
        g = torch.cartesian_prod(*[torch.arange(-k, k + 1) for k in n])
        g = g[R.allowed(d["sg"], g)]
        s = torch.unique((self.lat.cart(g.double(), "r").norm(dim=-1) * 1e6).round()) / 1e6
        ln = self.lat.cart(g.double(), "r").norm(dim=-1)
        best = float(s[1])
        for a, b in zip(s[1:-1].tolist(), s[2:].tolist()):
            if b - a > 2e-3 * b and int((ln < a + 1e-6).sum()) <= d["beams"]:
                best = (a + b) / 2
        if best == float(s[1]):
            best = best * 1.02
        # all indices inside the box that was searched
        return 1.0 / min(best, min(k / x for k, x in zip(n, d["abc"])) * 0.999)

    def beams(self, g_all):
        return g_all

    def p1(self):
        d = self.d
        if sum(len(o) for o in self.orb) > 16:
            return None
        atoms = [[a[0], *p.tolist(), a[4], a[5]] for a, o in zip(d["atoms"], self.orb) for p in o]
        return build(dict(d, sg=1, setting=1, atoms=atoms)).set_fp_dtype(torch.float32)


def run(cell, o, dmin, ghw, w, kv=None, chunk=None, step=None):
    M = seams.repo("ebsdtorch.crystallography.ebsd_master")
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return M.ebsd_master_pattern(
            cell, torch.tensor(o["kv"] if kv is None else kv), o["step"] if step is None else step, w, dmin, k_chunk_size=chunk or o["chunk"], grid_half_width=ghw,
            include_core=o["core"], include_phonon=o["phonon"], absorption=o["absorb"], scatter_factor=o["sf"],
        )


def grid(cell, ghw):
    K = seams.repo("ebsdtorch.crystallography.kvectors")
    return K.kvectors_grid(cell, ghw)


def potentials(cr, g, o):
    """(n_v, n, n) U for every pair, U'_0 and wavelength, assembled pair by pair in double precision"""
    mod = "WK" if o["sf"] == "WK" else "Hybrid"
    F = seams.repo(f"ebsdtorch.crystallography.scattering_factors.scattering_factors_{mod}")
    fn = F.scatter_factor_WK if mod == "WK" else F.scatter_factor_hybrid
    d = cr.d
    kv = torch.tensor(o["kv"])
    dg = g[None, :, :] - g[:, None, :]
    n = len(g)
    flat = dg.reshape(-1, 3).double()
    ln = cr.lat.cart(flat, "r").norm(dim=-1)
    key, inv = torch.unique((ln * 1e7).round(), return_inverse=True)
    f = fn(
        g=((0.2 * math.pi if mod == "WK" else 0.1) * key / 1e7).float(),  # the hybrid takes the angle without 2 pi
        Z=torch.tensor([a[0] for a in d["atoms"]]), thermal_sigma=(10 * torch.sqrt(torch.tensor([a[5] for a in d["atoms"]], dtype=torch.float64) / (8 * math.pi**2))).float(),
        voltage_kV=kv, include_core=o["core"], include_phonon=o["phonon"],
    ).to(torch.complex128)[:, :, inv]
    ff = torch.zeros(len(kv), n * n, dtype=torch.complex128)
    gg = torch.zeros_like(ff)
    for s, (a, orb) in enumerate(zip(d["atoms"], cr.orb)):
        ph = torch.exp(-2j * math.pi * (flat @ orb.T)).sum(1)
        ff += ph * f[:, s].real * a[4]
        gg += ph * f[:, s].imag * a[4]
    pref = 0.04787801 / cr.lat.vol
    preg = 0.664840340614319
    U = pref * preg * (ff + 1j * gg if o["absorb"] else ff)
    up0 = pref * preg * gg[:, 0].abs() if o["absorb"] else torch.zeros(len(kv), dtype=torch.float64)  # pair (0, 0)
    k64 = kv.double()
    lam = 1.22642584554 / torch.sqrt(pref * ff[:, 0].abs() + k64 * (1 + 0.00097847561649 * k64) * 1000)
    return U.reshape(len(kv), n, n), up0, lam


def sgh(cr, g):
    dg = (g[None, :, :] - g[:, None, :]).double()
    s2 = 0.25 * cr.lat.cart(dg.reshape(-1, 3), "r").norm(dim=-1) ** 2
    out = []
    for a, orb in zip(cr.d["atoms"], cr.orb):
        ph = torch.exp(2j * math.pi * (dg.reshape(-1, 3) @ orb.T)).sum(1)
        out.append((ph * a[0] ** 2 * a[4] * torch.exp(-a[5] * s2)).reshape(len(g), len(g)))
    return torch.stack(out)


def beams(cr):
    n = [int(x / cr.dmin) + 1 for x in cr.d["abc"]]
    g = torch.cartesian_prod(*[torch.arange(-k, k + 1) for k in n])
    g = g[R.allowed(cr.d["sg"], g)]
    ln = cr.lat.cart(g.double(), "r").norm(dim=-1)
    g = g[(ln * cr.dmin < 1) & (ln > 0)]
    return torch.cat([torch.zeros(1, 3, dtype=torch.int64), g])


def reference(cr, o, k, w, step=None):
    """(n_v, n_s, n_k)"""
    step = o["step"] if step is None else step
    g = beams(cr)
    U, up0, lam = potentials(cr, g, o)
    S = sgh(cr, g)
    w = w.double() / w.double().sum()
    cdf = (w / w.sum(1, keepdim=True)).cumsum(1)
    G = cr.lat.cart(g.double(), "r")
    out = torch.zeros(len(lam), len(S), len(k), dtype=torch.float64)
    for v in range(len(lam)):
        kk = k / k.norm(dim=-1, keepdim=True) / lam[v]
        kg = kk[:, None] + G[None]
        sg = -(G[None] * (2 * kk[:, None] + G[None])).sum(-1) / (2 * (kg * kk[:, None]).sum(-1) * lam[v])
        sg[:, 0] = 0
        A = U[v].clone()
        A.fill_diagonal_(0)
        A = A[None] + torch.diag_embed(2 * sg / lam[v] + 1j * up0[v])
        E = torch.matrix_exp(1j * math.pi * lam[v] * step * A)
        psi = torch.zeros(len(k), len(g), dtype=torch.complex128)
        psi[:, 0] = 1
        last = min(int((cdf[v] >= 0.95).double().argmax()), 100)
        for d in range(last):
            psi = (E @ psi[..., None])[..., 0]
            out[v] += w[v, d] * torch.einsum("sij,ki,kj->sk", S, psi, psi.conj()).real
    return out


def execute(plan, ctx):
    cr = Crystal(plan["crystal"])
    ghw = plan["cfg"]["ghw"]
    if not 2 <= len(beams(cr)) <= 90:
        ctx.log("skipped", len(beams(cr)))
        return
    before = snapshot(cr.cell)
    troubled = False

    def near(got, want, kind, tol=2e-3, detail=""):
        ctx.check(tuple(got.shape) == tuple(want.shape), f"{kind}:shape", lambda: f"{tuple(got.shape)} instead of {tuple(want.shape)}")
        if not want.numel():
            return
        ctx.check(bool(torch.isfinite(got).all()), f"{kind}:not-finite")
        e = float((got.double() - want.double()).abs().max())
        m = float(want.double().abs().max())
        ctx.check(e <= tol * m + 1e-12, f"{kind}:value", lambda: f"off by {e:.4g} of {m:.4g} (space group {cr.d['sg']}, {len(beams(cr))} beams) {detail}")

    for op in plan["ops"]:
        a = op["op"]
        ctx.log(a, len(op["kv"]), op["depths"])
        if a == "sector":
            sector(ctx, cr, op["ghw2"])
            for d in op["groups"]:
                sector(ctx, Crystal(dict(d, atoms=d["atoms"][:1])), min(op["ghw2"], 4))
            continue
        if a == "restart":
            cr.cell = copy.deepcopy(cr.cell)
            ctx.fault("crash-restart")
            troubled = True
            continue
        if a == "tables":
            tables(ctx, cr, op, near)
            continue
        w = weights(op, len(op["kv"]))
        keep = w.clone()
        f = lambda: run(cr.cell, op, cr.dmin, ghw, w)  # noqa: E731
        if op["fault"] == "alloc":
            if alloc_fault_call(ctx, f, lambda: run(cr.cell, op, cr.dmin, ghw, w), op["frac"], "sim"):
                troubled = True
        elif op["fault"] == "line":
            dry = seams.LineFault()
            with dry:
                f()
            lf = seams.LineFault(at=dry.pick(op["frac"]))
            try:
                with lf:
                    f()
            except KeyboardInterrupt:
                ctx.fault("interrupt")
                ctx.log("interrupted", lf.fired)
                troubled = True
        ctx.check(torch.equal(w, keep), "weights-modified")
        unchanged(ctx, before, cr.cell, "failed")
        out = f()
        ctx.check(torch.equal(w, keep), "weights-modified")
        unchanged(ctx, before, cr.cell, "simulated")
        k, kij = grid(cr.cell, ghw)
        ref = reference(cr, op, k.double(), w)
        # the phase error of single precision excitation errors grows with the thickness
        more = 1 + op["depths"] * op["step"] / 200
        ctx.hold("sim", out, k, kij)
        near(out, ref, "sim", 2e-3 * more, detail=f"{op['kv']} kV step {op['step']}")
        ctx.steps += 1
        ctx.state("sim", cr.d["sg"], len(op["kv"]), op["depths"], op["sf"], op["absorb"])
        ctx.nontrivial = ctx.nontrivial or troubled
        if a == "chunk":
            near(run(cr.cell, op, cr.dmin, ghw, w, chunk=op["chunk2"]), out, "chunk", 1e-3 * more, f"{op['chunk']} and {op['chunk2']}")
            ctx.nontrivial = True
        elif a == "group":
            v = op["take"] % len(op["kv"])
            alone = run(cr.cell, op, cr.dmin, ghw, w[v : v + 1], kv=[op["kv"][v]], chunk=op["chunk2"])
            near(alone[0].double() * float(w[v].double().sum() / w.double().sum()), out[v], "group", 1e-3 * more)
            order = list(range(len(op["kv"])))[::-1]
            near(run(cr.cell, op, cr.dmin, ghw, w[order], kv=[op["kv"][i] for i in order])[order], out, "order", 1e-3 * more)
            ctx.nontrivial = True
        elif a == "step":
            if op["depths"] <= 45:
                fine = torch.zeros(len(w), 2 * w.shape[1])
                fine[:, 1::2] = w
                near(run(cr.cell, op, cr.dmin, ghw, fine, step=op["step"] / 2), out, "step", 2e-3 * more)
                ctx.nontrivial = True
        elif a == "p1" and (cr.d["sg"] < 143 or cr.d["sg"] > 194):
            other = cr.p1()
            if other is not None and len(beams(cr)) * len(R.centring(cr.d["sg"])) <= 130:
                full = run(other, op, cr.dmin, ghw, w, chunk=op["chunk2"])
                _, fij = grid(other, ghw)
                pos = {tuple(x): i for i, x in enumerate(fij.tolist())}
                idx = torch.tensor([pos[tuple(x)] for x in kij.tolist()])
                near(full.sum(1)[:, idx], out.sum(1), "p1", 2e-3 * more)
                ctx.nontrivial = True
                # directions that symmetry makes equivalent
                kk = torch.nn.functional.normalize(grid(other, ghw)[0].double(), dim=1)
                tot = full.sum(1).double()
                rot = torch.unique(R.group_t(cr.d["sg"], cr.d["setting"])[0].reshape(-1, 9), dim=0).reshape(-1, 3, 3)
                for m in rot:
                    # direct-space operation on directions
                    M = torch.linalg.inv(cr.lat.A) @ m.T @ cr.lat.A
                    d = torch.cdist(kk @ M, kk)
                    dist, j = d.min(1)
                    hit = dist < 1e-5
                    if bool(hit.any()):
                        near(tot[:, j[hit]], tot[:, hit], "equivalent-directions", 2e-3 * more)
    unchanged(ctx, before, cr.cell, "end")
    if plan["threads"]:
        o1, o2 = plan["threads"]
        ot = Crystal(plan["other"])
        if not 2 <= len(beams(ot)) <= 60:
            ot = cr
        jobs = [(cr, o1, weights(o1, len(o1["kv"]))), (ot, o2, weights(o2, len(o2["kv"])))]
        snaps = [snapshot(c.cell) for c, _, _ in jobs]
        keep = [w.clone() for _, _, w in jobs]
        sim = seams.ThreadSim([(lambda c=c, o=o, w=w: run(c.cell, o, c.dmin, 1, w)) for c, o, w in jobs], plan["switches"], ctx, sites=plan.get("sites", ()))
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            res, errs = sim.run()
        raise_thread_errors(errs)
        for (c, o, w), s, kw, out in zip(jobs, snaps, keep, res):
            ctx.check(torch.equal(w, kw), "threaded:weights-modified")
            unchanged(ctx, s, c.cell, "threaded")
            near(out, reference(c, o, grid(c.cell, 1)[0].double(), w), "threaded")
        if sim.n_switches:
            ctx.nontrivial = True
        # tables of both at once
        sim = seams.ThreadSim([(lambda c=c, o=o: tables_of(c, o)) for c, o, _ in jobs], plan["switches"], ctx, sites=plan.get("sites", ()))
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            res, errs = sim.run()
        raise_thread_errors(errs)
        for (c, o, w), s, t in zip(jobs, snaps, res):
            unchanged(ctx, s, c.cell, "threaded")
            judge_tables(ctx, c, o, t, near)


def tables_of(cr, op):
    """what the tables of a crystal are"""
    D = seams.repo("ebsdtorch.crystallography.diffraction")
    kv = torch.tensor(op["kv"])
    kw = dict(dmin=cr.dmin, voltages_kV=kv, include_core=op["core"], include_phonon=op["phonon"], absorption=op["absorb"], scatter_factor=op["sf"])
    a = D.calc_helper_bloch_formalism(cr.cell, **kw)
    b = D.calc_helper_scatter_matrix(cr.cell, **kw)
    S = D.calc_sgh(cr.cell, cr.dmin)
    lam = D.calc_lambda(kv)
    hkl = beams(cr)
    k = torch.nn.functional.normalize(torch.randn(3, 3, generator=gen(op["wseed"]), dtype=torch.float64), dim=1) / electron(kv)[0][0] @ torch.linalg.inv(cr.lat.B)
    k32 = k[:, None].float()
    sg = D.calc_sg(cr.cell, hkl[None], k32)
    return dict(bloch=a, matrix=b, sites=S, lam=lam, sg=sg, k=k, hkl=hkl, kv=kv, kept=torch.equal(kv, torch.tensor(op["kv"])) and torch.equal(k32, k[:, None].float()) and torch.equal(hkl, beams(cr)))


def electron(kv):
    v = kv.double() * 1e3
    e, m0, c, h = 1.602176634e-19, 9.1093837015e-31, 2.99792458e8, 6.62607015e-34
    rest = e * v / (m0 * c * c)
    return 1e9 * h / torch.sqrt(2 * m0 * e * v * (1 + rest / 2)), 1 + rest, v * (1 + rest / 2)


def tables(ctx, cr, op, near):
    with contextlib.redirect_stdout(io.StringIO()):
        if op["fault"]:
            alloc_fault_call(ctx, lambda: tables_of(cr, op), lambda: tables_of(cr, op), op["frac"], "tables")
        t = tables_of(cr, op)
    judge_tables(ctx, cr, op, t, near)


def judge_tables(ctx, cr, op, t, near):
    (hkl, ucg, up0, lam), (hkl2, qg, xgp0, lam2), S, kv = t["bloch"], t["matrix"], t["sites"], t["kv"]
    ctx.check(t["kept"], "tables:input-modified")
    ctx.hold("tables", hkl, ucg, up0, lam, hkl2, qg, xgp0, lam2, S, t["sg"], *t["lam"])
    ctx.check(torch.equal(hkl, hkl2) and hkl[0].abs().sum() == 0, "tables:beam-list")
    ctx.check({tuple(x) for x in hkl.tolist()} == {tuple(x) for x in beams(cr).tolist()} and len(hkl) == len(beams(cr)), "tables:beams")
    U, u0, la = potentials(cr, hkl, op)
    near(torch.view_as_real(ucg), torch.view_as_real(U), "tables:potential", 1e-3)
    near(up0, u0, "tables:absorption", 1e-3)
    near(lam, la, "tables:wavelength", 1e-5)
    near(lam2, la, "tables:wavelength", 1e-5)
    near(torch.view_as_real(S.to(torch.complex128)), torch.view_as_real(sgh(cr, hkl)), "tables:site-matrix", 1e-3)
    if op["absorb"]:
        q = U * la[:, None, None]
        # (vanishing potentials are kept at an extinction length of 1e8 nm)
        near(torch.view_as_real(qg.to(torch.complex128)), torch.view_as_real(q), "tables:scattering-matrix", 1e-3)
    # wavelength, and the distance of the reflections from the Ewald sphere
    got = t["lam"]
    ctx.check(len(got) == 3 and all(x.shape == kv.shape for x in got), "tables:electron-shape")
    for x, want in zip(got, electron(kv)):
        ctx.check(bool(((x.double() - want).abs() <= 2e-5 * want).all()), "tables:electron", lambda: f"{x.tolist()} instead of {want.tolist()}")
    k, sg, g = t["k"], t["sg"].double(), t["hkl"].double()
    kc, gc = cr.lat.cart(k, "r")[:, None], cr.lat.cart(g, "r")[None]
    want = -(gc * (2 * kc + gc)).sum(-1) * kc.norm(dim=-1) / (2 * ((kc + gc) * kc).sum(-1))
    ctx.check(sg.shape == want.shape and bool(((sg - want).abs() <= 1e-4 * (1 + want.abs())).all()), "tables:excitation-error", lambda: f"off by {float((sg - want).abs().max()):.3g}")
    ctx.state("tables", cr.d["sg"], op["sf"], op["absorb"], op["core"], op["phonon"])
    ctx.steps += 1


def sector(ctx, cr, n):
    """every grid direction of the sphere is equivalent to a listed one"""
    k, kij = grid(cr.cell, n)
    ctx.check(len(k) == len(kij) and len(torch.unique(kij, dim=0)) == len(kij), "sector:directions-listed-twice")
    ctx.check(bool(((k.double().norm(dim=1) - 1).abs() < 1e-5).all()), "sector:not-unit")
    sg = cr.d["sg"]
    i, j = torch.meshgrid(torch.arange(-n, n + 1), torch.arange(-n, n + 1), indexing="ij")
    ij = torch.stack([i, j], -1).reshape(-1, 2)
    hexa = 143 <= sg <= 194
    if hexa:
        ij = ij[(ij[:, 0] - ij[:, 1]).abs() <= n]
    ref = lambert(ij.double() / n, hexa)
    look = {tuple(x): p for x, p in zip(ij.tolist(), ref)}
    want = torch.stack([look[(x[0], x[1])] * torch.tensor([1.0, 1.0, float(x[2])]) for x in kij.tolist()]) if len(kij) else k.double()
    ctx.check(bool(((k.double() - want).abs() < 1e-5).all()), "sector:direction-of-index")
    rot = torch.unique(R.group_t(sg, cr.d["setting"])[0].reshape(-1, 9), dim=0).reshape(-1, 3, 3)
    M = torch.linalg.inv(cr.lat.A) @ rot.transpose(1, 2) @ cr.lat.A
    allk = (k.double()[None] @ M).reshape(-1, 3)
    full = torch.cat([ref, ref * torch.tensor([1.0, 1.0, -1.0], dtype=torch.float64)])
    gap = torch.cdist(full, allk).amin(1)
    ctx.check(bool((gap < 1e-4).all()), "sector:direction-without-equivalent", lambda: f"space group {sg}: {int((gap >= 1e-4).sum())} of {len(full)} grid directions (half width {n})")
    ctx.state("sector", sg, n)
    ctx.steps += 1


def lambert(p, hexa):
    """equal-area map of the square or hexagon to the hemisphere, double precision"""
    out = torch.zeros(len(p), 3, dtype=torch.float64)
    for q, (i, j) in enumerate(p.tolist()):
        if i == 0 and j == 0:
            out[q, 2] = 1
            continue
        if not hexa:
            # ring and angle on the square: area inside the ring is kept, angle is linear along a side
            rho2 = max(abs(i), abs(j)) ** 2  # 1 - z
            th = math.pi / 4 * (j / abs(i)) if abs(i) >= abs(j) else math.pi / 4 * (2 - i / abs(j))
            if abs(i) >= abs(j):
                th = th if i > 0 else math.pi - th
            else:
                th = th if j > 0 else -th
        else:
            x, y = i - 0.5 * j, j * math.sqrt(3) / 2
            t = math.atan2(y, x) % (2 * math.pi)
            s = int(t / (math.pi / 3)) % 6
            c = math.pi / 3 * s + math.pi / 6  # middle of the side
            r = math.hypot(x, y)
            h, l = r * math.cos(t - c), r * math.sin(t - c)
            rho2 = (h / (math.sqrt(3) / 2)) ** 2
            th = c + (l / h) * math.sqrt(3) * math.pi / 6
        rho = math.sqrt(rho2 * (2 - rho2))
        out[q] = torch.tensor([rho * math.cos(th), rho * math.sin(th), 1 - rho2], dtype=torch.float64)
    return out
