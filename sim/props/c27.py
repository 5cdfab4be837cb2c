"""C27 unit cells: one crystal through descriptions, precisions, failures and threads."""
import contextlib
import copy
import io
import math
import pickle

import torch

from .. import seams
from ..common import alloc_fault_call, data, make_sites, make_switches, must_reject, raise_thread_errors, same_bits
from . import _cell as R

RULE = (
    "one run = a random crystal (any of the 230 space groups, lattice, one to three sites on general or special positions) and a seeded history of precision changes, copies, restores, other descriptions (atoms one by one, "
    "other origin, other units), rejected calls and failing allocations, with queries (frame changes, products, orbits, composition, reflections) in between and from two to three threads; every answer is compared with exact "
    "space-group arithmetic and a float64 lattice; non-trivial = a query after a conversion, failure or preemption"
)
COMPONENTS = {
    "real": ["ebsdtorch.crystallography.unit_cell", "ebsdtorch.crystallography.groups", "torch CPU kernels", "real Python threads, one released at a time"],
    "stub": ["allocator", "thread scheduler", "durable storage (in-memory bytes)"],
}
CFG_MIN = {"sg": 1}
DEEP_SHRINK = True
MODULES = ["ebsdtorch.crystallography.unit_cell", "ebsdtorch.crystallography.groups"]
PG_LAST = [1, 2, 5, 9, 15, 24, 46, 74, 80, 82, 88, 98, 110, 122, 142, 146, 148, 155, 161, 167, 173, 174, 176, 182, 186, 190, 194, 199, 206, 214, 220, 230]
RHOMB = [146, 148, 155, 160, 161, 166, 167]
SPECIAL = [0.0, 0.5, 0.25, 0.75, 1 / 3, 2 / 3, 0.125, 0.375]
Q = ["move", "move", "trip", "dot", "length", "angle", "cross", "norm", "coords", "refl", "refl", "diff", "comp", "orbits", "print", "sym"]


def gen_query(r):
    q = r.choice(Q)
    o = dict(op="q", q=q, seed=r.randrange(2**31), n=r.choice([0, 1, 2, 5]), s=r.choice("drc"), t=r.choice("drc"), chain=[r.choice("drc") for _ in range(r.randint(1, 5))], shape=r.choice(["one", "n", "n", "nm"]), fault=round(r.random(), 3) if r.random() < 0.25 else None)
    if q in ("refl", "diff"):
        o["d"] = round(r.uniform(0.35, 1.3), 3)  # of the shortest axis
        o["centring"] = r.random() < 0.8
    if q == "cross":
        o["io"] = r.choice([("d", "d"), ("d", "c"), ("r", "r"), ("r", "c"), ("c", "c")])
    return o


def generate(r, tier):
    sg = r.choice([r.randint(1, 230), r.choice(R.TWO), r.randint(1, 74), r.randint(195, 230), r.randint(143, 194), r.choice(RHOMB)])
    abc, ang = R.lattice_for(r, sg)
    atoms = []
    for _ in range(r.choice([1, 1, 2, 3])):
        xyz = [r.choice(SPECIAL) for _ in range(3)] if r.random() < 0.5 else [round(r.uniform(0, 1), 3) for _ in range(3)]
        if r.random() < 0.2:
            xyz = [x - 1 for x in xyz]
        if r.random() < 0.1:
            xyz = [round(x, 5) for x in xyz]
        atoms.append([r.choice(list(R.WEIGHT)), *xyz, r.choice([1.0, 1.0, 0.5, 0.25]), r.choice([0.005, 0.002, 0.01])])
    ops = []
    for _ in range(r.randint(2, 9)):
        op = r.choice(["q", "q", "q", "q", "dtype", "dtype", "describe", "copy", "bad", "to"])
        if op == "q":
            ops.append(gen_query(r))
        else:
            ops.append(dict(op=op, dtype=r.choice(["f32", "f64"]), how=r.choice(["hexagonal", "hexagonal", "p1", "origin"] if sg in RHOMB else ["p1", "origin", "units", "same"]), units=r.choice(["nm", "angstrom", "pm"]), aunits=r.choice(["deg", "rad"]), cp=r.choice(["deep", "pickle", "save"]), what=r.choice(["last", "space", "zero", "sg", "setting", "units", "volume"]), fault=round(r.random(), 3) if r.random() < 0.35 else None))
    threads = []
    if r.random() < 0.4:
        threads = [[gen_query(r) for _ in range(r.randint(1, 3))] for _ in range(r.choice([2, 2, 3]))]
    return dict(cfg=dict(sg=sg), abc=abc, ang=ang, atoms=atoms, setting=2 if sg in R.TWO and r.random() < 0.4 else 1, units=r.choice(["nm", "angstrom", "pm"]), aunits=r.choice(["deg", "rad"]), ops=ops, threads=threads,
                switches=make_switches(r, max(2, len(threads)), 40 * sum(len(t) for t in threads), r.choice([0, 1, 2, 4, 8])), sites=make_sites(r, max(2, len(threads))))


def simplify(plan):
    if len(plan["atoms"]) > 1:
        for i in range(len(plan["atoms"])):
            p = copy.deepcopy(plan)
            del p["atoms"][i]
            yield p


def build(d):
    U = seams.repo("ebsdtorch.crystallography.unit_cell")
    f = {"nm": 1.0, "angstrom": 10.0, "pm": 1000.0}[d["units"]]
    ang = d["ang"] if d["aunits"] == "deg" else [math.radians(x) for x in d["ang"]]
    with contextlib.redirect_stdout(io.StringIO()):
        return U.Cell(sg_num=d["sg"], sg_setting=d["setting"], atom_data=[tuple(a) for a in d["atoms"]], abc=tuple(x * f for x in d["abc"]), abc_units=d["units"], angles=tuple(ang), angles_units=d["aunits"], xtalname="x")


def snapshot(c):
    out = {}
    for k, v in sorted(vars(c).items()):
        vs = v if isinstance(v, (list, tuple)) else [v]
        for i, x in enumerate(vs):
            if isinstance(x, torch.Tensor):
                out[f"{k}.{i}"] = x.clone()
    return out


def unchanged(ctx, a, c, what):
    b = snapshot(c)
    for k, v in a.items():
        ctx.check(k in b and b[k].dtype == v.dtype and same_bits(b[k], v), f"{what}:cell-changed", lambda: k)


class Sim:
    def __init__(self, plan, ctx):
        self.ctx = ctx
        self.d = dict(sg=plan["cfg"]["sg"], setting=plan["setting"], atoms=plan["atoms"], abc=plan["abc"], ang=plan["ang"], units=plan["units"], aunits=plan["aunits"])
        self.lat = R.Lattice(plan["abc"], plan["ang"])
        self.cell = build(self.d)
        self.low = False  # went through single precision
        self.now = torch.float64
        self.orb = [R.orbit(self.d["sg"], self.d["setting"], a[1:4]) for a in self.d["atoms"]]
        # composition does not depend on the description
        self.content = sorted((a[0], a[4], len(o)) for a, o in zip(self.d["atoms"], self.orb))
        self.total = sum(n for _, _, n in self.content)
        self.density0 = [(a[0] * a[4], o) for a, o in zip(self.d["atoms"], self.orb)]

    def rel(self):
        return 2e-5 if self.low else 1e-9

    def vectors(self, o, k=0, cell_dtype=True):
        shape = {"one": (3,), "n": (o["n"], 3), "nm": (2, o["n"], 3)}[o["shape"]]
        v = data(o["seed"] + k, shape, "normal")
        if o["seed"] % 4 == 0:
            v = v.round()
        return v.to(self.now)

    def query(self, o, cell=None, what="query"):
        """returns (function of the cell, check of its result)"""
        ctx, lat, q = self.ctx, self.lat, o["q"]
        tol = self.rel()
        label = q
        if q in ("move", "trip", "dot", "length", "angle", "cross", "norm", "coords"):
            v, w = self.vectors(o), self.vectors(o, 1)
            v64, w64 = v.double(), w.double()
            keep = (v.clone(), w.clone())

            def same_inputs():
                ctx.check(torch.equal(v, keep[0]) and torch.equal(w, keep[1]), f"{label}:input-modified")

        cond = 40.0

        def near(got, want, scale, kind):
            same_inputs()
            ctx.check(tuple(got.shape) == tuple(want.shape), f"{label}:shape", lambda: f"{tuple(got.shape)} instead of {tuple(want.shape)}")
            if want.numel():
                e = float((got.double() - want).abs().max())
                ctx.check(e <= tol * cond * (float(scale) + 1e-12), f"{label}:{kind}", lambda: f"off by {e:.3e} (scale {float(scale):.3g})")

        def mx(t):
            return float(t.abs().max()) if t.numel() else 0.0

        if q == "move":
            s, t = o["s"], o["t"]
            want = lat.to(v64, s, t)
            return (lambda c: c.transform_space(v, s, t)), lambda g: near(g, want, max(mx(want), mx(v64), mx(lat.cart(v64, s))), f"{s}{t}")
        if q == "trip":
            path = [o["s"], *o["chain"], o["s"]]

            def go(c):
                x = v
                for a, b in zip(path, path[1:]):
                    x = c.transform_space(x, a, b)
                return x

            sc = max([mx(lat.to(v64, o["s"], p)) for p in path] + [0.0])
            return go, lambda g: near(g, v64, sc * len(path), "round-trip")
        if q == "dot":
            s = o["s"]
            if o["seed"] % 3 == 0:
                own = (lat.cart(v64, s) ** 2).sum(-1)
                return (lambda c: c.calc_auto_dot(v, s)), lambda g: near(g, own, mx(lat.cart(v64, s)) ** 2 * 3, s)
            want = (lat.cart(v64, s) * lat.cart(w64, s)).sum(-1)
            return (lambda c: c.calc_dot(v, w, s)), lambda g: near(g, want, max(mx(lat.cart(v64, s)) * mx(lat.cart(w64, s)) * 3, 0), s)
        if q == "length":
            s = o["s"]
            want = lat.cart(v64, s).norm(dim=-1)
            if o["seed"] % 3 == 0:
                vi = v.round().to(torch.int64)
                v64i = vi.double()
                want = lat.cart(v64i, s).norm(dim=-1)
                if s == "c":
                    return (lambda c: c.calc_length(vi, s)), lambda g: near(g, want, mx(want), s)
                return (lambda c: c.calc_length(vi, s)), lambda g: near(g, want, mx(want), s)
            return (lambda c: c.calc_length(v, s)), lambda g: near(g, want, mx(want), s)
        if q == "norm":
            s = o["s"]
            ln = lat.cart(v64, s).norm(dim=-1, keepdim=True)
            want = torch.where(ln > 0, v64 / ln.clamp(min=1e-300), torch.zeros_like(v64))
            return (lambda c: c.norm_vec(v, s)), lambda g: near(g, want, max(mx(want), 1e-9), s)
        if q == "angle":
            s = o["s"]
            a, b = lat.cart(v64, s), lat.cart(w64, s)
            la, lb = a.norm(dim=-1), b.norm(dim=-1)
            if bool((la == 0).any() or (lb == 0).any()):
                return (lambda c: must_reject(ctx, lambda: c.calc_angle(v, w, s), "angle:accepted-zero-vector")), lambda g: None
            want = torch.atan2(torch.linalg.cross(a, b).norm(dim=-1), (a * b).sum(-1))

            def chk(g):
                same_inputs()
                ctx.check(tuple(g.shape) == tuple(want.shape), "angle:shape")
                if want.numel():
                    # the cosine is what is known to within rounding
                    e = float((torch.cos(g.double()) - torch.cos(want)).abs().max())
                    ctx.check(e <= tol * cond, f"angle:{s}", lambda: f"cosine off by {e:.3e}")
                    ctx.check(bool((g >= 0).all() and (g <= math.pi + 1e-6).all()), "angle:range")

            return (lambda c: c.calc_angle(v, w, s)), chk
        if q == "cross":
            s, t = o["io"]
            x = torch.linalg.cross(lat.cart(v64, s), lat.cart(w64, s))
            want = x if t == "c" else lat.to(x, "c", t)
            sc = mx(lat.cart(v64, s)) * mx(lat.cart(w64, s)) * (1 if t == "c" else max(mx(lat.to(torch.eye(3, dtype=torch.float64), "c", t)), 1))
            return (lambda c: c.calc_cross(v, w, s, t, True)), lambda g: near(g, want, sc, f"{s}{t}")
        if q == "coords":
            m = torch.linalg.qr(data(o["seed"] + 2, (3, 3)))[0].to(self.now)

            def go(c):
                y = c.transform_coordinates(v, m, o["s"], "on")
                return c.transform_coordinates(y, m, o["s"], "no")

            return go, lambda g: near(g, v64, mx(v64), "round-trip")
        if q in ("refl", "diff"):
            return self.reflections(o, cell or self.cell)
        if q == "comp":
            def chk(g):
                dens, z, w, vol = (float(x) for x in g[:4])
                # per element, whatever the sites (a description may split them)
                share, z2 = {}, {}
                for t, x in zip(g[5].tolist(), g[4].tolist()):
                    share[t] = share.get(t, 0) + x
                for t, occ, n in self.content:
                    z2[t] = z2.get(t, 0) + t * t * occ * n
                k = 100 / sum(z2.values())
                z2 = {t: x * k for t, x in z2.items()}
                ctx.check(share.keys() == z2.keys() and all(abs(share[t] - z2[t]) <= 1e-3 for t in z2), "composition:squared-numbers", lambda: f"{share} instead of {z2}")
                mass = sum(R.WEIGHT[a] * occ * n for a, occ, n in self.content)
                for name, got, want in (
                    ("density", dens, mass / (lat.vol * 602.214076)),
                    ("average-number", z, sum(a * occ * n for a, occ, n in self.content) / self.total),
                    ("average-weight", w, mass / self.total),
                    ("volume", vol, lat.vol),
                ):
                    ctx.check(abs(got - want) <= 2e-3 * abs(want), f"composition:{name}", lambda: f"{got} instead of {want}")
                ctx.check(abs(vol - lat.vol) <= tol * cond * lat.vol, "composition:volume")

            return (lambda c: (c.get_density, c.get_average_atomic_number, c.get_average_atomic_weight, c.get_volume, c.z2_percent(c.atom_types, c.mults, c.atom_data), c.atom_types)), chk
        if q == "orbits":
            def chk(g):
                apos, mults = g
                ctx.check(len(apos) == len(self.orb) and len(mults) == len(self.orb), "orbits:number-of-sites")
                for p, n, ref in zip(apos, mults, self.orb):
                    ctx.check(int(n) == len(p), "orbits:multiplicity-differs-from-list")
                    ctx.check(len(p) == len(ref), "orbits:multiplicity", lambda: f"{len(p)} instead of {len(ref)} (space group {self.d['sg']}, setting {self.d['setting']})")
                    ctx.check(R.same_positions(p.double(), ref), "orbits:positions")
                    ctx.check(bool((p > -1e-6).all() and (p < 1 + 1e-6).all()), "orbits:outside-cell")

            return (lambda c: ([p.clone() for p in c.apos], c.mults.clone())), chk
        if q == "sym":
            sg = self.d["sg"]
            pg = 1 + next(i for i, last in enumerate(PG_LAST) if sg <= last)
            laue = 1 + next(i for i, last in enumerate((2, 15, 74, 88, 142, 148, 167, 176, 194, 206, 230)) if sg <= last)
            ops = set(R.group(sg, self.d["setting"]))

            def chk(g):
                ctx.check(int(g[0]) == pg, "symmetry:point-group", lambda: f"{g[0]} instead of {pg} (space group {sg})")
                ctx.check(int(g[1]) == laue, "symmetry:laue-group", lambda: f"{g[1]} instead of {laue} (space group {sg})")
                m = g[2].double()
                ctx.check(m.dim() == 3 and tuple(m.shape[1:]) == (4, 4), "symmetry:operator-shape")
                ctx.check(bool((m[:, 3] == torch.tensor([0.0, 0.0, 0.0, 1.0])).all()), "symmetry:homogeneous")
                got = [(tuple(x[:3, :3].round().int().flatten().tolist()), tuple((x[:3, 3] * 24).round().int().remainder(24).tolist())) for x in m]
                ctx.check(len(set(got)) == len(got), "symmetry:operator-twice")
                ctx.check(set(got) == ops, "symmetry:operators", lambda: f"{len(got)} operators, {len(ops)} expected, {len(ops & set(got))} in common (space group {sg})")

            return (lambda c: (c.pg_num, c.laue_group, c.sg_ops.clone())), chk
        if q == "print":
            return (lambda c: str(c)), lambda g: ctx.check(isinstance(g, str) and f"{self.d['sg']}" in g, "print:text")
        raise AssertionError(q)

    def reflections(self, o, cell):
        ctx, lat = self.ctx, self.lat
        diff = o["q"] == "diff"
        abc = self.d["abc"]
        dmin = o["d"] * min(abc)
        # keep the lists small enough to check
        vol = lat.vol
        while 4.2 * vol / dmin**3 * (8 if diff else 1) > 6000:
            dmin *= 1.2
        n = [int(x / dmin) + 2 for x in abc]
        g = torch.cartesian_prod(*[torch.arange(-k, k + 1) for k in n])
        ln = lat.cart(g.double(), "r").norm(dim=-1)
        nz = ln > 0
        ok = R.allowed(self.d["sg"], g) if o["centring"] else torch.ones(len(g), dtype=torch.bool)
        # a reflection at the limit may go either way
        edge = (ln * dmin - 1).abs() < 1e-4
        inside = nz & ok & (ln * dmin < 1)
        sure = {tuple(x) for x in g[inside & ~edge].tolist()}
        maybe = {tuple(x) for x in g[nz & ok & edge].tolist()}
        self.ctx.state("refl", self.d["sg"] if not diff else 0, diff, o["centring"], min(len(sure), 40))

        def go(c):
            with contextlib.redirect_stdout(io.StringIO()):
                lims = c.get_hkl_limits(dmin)
                return c.get_reflections(dmin, diff, o["centring"]), lims

        def chk(res):
            h, lims = res
            k = "differences" if diff else "reflections"
            ctx.check(h.dim() == 2 and h.shape[1] == 3 and not h.is_floating_point(), f"{k}:shape")
            rows = [tuple(x) for x in h.tolist()]
            got = set(rows)
            ctx.check(len(got) == len(rows), f"{k}:duplicates")
            ctx.check((0, 0, 0) not in got, f"{k}:direct-beam-listed")
            if not diff:
                ctx.check(sure <= got, f"{k}:missing", lambda: f"{sorted(sure - got)[:3]} of {len(sure)} (space group {self.d['sg']}, dmin {dmin:.4f}, {abc})")
                ctx.check(got <= sure | maybe, f"{k}:not-allowed-or-too-fine", lambda: f"{sorted(got - sure - maybe)[:3]}")
                ctx.check(all(abs(x) <= m for row in rows for x, m in zip(row, lims)), f"{k}:beyond-limits")
            else:
                base = torch.tensor([[0, 0, 0]] + sorted(sure), dtype=torch.int64)
                d = (base[:, None] - base[None]).reshape(-1, 3)
                need = {tuple(x) for x in d.tolist()} - {(0, 0, 0)}
                ctx.check(need <= got, f"{k}:missing", lambda: f"{sorted(need - got)[:3]}")
                ctx.check(all(abs(x) <= 2 * m for row in rows for x, m in zip(row, lims)), f"{k}:beyond-limits")
                if o["centring"] and rows:
                    ctx.check(bool(R.allowed(self.d["sg"], h).all()), f"{k}:not-allowed")

        return go, chk

    def describe(self, o):
        d = dict(self.d, units=o["units"], aunits=o["aunits"])
        how = o["how"]
        if how == "p1":
            if self.total > 60:
                return
            d["atoms"] = [[a[0], *p.tolist(), a[4], a[5]] for a, orb in zip(self.d["atoms"], self.orb) for p in orb]
            d["sg"], d["setting"] = 1, 1
        elif how == "origin":
            if self.d["sg"] not in R.TWO:
                return
            s = R.origin_shift(self.d["sg"])
            sgn = 1 if self.d["setting"] == 1 else -1
            d["atoms"] = [[a[0], *[x + sgn * y for x, y in zip(a[1:4], s)], a[4], a[5]] for a in self.d["atoms"]]
            d["setting"] = 3 - self.d["setting"]
        elif how == "hexagonal":
            if self.d["sg"] not in RHOMB:
                return
            return self.hexagonal(o)
        if o["fault"] is not None:
            alloc_fault_call(self.ctx, lambda: build(d), lambda: build(d), o["fault"], "build")
        self.adopt(build(d), d, how)

    def adopt(self, c, d, how, tol=1.0):
        # the same crystal: modulus of the structure factors
        g = data(7, (6, 3), "normal").mul(3).round()

        def modulus(cell):
            F = 0
            for z, x, occ in zip(cell.atom_types.double(), cell.apos, cell.atom_data[:, 3].double()):
                F = F + z * occ * torch.exp(2j * math.pi * (g @ x.double().T)).sum(1)
            return F.abs()

        a, b = modulus(self.cell), modulus(c)
        self.ctx.check(bool(((a - b).abs() <= 2e-3 * (1 + self.total * 30)).all()), f"describe:{how}:other-crystal", lambda: f"structure factors {a.tolist()} became {b.tolist()}")
        for k in ("density", "average_atomic_number", "average_atomic_weight"):
            x, y = float(getattr(self.cell, k)), float(getattr(c, k))
            self.ctx.check(abs(x - y) <= 1e-4 * abs(x), f"describe:{how}:{k}", lambda: f"{x} became {y}")
        self.d, self.cell, self.now, self.low = d, c, c.a.dtype, c.a.dtype == torch.float32
        self.orb = [R.orbit(d["sg"], d["setting"], a[1:4]) for a in d["atoms"]]

    def hexagonal(self, o):
        """the rhombohedral description of the crystal, converted to the hexagonal one"""
        ctx = self.ctx
        a, _, c = self.d["abc"]
        al = math.acos((2 * c * c - 3 * a * a) / (2 * (c * c + 3 * a * a)))
        ar = math.sqrt(a * a / 3 + c * c / 9)
        atoms = [[z, x + w, -x + y + w, -y + w, *rest] for z, x, y, w, *rest in self.d["atoms"]]
        d = dict(self.d, abc=[ar] * 3, ang=[math.degrees(al)] * 3, atoms=atoms, units=o["units"], aunits=o["aunits"])
        cell = build(d)
        dt = torch.float32 if o["dtype"] == "f32" else torch.float64
        cell.set_fp_dtype(dt)
        tol = 3e-4 if dt == torch.float32 else 1e-7
        # the second structure matrix stands the three-fold axis upright
        m = cell.dsm2.double()
        ctx.check(bool((m.T @ m - cell.dmt.double()).abs().max() <= tol), "hexagonal:second-matrix-other-lattice")
        up = m.sum(1) * math.copysign(1, float(m.sum(1)[2]))
        ctx.check(bool((up - torch.tensor([0, 0, c], dtype=torch.float64)).abs().max() <= tol), "hexagonal:three-fold-axis-not-upright", lambda: f"{up.tolist()}")
        done = False
        if o["fault"] is not None:
            before = snapshot(cell)
            done = not alloc_fault_call(ctx, cell.convert_from_R_to_H, copy.deepcopy(cell).convert_from_R_to_H, o["fault"], "hexagonal")
            if not done:
                unchanged(ctx, before, cell, "failed-conversion")
        if not done:
            cell.convert_from_R_to_H()
        for k, want in zip(("a", "b", "c", "alpha", "beta", "gamma"), (a, a, c, math.pi / 2, math.pi / 2, 2 * math.pi / 3)):
            ctx.check(abs(float(getattr(cell, k)) - want) <= tol * 10, f"hexagonal:{k}", lambda: f"{float(getattr(cell, k))} instead of {want}")
        if dt == torch.float32:
            # positions that lie on a symmetry element only up to single precision are not judged
            self.ctx.check(cell.atom_data.dtype == dt and cell.dmt.dtype == dt, "hexagonal:precision")
            if [len(p) for p in cell.apos] != [len(p) for p in self.orb]:
                return
        self.adopt(cell, dict(self.d, units="nm", aunits="deg"), "hexagonal")

    def check_dtype(self, what):
        for k in ("a", "alpha", "dmt", "rmt", "dsm", "rsm", "atom_data", "density", "vol"):
            v = getattr(self.cell, k)
            self.ctx.check(v.dtype == self.now, f"{what}:{k}-precision", lambda: str(v.dtype))
        self.ctx.check(all(p.dtype == self.now for p in self.cell.apos), f"{what}:apos-precision")


def execute(plan, ctx):
    if not plan["atoms"]:
        return
    s = Sim(plan, ctx)
    events = 0
    for op in plan["ops"]:
        a = op["op"]
        if a == "q":
            fn, chk = s.query(op)
            before = snapshot(s.cell)
            if op["fault"] is not None:
                if alloc_fault_call(ctx, lambda: fn(s.cell), lambda: fn(s.cell), op["fault"], op["q"]):
                    events += 1
                unchanged(ctx, before, s.cell, "failed")
            chk(fn(s.cell))
            unchanged(ctx, before, s.cell, op["q"])
            ctx.nontrivial = ctx.nontrivial or events > 0
            ctx.steps += 1
            ctx.state(op["q"], s.d["sg"], s.d["setting"], str(s.now), min(events, 3))
        elif a == "dtype":
            dt = torch.float32 if op["dtype"] == "f32" else torch.float64
            if op["fault"] is not None:
                alloc_fault_call(ctx, lambda: s.cell.set_fp_dtype(dt), lambda: copy.deepcopy(s.cell).set_fp_dtype(dt), op["fault"], "dtype")
            ret = s.cell.set_fp_dtype(dt)
            ctx.check(ret is s.cell, "dtype:other-object")
            s.now = dt
            s.low = s.low or dt == torch.float32
            s.check_dtype("dtype")
            events += 1
        elif a == "to":
            ctx.check(s.cell.to(torch.device("cpu")) is s.cell, "to:other-object")
            s.check_dtype("to")
        elif a == "describe":
            s.describe(op)
            events += 1
        elif a == "copy":
            old = s.cell
            if op["cp"] == "deep":
                s.cell = copy.deepcopy(old)
            elif op["cp"] == "pickle":
                s.cell = pickle.loads(pickle.dumps(old))
            else:
                b = io.BytesIO()
                torch.save(old, b)
                b.seek(0)
                s.cell = torch.load(b, weights_only=False)
            unchanged(ctx, snapshot(old), s.cell, "copy")
            ctx.fault("crash-restart")
            events += 1
        elif a == "bad":
            before = snapshot(s.cell)
            w = op["what"]
            c = s.cell
            v = torch.ones(2, 3, dtype=s.now)
            if w == "last":
                must_reject(ctx, lambda: c.transform_space(torch.ones(3, 2, dtype=s.now), "d", "c"), "accepted-vectors-of-two")
            elif w == "space":
                must_reject(ctx, lambda: c.calc_dot(v, v, "x"), "accepted-unknown-space")
            elif w == "zero":
                must_reject(ctx, lambda: c.calc_angle(v, torch.zeros_like(v), "d"), "accepted-zero-vector")
            elif w == "sg":
                must_reject(ctx, lambda: build(dict(s.d, sg=231)), "accepted-space-group-231")
            elif w == "setting":
                must_reject(ctx, lambda: build(dict(s.d, sg=225, setting=2)), "accepted-missing-setting")
            elif w == "units":
                must_reject(ctx, lambda: build_units(s.d), "accepted-unknown-units")
            else:
                must_reject(ctx, lambda: build(dict(s.d, abc=[1e-6, 1e-6, 1e-6])), "accepted-vanishing-cell")
            unchanged(ctx, before, s.cell, "rejected")
            events += 1
        ctx.log(a, op.get("q"), op.get("how"))
    if plan["threads"]:
        before = snapshot(s.cell)
        jobs = [[s.query(q) for q in t] for t in plan["threads"]]
        # printing goes through one process-wide stream: not in the concurrent phase
        sim = seams.ThreadSim([(lambda t=t: [fn(s.cell) for fn, _ in t]) for t in jobs], plan["switches"], ctx, sites=plan.get("sites", ()))
        with contextlib.redirect_stdout(io.StringIO()):
            res, errs = sim.run()
        raise_thread_errors(errs)
        for t, outs in zip(jobs, res):
            for (_, chk), out in zip(t, outs):
                chk(out)
        unchanged(ctx, before, s.cell, "threaded")
        if sim.n_switches:
            ctx.nontrivial = True


def build_units(d):
    U = seams.repo("ebsdtorch.crystallography.unit_cell")
    return U.Cell(sg_num=1, atom_data=[(6, 0.0, 0.0, 0.0, 1.0, 0.005)], abc=(0.5, 0.5, 0.5), abc_units="inch", angles=(90.0, 90.0, 90.0), angles_units="deg")
