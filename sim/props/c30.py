"""C30 fundamental zones: one representative per symmetry class, in every batch, layout, history, failure and thread."""
import math

import torch

from .. import seams
from . import _kern, _rot
from ._ref import qmul
from .c25 import group

RULE = (
    "one run = a seeded history of 3-12 reductions to fundamental zones, memberships, equivalents, disorientations and Rodrigues-zone maps of ordinary and border rotations and directions in all Laue groups, with batch shapes, precisions "
    "and memory layouts changing between calls, failing allocations, and two to three threads reducing the same arrays; every result is compared with float64 symmetry operations; non-trivial = a call after another call, failure or preemption"
)
COMPONENTS = {"real": ["ebsdtorch.s2_and_so3.laue_fz_ori, laue_fz_misori, laue_fz_s2, laue_generators, quaternions", "ebsdtorch.utils.symmetry_classes", "ebsdtorch.ebsd.master_pattern (construction)", "TorchScript interpreter", "torch CPU kernels", "real Python threads, one released at a time"], "stub": _kern.STUB}
MODULES = ["ebsdtorch.s2_and_so3.laue_fz_ori", "ebsdtorch.s2_and_so3.laue_fz_misori", "ebsdtorch.s2_and_so3.laue_fz_s2"]
DEEP_SHRINK = True
SHAPES = [s for s in _kern.SHAPES if s != [0]]
A = math.sqrt(2) - 1
# azimuths between which the zone of directions lies; the cubic zones end at the planes x = z and y = z
ETA = {1: None, 2: (0, 180), 3: (0, 90), 4: (0, 90), 5: (0, 45), 6: (-120, 0), 7: (-90, -30), 8: (0, 60), 9: (0, 30), 10: (0, 90), 11: (0, 45)}


def om(m):
    return seams.repo("ebsdtorch.s2_and_so3.laue_fz_" + m)


def rng(op, k=0):
    return torch.Generator().manual_seed((op["seed"] * 7 + k) & 0x7FFFFFFF)


def pick(op, k, g, n):
    return g[torch.randint(0, len(g), (n,), generator=rng(op, k))]


def rotations(op, k=0):
    """rotations, half of them moved by a symmetry operator, with positive real part"""
    q = _rot.rotations(op["seed"] + k, op["shape"])
    if op["seed"] % 3:
        q = qmul(pick(op, 11 + k, group(op["laue"]), q.shape[:-1].numel()).reshape(q.shape), q)
    if op["seed"] % 2:
        near = torch.rand(q.shape[:-1], generator=rng(op, 40 + k)) < 0.7
        q = torch.where(near[..., None], surface(op, k, q.shape), q)
    return torch.where(q[..., :1] < 0, -q, q)


def surface(op, k, shape):
    """rotations just inside and outside the zone's surface"""
    g = rng(op, 50 + k)
    n = torch.randn(shape[:-1] + (3,), generator=g, dtype=torch.float64)
    n = n / n.norm(dim=-1, keepdim=True)
    w = group(op["laue"])
    w = w[w[:, 0].abs() < 1 - 1e-6]
    if not len(w):
        t = torch.ones_like(n[..., 0])
    else:  # each operator bounds the zone by two planes
        t = ((1 - w[:, 0].abs()) / (n @ w[:, 1:].T).abs().clamp(min=1e-9)).amin(-1).clamp(max=5)
    width = torch.tensor([0.3, 0.05, 1e-3])[torch.randint(0, 3, t.shape, generator=g)].double()
    r = n * (t * (1 + width * (2 * torch.rand(t.shape, generator=g, dtype=torch.float64) - 1)))[..., None]
    q = torch.cat([torch.ones_like(r[..., :1]), r], -1)
    return q / q.norm(dim=-1, keepdim=True)


def directions(op):
    n = math.prod(op["shape"])
    g = rng(op)
    p = torch.randn(n, 3, generator=g, dtype=torch.float64)
    for i in range(n):
        k = int(torch.randint(0, 8, (1,), generator=g))
        if k == 0:  # borders and poles of the zones
            while True:
                v = torch.randint(-1, 2, (3,), generator=g).double()
                if v.norm() > 0:
                    break
            p[i] = v
        elif k == 1:
            e = math.radians(15.0 * int(torch.randint(0, 24, (1,), generator=g)))
            c = math.pi * float(torch.rand(1, generator=g))
            p[i] = torch.tensor([math.cos(e) * math.sin(c), math.sin(e) * math.sin(c), math.cos(c)])
        elif k == 2:
            p[i, int(torch.randint(0, 3, (1,), generator=g))] *= 1e-5
        elif k in (6, 7):  # near a border, on either side
            e = math.radians(15.0 * int(torch.randint(0, 24, (1,), generator=g)) + 2 * float(torch.randn(1, generator=g)))
            c = math.pi * float(torch.rand(1, generator=g))
            p[i] = torch.tensor([math.cos(e) * math.sin(c), math.sin(e) * math.sin(c), math.cos(c)])
    p = p / p.norm(dim=-1, keepdim=True)
    return p.reshape(tuple(op["shape"]) + (3,))


def act(q, v):
    return (_rot.to_matrix(q) @ v[..., None])[..., 0]


def inside(p, laue):
    """distance of directions to the border of the zone"""
    sides = [p[..., 2]]
    if ETA[laue]:
        lo, hi = (math.radians(a) for a in ETA[laue])
        sides += [math.cos(lo) * p[..., 1] - math.sin(lo) * p[..., 0], math.sin(hi) * p[..., 0] - math.cos(hi) * p[..., 1]]
    if laue in (10, 11):
        sides += [(p[..., 2] - p[..., 0]) / math.sqrt(2), (p[..., 2] - p[..., 1]) / math.sqrt(2)]
    return torch.stack(sides, -1).amin(-1)


def classes(q, laue):
    """equivalent rotations (..., |G|, 4): operators act on the crystal frame that q rotates into"""
    return qmul(group(laue), q.unsqueeze(-2))


def gap(q, laue):
    """how much larger the real part is than those of the other equivalents"""
    w = classes(q, laue)[..., 0].abs()
    if w.shape[-1] == 1:
        return torch.ones_like(w[..., 0])
    return w[..., 0] - w[..., 1:].amax(-1)


def eps(y):
    return 2e-5 if y.dtype == torch.float32 else 1e-9


def basics(ctx, y, x, shape, what):
    ctx.check(tuple(y.shape) == tuple(shape), f"{what}:shape", lambda: f"{tuple(y.shape)} instead of {tuple(shape)}")
    ctx.check(y.dtype == x.dtype, f"{what}:dtype", str(y.dtype))
    ctx.check(bool(torch.isfinite(y).all()), f"{what}:not-finite")


def reduced(ctx, q, y, laue, what):
    """y: unit, equivalent to q, of the smallest rotation angle"""
    e = eps(y)
    q, y = q.double(), y.double()
    ctx.check(bool(((y.norm(dim=-1) - 1).abs() < e).all()), f"{what}:not-unit")
    c = classes(q, laue)
    far = _rot.apart(c, y.unsqueeze(-2)).amin(-1)
    ctx.check(bool((far < 10 * e).all()), f"{what}:not-equivalent", lambda: f"laue {laue}, {float(far.max()):.3e} rad from the nearest equivalent")
    short = c[..., 0].abs().amax(-1) - y[..., 0].abs()
    ctx.check(bool((short < e).all()), f"{what}:outside-the-zone", lambda: f"laue {laue}, half angle cosine {float(short.max()):.3e} below the largest")


def judge_fz(ctx, op, keep, y, what):
    q, laue = keep
    basics(ctx, y, q, q.shape, what)
    reduced(ctx, q, y, laue, what)


def judge_class(ctx, op, keep, y, what):
    q, p, laue = keep
    for a, b in ((y[0], q), (y[1], p)):
        judge_fz(ctx, op, [b, laue], a, what)
    Y = y[0].double()
    d = _rot.apart(Y, y[1].double())
    clear = gap(Y, laue) > 10 * eps(y[0])
    ctx.check(bool((d[clear] < 20 * eps(y[0])).all()), f"{what}:several-representatives", lambda: f"laue {laue}, {float(d[clear].max()):.3e} rad apart")


def judge_mask(ctx, op, keep, y, what):
    q, laue = keep
    ctx.check(tuple(y.shape) == tuple(q.shape[:-1]) and y.dtype == torch.bool, f"{what}:shape", lambda: f"{y.dtype} {tuple(y.shape)}")
    g = gap(q.double(), laue)
    bad = (y & (g < -eps(q))) | (~y & (g > eps(q)))
    ctx.check(not bool(bad.any()), f"{what}:membership", lambda: f"laue {laue}, gap {g[bad].tolist()[:3]}")


def judge_equiv(ctx, op, keep, y, what):
    q, laue = keep
    want = classes(q.double(), laue)
    basics(ctx, y, q, want.shape, what)
    d = _rot.apart(want.unsqueeze(-2), y.double().unsqueeze(-3))
    ctx.check(bool((d.amin(-1) < 20 * eps(y)).all()) and bool((d.amin(-2) < 20 * eps(y)).all()), f"{what}:other-class", lambda: f"laue {laue}, {float(d.amin(-1).max()):.3e} rad")


def judge_angle(ctx, op, keep, y, what):
    a, b, laue = keep
    basics(ctx, y, a, a.shape[:-1], what)
    m = qmul(a.double(), b.double() * torch.tensor([1.0, -1, -1, -1], dtype=torch.float64))
    want = _rot.angle(classes(m, laue)).amin(-1)
    d = (y.double() - want).abs()
    ctx.check(bool((d < 20 * eps(y)).all()), f"{what}:angle", lambda: f"laue {laue}: {float(d.max()):.3e}")


def misorientations(m, l1, l2):
    """class of a misorientation from the crystal frame of the second to that of the first: (..., n, 4)"""
    c = qmul(group(l1)[:, None], qmul(m.unsqueeze(-2).unsqueeze(-2), group(l2)[None]))
    return c.flatten(-3, -2)


def conj(q):
    return q * torch.tensor([1.0, -1, -1, -1], dtype=q.dtype)


def judge_misori(ctx, m, y, l1, l2, what):
    e = eps(y)
    c, y = misorientations(m.double(), l1, l2), y.double()
    ctx.check(bool(((y.norm(dim=-1) - 1).abs() < e).all()), f"{what}:not-unit")
    far = _rot.apart(c, y.unsqueeze(-2)).amin(-1)
    ctx.check(bool((far < 10 * e).all()), f"{what}:not-equivalent", lambda: f"laue {l1}, {l2}: {float(far.max()):.3e} rad from the nearest equivalent")
    short = c[..., 0].abs().amax(-1) - y[..., 0].abs()
    ctx.check(bool((short < e).all()), f"{what}:not-smallest", lambda: f"laue {l1}, {l2}: half angle cosine {float(short.max()):.3e} below the largest")


def judge_to_misori(ctx, op, keep, y, what):
    m, l1, l2 = keep
    basics(ctx, y, m, m.shape, what)
    judge_misori(ctx, m, y, l1, l2, what)


def judge_dis(ctx, op, keep, y, what):
    a, b, l1, l2 = keep
    basics(ctx, y, a, a.shape, what)
    judge_misori(ctx, qmul(a.double(), conj(b.double())), y, l1, l2, what)


def judge_dis_angle(ctx, op, keep, y, what):
    a, b, l1, l2 = keep
    ctx.check(y.numel() == a.shape[:-1].numel() and y.dtype == a.dtype, f"{what}:shape", lambda: f"{tuple(y.shape)}")
    ctx.check(bool(torch.isfinite(y).all()), f"{what}:not-finite", lambda: f"laue {l1}, {l2}")
    want = _rot.angle(misorientations(qmul(a.double(), conj(b.double())), l1, l2)).amin(-1).reshape(-1)
    d = (torch.cos(y.double().reshape(-1) / 2) - torch.cos(want / 2)).abs()
    ctx.check(bool((d < eps(y)).all()), f"{what}:angle", lambda: f"laue {l1}, {l2}: {y.flatten().tolist()[:3]} instead of {want.tolist()[:3]}")


def judge_s2_mask(ctx, op, keep, y, what):
    p, laue = keep
    ctx.check(tuple(y.shape) == tuple(p.shape[:-1]) and y.dtype == torch.bool, f"{what}:shape", lambda: f"{y.dtype} {tuple(y.shape)}")
    g = inside(p.double(), laue)
    bad = (y & (g < -eps(p))) | (~y & (g > eps(p)))
    ctx.check(not bool(bad.any()), f"{what}:membership", lambda: f"laue {laue}: {p[bad].tolist()[:2]}")


def orbit(p, laue):
    v = act(group(laue), p.unsqueeze(-2))
    return torch.cat([v, -v], -2)


def judge_s2(ctx, op, keep, y, what):
    p, r, laue = keep
    for a, b in ((y[0], p), (y[1], r)):
        basics(ctx, a, b, b.shape, what)
        far = (orbit(b.double(), laue) - a.double().unsqueeze(-2)).norm(dim=-1).amin(-1)
        ctx.check(bool((far < eps(a)).all()), f"{what}:not-equivalent", lambda: f"laue {laue}: {float(far.max()):.3e}")
        g = inside(a.double(), laue)
        ctx.check(bool((g > -eps(a)).all()), f"{what}:outside-the-zone", lambda: f"laue {laue}: {a[g == g.min()].tolist()[:1]}")
    clear = inside(y[0].double(), laue) > 10 * eps(p)
    d = (y[0] - y[1]).double().norm(dim=-1)[clear]
    ctx.check(bool((d < 10 * eps(p)).all()), f"{what}:several-representatives", lambda: f"laue {laue}: {float(d.max()):.3e} apart")


def judge_s2_equiv(ctx, op, keep, y, what):
    p, laue = keep
    want = orbit(p.double(), laue)
    basics(ctx, y, p, want.shape, what)
    d = (want.unsqueeze(-2) - y.double().unsqueeze(-3)).norm(dim=-1)
    ctx.check(bool((d.amin(-1) < eps(y)).all()) and bool((d.amin(-2) < eps(y)).all()), f"{what}:other-class", lambda: f"laue {laue}: {float(d.amin(-1).max()):.3e}")


def zone_depth(r):
    """1 on the surface of the cubic Rodrigues zone, 0 at its centre"""
    return torch.maximum(r.abs().amax(-1) / A, r.abs().sum(-1))


def judge_cube(to_zone):
    def judge(ctx, op, keep, y, what):
        c = keep[0]
        basics(ctx, y[0], c, c.shape, what)
        basics(ctx, y[1], c, c.shape, what)
        x, z = c.double(), y[0].double()
        src, dst = x.abs().amax(-1) / A, zone_depth(z)
        if not to_zone:
            src, dst = zone_depth(x), z.abs().amax(-1) / A
        ctx.check(bool(((src - dst).abs() < eps(c)).all()), f"{what}:shells", lambda: f"{src.flatten().tolist()[:3]} became {dst.flatten().tolist()[:3]}")
        ctx.check(bool((torch.linalg.cross(x, z, dim=-1).norm(dim=-1) < eps(c)).all()) and bool(((x * z).sum(-1) >= 0).all()), f"{what}:other-direction")
        ctx.check(bool(((y[1].double() - x).abs() < eps(c)).all()), f"{what}:not-inverse", lambda: f"{float((y[1].double() - x).abs().max()):.3e}")

    return judge


def make(*parts):
    def go(op):
        dt = _kern.dtype(op)
        out = []
        for p in parts:
            if p == "q":
                out.append(rotations(op).to(dt))
            elif p == "q2":  # often close or equal to the first one, up to symmetry
                q = rotations(op, 1) if op["seed"] % 4 else rotations(op)
                out.append(q.to(dt))
            elif p == "sq":
                q = rotations(op)
                out.append(qmul(pick(op, 5, group(op["laue"]), q.shape[:-1].numel()).reshape(q.shape), q).to(dt))
            elif p == "p":
                out.append(directions(op).to(dt))
            elif p == "sp":
                v = directions(op)
                s = pick(op, 6, group(op["laue"]), v.shape[:-1].numel()).reshape(v.shape[:-1] + (4,))
                out.append((act(s, v) * (1 if op["seed"] % 2 else -1)).to(dt))
            elif p in ("laue", "laue2"):
                out.append(op[p])
            else:  # points in the cube, or in the zone
                v = (2 * torch.rand(tuple(op["shape"]) + (3,), generator=rng(op), dtype=torch.float64) - 1) * A
                k = torch.randint(0, 6, v.shape[:-1], generator=rng(op, 1))
                v = torch.where((k == 0)[..., None], v / v.abs().amax(-1, keepdim=True).clamp(min=1e-9) * A, v)
                v = torch.where((k == 1)[..., None], torch.sign(v) * v.abs().amax(-1, keepdim=True), v)
                v = torch.where((k == 2)[..., None], torch.zeros_like(v), v)
                v[..., 0] = torch.where(k == 3, torch.zeros_like(v[..., 0]), v[..., 0])
                if p == "zone":
                    v = v / zone_depth(v)[..., None].clamp(min=1)
                out.append(v.to(dt))
        return out

    return go


def both(f):
    return lambda x, y, laue: [f(x, laue), f(y, laue)]


def there_and_back(a, b):
    def go(x):
        y = getattr(om("ori"), a)(x, 11)
        return [y, getattr(om("ori"), b)(y, 11)]

    return go


# the point groups with the last space group of each and their Laue group
CLASSES = [
    ("1", 1, 1), ("1-", 2, 1), ("2", 5, 2), ("m", 9, 2), ("2/m", 15, 2), ("222", 24, 3), ("mm2", 46, 3), ("mmm", 74, 3),
    ("4", 80, 4), ("4-", 82, 4), ("4/m", 88, 4), ("422", 98, 5), ("4mm", 110, 5), ("4-2m", 122, 5), ("4/mmm", 142, 5),
    ("3", 146, 6), ("3-", 148, 6), ("32", 155, 7), ("3m", 161, 7), ("3-m", 167, 7),
    ("6", 173, 8), ("6-", 174, 8), ("6/m", 176, 8), ("622", 182, 9), ("6mm", 186, 9), ("6-m2", 190, 9), ("6/mmm", 194, 9),
    ("23", 199, 10), ("m3-", 206, 10), ("432", 214, 11), ("4-3m", 220, 11), ("m3-m", 230, 11),
]


def make_names(op):
    i = op["seed"] % 230 + 1
    # the last and first space groups of the classes more often
    if op["seed"] % 3 == 0:
        i = min(CLASSES[op["seed"] // 3 % 32][1] + op["seed"] // 99 % 2, 230)
    return [i, next(n for n, last, _ in CLASSES if i <= last)]


def call_names(sg, pg):
    S = seams.repo("ebsdtorch.utils.symmetry_classes")
    M = seams.repo("ebsdtorch.ebsd.master_pattern").MasterPattern
    x = torch.zeros(3, 6)
    return torch.tensor([S.space_group_to_laue(sg), S.point_group_to_laue(pg), M(x, space_group=sg).laue_group, M(x, point_group=pg).laue_group])


def judge_names(ctx, op, keep, y, what):
    want = next(k for _, last, k in CLASSES if keep[0] <= last)
    ctx.check(y.tolist() == [want] * 4, f"{what}:other-group", lambda: f"space group {keep[0]}, point group {keep[1]}: {y.tolist()} instead of {want}")


def judge_color(ctx, op, keep, y, what):
    q, _, p, laue = keep
    n = q.shape[:-1].numel()
    for c in y:
        ctx.check(tuple(c.shape) == (n, 3) and c.dtype == torch.uint8, f"{what}:shape", lambda: f"{tuple(c.shape)} {c.dtype}")
    d = (y[0].int() - y[1].int()).abs()
    d = torch.minimum(d, 256 - d).amax(-1)
    # clear of the borders, where the direction may be represented on either side
    v = act(q.double(), p.double()).reshape(n, 3)
    o = orbit(v, laue)
    i = inside(o, laue)
    clear = (i > 1e-3).sum(-1) == 1
    clear &= (i.abs() > 1e-3).all(-1)
    ctx.check(bool((d[clear] <= 2).all()), f"{what}:colour-of-equivalents", lambda: f"laue {laue}: {int(d[clear].max())} levels apart")


SPECS = {
    "names": (make_names, call_names, judge_names),
    "ori_color_laue": (make("q", "sq", "p", "laue"), lambda q, s, p, laue: [om("ori").ori_color_laue(x.reshape(-1, 4), p.reshape(-1, 3), laue) for x in (q, s)], judge_color),
    "ori_to_fz_laue": (make("q", "laue"), lambda *x: om("ori").ori_to_fz_laue(*x), judge_fz),
    "ori_to_fz_laue:class": (make("q", "sq", "laue"), both(lambda q, laue: om("ori").ori_to_fz_laue(q, laue)), judge_class),
    "ori_equiv_laue": (make("q", "laue"), lambda *x: om("ori").ori_equiv_laue(*x), judge_equiv),
    "ori_in_fz_laue": (make("q", "laue"), lambda *x: om("ori").ori_in_fz_laue(*x), judge_mask),
    "ori_in_fz_laue_brute": (make("q", "laue"), lambda *x: om("ori").ori_in_fz_laue_brute(*x), judge_mask),
    "ori_angle_laue": (make("q", "q2", "laue"), lambda *x: om("ori").ori_angle_laue(*x), judge_angle),
    "disorientation": (make("q", "q2", "laue", "laue2"), lambda *x: om("ori").disorientation(*x), judge_dis),
    "disori_angle_laue": (make("q", "q2", "laue", "laue2"), lambda *x: om("ori").disori_angle_laue(*x), judge_dis_angle),
    "misori:disori_angle_laue": (make("q", "q2", "laue", "laue2"), lambda *x: om("misori").disori_angle_laue(*x), judge_dis_angle),
    "disorientation_naive": (make("q", "q2", "laue", "laue2"), lambda *x: om("misori").disorientation_naive(*x), judge_dis),
    "misori_to_fz_laue": (make("q", "laue", "laue2"), lambda *x: om("misori").misori_to_fz_laue(*x), judge_to_misori),
    "s2_in_fz_laue": (make("p", "laue"), lambda *x: om("s2").s2_in_fz_laue(*x), judge_s2_mask),
    "s2_to_fz_laue": (make("p", "sp", "laue"), both(lambda p, laue: om("s2").s2_to_fz_laue(p, laue)), judge_s2),
    "s2_equiv_laue": (make("p", "laue"), lambda *x: om("s2").s2_equiv_laue(*x), judge_s2_equiv),
    "cube_to_rfz": (make("cube"), there_and_back("cube_to_rfz", "rfz_to_cube"), judge_cube(True)),
    "rfz_to_cube": (make("zone"), there_and_back("rfz_to_cube", "cube_to_rfz"), judge_cube(False)),
}


def generate(r, tier):
    return _kern.generate(r, list(SPECS), shapes=SHAPES, extra=lambda r: dict(laue=r.randint(1, 11), laue2=r.randint(1, 11)), bad=BAD)


BAD = {
    "space-group-zero": _kern.reject(lambda: seams.repo("ebsdtorch.utils.symmetry_classes").space_group_to_laue(0), "accepted-space-group-0"),
    "space-group-231": _kern.reject(lambda: seams.repo("ebsdtorch.utils.symmetry_classes").space_group_to_laue(231), "accepted-space-group-231"),
    "point-group": _kern.reject(lambda: seams.repo("ebsdtorch.utils.symmetry_classes").point_group_to_laue("5"), "accepted-point-group-5"),
}


def execute(plan, ctx):
    _kern.execute(plan, ctx, SPECS, BAD)
