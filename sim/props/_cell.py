"""Exact space-group and float64 lattice reference (no code of the repository)."""
import functools
import json
import math
import os

import torch

TWO = [48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228]
WEIGHT = {6: 12.011, 8: 15.999, 11: 22.990, 12: 24.305, 13: 26.982, 14: 28.085, 17: 35.45, 22: 47.867, 26: 55.845, 28: 58.693, 29: 63.546, 74: 183.84}
ID = ((1, 0, 0, 0, 1, 0, 0, 0, 1), (0, 0, 0))


def mul(a, b):
    (r, t), (q, u) = a, b
    rot = tuple(sum(r[3 * i + k] * q[3 * k + j] for k in range(3)) for i in range(3) for j in range(3))
    tr = tuple((sum(r[3 * i + k] * u[k] for k in range(3)) + t[i]) % 24 for i in range(3))
    return rot, tr


def close(gens):
    have = {ID}
    todo = [ID]
    while todo:
        x = todo.pop()
        for g in gens:
            y = mul(g, x)
            if y not in have:
                have.add(y)
                todo.append(y)
    return have


def shifted(ops, s):
    """the same group with coordinates x + s"""
    out = set()
    for r, t in ops:
        out.add((r, tuple((t[i] + s[i] - sum(r[3 * i + k] * s[k] for k in range(3))) % 24 for i in range(3))))
    return out


POINT = [(2, 1), (5, 2), (9, 2), (15, 4), (46, 4), (74, 8), (80, 4), (82, 4), (88, 8), (98, 8), (110, 8), (122, 8), (142, 16), (146, 3), (148, 6), (155, 6), (161, 6), (167, 12), (173, 6), (174, 6), (176, 12), (182, 12), (186, 12), (190, 12), (194, 24), (199, 12), (206, 24), (214, 24), (220, 24), (230, 48)]


def point_order(sg):
    if sg == 1:
        return 1
    return next(o for last, o in POINT if sg <= last)


@functools.lru_cache(maxsize=None)
def _table():
    with open(os.path.join(os.path.dirname(__file__), "sgops.json")) as f:
        return json.load(f)


@functools.lru_cache(maxsize=None)
def group(sg, setting=1):
    gens, shift = _table()[str(sg)]
    ops = close([(tuple(g[:9]), tuple(g[9:])) for g in gens])
    if setting == 2:
        ops = shifted(ops, shift)
    return tuple(sorted(ops))


def origin_shift(sg):
    s = _table()[str(sg)][1]
    return None if s is None else [x / 24 for x in s]


@functools.lru_cache(maxsize=None)
def group_t(sg, setting=1):
    ops = group(sg, setting)
    rot = torch.tensor([r for r, _ in ops], dtype=torch.float64).reshape(-1, 3, 3)
    tr = torch.tensor([t for _, t in ops], dtype=torch.float64) / 24
    return rot, tr


def orbit(sg, setting, x, tol=1e-4):
    """distinct positions, modulo the lattice"""
    rot, tr = group_t(sg, setting)
    p = rot @ torch.tensor(x, dtype=torch.float64) + tr
    p = p - p.floor()
    keep = []
    for q in p:
        if keep:
            d = (torch.stack(keep) - q).abs()
            d = torch.minimum(d, 1 - d)
            if bool((d < tol).all(1).any()):
                continue
        keep.append(q)
    return torch.stack(keep)


def same_positions(a, b, tol=1e-3):
    """sets of positions modulo the lattice"""
    if len(a) != len(b):
        return False
    d = (a[:, None] - b[None]).abs() % 1.0
    d = torch.minimum(d, 1 - d)
    hit = (d < tol).all(-1)
    return bool(hit.any(0).all() and hit.any(1).all())


@functools.lru_cache(maxsize=None)
def centring(sg, setting=1):
    return [t for r, t in group(sg, setting) if r == ID[0]]


def allowed(sg, g):
    ok = torch.ones(len(g), dtype=torch.bool)
    for t in centring(sg):
        ok &= (g @ torch.tensor(t, dtype=torch.int64)) % 24 == 0
    return ok


class Lattice:
    def __init__(self, abc, ang):
        a, b, c = abc
        al, be, ga = (math.radians(x) for x in ang)
        cos = lambda x, d: 0.0 if d == 90 else math.cos(x)  # noqa: E731
        ca, cb, cg = cos(al, ang[0]), cos(be, ang[1]), cos(ga, ang[2])
        self.G = torch.tensor([[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca], [a * c * cb, b * c * ca, c * c]], dtype=torch.float64)
        self.Gr = torch.linalg.inv(self.G)
        self.vol = math.sqrt(float(torch.det(self.G)))
        # rows: basis vectors in the standard frame (a along x, c* along z)
        L = torch.linalg.cholesky(self.G)
        self.A = L  # a = (a,0,0), b in the xy plane, c anywhere: c* is along z
        self.B = torch.linalg.inv(self.A).T  # rows: reciprocal basis vectors

    def cart(self, v, space):
        if space == "d":
            return v @ self.A
        if space == "r":
            return v @ self.B
        return v

    def to(self, v, space_in, space_out):
        c = self.cart(v, space_in)
        if space_out == "d":
            return c @ torch.linalg.inv(self.A)
        if space_out == "r":
            return c @ torch.linalg.inv(self.B)
        return c


def lattice_for(r, sg):
    """random parameters compatible with the space group (nm, degrees)"""
    u = lambda: round(r.uniform(0.25, 0.9), 4)  # noqa: E731
    a, b, c = u(), u(), u()
    al = be = ga = 90.0
    if sg <= 2:
        while True:
            al, be, ga = (round(r.uniform(55, 125), 2) for _ in range(3))
            ca, cb, cg = (math.cos(math.radians(x)) for x in (al, be, ga))
            if 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg > 0.1:
                break
    elif sg <= 15:
        be = round(r.uniform(90, 125), 2)
    elif sg <= 74:
        pass
    elif sg <= 142:
        b = a
    elif sg <= 194:
        b, ga = a, 120.0
    else:
        b = c = a
    return [a, b, c], [al, be, ga]
