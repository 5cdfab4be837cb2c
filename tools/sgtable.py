"""One-off: minimal generators (exact, in 24ths) and origin shift of every space group, written to sim/props/sgops.json.

The table is the reference of C27; it was cross-checked here (closed groups, order = order of the point group times
centring, inversion at the origin in the second setting) and is committed, the checks never rewrite it."""
import itertools
import json
import sys

sys.path.insert(0, "/verif")
import contextlib, io
from sim import seams
seams.import_repo()
import torch
from sim.props import _cell as R

G = seams.repo("ebsdtorch.crystallography.groups")
out = {}


def ops(sg, st):
    with contextlib.redirect_stdout(io.StringIO()):
        o = G.sg_operators(sg, st)
    res = set()
    for m in o.tolist():
        rot = tuple(round(m[i][j]) for i in range(3) for j in range(3))
        t = tuple(round(m[i][3] * 24) % 24 for i in range(3))
        assert all(abs(m[i][3] * 24 - round(m[i][3] * 24)) < 1e-6 for i in range(3))
        res.add((rot, t))
    return res


for sg in range(1, 231):
    full = ops(sg, 1)
    assert R.close(full) == full, sg
    assert len(full) % R.point_order(sg) == 0
    gens, cur = [], R.close([])
    for o in sorted(full):
        if o not in cur:
            gens.append(o)
            cur = R.close(gens)
        if len(cur) == len(full):
            break
    # drop superfluous ones
    for o in list(gens):
        rest = [x for x in gens if x != o]
        if R.close(rest) == full:
            gens = rest
    shift = None
    if sg in R.TWO:
        f2 = ops(sg, 2)
        assert R.close(f2) == f2
        for s in itertools.product((0, 3, 6, 9, 12, 15, 18, 21), repeat=3):
            if R.shifted(full, s) == f2:
                shift = s
                break
        assert shift is not None, sg
    out[sg] = [gens, shift]
    print(sg, len(full), len(gens), shift)
json.dump({k: [[list(r) + list(t) for r, t in g], s] for k, (g, s) in out.items()}, open("/verif/sim/props/sgops.json", "w"), separators=(",", ":"))
