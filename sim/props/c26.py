"""C26 spherical harmonic transforms and correlations: any history, any number of threads, failures in between."""
import copy
import io

import torch

from .. import seams
from ..common import alloc_fault_call, data, make_sites, make_switches, must_reject, raise_thread_errors, same_bits
from . import _sht as R

RULE = (
    "one run = one or two transform objects (real / complex, single / double precision, bandlimit 1-12), a seeded history of forward and inverse transforms and correlations over batches and memory layouts with failing "
    "allocations, rejected inputs, restores and copies in between, and a concurrent phase of two to three threads on one object; every result is compared with float64 spherical harmonic sums and quadrature; "
    "non-trivial = a result after an earlier transform, failure or preemption"
)
COMPONENTS = {
    "real": ["ebsdtorch.harmonics.sht", "ebsdtorch.harmonics.sht_cc", "ebsdtorch.harmonics.wigner_d_logspace", "torch CPU kernels", "real Python threads, one released at a time"],
    "stub": ["allocator", "thread scheduler", "durable storage (in-memory bytes)"],
}
CFG_MIN = {"dseed": 0}
DEEP_SHRINK = True
MODULES = ["ebsdtorch.harmonics.sht", "ebsdtorch.harmonics.sht_cc", "ebsdtorch.harmonics.wigner_d_logspace"]


def gen_item(r):
    return dict(
        dir=r.choice(["f", "f", "i", "i", "rt"]), b=r.choice([1, 1, 2, 3, 5]), seed=r.randrange(2**31), kind=r.choice(["normal", "normal", "positive", "big", "small", "zero", "delta"]),
        layout=r.choice(["plain", "plain", "t", "strided", "slice", "expand"]),
    )


def generate(r, tier):
    objs = [dict(real=r.random() < 0.5, L=r.choice([1, 2, 3, 4, 5, 6, 7, 8, 11, 12] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 25, 32]), prec=r.choice(["single", "double"])) for _ in range(r.choice([1, 1, 2]))]
    ops = []
    for _ in range(r.randint(2, 8)):
        op = r.choice(["x", "x", "x", "x", "bad", "restore", "copy", "corr", "weights", "cast", "grid"])
        o = dict(gen_item(r), op=op, o=r.randrange(4), fault=round(r.random(), 3) if r.random() < 0.35 else None)
        if op == "bad":
            o["what"] = r.choice(["size", "dim", "type"])
        if op == "grid":
            o.update(dt=r.choice(["single", "double"]), poly=[round(r.uniform(-2, 2), 3) for _ in range(10)])
        if op == "corr":
            o.update(L=r.choice([1, 2, 3, 4, 5]), b2=r.choice([1, 1, 2, 3]), fn=r.choice(["rs", "rs", "cs", "fast"]))
        if op == "weights":
            o.update(L=r.choice([1, 2, 3, 5, 7]), batch=r.choice([1, 3, 7, 10, 64]), real=r.random() < 0.5)
        ops.append(o)
    threads = []
    if r.random() < 0.5:
        same = [gen_item(r) for _ in range(2)]
        threads = [[dict(r.choice(same), seed=r.randrange(2**31)) if r.random() < 0.5 else gen_item(r) for _ in range(r.randint(1, 3))] for _ in range(r.choice([2, 2, 3]))]
    return dict(cfg={}, objs=objs, ops=ops, threads=threads, thr_obj=r.randrange(2), switches=make_switches(r, max(2, len(threads)), 12 * sum(len(t) for t in threads), r.choice([0, 1, 2, 4, 8, 20])), sites=make_sites(r, max(2, len(threads))))


def simplify(plan):
    for i, o in enumerate(plan["objs"]):
        if o["L"] > 1:
            for L in (1, 2, o["L"] // 2):
                if L < o["L"]:
                    p = copy.deepcopy(plan)
                    p["objs"][i]["L"] = L
                    yield p


def dtypes(o):
    return (torch.float64, torch.complex128) if o["prec"] == "double" else (torch.float32, torch.complex64)


def values(seed, shape, kind):
    if kind == "zero":
        return torch.zeros(shape, dtype=torch.float64)
    if kind == "delta":
        v = torch.zeros(shape, dtype=torch.float64)
        v.view(-1)[seed % max(1, v.numel())] = 1.0
        return v
    return data(seed, shape, kind)


def signal(o, it):
    """a grid signal"""
    L, (rt, ct) = o["L"], dtypes(o)
    re = values(it["seed"], (it["b"], 2 * L, 2 * L), it["kind"])
    if o["real"] or it["seed"] % 3 == 0:
        return re.to(rt)
    return torch.complex(re, values(it["seed"] + 1, re.shape, it["kind"])).to(ct)


def coefs(o, it):
    """valid coefficients (of a real signal for the real transform)"""
    L, (rt, ct) = o["L"], dtypes(o)
    if o["real"]:
        P = torch.complex(values(it["seed"], (it["b"], L, L), it["kind"]), values(it["seed"] + 1, (it["b"], L, L), it["kind"]))
        P[:, 0] = P[:, 0].real.clone()
        P = P * R.valid(L)[L - 1 :]
    else:
        P = torch.complex(values(it["seed"], (it["b"], 2 * L - 1, L), it["kind"]), values(it["seed"] + 1, (it["b"], 2 * L - 1, L), it["kind"]))
        P = P * R.valid(L)
    return P.to(ct)


def layout(x, how):
    if how == "t":
        return x.transpose(1, 2).contiguous().transpose(1, 2)
    if how == "strided":
        y = torch.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=x.dtype)
        y[..., ::2] = x
        return y[..., ::2]
    if how == "slice":
        return torch.cat([x, x], 0)[: len(x)]
    if how == "expand" and len(x) == 1:
        return x[0][None].expand(3, -1, -1)
    return x


def tol(o, ref):
    return (3e-5 if o["prec"] == "single" else 1e-12) * (1 + o["L"] / 8) * (float(ref.abs().max()) if ref.numel() else 0.0) + 1e-30


def verify(ctx, o, it, x, out, what):
    """x: (values given, values got) in float64"""
    L = o["L"]
    rt, ct = dtypes(o)
    xin = x.to(torch.complex128)
    if it["dir"] == "f":
        ref = R.anal(xin)
        ref = ref[:, L - 1 :] if o["real"] else ref
        bound = R.anal(torch.ones(1, 2 * L, 2 * L)).abs().max() * (xin.abs().max() if xin.numel() else 0.0)
        scale = torch.maximum(ref.abs().max(), bound) if ref.numel() else ref
        dt = ct
    elif it["dir"] == "i":
        full = R.full(xin) if o["real"] else xin
        ref = R.synth(full)
        scale = torch.maximum(ref.abs().max(), full.abs().max() * L**0.5)
        dt = rt if o["real"] else ct
    else:  # there and back again: the valid coefficients
        ref, scale, dt = xin, xin * 4, ct
    ctx.check(tuple(out.shape) == tuple(ref.shape), f"{what}:shape", f"{tuple(out.shape)} instead of {tuple(ref.shape)}")
    ctx.check(not out.requires_grad, f"{what}:tables-are-trained", "the transform of plain data carries a gradient")
    ctx.check(out.dtype == dt, f"{what}:dtype", f"{out.dtype} instead of {dt}")
    if ref.numel():
        e = float((out.to(torch.complex128) - ref).abs().max())
        ctx.check(e <= tol(o, scale), f"{what}:{it['dir']}:value", lambda: f"{'real' if o['real'] else 'complex'} L={L} {o['prec']}: off by {e:.2e} (largest value {float(ref.abs().max()):.2e})")


def do(sht, it, x):
    if it["dir"] == "f":
        return sht.fsht(x)
    if it["dir"] == "i":
        return sht.isht(x)
    return sht.fsht(sht.isht(x))


def build(o):
    S = seams.repo("ebsdtorch.harmonics.sht")
    return (S.RSHT if o["real"] else S.CSHT)(o["L"], torch.device("cpu"), o["prec"])


def tables(obj):
    return {k: (v.to_dense() if v.is_sparse else v).clone() for k, v in obj.state_dict().items()}


def execute(plan, ctx):
    objs = plan["objs"]
    if not objs:
        return
    obs = [build(o) for o in objs]
    first = [tables(x) for x in obs]

    def intact(j, what):
        now = tables(obs[j])
        ctx.check(now.keys() == first[j].keys() and all(same_bits(now[k].to(first[j][k].dtype), first[j][k]) for k in now), f"{what}:tables-changed")

    done = 0
    for op in plan["ops"]:
        a = op["op"]
        j = op["o"] % len(objs)
        o, sht = objs[j], obs[j]
        L = o["L"]
        if a == "x":
            x = layout(signal(o, op) if op["dir"] == "f" else coefs(o, op), op["layout"])
            keep = x.clone()
            if op["fault"] is not None:
                trial = copy.deepcopy(sht)
                if alloc_fault_call(ctx, lambda: do(sht, op, x), lambda: do(trial, op, x), op["fault"], op["dir"]):
                    ctx.check(torch.equal(x, keep), "failed:input-modified")
                    intact(j, "failed")
                    done += 1
            out = do(sht, op, x)
            ctx.check(torch.equal(x, keep), "input-modified")
            verify(ctx, o, op, keep, out, "history")
            was = out.clone()
            again = do(sht, dict(op), x)
            ctx.check(same_bits(torch.view_as_real(again) if again.is_complex() else again, torch.view_as_real(was) if was.is_complex() else was), "not-repeatable")
            ctx.check(torch.equal(out, was), "result-overwritten-later")
            # each member of the batch is transformed by itself
            if len(x) > 1:
                one = do(sht, op, x[1:2])
                sc = out.abs().max()
                if op["dir"] == "f":
                    sc = torch.maximum(sc, x.abs().max() * 4)
                ctx.check(float((one - out[1:2]).abs().max()) <= tol(o, sc), "batch-dependent")
                ctx.check(torch.equal(out, was), "result-overwritten-later")
            if op["seed"] % 2 and op["layout"] != "expand":
                # the caller fills the same tensor with another signal
                op2 = dict(op, seed=op["seed"] + 3)
                mine = x.clone()
                do(sht, op, mine)
                new = signal(o, op2) if op["dir"] == "f" else coefs(o, op2)
                mine.copy_(new)
                verify(ctx, o, op, new, do(sht, op, mine), "refilled")
            ctx.nontrivial = ctx.nontrivial or done > 0
            done += 1
            ctx.steps += 1
            ctx.state("x", o["real"], L, o["prec"], op["dir"], op["layout"], op["kind"], min(done, 4))
        elif a == "bad":
            if op["what"] == "size":
                must_reject(ctx, lambda: do(sht, dict(dir="f"), torch.zeros(1, 2 * L + 2, 2 * L + 2, dtype=dtypes(o)[0])), "accepted-wrong-size")
            elif op["what"] == "dim":
                must_reject(ctx, lambda: do(sht, dict(dir="i"), torch.zeros(L + 1, dtype=dtypes(o)[1])), "accepted-wrong-dimensions")
            else:
                must_reject(ctx, lambda: do(sht, dict(dir="i"), torch.zeros(1, L, L, dtype=torch.int64)), "accepted-integer-coefficients")
            intact(j, "rejected")
            done += 1
        elif a == "restore":
            buf = io.BytesIO()
            torch.save(sht.state_dict(), buf)
            buf.seek(0)
            obs[j] = build(o)
            obs[j].load_state_dict(torch.load(buf, weights_only=True))
            intact(j, "restored")
            ctx.fault("crash-restart")
            done += 1
        elif a == "copy":
            obs[j] = copy.deepcopy(sht)
            done += 1
        elif a == "cast":
            # asking for the precision it has is a no-op
            obs[j] = sht.double() if o["prec"] == "double" else sht.float()
            intact(j, "cast")
        elif a == "weights":
            W = seams.repo("ebsdtorch.harmonics.wigner_d_logspace")
            fn = W.rsht_weights_half_pi if op["real"] else W.csht_weights_half_pi
            want = fn(op["L"], torch.device("cpu"), "double").to_dense()
            got = fn(op["L"], torch.device("cpu"), "double", batch_size=op["batch"]).to_dense()
            ctx.check(same_bits(got, want), "weights-depend-on-batching", lambda: f"L={op['L']} batches of {op['batch']}")
            ctx.state("weights", op["L"], op["batch"])
        elif a == "corr":
            run_corr(ctx, op)
        elif a == "grid":
            run_grid(ctx, o, sht, op)
        ctx.log(a, j, op.get("dir"))
    if plan["threads"]:
        j = plan["thr_obj"] % len(objs)
        o, sht = objs[j], obs[j]
        ins = [[layout(signal(o, it) if it["dir"] == "f" else coefs(o, it), it["layout"]) for it in t] for t in plan["threads"]]
        keep = [[x.clone() for x in t] for t in ins]

        def body(items, xs):
            return lambda: [do(sht, it, x) for it, x in zip(items, xs)]

        sim = seams.ThreadSim([body(t, xs) for t, xs in zip(plan["threads"], ins)], plan["switches"], ctx, sites=plan.get("sites", ()))
        res, errs = sim.run()
        raise_thread_errors(errs)
        for t, xs, ks, outs in zip(plan["threads"], ins, keep, res):
            for it, x, k, out in zip(t, xs, ks, outs):
                ctx.check(torch.equal(x, k), "threaded:input-modified")
                verify(ctx, o, it, k, out, "threaded")
        intact(j, "threaded")
        if sim.n_switches:
            ctx.nontrivial = True


def run_grid(ctx, o, sht, op):
    """a function of the direction, sampled on the published grid, has the harmonics it consists of"""
    S = seams.repo("ebsdtorch.harmonics.sht")
    L = o["L"]
    dt = torch.float64 if op["dt"] == "double" else torch.float32
    g = S.grid_DriscollHealy(L, dt)
    ctx.check(tuple(g.shape) == (2 * L, 2 * L, 2) and g.dtype == dt, "grid:shape", f"{tuple(g.shape)} {g.dtype}")
    xyz = S.theta_phi_to_xyz(g)
    t, p = R.PI * torch.arange(2 * L, dtype=torch.float64) / L, R.PI * (2 * torch.arange(2 * L, dtype=torch.float64) + 1) / (4 * L)
    t, p = torch.meshgrid(t, p, indexing="ij")
    want = torch.stack([torch.cos(t) * torch.sin(p), torch.sin(t) * torch.sin(p), torch.cos(p)], -1)
    eps = 1e-12 if op["dt"] == "double" else 2e-6
    ctx.check(tuple(xyz.shape) == (2 * L, 2 * L, 3) and float((xyz.double() - want).abs().max()) <= eps, "grid:directions")
    k = op["poly"]

    def f(v):
        x, y, z = v.unbind(-1)
        r = k[0] + 0 * x
        if L > 1:
            r = r + k[1] * x + k[2] * y + k[3] * z
        if L > 2:
            r = r + k[4] * x * y + k[5] * y * z + k[6] * z * x + k[7] * x * x + k[8] * y * y + k[9] * z * z
        return r

    rt, ct = dtypes(o)
    x = f(xyz).to(rt)[None]
    tolx = max(eps, 1e-5 if o["prec"] == "single" else 0) * 40
    out = sht.fsht(x)
    back = sht.isht(out)
    ctx.check(float((back.real.double() - f(want)[None]).abs().max()) <= tolx * (1 + L / 8), "grid:polynomial-not-reproduced", lambda: f"L={L}: {float((back.real.double() - f(want)[None]).abs().max()):.2e}")
    full = R.full(out.to(torch.complex128)) if o["real"] else out.to(torch.complex128)
    # the value in any direction, not only on the grid, is the sum of the harmonics: their squares add up to the mean square
    w = R._weights(L).real / 1.0
    power = float((f(want) ** 2 * w[None]).sum()) if 2 * min(L - 1, 2) < 2 * L - 1 else None
    if power is not None:
        got = float((full.abs() ** 2 * R.valid(L)).sum())
        ctx.check(abs(got - power) <= tolx * 40 * (1 + power), "grid:power", lambda: f"L={L}: {got} instead of {power}")
    ctx.state("grid", L, op["dt"], o["prec"], o["real"])
    ctx.steps += 1


_table = {}


def run_corr(ctx, op):
    C = seams.repo("ebsdtorch.harmonics.sht_cc")
    W = seams.repo("ebsdtorch.harmonics.wigner_d_logspace")
    L = op["L"]
    if L not in _table:
        t = W.wigner_d_eq_half_pi(L + 2, torch.float64, torch.device("cpu"))
        ll, mm, kk = torch.meshgrid(torch.arange(L), torch.arange(1 - L, L), torch.arange(1 - L, L), indexing="ij")
        ok = (mm.abs() <= ll) & (kk.abs() <= ll)
        d = torch.zeros(L, 2 * L - 1, 2 * L - 1, dtype=torch.float64)
        d[ok] = W.read_lmn_wigner_d_half_pi_table(t, coords=torch.stack([ll[ok], mm[ok], kk[ok]], -1))
        _table[L] = (t, d.to(torch.complex64))
    t, d = _table[L]
    keep_t = t.clone()
    cs = op["fn"] == "cs"
    b1, b2 = op["b"], op["b2"]
    o = dict(real=not cs, L=L, prec="single")
    f = coefs(o, dict(op, kind="normal"))
    g = coefs(o, dict(op, kind="normal", b=b2, seed=op["seed"] + 7))
    kf, kg = f.clone(), g.clone()
    fn = {"rs": C.rs2cc_, "cs": C.cs2cc_, "fast": C.rs2cc_fast_}[op["fn"]]
    arg = d if op["fn"] == "fast" else t
    if b1 != b2 and 1 not in (b1, b2):
        must_reject(ctx, lambda: fn(L, f, g, arg), "accepted-unequal-batches")
        return
    if op["fault"] is not None:
        alloc_fault_call(ctx, lambda: fn(L, f, g, arg), lambda: fn(L, f, g, arg), op["fault"], op["fn"])
    out = fn(L, f, g, arg)
    ctx.check(torch.equal(f, kf) and torch.equal(g, kg) and torch.equal(t, keep_t), f"corr:{op['fn']}:input-modified")
    ref = R.corr(kf, kg) if cs else R.corr(R.full(kf.to(torch.complex128)), R.full(kg.to(torch.complex128)))
    ref = ref.abs() if cs else ref.real
    ctx.check(tuple(out.shape) == tuple(ref.shape), f"corr:{op['fn']}:shape", f"{tuple(out.shape)}")
    e = float((out.double() - ref).abs().max())
    ctx.check(e <= 2e-5 * (1 + float(ref.abs().max())), f"corr:{op['fn']}:value", lambda: f"L={L} batches {b1}, {b2}: off by {e:.2e} of {float(ref.abs().max()):.2e}")
    ctx.state("corr", op["fn"], L, b1, b2)
    ctx.steps += 1
