"""C18 pattern clean-up: every step per pattern as documented, whole steps or none when one fails."""
import math

import torch

from .. import seams
from ..common import alloc_fault_call, data, must_reject, same_bits

RULE = (
    "one run = a seeded data set (1-3 scan dimensions, sizes, contrast, constant patterns) and a seeded history of 2-7 clean-up steps, each possibly failing at a seeded allocation or "
    "rejected, checked against a float64 model after every step, and against the same steps on a shuffled subset of the patterns; non-trivial = a step failed and was repeated, or patterns were shuffled"
)
MODULES = ["ebsdtorch.ebsd.experiment_pats"]
COMPONENTS = {"real": ["ebsdtorch.ebsd.experiment_pats clean-up", "preprocessing.clahe", "preprocessing.nlpar"], "stub": ["torch allocator (failing allocations)"]}
STEPS = ["bg", "minmax", "minmax", "zeromean", "standard", "clahe", "clahe", "nlpar", "nlpar", "clean", "bad"]


def generate(r, tier):
    scan = r.choice([[1], [5], [12], [2, 3], [3, 3], [4, 3], [4, 5], [1, 6]])
    cfg = dict(
        scan=scan, hw=r.choice([[8, 8], [12, 12], [8, 12], [10, 9], [16, 16]]), seed=r.randrange(2**31), kind=r.choice(["noise", "noise", "noise", "steps", "const", "copies"]),
        scale=r.choice([1.0, 1.0, 100.0, 0.01]),
    )
    ops = []
    for _ in range(r.randint(2, 7)):
        ops.append(
            dict(
                op=r.choice(STEPS), fault=r.choice([None, None, round(r.random(), 4)]), clip=r.choice([40.0, 40.0, 2.0, 1.0, 0.0]), bins=r.choice([64, 32, 16]), tiles=r.choice([2, 4, 4]),
                k=r.choice([1, 1, 2, 3]), coeff=r.choice([0.375, 0.5, 0.25]), twin=r.random() < 0.5, bias=r.choice([None, None, 0.1, 0.7, 3.0]), pseed=r.randrange(2**31),
            )
        )
    return dict(cfg=cfg, ops=ops)


def make(cfg):
    n = math.prod(cfg["scan"])
    H, W = cfg["hw"]
    x = data(cfg["seed"], (n, H, W), "normal")
    base = data(cfg["seed"] + 1, (1, H, W), "normal")
    x = 0.4 * x + base
    if cfg["kind"] == "steps":
        x = torch.round(x * 4) / 4
        x = x + 1e-3 * data(cfg["seed"] + 2, (n, H, W), "normal")
    if cfg["kind"] == "copies" and n > 1:
        x[1:] = x[:1]
        x[n // 2 :] += 1.0
    if cfg["kind"] == "const" and n > 1:
        x[n // 2] = 1.5
    return (x * cfg["scale"]).float()


def model_step(X, op, name):
    """documented result in float64, None where only other properties are checked"""
    f = X.reshape(len(X), -1)
    if name == "bg":
        return X - X.mean(0, keepdim=True)
    if name == "minmax":
        lo, hi = f.min(1).values[:, None, None], f.max(1).values[:, None, None]
        return (X - lo) / (1e-4 + hi - lo)
    if name == "zeromean":
        return X - f.mean(1)[:, None, None]
    if name == "standard":
        return (X - f.mean(1)[:, None, None]) / f.std(1)[:, None, None]
    return None


def clahe_model(X, clip, bins, g):
    """contrast limited equalisation, one image at a time, plain loops; None if a value sits on a bin edge"""
    n, H, W = X.shape
    th, tw = math.ceil(H / g), math.ceil(W / g)
    vox = th * tw
    Y = X * (bins - 1)
    edge = (Y - Y.round()).abs()
    if bool(((edge < 1e-4) & (Y.round() != 0)).any()):
        return None
    P = torch.nn.functional.pad(X[:, None], (0, tw * g - W, 0, th * g - H), mode="reflect")[:, 0]
    out = torch.zeros_like(X)
    for i in range(n):
        cdf = torch.zeros(g, g, bins, dtype=torch.float64)
        for a in range(g):
            for b in range(g):
                t = (P[i, a * th : (a + 1) * th, b * tw : (b + 1) * tw] * (bins - 1)).long().flatten()
                h = torch.bincount(t, minlength=bins).double()
                if clip > 0:
                    h = h.clamp(max=float(max(clip * vox // bins, 1)))
                    left = vox - float(h.sum())
                    rest = int(round(left % bins))
                    h = h + (left - rest) / bins
                    h[:rest] += 1
                cdf[a, b] = torch.cumsum(h, 0).div(vox).clamp(0, 1)
        # trilinear between bins and tile centres, clamped at the borders
        zz = (X[i] * bins - 0.5).clamp(0, bins - 1)
        yy = (torch.linspace(0, 1, H, dtype=torch.float64) * g - 0.5).clamp(0, g - 1)[:, None].expand(H, W)
        xx = (torch.linspace(0, 1, W, dtype=torch.float64) * g - 0.5).clamp(0, g - 1)[None].expand(H, W)
        z0, y0, x0 = zz.floor().long(), yy.floor().long(), xx.floor().long()
        for dz in (0, 1):
            for dy in (0, 1):
                for dx in (0, 1):
                    z, y, x = (z0 + dz).clamp(max=bins - 1), (y0 + dy).clamp(max=g - 1), (x0 + dx).clamp(max=g - 1)
                    w = (1 - (zz - (z0 + dz)).abs()) * (1 - (yy - (y0 + dy)).abs()) * (1 - (xx - (x0 + dx)).abs())
                    out[i] += w.clamp(min=0) * cdf[y, x, z]
    return out


def tiles_ok(X, g):
    n, H, W = X.shape
    return min(H, W) >= 2 * g and (math.ceil(H / g) * g - H) == (-H) % g and (-H) % g < H


def allowed(X, op, name):
    f = X.reshape(len(X), -1).double()
    if name == "standard":
        return bool((f.std(1) > 1e-3 * (1e-6 + f.abs().max(1).values)).all())
    if name == "clahe":
        return float(f.min()) >= 0 and float(f.max()) <= 1 and tiles_ok(X, op["tiles"])
    if name == "clean":
        return tiles_ok(X, 4) and len(X) > 1
    return True


def nlpar_ok(X, scan, k):
    """NLPAR estimates the noise from neighbours: there have to be some, none of them copies"""
    if len(scan) != 2 or min(scan) < 2:
        return False
    f = X.reshape(len(X), -1).double()
    d = torch.cdist(f, f) + 1e9 * torch.eye(len(f), dtype=torch.float64)
    scale = float(f.std())
    # (padding counts as a neighbour of the border: a zero pattern is a copy of it)
    return bool(d.min() > 1e-2 * scale) and bool((f.norm(dim=1) > 1e-2 * scale).all())


def run(e, op, name):
    if name in ("minmax", "zeromean", "standard"):
        e.normalize_per_pattern(norm_type=name)
    elif name == "bg":
        e.subtract_overall_background()
    elif name == "clahe":
        e.contrast_enhance_clahe(clip_limit=op["clip"], tile_grid_size=op["tiles"], n_bins=op["bins"])
    elif name == "nlpar":
        e.do_nlpar(k_rad=op["k"], coeff=op["coeff"])
    else:
        e.standard_clean()


def nlpar_model(X, scan, coeff, r=1, bias=0.0):
    """window of radius r, noise and sharpness from the direct neighbours, in float64: (denoised, how sharply the weights depend on distances)"""
    h, w = scan
    d = X[0].numel()
    x = X.reshape(h, w, d)
    offs = [(a, b) for a in range(-r, r + 1) for b in range(-r, r + 1)]
    offs.sort(key=lambda o: (o != (0, 0), max(abs(o[0]), abs(o[1]))))
    D = torch.zeros(h, w, len(offs), dtype=torch.float64)
    out = torch.zeros(h, w, len(offs), dtype=torch.bool)
    for i in range(h):
        for j in range(w):
            for k, (a, b) in enumerate(offs):
                inside = 0 <= i + a < h and 0 <= j + b < w
                y = x[i + a, j + b] if inside else torch.zeros(d, dtype=torch.float64)
                D[i, j, k] = ((y - x[i, j]) ** 2).sum()
                out[i, j, k] = not inside
    sig = torch.sqrt(D[:, :, 1:9].min(-1).values / (2 * d))
    for i in range(h):
        for j in range(w):
            for k, (a, b) in enumerate(offs):
                v = sig[i, j] ** 2 + (1.0 if out[i, j, k] else sig[i + a, j + b] ** 2)
                D[i, j, k] = (D[i, j, k] - d * v) / ((2 * d) ** 0.5 * v)
    wt = -D.clamp(min=0)
    lo, hi = 1e-3, 1e3
    for _ in range(80):
        t = (lo * hi) ** 0.5
        if float(torch.softmax(wt[:, :, :9] / t**2, -1)[:, :, 0].mean()) > coeff:
            lo = t
        else:
            hi = t
    wt = wt / t**2
    wt[:, :, 0] += bias
    p = torch.softmax(wt.masked_fill(out, -torch.inf), -1)
    Y = torch.zeros_like(x)
    for i in range(h):
        for j in range(w):
            for k, (a, b) in enumerate(offs):
                if not out[i, j, k]:
                    Y[i, j] += p[i, j, k] * x[i + a, j + b]
    return Y.reshape(X.shape), t


def check_nlpar(ctx, X, Y, scan, op):
    """every denoised pattern is a weighted mean of the patterns in its window"""
    ctx.check(bool(torch.isfinite(Y).all()), "nlpar:not-finite", "")
    h, w = scan
    k = op["k"]
    x, y = X.reshape(len(X), -1), Y.reshape(len(Y), -1)
    for i in range(h):
        for j in range(w):
            win = [a * w + b for a in range(max(0, i - k), min(h, i + k + 1)) for b in range(max(0, j - k), min(w, j + k + 1))]
            A = x[win].T
            s = torch.linalg.svdvals(A)
            if float(s[-1]) < 1e-3 * float(s[0]):
                continue
            p = i * w + j
            wt = torch.linalg.lstsq(A, y[p][:, None]).solution[:, 0]
            res = float((A @ wt - y[p]).abs().max())
            tol = 2e-5 * float(x.abs().max())
            ctx.check(res <= tol, "nlpar:not-a-mean-of-its-window", lambda: f"pattern {i},{j}: residual {res:.2e}")
            slack = 1e-4 * float(s[0]) / float(s[-1]) + 1e-5
            ctx.check(float(wt.min()) > -slack and abs(float(wt.sum()) - 1) < slack, "nlpar:weights", lambda: f"pattern {i},{j}: weights {wt.tolist()}")
            if k == 1:
                own = win.index(p)
                ctx.check(float(wt[own]) >= float(wt.max()) - slack, "nlpar:own-weight", lambda: f"pattern {i},{j}: {wt.tolist()} own {float(wt[own])}")
            ctx.probe("nlpar-window")


def execute(plan, ctx):
    E = seams.repo("ebsdtorch.ebsd.experiment_pats").ExperimentPatterns
    cfg = plan["cfg"]
    x = make(cfg)
    H, W = cfg["hw"]
    n = len(x)
    scan = cfg["scan"]

    def build(p, s=None):
        return E(p.clone().reshape(*(s or [len(p)]), H, W))

    e = build(x, scan)
    for op in plan["ops"]:
        name = op["op"]
        X = e.patterns.clone()
        ctx.check(tuple(X.shape) == (n, H, W), "shape", f"{tuple(X.shape)} for {n} patterns of {H}x{W}")
        if name == "bad":
            must_reject(ctx, lambda: e.normalize_per_pattern(norm_type="no-such"), "bad-accepted")
            if len(scan) != 2:
                must_reject(ctx, lambda: e.do_nlpar(), "nlpar-on-a-line-accepted")
            ctx.check(same_bits(e.patterns, X), "rejected-step-changed-patterns", "")
            continue
        if not allowed(X, op, name):
            continue
        plain = name != "nlpar" or nlpar_ok(X, scan, op["k"])
        if name == "nlpar" and len(scan) != 2:
            continue
        # undisturbed twin, and the states between the parts of a composite step
        tw = build(X, scan)
        states = [X]
        if name == "clean":
            for part, fn in (("bg", tw.subtract_overall_background), ("minmax", tw.normalize_per_pattern), ("clahe", tw.contrast_enhance_clahe), ("minmax", tw.normalize_per_pattern)):
                fn()
                states.append(tw.patterns.clone())
        else:
            run(tw, op, name)
            states.append(tw.patterns.clone())
        failed = False
        if op["fault"] is not None:
            failed = alloc_fault_call(ctx, lambda: run(e, op, name), lambda d=build(X, scan): run(d, op, name), op["fault"], name)
            if failed:
                ctx.nontrivial = True
                now = e.patterns
                k = [same_bits(now, s) for s in states]
                ctx.check(any(k), f"{name}:half-done", lambda: f"after a failed step the patterns are in neither state, {float((now - X).abs().max()) if now.shape == X.shape else tuple(now.shape)}")
                ctx.check(tuple(e.spatial_shape) == tuple(scan) and tuple(e.pattern_shape) == (H, W), f"{name}:shape-record", "")
                # repeat what is left
                if name == "clean":
                    for fn in (e.subtract_overall_background, e.normalize_per_pattern, e.contrast_enhance_clahe, e.normalize_per_pattern)[k.index(True) :]:
                        fn()
                elif k[0]:
                    run(e, op, name)
        else:
            run(e, op, name)
        Y = e.patterns
        ctx.check(same_bits(Y, states[-1]), f"{name}:differs-from-undisturbed", lambda: f"shape {tuple(Y.shape)}, failed {failed}")
        ctx.check(tuple(Y.shape) == (n, H, W), f"{name}:shape", f"{tuple(Y.shape)}")
        Xd, Yd = X.double(), Y.double()
        M = model_step(Xd, op, name)
        if M is not None:
            scale = float(Xd.abs().max()) if name in ("bg", "zeromean") else float(Xd.abs().max()) / (1e-4 + float((Xd.reshape(n, -1).max(1).values - Xd.reshape(n, -1).min(1).values).min())) if name == "minmax" else float(Xd.abs().max()) / float(Xd.reshape(n, -1).std(1).min())
            d = float((Yd - M).abs().max())
            ctx.check(d <= 4e-6 * max(scale, float(M.abs().max())) + 1e-9, f"{name}:wrong", lambda: f"off by {d:.2e}")
            ctx.probe("step-decided")
        elif name == "clahe":
            M = clahe_model(Xd, op["clip"], op["bins"], op["tiles"])
            if M is not None:
                d = float((Yd - M).abs().max())
                ctx.check(d <= 2e-4, "clahe:wrong", lambda: f"off by {d:.2e}")
                ctx.probe("clahe-decided")
            ctx.check(float(Yd.min()) >= -1e-5 and float(Yd.max()) <= 1 + 1e-5, "clahe:range", f"{float(Yd.min())} {float(Yd.max())}")
        elif name == "nlpar" and not plain:
            ctx.check(bool(torch.isfinite(Yd).all()), "nlpar:not-finite", lambda: f"patterns with copies among their neighbours: {scan}")
            soft = False
        elif name == "nlpar":
            check_nlpar(ctx, Xd, Yd, scan, op)
            soft = False
            M, t = nlpar_model(Xd, scan, op["coeff"], op["k"])
            soft = 0.1 < t < 100
            if soft:
                d = float((Yd - M).abs().max())
                ctx.check(d <= 2e-3 * float(Xd.abs().max()), "nlpar:wrong", lambda: f"off by {d:.2e} at {t:.3f}, radius {op['k']}")
                ctx.probe("nlpar-decided")
                if op.get("bias") is not None:
                    nl = seams.repo("ebsdtorch.preprocessing.nlpar")
                    S = X.reshape(*scan, H, W)
                    Z = nl.nlpar(S.clone(), k_rad=op["k"], coeff=op["coeff"], center_logit_bias=op["bias"])
                    ctx.check(tuple(Z.shape) == tuple(S.shape), "nlpar:bias-shape", "")
                    M, _ = nlpar_model(Xd, scan, op["coeff"], op["k"], op["bias"])
                    d = float((Z.double().reshape(M.shape) - M).abs().max())
                    ctx.check(d <= 2e-3 * float(Xd.abs().max()), "nlpar:bias-wrong", lambda: f"off by {d:.2e} with bias {op['bias']}")
        # the other patterns and their order do not matter
        if op["twin"] and n > 1:
            g = torch.Generator()
            g.manual_seed(op["pseed"])
            if name in ("minmax", "zeromean", "standard", "clahe"):
                keep = torch.randperm(n, generator=g)[: 1 + op["pseed"] % n]
                t = build(X[keep])
                run(t, op, name)
                d = float((t.patterns.double() - Yd[keep]).abs().max())
                ctx.check(d <= 1e-5 * max(1.0, float(Yd.abs().max())), f"{name}:depends-on-others", lambda: f"patterns {keep.tolist()} differ by {d:.2e} when processed alone")
                ctx.nontrivial = True
            elif name == "bg":
                keep = torch.randperm(n, generator=g)
                t = build(X[keep])
                run(t, op, name)
                d = float((t.patterns.double() - Yd[keep]).abs().max())
                ctx.check(d <= 1e-5 * max(1e-9, float(Xd.abs().max())), "bg:depends-on-order", f"{d:.2e}")
                ctx.nontrivial = True
            elif name == "nlpar" and soft:
                S = X.reshape(*scan, H, W)
                turn = [lambda z: z.flip(0), lambda z: z.flip(1), lambda z: z.transpose(0, 1)][op["pseed"] % 3]
                t = build(turn(S).contiguous(), list(turn(S).shape[:2]))
                run(t, op, name)
                Z = t.patterns.double()
                R = turn(Yd.reshape(*scan, H, W)).reshape(Z.shape)
                d = float((Z - R).abs().max())
                ctx.check(d <= 2e-3 * float(Xd.abs().max()), "nlpar:depends-on-orientation-of-the-scan", f"{d:.2e}")
                ctx.nontrivial = True
                ctx.probe("nlpar-turned")
        ctx.steps += 1
        ctx.state(name, scan, [H, W], failed)
        ctx.log(name, failed)
        ctx.tensor("p", Y)
