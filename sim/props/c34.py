"""C34 scattering factors: three parametrisations against their defining formulas, in every batch, precision, layout, history, failure and thread."""
import math

import torch

from .. import seams
from . import _kern

RULE = (
    "one run = a seeded history of 3-10 scattering factor calls (Weickenmeier-Kohl, hybrid, Lobato-Van Dyck; 1-3 voltages, elements and 1-8 angles including zero, core and phonon parts on and off, both conventions, atoms at rest, numbers or tensors), "
    "exponential integrals, Simpson sums, wavelengths and fits, with precisions and layouts changing, failing allocations, and two to three threads sharing arrays; factors are compared entry by entry with the double precision formulas, fits with "
    "each other and the Coulomb limit; non-trivial = a call after another call, failure or preemption"
)
COMPONENTS = {
    "real": ["ebsdtorch.crystallography.scattering_factors.*", "TorchScript interpreter", "torch CPU kernels", "real Python threads, one released at a time"],
    "stub": _kern.STUB,
}
SF = "ebsdtorch.crystallography.scattering_factors.scattering_factors_"
MODULES = [SF + "WK", SF + "Hybrid", SF + "LVD_TCB"]
DEEP_SHRINK = True
F64 = torch.float64
PI = math.pi


def K():
    return seams.repo(SF + "WK")


def Hy():
    return seams.repo(SF + "Hybrid")


def L():
    return seams.repo(SF + "LVD_TCB")


# reference: exponential integrals by series and continued fraction


def e1(y):
    """E1 of positive numbers, double precision"""
    small = y.clamp(max=1.0)
    s, term = torch.zeros_like(y), torch.ones_like(y)
    for k in range(1, 30):
        term = -term * small / k
        s = s - term / k
    series = s - torch.log(small) - 0.57721566490153286061
    big = y.clamp(min=1.0)
    cf = big + 401.0
    for k in range(200, 0, -1):
        cf = big + (2 * k - 1) - k * k / cf
    return torch.where(y <= 1, series, torch.exp(-big) / cf)


def ei_scaled(x):
    """exp(-x) Ei(x) of positive numbers, double precision"""
    small = x.clamp(max=40.0)
    s, term = torch.zeros_like(x), torch.ones_like(x)
    for k in range(1, 200):
        term = term * small / k
        s = s + term / k
    series = (s + torch.log(small) + 0.57721566490153286061) * torch.exp(-small)
    big = x.clamp(min=40.0)
    a, t = torch.zeros_like(x), 1 / big
    for k in range(1, 40):
        a, t = a + t, t * k / big
    return torch.where(x <= 40, series, a)


def phonon(G, A, B, M, eps):
    """absorptive part of one element for every G (Weickenmeier-Kohl equations 15 and 18-21) and the error a computation with machine precision eps and a table of large arguments may have"""
    if M == 0:
        return torch.zeros_like(G), torch.zeros_like(G)
    A, B = A.double() * (4 * PI) ** 2, B.double() / (4 * PI) ** 2
    zero = G == 0
    g2 = torch.where(zero, torch.ones_like(G), G) ** 2
    ab = (A[:, None] * A[None, :])[..., None]  # every ordered pair
    p, q = B[:, None, None].expand(4, 4, 1), B[None, :, None].expand(4, 4, 1)
    lim1 = PI * (p * torch.log((p + q) / p) + q * torch.log((p + q) / q))
    lim2 = PI * ((p + 2 * M) * torch.log((p + q + 2 * M) / (p + 2 * M)) + q * torch.log((p + q + 2 * M) / (q + 2 * M)) + 2 * M * torch.log(2 * M / (q + 2 * M)))
    pm, qm, pq = p + M, q + M, p + q + 2 * M
    m2 = M * g2.expand(4, 4, -1)
    y = e1(torch.stack([p * q * g2 / (p + q), m2 * pm / (p + 2 * M), m2 * qm / (q + 2 * M), pm * qm * g2 / pq, 0.5 * m2]))
    one = [torch.full_like(m2, 2 * 0.57721566490153286061), torch.log(p * g2), torch.log(q * g2), 2 * y[0]]
    two = [-2 * y[1], -2 * y[2], 2 * y[3], 2 * y[4]]
    pairs = [
        (p * g2, p * p * g2 / (p + q), p * g2), (q * g2, q * q * g2 / (p + q), q * g2), (m2, 0.5 * m2, M * m2 / (p + 2 * M)), (m2, 0.5 * m2, M * m2 / (q + 2 * M)),
        (pm * g2, pm * pm * g2 / pq, pm * pm * g2 / (p + 2 * M)), (qm * g2, qm * qm * g2 / pq, qm * qm * g2 / (q + 2 * M)),
    ]
    x1, x2, x3 = (torch.stack([t[k] for t in pairs]) for k in range(3))
    near = torch.exp(torch.stack([x2, x3]) - x1) * ei_scaled(torch.stack([x2, x3]))  # exp(-x1) Ei(x)
    diff = near[0] - near[1]
    far = (near * (torch.stack([x2, x3]) > 19.9)).sum((0, 1))
    rel = (near.abs() * x1).sum((0, 1))
    s1, s2 = sum(one) + diff[:2].sum(0), sum(two) + diff[2:].sum(0)
    size = sum(t.abs() for t in one) + sum(t.abs() for t in two) + near.abs().sum((0, 1))
    dw = torch.exp(-m2)
    v = PI / g2 * (dw * s1 - s2)
    e = PI / g2 * (1e-4 * far + 8 * eps * (size + rel + m2 * dw * s1.abs()))
    v0, e0 = lim1 - lim2, 8 * eps * (lim1.abs() + lim2.abs() + PI * (p + q))
    return (ab * torch.where(zero, v0, v)).sum((0, 1)), (ab.abs() * torch.where(zero, e0, e)).sum((0, 1))


def core(G, Z, kv, k0, eps):
    a0 = 0.5289
    theta = 6e-3 * Z / (2 * kv) * (2 * kv + 1022) / (kv + 1022)
    R = 0.885 * a0 / Z ** (1 / 3)
    ta = 1 / (k0 * R)
    o = G / k0 / ta
    k = theta / ta
    k2, o2 = k * k, o * o
    x1 = o / ((1 + o2) * torch.sqrt(o2 + 4 * k2)) * torch.log((o + torch.sqrt(o2 + 4 * k2)) / (2 * k))
    r = torch.sqrt((1 + o2) ** 2 + 4 * k2 * o2)
    x2 = torch.log((1 + 2 * k2 + o2 + r) / (2 * k * math.sqrt(1 + k2))) / r
    c = 2 * math.sqrt(1 + k2)
    os = torch.where(o > 0, o, torch.ones_like(o))
    x3 = torch.where(o > 0, torch.asinh(os / c) / (os * torch.sqrt(o2 + c * c)), torch.full_like(o, 1 / c**2))
    pre = 4 / (a0 * a0) * 2 * PI / (k0 * k0) * 2 * Z / (ta * ta)
    # small angles are replaced by the value at zero below 1e-2
    return pre * (x2 - x1 - x3), pre * ((40 * eps + 1e-6) * (x1 + x2 + x3) + 1e-4 * x3 * (o <= 0.0101))


def wk_real(S, A, B, eps):
    A, B = A.double(), B.double()
    x = B * S[:, None] ** 2
    f = A * torch.where(x > 0, -torch.expm1(-x) / torch.where(x > 0, S[:, None] ** 2, torch.ones_like(x)), B.expand_as(x))
    # below 0.1 the series ends with its second term
    tol = (A * B).abs() * torch.where(x < 0.101, x * x / 6, torch.zeros_like(x)) + f.abs() * (1e-8 + 20 * eps / x.clamp(min=0.1).clamp(max=1))
    return f.sum(-1), tol.sum(-1)


def lvd_real(s, fit):
    """value at the angles s, fit (10,), and size of the terms it is the sum of"""
    fit = fit.double()
    g2 = (2 * s[..., None]) ** 2
    t = fit[:5] * (2 + fit[5:] * g2) / (1 + fit[5:] * g2) ** 2
    return t.sum(-1), t.abs().sum(-1)


def lam(ev):
    return 12.2642596 / torch.sqrt(ev * (1 + 9.7847589066012e-07 * ev))


# arguments


def rng(op, k=0):
    return torch.Generator().manual_seed((op["seed"] * 11 + k) & 0x7FFFFFFF)


def pick(op, k, options):
    return options[int(torch.randint(0, len(options), (), generator=rng(op, k)))]


def uni(op, k, n, lo, hi):
    return lo + (hi - lo) * torch.rand(n, generator=rng(op, k), dtype=F64)


def physics(op, top=6.0):
    t = _kern.dtype(op)
    nv, nz, ng = pick(op, 1, [1, 1, 2, 3]), pick(op, 2, [1, 1, 2, 3]), pick(op, 3, [1, 2, 3, 3, 5, 8])
    g = torch.exp(uni(op, 4, ng, math.log(0.05), math.log(top)))
    g = torch.where(torch.rand(ng, generator=rng(op, 5)) < 0.25, torch.zeros_like(g), g)
    if pick(op, 6, [0, 0, 0, 1]):
        g = g[torch.randint(0, ng, (ng,), generator=rng(op, 7))]
    z = torch.randint(1, 99, (nz,), generator=rng(op, 8))
    if pick(op, 9, [0, 0, 0, 1]):
        z[0] = pick(op, 10, [1, 2, 98])
    s = uni(op, 11, nz, 0.02, 0.3)
    if pick(op, 12, [0, 0, 0, 0, 0, 1]):
        s[-1] = 0.0
    v = uni(op, 13, nv, 1.0, 40.0) if pick(op, 14, [0, 0, 1]) == 0 else uni(op, 13, nv, 60.0, 300.0)
    how = pick(op, 15, ["tensor", "tensor", "number"])
    if how == "number":
        return [g.to(t), int(z[0]), float(s[0].to(t)), float(v[0].to(t))]
    return [g.to(t), z, s.to(t), v.to(t)]


def flags(op):
    return [pick(op, 16, [True, True, False]), pick(op, 17, [True, True, True, False]), pick(op, 18, ["EMsoft", "EMsoft", "EMsoft", "EMsoft", "ITC"])]


def listed(x, dtype):
    return torch.atleast_1d(torch.as_tensor(x, dtype=dtype))


def judge_factor(kind):
    def judge(ctx, op, keep, y, what):
        g0 = keep[0]
        inc_core, inc_phonon, ret = keep[4:7]
        G, Z, S, V = g0.double(), listed(keep[1], torch.int64), listed(keep[2], F64), listed(keep[3], F64)
        eps = 1.2e-7 if g0.dtype == torch.float32 else 2.3e-16
        itc = ret == "ITC"
        shape = (1 if itc else len(V), len(Z), len(G))
        ctx.check(tuple(y.shape) == shape, f"{what}:shape", lambda: f"{tuple(y.shape)} instead of {shape}")
        want_dtype = g0.dtype if itc else (torch.complex64 if g0.dtype == torch.float32 else torch.complex128)
        ctx.check(y.dtype == want_dtype, f"{what}:dtype", str(y.dtype))
        ctx.check(bool(torch.isfinite(torch.view_as_real(y) if y.is_complex() else y).all()), f"{what}:not-finite", lambda: f"Z {Z.tolist()} angles {g0.tolist()} sigma {S.tolist()}")
        twopi = kind == "hybrid" or itc  # the angle comes without 2 pi
        q, s = (2 * PI * G, G / 2) if twopi else (G, G / (4 * PI))
        A, B = K().wk_A_param, K().wk_B_param
        for iz, z in enumerate(Z.tolist()):
            if kind == "WK":
                real, rt = wk_real(s, A[z - 1], B[z - 1], eps)
            else:
                real, rt = lvd_real(s, Hy().fit_LVD[z - 1])
                rt = rt * 40 * eps
            if itc:
                d = (y[0, iz].double() - real).abs()
                ctx.check(bool((d <= rt).all()), f"{what}:real", lambda: f"Z {z} angle {G[d > rt][0]}: {y[0, iz][d > rt][0]} instead of {real[d > rt][0]}")
                continue
            M = 0.5 * float(S[iz]) ** 2
            dw = torch.exp(-M * q * q)
            ph, pt = phonon(q, A[z - 1], B[z - 1], M, eps) if inc_phonon else (torch.zeros_like(q),) * 2
            for iv, kv in enumerate(V.tolist()):
                k0 = 2 * PI / float(lam(torch.tensor(1000 * kv, dtype=F64)))
                gamma = (kv + 511) / 511
                c, ct = core(q, z, kv, k0, eps) if inc_core else (torch.zeros_like(q),) * 2
                im = (c * dw + ph) * gamma**2 / (4 * PI * k0)
                it = (ct * dw + pt) * gamma**2 / (4 * PI * k0) + 5e-4 * im.abs() + (c * dw * M * q * q).abs() * 8 * eps  # wave number as 0.5068 sqrt(..)
                re = real * dw * gamma
                rtol = rt * dw * gamma + re.abs() * (8 * eps * (1 + M * q * q))
                got = y[iv, iz].to(torch.complex128)
                d = (got.real - re).abs()
                ctx.check(bool((d <= rtol).all()), f"{what}:real", lambda: f"{kv} kV Z {z} angle {G[d > rtol][0]}: {got.real[d > rtol][0]} instead of {re[d > rtol][0]}")
                d = (got.imag - (im.clamp(min=0) if kind == "hybrid" else im)).abs()
                if kind != "hybrid":
                    d = torch.minimum(d, (got.imag - im.clamp(min=0)).abs())  # no amplification, where that is left out
                ctx.check(
                    bool((d <= it).all()), f"{what}:imaginary", lambda: f"{kv} kV Z {z} sigma {float(S[iz])} angle {G[d > it][0]}: {got.imag[d > it][0]} instead of {im[d > it][0]}, core {inc_core}, phonon {inc_phonon}"
                )

    return judge


# Lobato-Van Dyck by quadrature


def lvd_args(op):
    g, z, s, v = physics(op, 4.0)
    return [g[:3], z if isinstance(z, int) else z[:2], s if isinstance(s, float) else s[:2], v, pick(op, 20, [8, 9, 16, 31, 40]), pick(op, 21, ["logspace", "logspace", "linspace"]), pick(op, 18, ["EMsoft"] * 4 + ["ITC"])]


def call_lvd(g, z, s, v, n, how, ret):
    return L().scatter_factor_LVD(g, z, s, v, intervals=n, interval_range=(0.0, 1e4 if how == "logspace" else 12.0), sampling_type=how, return_type=ret)


def simpson(y, x):
    """integral of the parabolas through three points each; a last odd interval takes the parabola of the last three"""
    n = len(x)
    total = torch.zeros(y.shape[:-1], dtype=F64)
    size = torch.zeros(y.shape[:-1], dtype=F64)

    def part(i, lo, hi):
        nonlocal total, size
        a, b, c = x[i], x[i + 1], x[i + 2]
        for j, (p, q, r) in enumerate(((a, b, c), (b, a, c), (c, a, b))):
            # integral of (t - q)(t - r) about lo
            u, w, h = lo - q, lo - r, hi - lo
            t = y[..., i + j] * (u * w * h + (u + w) * h * h / 2 + h**3 / 3) / ((p - q) * (p - r))
            total = total + t
            size = size + t.abs()

    m = (n - 1) // 2 * 2
    for i in range(0, m, 2):
        part(i, x[i], x[i + 2])
    if m < n - 1:
        part(n - 3, x[n - 2], x[n - 1])
    return total, size


def judge_lvd(ctx, op, keep, y, what):
    g0, Z, S, V, n, how, ret = keep
    G, Z, S, V = g0.double(), listed(Z, torch.int64), listed(S, F64), listed(V, F64)
    f32 = g0.dtype == torch.float32
    eps = 1.2e-7 if f32 else 2.3e-16
    itc = ret == "ITC"
    shape = (1 if itc else len(V), len(Z), len(G))
    ctx.check(tuple(y.shape) == shape, f"{what}:shape", lambda: f"{tuple(y.shape)} instead of {shape}")
    ctx.check(bool(torch.isfinite(torch.view_as_real(y) if y.is_complex() else y).all()), f"{what}:not-finite")
    s = G / 2
    if how == "linspace":
        x = torch.linspace(0, 12.0, n + 1 + n % 2, dtype=F64)
    else:
        x = torch.cat([torch.zeros(1, dtype=F64), torch.exp(torch.linspace(math.log(1e-4), math.log(1e4), n - n % 2, dtype=F64))])
    sx, sy = torch.meshgrid(x, x, indexing="ij")
    for iz, z in enumerate(Z.tolist()):
        fit = L().fit_LVD[z - 1]
        real, rt = lvd_real(s, fit)
        B = 8 * PI**2 * float(S[iz]) ** 2
        dw = torch.exp(-B * s * s)
        if itc:
            ctx.check(bool(((y[0, iz].double() - real).abs() <= 40 * eps * rt).all()), f"{what}:real", lambda: f"Z {z}")
            continue
        for ig in range(len(G)):
            u = s[ig]
            (f1, m1), (f2, m2) = lvd_real(torch.sqrt((u / 2 + sx) ** 2 + sy**2), fit), lvd_real(torch.sqrt((u / 2 - sx) ** 2 + sy**2), fit)
            f, m = f1 * f2, m1 * m2
            w = sx**2 + sy**2 - u * u / 4
            e = f * -torch.expm1(-2 * B * w)
            val = simpson(simpson(e, x)[0], x)[0]
            size = simpson(simpson(m * torch.expm1(-2 * B * w), x)[1], x)[1]
            err = simpson(simpson(m * torch.exp(-2 * B * w), x)[1], x)[1]  # rounding of the one from which the exponential is taken
            for iv, kv in enumerate(V.tolist()):
                gamma = 1 + kv * 1.9569511835738734e-03
                k0 = 2 * PI / float(lam(torch.tensor(1000 * kv, dtype=F64)))
                got = y[iv, iz, ig].to(torch.complex128)
                want = real[ig] * dw[ig] * gamma
                ctx.check(bool((got.real - want).abs() <= want.abs() * 1e-7 + rt[ig] * dw[ig] * gamma * 60 * eps * (1 + B * s[ig] ** 2)), f"{what}:real", lambda: f"{kv} kV Z {z} angle {G[ig]}: {got.real} instead of {want}")
                pre = 16 * PI * dw[ig] * gamma**2 / k0
                d = torch.minimum((got.imag - pre * val).abs(), (got.imag - (pre * val).clamp(min=0)).abs())
                tol = pre * ((3e-4 if f32 else 1e-10) * size + 60 * eps * err) + 1e-6 * (pre * val).abs()
                ctx.check(bool(d <= tol), f"{what}:imaginary", lambda: f"{kv} kV Z {z} sigma {float(S[iz])} angle {G[ig]}: {got.imag} instead of {pre * val}, {n} intervals {how}")


# the three against each other and the tabulated limits


def agree_args(op):
    g, z, s, v = physics(dict(op, dt="f64"), 2.0)
    z = listed(z, torch.int64)[:2]
    return [g[:3], z, torch.full((len(z),), float(uni(op, 22, 1, 0.05, 0.15)), dtype=F64), float(listed(v, F64)[0])]


def call_agree(g, z, s, v):
    a = K().scatter_factor_WK(2 * PI * g, z, s, v, include_core=False)
    b = Hy().scatter_factor_hybrid(g, z, s, v, include_core=False)
    c = L().scatter_factor_LVD(g, z, s, v, intervals=240)
    itc = [f(t, z, s, v, return_type="ITC") for f in (K().scatter_factor_WK, Hy().scatter_factor_hybrid, L().scatter_factor_LVD) for t in (g, torch.tensor([40.0], dtype=F64))]
    zero = Hy().scatter_factor_hybrid(torch.zeros(1, dtype=F64), z, s, v, include_core=False)
    return [a, b, c, zero, *itc]


def judge_agree(ctx, op, keep, y, what):
    g, z, s, v = keep
    a, b, c, zero = y[:4]
    top = zero.imag
    ctx.check(bool(((a.imag - b.imag).abs() <= 2e-3 * top).all()), f"{what}:phonon:WK-hybrid", lambda: f"Z {z.tolist()} angles {g.tolist()}")
    ctx.check(bool(((c.imag - b.imag).abs() <= 0.04 * top).all()), f"{what}:phonon:LVD-hybrid", lambda: f"Z {z.tolist()} angles {g.tolist()}: {c.imag.tolist()} and {b.imag.tolist()}")
    ctx.check(bool(((c.real - b.real).abs() <= 1e-5 * b.real).all()), f"{what}:real:LVD-hybrid")
    ctx.check(bool(((a.real - b.real).abs() <= 0.15 * b.real).all()), f"{what}:real:WK-hybrid", lambda: f"Z {z.tolist()} angles {g.tolist()}: {a.real.tolist()} and {b.real.tolist()}")
    ctx.check(bool((b.real <= zero.real * 1.001).all()), f"{what}:grows")
    coulomb = 0.0239337 * z.double() / 400  # Z / (8 pi^2 a0 s^2), s = 20
    for k, t in (("WK", y[5]), ("hybrid", y[7]), ("LVD", y[9])):
        ctx.check(bool(((t[0, :, 0] / coulomb - 1).abs() < 0.03).all()), f"{what}:limit:{k}", lambda: f"Z {z.tolist()}: {(t[0, :, 0] / coulomb).tolist()} of the Coulomb limit")


# parts


def numbers(op):
    n = tuple(op["shape"]) or (1,)  # compiled indexing by a mask takes no scalars
    x = torch.exp(uni(op, 30, n, math.log(1e-6), math.log(600.0)))
    k = torch.randint(0, 8, n, generator=rng(op, 31))
    edge = torch.tensor([1.0, 6.0, 10.0, 20.0, 0.372507410781366634, 1.0000001, 0.45, 0.28], dtype=F64)[torch.randint(0, 8, n, generator=rng(op, 32))]
    x = torch.where(k == 0, edge, torch.where(k == 1, torch.zeros_like(x), x))
    return [x.clamp(max=80.0).to(_kern.dtype(op)) if op["dt"] == "f32" else x]


def signed(op):
    x = numbers(op)[0]
    return [torch.where(torch.rand(x.shape, generator=rng(op, 33)) < 0.4, -x, x)]


def judge_e1(ctx, op, keep, y, what):
    x = keep[0].double()
    e = 1.2e-7 if y.dtype == torch.float32 else 2.3e-16
    ctx.check(y.dtype == keep[0].dtype and y.shape == x.shape, f"{what}:shape")
    ctx.check(bool((y[x == 0] == math.inf).all()), f"{what}:at-zero")
    w = e1(x.clamp(min=1e-300))
    bad = (x > 0) & ((y.double() - w).abs() > w * e * (40 + 4 * x) + 1e-37)
    ctx.check(not bool(bad.any()), f"{what}:value", lambda: f"E1({x[bad][0]}) = {y[bad][0]} instead of {w[bad][0]}")


def judge_ei(ctx, op, keep, y, what):
    x = keep[0].double()
    e = 1.2e-7 if y.dtype == torch.float32 else 2.3e-16
    ctx.check(y.dtype == keep[0].dtype and y.shape == x.shape, f"{what}:shape")
    ctx.check(bool((y[x == 0] == -math.inf).all()), f"{what}:at-zero")
    a = x.abs().clamp(min=1e-300)
    pos = ei_scaled(a) * torch.exp(a)
    w = torch.where(x > 0, pos, -e1(a))
    tol = w.abs() * e * (40 + 4 * a) + torch.where((x > 0) & (x < 2), torch.full_like(a, 40 * e), torch.full_like(a, 1e-37))
    bad = (x != 0) & ~((y.double() - w).abs() <= tol)
    ctx.check(not bool(bad.any()), f"{what}:value", lambda: f"Ei({x[bad][0]}) = {y[bad][0]} instead of {w[bad][0]}")


def simpson_args(op):
    n = pick(op, 40, [k for k in (3, 4, 5, 6, 7, 10, 33) if k not in op["shape"][:1]])  # (the engine takes rows of arrays of one length)
    x = torch.cumsum(uni(op, 41, n, 0.05, 1.0), 0) - float(uni(op, 42, 1, 0, 3))
    if pick(op, 43, [0, 0, 1]):
        x = torch.linspace(-1, 2, n, dtype=F64)
    y = torch.randn(tuple(op["shape"]) + (n,), generator=rng(op, 44), dtype=F64)
    return [y.to(_kern.dtype(op)), x.to(_kern.dtype(op))]


def judge_simpson(ctx, op, keep, y, what):
    want, size = simpson(keep[0].double(), keep[1].double())
    ctx.check(tuple(y.shape) == tuple(want.shape), f"{what}:shape")
    e = 1.2e-7 if y.dtype == torch.float32 else 2.3e-16
    gap = (keep[1][1:] - keep[1][:-1]).double()
    bad = ~((y.double() - want).abs() <= 200 * e * size * (gap.max() / gap.min()))
    ctx.check(not bool(bad.any()), f"{what}:value", lambda: f"{len(keep[1])} points: {y[bad][0]} instead of {want[bad][0]}")


def volts(op):
    return [torch.exp(uni(op, 50, tuple(op["shape"]), math.log(10.0), math.log(1e6))).to(_kern.dtype(op))]


def judge_lambda(ctx, op, keep, y, what):
    w = lam(keep[0].double())
    ctx.check(y.dtype == keep[0].dtype and y.shape == w.shape, f"{what}:shape")
    ctx.check(bool(((y.double() / w - 1).abs() < (4e-6 if y.dtype == torch.float32 else 1e-6)).all()), f"{what}:value", lambda: f"{keep[0].flatten()[:2].tolist()} eV: {y.flatten()[:2].tolist()}")


def fit_args(op):
    n = tuple(op["shape"])
    return [torch.randint(1, 99, n, generator=rng(op, 60)), uni(op, 61, n, 0, 4).to(_kern.dtype(op))]


def judge_fit(ctx, op, keep, y, what):
    z, s = keep
    ctx.check(tuple(y.shape) == tuple(z.shape) and y.dtype == s.dtype, f"{what}:shape")
    fit = L().fit_LVD.double()[z - 1]
    g2 = (2 * s.double()[..., None]) ** 2
    w = (fit[..., :5] * (2 + fit[..., 5:] * g2) / (1 + fit[..., 5:] * g2) ** 2)
    bad = ~((y.double() - w.sum(-1)).abs() <= w.abs().sum(-1) * (3e-6 if y.dtype == torch.float32 else 1e-13))
    ctx.check(not bool(bad.any()), f"{what}:value", lambda: f"Z {z[bad][0]} s {s[bad][0]}: {y[bad][0]} instead of {w.sum(-1)[bad][0]}")


SPECS = {
    "WK": (lambda op: physics(op, 30.0) + flags(op), lambda g, z, s, v, c, p, r: K().scatter_factor_WK(g, z, s, v, include_core=c, include_phonon=p, return_type=r), judge_factor("WK")),
    "hybrid": (lambda op: physics(op) + flags(op), lambda g, z, s, v, c, p, r: Hy().scatter_factor_hybrid(g, z, s, v, include_core=c, include_phonon=p, return_type=r), judge_factor("hybrid")),
    "LVD": (lvd_args, call_lvd, judge_lvd),
    "agreement": (agree_args, call_agree, judge_agree),
    "exp1:WK": (numbers, lambda x: K().exp1(x), judge_e1),
    "expi:WK": (signed, lambda x: K().expi(x), judge_ei),
    "exp1:hybrid": (numbers, lambda x: Hy().exp1(x), judge_e1),
    "expi:hybrid": (signed, lambda x: Hy().expi(x), judge_ei),
    "simpson": (simpson_args, lambda y, x: L().simpson_composite(y, x), judge_simpson),
    "wavelength": (volts, lambda e: [m().e_wavelength_eV_to_A(e) for m in (K, Hy, L)], lambda ctx, op, keep, y, what: [judge_lambda(ctx, op, keep, t, f"{what}:{i}") for i, t in enumerate(y)]),
    "fit": (fit_args, lambda z, s: [m().eval_LVD_fit(z, s) for m in (Hy, L)], lambda ctx, op, keep, y, what: [judge_fit(ctx, op, keep, t, f"{what}:{i}") for i, t in enumerate(y)]),
}
NAMES = ["WK", "WK", "WK", "hybrid", "hybrid", "hybrid", "LVD", "agreement"] + list(SPECS)[4:]


def tables():
    return [K().wk_A_param, K().wk_B_param, Hy().wk_A_param, Hy().wk_B_param, Hy().fit_LVD, L().fit_LVD]


def generate(r, tier):
    return _kern.generate(r, NAMES, n_ops=(3, 10))


def execute(plan, ctx):
    was = [t.clone() for t in tables()]
    for a, b in ((0, 2), (1, 3), (4, 5)):
        ctx.check(torch.equal(was[a], was[b]), "tables:differ")
    _kern.execute(plan, ctx, SPECS)
    for t, w in zip(tables(), was):
        ctx.check(torch.equal(t, w), "tables:modified")
