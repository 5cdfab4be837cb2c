"""Float64 spherical harmonics and rotation-group reference by plain recursions and sums (no code of the repository)."""
import functools
import math

import torch

PI = math.pi


@functools.lru_cache(maxsize=None)
def ylm(L):
    """(2L-1, L, 2L): orthonormal Y_lm at the polar angles of the grid, longitude 0"""
    ph = PI * (2 * torch.arange(2 * L, dtype=torch.float64) + 1) / (4 * L)
    x, sn = torch.cos(ph), torch.sin(ph)
    Y = torch.zeros(2 * L - 1, L, 2 * L, dtype=torch.float64)
    pmm = torch.full_like(x, math.sqrt(1 / (4 * PI)))
    for m in range(L):
        if m:
            pmm = -math.sqrt((2 * m + 1) / (2 * m)) * sn * pmm
        a, b = torch.zeros_like(x), pmm
        for l in range(m, L):
            Y[m + L - 1, l] = b
            if m:
                Y[L - 1 - m, l] = (-1) ** m * b
            c = math.sqrt((4 * (l + 1) ** 2 - 1) / ((l + 1) ** 2 - m * m))
            d = math.sqrt((l * l - m * m) / (4 * l * l - 1)) if l > m else 0.0
            a, b = b, c * (x * b - d * a)
    return Y.to(torch.complex128)


@functools.lru_cache(maxsize=None)
def _exp(L):
    m = torch.arange(-(L - 1), L, dtype=torch.float64)
    th = PI * torch.arange(2 * L, dtype=torch.float64) / L
    return torch.exp(1j * m[:, None] * th[None])


@functools.lru_cache(maxsize=None)
def _weights(L):
    ph = PI * (2 * torch.arange(2 * L, dtype=torch.float64) + 1) / (4 * L)
    p = 2 * torch.arange(L, dtype=torch.float64) + 1
    return ((2 / L) * torch.sin(ph) * (torch.sin(p[None] * ph[:, None]) / p[None]).sum(1) * PI / L).to(torch.complex128)


def valid(L):
    return torch.arange(-(L - 1), L)[:, None].abs() <= torch.arange(L)[None]


def synth(P):
    """coefficients (b, 2L-1, L) to values (b, 2L longitude, 2L polar)"""
    L = P.shape[2]
    P = P.to(torch.complex128) * valid(L)
    return torch.einsum("bmj,mt->btj", torch.einsum("bml,mlj->bmj", P, ylm(L)), _exp(L))


def anal(f):
    L = f.shape[1] // 2
    h = torch.einsum("btj,mt->bmj", f.to(torch.complex128), _exp(L).conj()) * _weights(L)
    return torch.einsum("bmj,mlj->bml", h, ylm(L))


def full(P):
    """non-negative orders of a real signal to all orders"""
    L = P.shape[2]
    m = torch.arange(L - 1, 0, -1)
    neg = P[:, 1:].flip(1).conj() * ((-1.0) ** m)[None, :, None]
    return torch.cat([neg, P], 1)


@functools.lru_cache(maxsize=None)
def wig(l):
    """d^l_mn(pi/2), explicit sum, (2l+1, 2l+1) indexed m+l, n+l"""
    f = math.factorial
    d = torch.zeros(2 * l + 1, 2 * l + 1, dtype=torch.float64)
    for m in range(-l, l + 1):
        for n in range(-l, l + 1):
            s = 0
            for k in range(max(0, n - m), min(l + n, l - m) + 1):
                s += (-1) ** (m - n + k) * math.comb(l + n, k) * math.comb(l - n, l - m - k)
            d[m + l, n + l] = s * math.sqrt(f(l + m) * f(l - m) / (f(l + n) * f(l - n))) / 2**l
    return d


def corr(f, g):
    """sum over l, m, k, n of f_lm conj(g_ln) d_mk d_kn exp(2 pi i (m a + k b + n c) / (2L - 1)); coefficients of all orders"""
    L = f.shape[2]
    f, g = torch.broadcast_tensors(f.to(torch.complex128), g.to(torch.complex128))
    T = torch.zeros(f.shape[0], 2 * L - 1, 2 * L - 1, 2 * L - 1, dtype=torch.complex128)
    for l in range(L):
        s = slice(L - 1 - l, L + l)
        d = wig(l).T.to(torch.complex128)  # the convention of the table
        T[:, s, s, s] += torch.einsum("bm,mk,kn,bn->bmkn", f[:, s, l], d, d, g[:, s, l].conj())
    m = torch.arange(-(L - 1), L, dtype=torch.float64)
    e = torch.exp(2j * PI * m[:, None] * torch.arange(2 * L - 1, dtype=torch.float64)[None] / (2 * L - 1))
    return torch.einsum("bmkn,ma,kc,nd->bacd", T, e, e, e)
