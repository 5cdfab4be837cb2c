"""Reference for rotations in float64: every representation from and to a quaternion."""
import math

import torch

PI = math.pi
K = (PI / 6) ** (1 / 6)


def qmul(a, b):
    w1, x1, y1, z1 = a.unbind(-1)
    w2, x2, y2, z2 = b.unbind(-1)
    return torch.stack(
        [w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2, w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2], -1
    )


def to_matrix(q):
    w, x, y, z = (q / q.norm(dim=-1, keepdim=True)).unbind(-1)
    return torch.stack(
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], -1
    ).reshape(q.shape[:-1] + (3, 3))


def angle(q):
    """rotation angle in [0, pi]"""
    q = q / q.norm(dim=-1, keepdim=True)
    return 2 * torch.atan2(q[..., 1:].norm(dim=-1), q[..., 0].abs())


def axis(q):
    """unit axis of the rotation by angle(q); z for none"""
    q = torch.where(q[..., :1] < 0, -q, q)
    n = q[..., 1:].norm(dim=-1, keepdim=True)
    z = torch.zeros_like(q[..., 1:])
    z[..., 2] = 1
    return torch.where(n > 0, q[..., 1:] / n.clamp(min=1e-300), z)


def ho_radius(t):
    # (3/4 (t - sin t))^(1/3), the difference by its series near zero
    small = t < 0.1
    s = t**3 * (1 / 6 - t**2 / 120 + t**4 / 5040 - t**6 / 362880)
    return (0.75 * torch.where(small, s, t - torch.sin(t))) ** (1 / 3)


def ho_angle(h):
    lo, hi = torch.zeros_like(h), torch.full_like(h, PI)
    for _ in range(70):
        m = (lo + hi) / 2
        low = ho_radius(m) < h
        lo, hi = torch.where(low, m, lo), torch.where(low, hi, m)
    return (lo + hi) / 2


def cu_to_ho(c):
    """Rosca, Morawiec and De Graef 2014: cube of edge pi^(2/3) to the ball of the same volume"""
    o = c.abs().argsort(dim=-1, stable=True)
    v = c.gather(-1, o)
    s, m, b = (v.abs() * K).unbind(-1)
    t = torch.where(m > 0, s / m.clamp(min=1e-300), torch.zeros_like(s)) * PI / 12
    f = 2**0.25 * m / ((PI / 6) ** 0.5 * torch.sqrt(2**0.5 - torch.cos(t)))
    x, y = f * 2**0.5 * torch.sin(t), f * (2**0.5 * torch.cos(t) - 1)
    r2 = x * x + y * y
    bb = b.clamp(min=1e-300)
    g = torch.sqrt((1 - PI * r2 / (24 * bb * bb)).clamp(min=0))
    z = (6 / PI) ** 0.5 * b - (PI / 24) ** 0.5 * r2 / bb
    h = torch.zeros_like(c).scatter(-1, o, torch.stack([x * g, y * g, z], -1))
    h = torch.where(c.abs().amax(-1, keepdim=True) > 0, h, torch.zeros_like(h))
    return h.abs() * torch.where(c < 0, -1.0, 1.0)


def from_ho(h):
    n = h.norm(dim=-1, keepdim=True)
    t = ho_angle(n[..., 0].clamp(max=ho_radius(torch.tensor(PI, dtype=torch.float64))))
    u = torch.where(n > 0, h / n.clamp(min=1e-300), torch.zeros_like(h))
    return torch.cat([torch.cos(t / 2)[..., None], u * torch.sin(t / 2)[..., None]], -1)


def from_matrix(m):
    k = torch.stack(
        [
            m[..., 0, 0] - m[..., 1, 1] - m[..., 2, 2], m[..., 1, 0] + m[..., 0, 1], m[..., 2, 0] + m[..., 0, 2], m[..., 2, 1] - m[..., 1, 2],
            m[..., 1, 0] + m[..., 0, 1], m[..., 1, 1] - m[..., 0, 0] - m[..., 2, 2], m[..., 2, 1] + m[..., 1, 2], m[..., 0, 2] - m[..., 2, 0],
            m[..., 2, 0] + m[..., 0, 2], m[..., 2, 1] + m[..., 1, 2], m[..., 2, 2] - m[..., 0, 0] - m[..., 1, 1], m[..., 1, 0] - m[..., 0, 1],
            m[..., 2, 1] - m[..., 1, 2], m[..., 0, 2] - m[..., 2, 0], m[..., 1, 0] - m[..., 0, 1], m[..., 0, 0] + m[..., 1, 1] + m[..., 2, 2],
        ], -1,
    ).reshape(m.shape[:-2] + (4, 4)) / 3
    if m.shape[:-2].numel() == 0:
        return torch.zeros(m.shape[:-2] + (4,), dtype=m.dtype)
    v = torch.linalg.eigh(k).eigenvectors[..., -1]
    return torch.cat([v[..., 3:], v[..., :3]], -1)


def to_q(rep, x):
    """rotation of a value in one of the representations"""
    if rep == "qu":
        return x / x.norm(dim=-1, keepdim=True)
    if rep == "om":
        return from_matrix(x)
    if rep == "ax":
        return torch.cat([torch.cos(x[..., 3:] / 2), x[..., :3] * torch.sin(x[..., 3:] / 2)], -1)
    if rep == "ro":
        t = 2 * torch.atan(x[..., 3:])
        return torch.cat([torch.cos(t / 2), x[..., :3] * torch.sin(t / 2)], -1)
    if rep == "ho":
        return from_ho(x)
    if rep == "cu":
        return from_ho(cu_to_ho(x))
    if rep == "bu":
        s, d = (x[..., 0] + x[..., 2]) / 2, (x[..., 0] - x[..., 2]) / 2
        c, n = torch.cos(x[..., 1] / 2), torch.sin(x[..., 1] / 2)
        return torch.stack([c * torch.cos(s), -n * torch.cos(d), -n * torch.sin(d), -c * torch.sin(s)], -1)
    if rep == "zh":
        a, b = x[..., :3], x[..., 3:]
        e1 = a / a.norm(dim=-1, keepdim=True)
        e2 = b - (e1 * b).sum(-1, keepdim=True) * e1
        e2 = e2 / e2.norm(dim=-1, keepdim=True)
        return from_matrix(torch.stack([e1, e2, torch.linalg.cross(e1, e2)], -2))
    raise AssertionError(rep)


def from_q(rep, q):
    """one value of a representation for a rotation (float64)"""
    q = q / q.norm(dim=-1, keepdim=True)
    q = torch.where(q[..., :1] < 0, -q, q)
    t, n = angle(q), axis(q)
    if rep == "qu":
        return q
    if rep == "om":
        return to_matrix(q)
    if rep == "ax":
        return torch.cat([n, t[..., None]], -1)
    if rep == "ro":
        tn = torch.where(q[..., 0] <= 0, torch.full_like(t, math.inf), q[..., 1:].norm(dim=-1) / q[..., 0].clamp(min=1e-300))
        return torch.cat([n, tn[..., None]], -1)
    if rep == "ho":
        return n * ho_radius(t)[..., None]
    if rep == "cu":
        return ho_to_cu(n * ho_radius(t)[..., None])
    if rep == "bu":
        w, x, y, z = q.unbind(-1)
        P = 2 * torch.atan2(torch.hypot(x, y), torch.hypot(w, z))
        s, d = torch.atan2(-z, w), torch.atan2(-y, -x)
        gimbal1 = torch.hypot(x, y) == 0
        gimbal2 = torch.hypot(w, z) == 0
        s, d = torch.where(gimbal2, d, s), torch.where(gimbal1, s, d)
        return torch.stack([(s + d).remainder(2 * PI), P, (s - d).remainder(2 * PI)], -1)
    if rep == "zh":
        return to_matrix(q)[..., :2, :].reshape(q.shape[:-1] + (6,))
    raise AssertionError(rep)


def ho_to_cu(h):
    """inverse of cu_to_ho (the same paper)"""
    o = h.abs().argsort(dim=-1, stable=True)
    v = h.gather(-1, o)
    x3, y3, z3 = v.abs().unbind(-1)
    r = h.norm(dim=-1)
    g = torch.sqrt(2 * r / (r + z3).clamp(min=1e-300))
    x2, y2 = x3 * g, y3 * g
    q = 2 * y2 * y2 + x2 * x2
    n2 = x2 * x2 + y2 * y2
    f = (PI / 6) ** 0.5 / 2**0.5 * torch.sqrt((x2 * x2 + y2 * (torch.sqrt(q) + 2 * y2)).clamp(min=0))
    # sqrt2 sin t / (sqrt2 cos t - 1) = x2 / y2 solved for t
    t = torch.where(n2 > 0, torch.atan2(x2 * (torch.sqrt(q) - y2), x2 * x2 + y2 * torch.sqrt(q)), torch.zeros_like(n2))
    x1 = f * 12 / PI * t
    c = torch.zeros_like(h).scatter(-1, o, torch.stack([torch.where(x2 > 0, x1, torch.zeros_like(x1)), f, (PI / 6) ** 0.5 * r], -1)) / K
    return c.abs() * torch.where(h < 0, -1.0, 1.0)


def apart(p, q):
    """angle between two rotations, accurate for small ones too"""
    p, q = p / p.norm(dim=-1, keepdim=True), q / q.norm(dim=-1, keepdim=True)
    d = torch.minimum((p - q).norm(dim=-1), (p + q).norm(dim=-1))
    return 4 * torch.asin((d / 2).clamp(max=1))


def rotations(seed, shape):
    """a mixture of ordinary and border rotations"""
    g = torch.Generator()
    g.manual_seed(seed & 0x7FFFFFFF)
    n = 1
    for s in shape:
        n *= s
    out = []
    dirs = torch.tensor([[a, b, c] for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1) if (a, b, c) != (0, 0, 0)], dtype=torch.float64)
    for _ in range(n):
        k = int(torch.randint(0, 12, (1,), generator=g))
        u = torch.randn(3, generator=g, dtype=torch.float64)
        if int(torch.randint(0, 3, (1,), generator=g)) == 0:
            u = dirs[int(torch.randint(0, len(dirs), (1,), generator=g))]
        u = u / u.norm()
        if int(torch.randint(0, 6, (1,), generator=g)) == 0:  # close to a coordinate plane
            u = u.clone()
            i = int(torch.randint(0, 3, (1,), generator=g))
            u[i] *= 0.0 if k % 2 and abs(float(u[i])) < 0.999 else 1e-6
            u = u / u.norm()
        e = 10.0 ** -float(torch.randint(1, 9, (1,), generator=g))
        t = (
            0.0 if k == 0 else e if k in (1, 2) else PI if k == 3 else PI - e if k == 4 else PI * int(torch.randint(1, 6, (1,), generator=g)) / 6 if k == 5 else PI / 2 if k == 6
            else PI * float(torch.rand(1, generator=g))
        )
        q = torch.cat([torch.tensor([math.cos(t / 2)], dtype=torch.float64), u * math.sin(t / 2)])
        if t == PI:
            q[0] = 0.0
        out.append(q)
    if not out:
        return torch.zeros(tuple(shape) + (4,), dtype=torch.float64)
    return torch.stack(out).reshape(tuple(shape) + (4,))
