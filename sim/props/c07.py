"""C07 online principal components: invariants after every batch of any history."""
import copy

import torch

from ..common import Reuse
from . import _est

RULE = (
    "one run = one online estimator, a seeded history of batches of varying size (also empty), the float64 reference update replayed from "
    "each observed state, then a stationary replay; non-trivial = at least two non-empty batches"
)
COMPONENTS = {"real": ["ebsdtorch.utils.pca_online", "torch CPU kernels and LAPACK"], "stub": ["torch random stream (seeded per activation)"]}
CFG_MIN = {"d": 1, "k": 1, "dseed": 0, "iseed": 0}


def generate(r, tier):
    cfg = _est.gen_cfg(r, ["kras", "oja", "oja", "oja++", "oja++"])
    cfg["stationary"] = r.random() < 0.4
    ops = [dict(id=j, size=r.choice([0, 1, 1, 2, 4, 9, 20]), rng=r.randrange(2**31)) for j in range(r.randint(1, 14))]
    return dict(cfg=cfg, ops=ops)


def span_error(a, b):
    """Largest distance between the nested column spans of two orthonormal bases."""
    c = (a.T @ b).abs()
    return float((torch.diag(c) - 1).abs().max())


def execute(plan, ctx):
    cfg = plan["cfg"]
    m = _est.build(cfg)
    eps = 6e-8 if cfg["dt"] == "float32" else 1.2e-16
    tol = 3e-4 if cfg["dt"] == "float32" else 1e-10
    d = max(1, cfg["d"])
    k = max(1, min(cfg["k"], d))
    probe = _est.batch(cfg, 9999, 4)
    pool = Reuse()
    period = max(1, k // 2)
    activated = 0
    nonempty = 0
    for t, op in enumerate(plan["ops"], 1):
        x = _est.batch(cfg, op["id"], op["size"])
        nonempty += op["size"] > 0
        B0 = (m.inverse_transform(torch.eye(k, dtype=x.dtype)) if cfg["kind"] == "kras" else m.get_components()).clone().double()
        xin = pool(x) if plan["ops"][0]["rng"] % 5 < 2 else x.clone()
        torch.manual_seed(op["rng"])
        m(xin)
        ctx.check(torch.equal(x, xin), "batch-modified")
        X = x.double()
        if cfg["kind"] == "kras":
            P = torch.linalg.pinv(B0)
            lat = P @ X.T
            alpha = cfg["eta"] / (1 + cfg["eta"] * lat.norm(dim=0))
            ref = B0 + (alpha * (X.T - B0 @ lat)) @ lat.T
            cond0, cond1 = float(torch.linalg.cond(B0)), float(torch.linalg.cond(ref))
            if max(cond0, cond1) > 1e3:
                ctx.probe("ill-conditioned-basis")
                if max(cond0, cond1) > 1e6:
                    return
                continue
            z = m.transform(probe)
            ctx.hold("transform", z)
            C = m.inverse_transform(torch.eye(k, dtype=z.dtype)).double()
            scale = max(1.0, float(ref.abs().max()))
            s = tol * scale * max(cond0, cond1) ** 2
            ctx.check(float((C - ref).abs().max()) <= s, "update-rule", lambda: f"batch {t}: error {float((C - ref).abs().max()):.2e} tol {s:.2e}")
            back = m.transform(m.inverse_transform(torch.eye(k, dtype=z.dtype)).T)
            e = float((back.double() - torch.eye(k)).abs().max())
            ctx.check(e <= tol * max(cond0, cond1) ** 2, "transform-not-inverse", lambda: f"batch {t}: {e:.2e}")
            # the reported components: an orthonormal basis of the same space, the strongest direction first
            G = m.get_components().double()
            ctx.check(tuple(G.shape) == (d, k), "components:shape", f"{tuple(G.shape)}")
            e = float((G.T @ G - torch.eye(k, dtype=G.dtype)).abs().max())
            ctx.check(e <= tol * max(cond0, cond1), "components:not-orthonormal", lambda: f"batch {t}: {e:.2e}")
            e = float((G @ (G.T @ C) - C).abs().max())
            ctx.check(e <= tol * scale * max(cond0, cond1) ** 2, "components:other-space", lambda: f"batch {t}: {e:.2e}")
            st = (C.T @ G).norm(dim=0)
            ctx.check(bool((st[:-1] - st[1:] >= -tol * scale * max(cond0, cond1) ** 2).all()), "components:order", lambda: f"batch {t}: {st.tolist()}")
            proj = C @ torch.linalg.pinv(C) @ probe.double().T
            e = float((m.inverse_transform(z).double() - proj).abs().max())
            ctx.check(e <= tol * scale * max(cond0, cond1) ** 2, "not-projection", lambda: f"batch {t}: {e:.2e}")
        else:
            Y = B0 + cfg["eta"] * (X.T @ (X @ B0))
            sv = torch.linalg.svdvals(Y)
            Qr = torch.linalg.qr(Y)[0]
            R = torch.linalg.qr(Y)[1]
            cond = float(sv[0] / sv[-1].clamp_min(1e-300)) if sv.numel() else 1.0
            act = cfg["kind"] == "oja++" and t % period == 0 and activated < k
            col = activated if act else None
            activated += act
            Q = m.get_components().clone()
            ctx.check(tuple(Q.shape) == (d, k), "shape")
            ctx.check(bool(torch.isfinite(Q).all()), "not-finite")
            Qd = Q.double()
            keep = [j for j in range(k) if j != col]
            if keep:
                G = Qd[:, keep].T @ Qd[:, keep]
                e = float((G - torch.eye(len(keep), dtype=G.dtype)).abs().max())
                ctx.check(e <= 100 * tol if cfg["dt"] != "float32" else e <= 1e-4, "not-orthonormal", lambda: f"batch {t}: {e:.2e}")
                # each column depends on the conditioning of the ones before it
                if cond < 2e3:
                    e = span_error(Qr[:, keep], Qd[:, keep])
                    ctx.check(e <= tol * cond * 3, "update-rule", lambda: f"batch {t} size {op['size']}: column mismatch {e:.2e} cond {cond:.1e}")
                else:
                    ctx.probe("ill-conditioned-basis")
            if act and d > 1:
                ctx.probe("column-activated")
                c = Qd[:, col]
                ctx.check(float((c - Qr[:, col]).abs().max()) > 1e-6 and float((c + Qr[:, col]).abs().max()) > 1e-6, "column-not-activated", f"batch {t} column {col}")
            z = m.transform(probe)
            ctx.hold("transform", z)
            e = float((m.inverse_transform(z).double() - probe.double() @ Qd @ Qd.T).abs().max())
            ctx.check(e <= tol * max(1.0, float(Qd.abs().max())) ** 2 * d * 10, "transform-inverse", lambda: f"batch {t}: {e:.2e}")
        ctx.steps += 1
        ctx.state(cfg["kind"], min(op["size"], 3), min(t, 6), k, cfg["eta"], cfg["dt"])
    ctx.nontrivial = nonempty >= 2
    if cfg["stationary"] and cfg["kind"] == "oja" and d > k:
        x = _est.batch(cfg, 777, 40)
        S = x.double().T @ x.double()
        lam, V = torch.linalg.eigh(S)
        lam, V = lam.flip(0), V.flip(1)
        ratio = (1 + cfg["eta"] * lam[k]) / (1 + cfg["eta"] * lam[k - 1])
        if float(ratio) < 0.85:
            for _ in range(220):
                m(x)
            Q = m.get_components().double()
            e = float((V[:, :k] - Q @ (Q.T @ V[:, :k])).norm())
            ctx.check(e < 2e-3, "does-not-converge", f"residual {e:.2e} ratio {float(ratio):.3f}")
            ctx.probe("stationary-convergence")
            ctx.steps += 220
    for o in _est.outputs(cfg, m, probe):
        ctx.tensor("out", o)
