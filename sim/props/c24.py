"""C24 geometry: coordinates depend on parameters and options only, not on how they were reached."""
import copy
import math

import torch

from .. import seams
from ..common import alloc_fault_call, data, make_sites, make_switches, must_reject, raise_thread_errors, same_bits

RULE = (
    "one run = one detector geometry and a seeded history of option changes (also rejected ones), training steps, restores, precision changes and "
    "failing reads; every read is compared with a float64 reference of the current parameters; non-trivial = at least one option change or training step between two reads"
)
MODULES = ["ebsdtorch.ebsd.geometry", "ebsdtorch.lie_algebra.se3"]
COMPONENTS = {"real": ["ebsdtorch.ebsd.geometry", "ebsdtorch.lie_algebra.se3", "torch autograd"], "stub": ["allocator verdict of a chosen torch op", "thread scheduler"]}


def generate(r, tier):
    b3 = lambda: [r.random() < 0.5 for _ in range(3)]  # noqa: E731
    cfg = dict(
        H=r.choice([4, 6, 12]), W=r.choice([4, 6, 10]), sx=r.choice([0.0, 0.0, 5.0, -3.0]), sy=r.choice([70.0, 60.0, 0.0]), dt=r.choice([0.0, 5.0, -10.0]),
        pc=[round(r.uniform(0.2, 0.8), 3) for _ in range(3)], vec=r.choice([None, [round(r.uniform(-0.3, 0.3), 4) for _ in range(6)], [0.0] * 6, [1e-6] * 6]),
        rots=b3(), shifts=b3(),
    )
    ops = []
    for _ in range(r.randint(2, 12)):
        a = r.choice(["read", "read", "read", "opt", "opt", "train", "train", "bad", "restore", "adopt", "project", "project", "freeze", "centre", "side", "side"])
        o = dict(op=a, seed=r.randrange(2**31))
        if a == "read":
            o.update(bin=[r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 5])], fault=round(r.random(), 4) if r.random() < 0.3 else None)
        elif a == "side":
            jobs = [[r.choice([0, 1, 1]), r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 5]), r.randrange(2**31)] for _ in range(r.choice([2, 2, 3]))]
            if r.random() < 0.6:  # the same request, for other pixels
                jobs = [jobs[0][:3] + j[3:] for j in jobs]
            o.update(jobs=jobs, switches=make_switches(r, len(jobs), 40, r.choice([0, 1, 2, 4, 8])), sites=make_sites(r, len(jobs)))
        elif a == "adopt":
            # the state of another geometry, taken over by this one
            o["cfg"] = dict(
                cfg, sx=r.choice([0.0, 4.0]), sy=r.choice([70.0, 55.0]), dt=r.choice([0.0, 8.0]), pc=[round(r.uniform(0.2, 0.8), 3) for _ in range(3)],
                vec=[round(r.uniform(-0.3, 0.3), 4) for _ in range(6)], rots=r.choice([[False] * 3, [False] * 3, b3()]), shifts=r.choice([[False] * 3, [False] * 3, b3()]),
            )
        elif a == "opt":
            o.update(rots=r.choice([None, b3()]), shifts=r.choice([None, b3()]))
        elif a == "train":
            o["lr"] = r.choice([1e-3, 1e-2, 5e-2])
        elif a == "bad":
            o.update(rots=r.choice([None, b3()]), what=r.choice(["len", "len", "binning"]), fault=round(r.random(), 4))
        elif a == "project":
            o.update(n=r.choice([1, 2, 5]), lead=r.choice([0, 0, 1, 3]), scale=r.choice([1.0, 0.4, 2.5]), scan=r.random() < 0.5)
        ops.append(o)
    return dict(cfg=cfg, ops=ops)


def expm(vec):
    """SE(3) exponential by scaling and squaring of the 4x4 generator, float64."""
    w, t = vec[:3], vec[3:]
    A = torch.zeros(4, 4, dtype=torch.float64)
    A[0, 1], A[0, 2], A[1, 0], A[1, 2], A[2, 0], A[2, 1] = -w[2], w[1], w[2], -w[0], -w[1], w[0]
    A[:3, 3] = t
    return torch.linalg.matrix_exp(A)


class Model:
    def __init__(self, cfg):
        a, s = math.radians(cfg["dt"] - cfg["sy"]), math.radians(cfg["sx"])
        H, W = cfg["H"], cfg["W"]
        px, py, pz = cfg["pc"]
        self.H, self.W = H, W
        sa, ca, ss, cs = math.sin(a), math.cos(a), math.sin(s), math.cos(s)
        R = torch.tensor([[-sa, -ss * ca, cs * ca], [0, cs, ss], [-ca, ss * sa, -sa * cs]], dtype=torch.float64)
        # detector point of the pattern centre, in pixels from the centre of pixel (0, 0)
        u, v, d = py * H - 0.5, px * W - 0.5, pz * H
        t = torch.tensor([v * ss * ca + u * sa + d * cs * ca, -v * cs + d * ss, -v * ss * sa + u * ca - d * sa * cs], dtype=torch.float64)
        self.T = torch.eye(4, dtype=torch.float64)
        self.T[:3, :3], self.T[:3, 3] = R, t
        self.vec = torch.tensor(cfg["vec"] if cfg["vec"] is not None else [0.0] * 6, dtype=torch.float64)
        self.mask = [bool(x) for x in list(cfg["rots"]) + list(cfg["shifts"])]

    def transform(self):
        return self.T @ expm(self.vec * torch.tensor(self.mask, dtype=torch.float64))

    def pixels(self, b):
        i = torch.arange(self.H // b[0], dtype=torch.float64) * b[0] + (b[0] - 1) / 2
        j = torch.arange(self.W // b[1], dtype=torch.float64) * b[1] + (b[1] - 1) / 2
        return torch.stack(torch.meshgrid(i, j, indexing="ij"), -1).reshape(-1, 2)

    def project(self, pix):
        M = self.transform()
        p = torch.cat([pix, torch.zeros_like(pix[..., :1])], -1)
        return p @ M[:3, :3].T + M[:3, 3]


def execute(plan, ctx):
    cfg = dict(plan["cfg"])
    G = seams.repo("ebsdtorch.ebsd.geometry").EBSDGeometry

    def make(cfg=cfg):
        return G(
            (cfg["H"], cfg["W"]), tilts_degrees=(cfg["sx"], cfg["sy"], cfg["dt"]), proj_center=tuple(cfg["pc"]),
            se3_vector=None if cfg["vec"] is None else torch.tensor(cfg["vec"]), opt_rots=tuple(cfg["rots"]), opt_shifts=tuple(cfg["shifts"]),
        )

    g, ref = make(), Model(cfg)
    scale = 3.0 * max(cfg["H"], cfg["W"]) + 3
    tol = 2e-5 * scale
    changed = reads = 0

    def read(b):
        c = g.get_coords_sample_frame((b[0], b[1]))
        ctx.hold("coords", c)
        want = ref.project(ref.pixels(b))
        ctx.check(tuple(c.shape) == tuple(want.shape), "shape", f"{tuple(c.shape)} for binning {b}")
        e = float((c.detach().double() - want).abs().max())
        ctx.check(e <= tol, "coordinates", lambda: f"error {e:.3e} tol {tol:.1e} binning {b} mask {ref.mask} vec {ref.vec.tolist()}")
        ctx.check(bool(c.requires_grad) == any(ref.mask), "trainability", f"requires_grad {c.requires_grad} mask {ref.mask}")
        return c

    for op in plan["ops"]:
        a = op["op"]
        if a == "read":
            b = [op["bin"][0] if cfg["H"] % op["bin"][0] == 0 else 1, op["bin"][1] if cfg["W"] % op["bin"][1] == 0 else 1]
            if op["fault"] is not None:
                trial = copy.deepcopy(g)
                alloc_fault_call(ctx, lambda: g.get_coords_sample_frame(tuple(b)), lambda: trial.get_coords_sample_frame(tuple(b)), op["fault"], "read")
            ctx.tensor("c", read(b))
            reads += 1
            ctx.nontrivial |= reads > 1 and changed > 0
            ctx.state("read", tuple(b), tuple(ref.mask), changed > 0)
        elif a == "opt":
            g.set_optimizable_se3_params(opt_rots=tuple(op["rots"]) if op["rots"] is not None else None, opt_shifts=tuple(op["shifts"]) if op["shifts"] is not None else None)
            if op["rots"] is not None:
                ref.mask[:3] = [bool(x) for x in op["rots"]]
            if op["shifts"] is not None:
                ref.mask[3:] = [bool(x) for x in op["shifts"]]
            changed += 1
            read([1, 1])
        elif a == "train":
            c = g.get_coords_sample_frame((1, 1))
            if not any(ref.mask):
                ctx.check(not c.requires_grad, "trainability", "frozen geometry requires grad")
                continue
            ps = list(g.parameters())
            for p in ps:
                p.grad = None
            target = data(op["seed"], c.shape, "normal", torch.float32)
            ((c - target) ** 2).mean().backward()
            gr = torch.cat([p.grad.reshape(-1) for p in ps if p.grad is not None]).double()
            ctx.check(gr.numel() == 6, "gradient-missing", f"{gr.numel()} gradient entries, mask {ref.mask}")
            ctx.check(bool(torch.isfinite(gr).all()), "gradient-not-finite", f"{gr.tolist()} at {ref.vec.tolist()}")
            ctx.check(bool((gr[[not x for x in ref.mask]] == 0).all()), "frozen-component-gradient", f"{gr.tolist()} mask {ref.mask}")
            # the gradient agrees with central differences of the reference
            num = torch.zeros(6, dtype=torch.float64)
            pix = ref.pixels([1, 1])
            for i in range(6):
                if ref.mask[i]:
                    v0, hh = ref.vec.clone(), 1e-5
                    f = []
                    for s in (1, -1):
                        ref.vec = v0.clone()
                        ref.vec[i] += s * hh
                        f.append(float(((ref.project(pix) - target.double()) ** 2).mean()))
                    ref.vec = v0
                    num[i] = (f[0] - f[1]) / (2 * hh)
            e = float((gr - num).abs().max())
            ctx.check(e <= 3e-3 * (1 + float(num.abs().max())) + 2e-4 * scale * scale, "gradient", lambda: f"{gr.tolist()} vs {num.tolist()}")
            with torch.no_grad():
                for p in ps:
                    if p.grad is not None:
                        p -= (op["lr"] * p.grad / (1 + p.grad.norm())).to(p.dtype)
            ref.vec = ps[0].detach().reshape(-1).double().clone()
            changed += 1
            ctx.probe("training-step")
        elif a == "freeze":
            g.set_optimizable_se3_params(opt_rots=(False,) * 3, opt_shifts=(False,) * 3)
            ref.mask = [False] * 6
            changed += 1
        elif a == "bad":
            before = {k: v.clone() for k, v in g.state_dict().items()}
            if op["what"] == "len":
                must_reject(ctx, lambda: g.set_optimizable_se3_params(opt_rots=tuple(op["rots"]) if op["rots"] else None, opt_shifts=(True, False)), "accepted-malformed-options")
            else:
                must_reject(ctx, lambda: g.get_coords_sample_frame((cfg["H"] + 1, 1)), "accepted-uneven-binning")
            trial = copy.deepcopy(g)
            new = tuple(not x for x in ref.mask)
            call = lambda o: o.set_optimizable_se3_params(opt_rots=new[:3], opt_shifts=new[3:])  # noqa: E731
            if alloc_fault_call(ctx, lambda: call(g), lambda: call(trial), op["fault"], "opt"):
                ctx.check(all(same_bits(v, before[k]) for k, v in g.state_dict().items()), "failed-option-change-changed-state")
            else:
                ref.mask = list(new)
            read([1, 1])
        elif a == "restore":
            sd = {k: v.clone() for k, v in g.state_dict().items()}
            g = make()
            g.set_optimizable_se3_params(opt_rots=(False,) * 3, opt_shifts=(False,) * 3)
            g.load_state_dict(sd)
            ctx.fault("restart")
            read([1, 1])
        elif a == "adopt":
            new = dict(op["cfg"], H=cfg["H"], W=cfg["W"])
            read([1, 1])
            g.load_state_dict({k: v.clone() for k, v in make(new).state_dict().items()})
            ref = Model(new)
            ctx.fault("restart-from-another-state")
            changed += 1
            read([1, 1])
            if any(ref.mask):
                # and back to a pose nobody tunes
                g.set_optimizable_se3_params(opt_rots=(False,) * 3, opt_shifts=(False,) * 3)
                ref.mask = [False] * 6
                read([1, 1])
        elif a == "centre":
            # the pose as pattern centre and tilts: a geometry made from them is in the same place
            R, t = g.get_detector2sample()
            fr = seams.repo("ebsdtorch.ebsd.geometry").bruker_geometry_from_SE3
            if any(ref.mask[:3]) and bool((ref.vec[:3] != 0).any()):
                continue  # a tuned rotation has no pattern centre
            pc, dt, sx = fr(R.detach(), t.detach(), (cfg["H"], cfg["W"]))
            again = Model(dict(H=cfg["H"], W=cfg["W"], sx=float(sx.reshape(())), sy=0.0, dt=float(dt.reshape(())), pc=[float(v) for v in pc.reshape(3)], vec=None, rots=[False] * 3, shifts=[False] * 3))
            e = float((again.project(again.pixels([1, 1])) - ref.project(ref.pixels([1, 1]))).abs().max())
            ctx.check(e <= 10 * tol, "pattern-centre", lambda: f"centre {pc.tolist()} tilts {float(dt):.4f} {float(sx):.4f}: off by {e:.3e} pixels")
            ctx.probe("pattern-centre")
        elif a == "side":
            # one geometry read from several threads at once
            jobs, want = [], []
            for kind, bh, bw, seed in op["jobs"]:
                if kind == 0:
                    b = (bh if cfg["H"] % bh == 0 else 1, bw if cfg["W"] % bw == 0 else 1)
                    jobs.append(lambda b=b: g.get_coords_sample_frame(b))
                    want.append(ref.project(ref.pixels(b)))
                else:
                    pix = data(seed, (bh, 2), "positive", torch.float32) * torch.tensor([float(cfg["H"]), float(cfg["W"])])
                    jobs.append(lambda pix=pix: g.project2sample(pix))
                    want.append(ref.project(pix.double()))
            ts = seams.ThreadSim(jobs, op["switches"], ctx, sites=op["sites"])
            res, errs = ts.run()
            raise_thread_errors(errs)
            for c, w in zip(res, want):
                ctx.check(tuple(c.shape) == tuple(w.shape), "threaded:shape", f"{tuple(c.shape)}")
                e = float((c.detach().double() - w).abs().max())
                ctx.check(e <= tol, "threaded:coordinates", lambda: f"error {e:.3e} tol {tol:.1e}")
            if ts.n_switches:
                ctx.nontrivial = True
        elif a == "project":
            lead = (op["lead"],) if op["lead"] else ()
            pix = data(op["seed"], lead + (op["n"], 2), "positive", torch.float32) * torch.tensor([float(cfg["H"]), float(cfg["W"])])
            scan = data(op["seed"] + 1, lead + (op["n"], 2), "normal", torch.float32) if op["scan"] else None
            p0 = pix.clone()
            out = g.project2sample(pix, scan).detach()
            ctx.hold("project", out)
            want = ref.project(pix.double())
            if scan is not None:
                want[..., :2] -= scan.double()
            ctx.check(tuple(out.shape) == tuple(want.shape), "projection-shape", lambda: f"{tuple(out.shape)} for {tuple(pix.shape)} pixels, scan {op['scan']}")
            e = float((out.double() - want).abs().max())
            ctx.check(e <= tol, "projection", lambda: f"error {e:.2e} scan {op['scan']}")
            # only the direction of a ray counts
            back = g.backproject2detector(out * op["scale"], scan).detach()
            ctx.check(tuple(back.shape) in (tuple(pix.shape), (1,) + tuple(pix.shape)), "backprojection-shape", lambda: f"{tuple(back.shape)} for {tuple(pix.shape)}")
            back = back.reshape(pix.shape)
            M = ref.transform()
            n = M[:3, 2]
            # well conditioned only if the rays are not nearly parallel to the detector
            o = torch.zeros(1, 3, dtype=torch.float64) if scan is None else torch.cat([scan.double(), torch.zeros_like(scan[..., :1]).double()], -1)
            dist = ((o - M[:3, 3]) @ n).abs()
            if float(dist.min()) > 0.15 * max(cfg["H"], cfg["W"]):
                e = float((back - pix).abs().max())
                ctx.check(e <= 1e-3 * scale, "backprojection", lambda: f"error {e:.2e} scan {op['scan']}")
                ctx.probe("round-trip")
            ctx.check(torch.equal(pix, p0), "coordinates-modified")
            if op["seed"] % 2:
                # the caller fills its tensors with other values
                pix2, ray = pix.clone(), out.clone()
                g.project2sample(pix2, scan)
                g.backproject2detector(ray, scan)
                pix2.copy_(pix.flip(-2) * 0.5 + 1.0)
                want = ref.project(pix2.double())
                if scan is not None:
                    want[..., :2] -= scan.double()
                e = float((g.project2sample(pix2, scan).detach().double() - want).abs().max())
                ctx.check(e <= tol, "projection:refilled", lambda: f"error {e:.2e}")
                ray.copy_(want)
                if float(dist.min()) > 0.15 * max(cfg["H"], cfg["W"]):
                    e = float((g.backproject2detector(ray, scan).detach().reshape(pix.shape) - pix2).abs().max())
                    ctx.check(e <= 1e-3 * scale, "backprojection:refilled", lambda: f"error {e:.2e}")
        ctx.log(a)
        ctx.steps += 1
    read([1, 1])
