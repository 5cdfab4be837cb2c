"""Seeded histories of calls to numeric functions shared by several callers.

A scenario supplies SPECS: name -> (make, call, judge).  make(op) gives the input
tensors, call(*inputs) runs the real code, judge(ctx, op, inputs, outputs, what)
compares with the reference.  The engine decides the order of calls, batch shapes,
precisions, memory layouts, failing allocations and thread interleavings, and
checks what holds for every function: inputs stay as they were, results stay as
returned, a repeated, a re-laid-out and a single-row call mean the same.
"""
import torch

from .. import seams
from ..common import alloc_fault_call, make_sites, make_switches, must_reject, raise_thread_errors, same_bits

LAYOUTS = ["plain", "plain", "plain", "strided", "slice", "flip", "expand"]
SHAPES = [[], [1], [1, 1], [2], [3], [5], [17], [2, 3], [3, 1], [0], [2, 1, 2], [64]]
STUB = ["allocator", "thread scheduler"]


def gen_op(r, names, shapes=SHAPES):
    return dict(op="call", fn=r.choice(names), seed=r.randrange(2**31), shape=list(r.choice(shapes)), dt=r.choice(["f64", "f64", "f32"]), lay=r.choice(LAYOUTS), fault=round(r.random(), 3) if r.random() < 0.25 else None)


def generate(r, names, n_ops=(3, 12), shapes=SHAPES, bad=(), extra=None):
    mk = lambda: dict(gen_op(r, names, shapes), **(extra(r) if extra else {}))  # noqa: E731
    ops = []
    for _ in range(r.randint(*n_ops)):
        o = mk()
        if bad and r.random() < 0.08:
            o.update(op="bad", what=r.choice(list(bad)))
        ops.append(o)
    threads = []
    if r.random() < 0.4:
        threads = [[mk() for _ in range(r.randint(1, 3))] for _ in range(r.choice([2, 2, 3]))]
        if r.random() < 0.6:  # the same function and the same arrays in several threads
            for t in threads[1:]:
                t[0] = dict(threads[0][0])
    return dict(cfg={}, ops=ops, threads=threads, switches=make_switches(r, max(2, len(threads)), 100 * sum(len(t) for t in threads), r.choice([0, 1, 2, 4, 8, 20])), sites=make_sites(r, max(2, len(threads))))


def dtype(op):
    return torch.float64 if op["dt"] == "f64" else torch.float32


def layout(x, how):
    if not isinstance(x, torch.Tensor) or x.dim() == 0:
        return x
    if how == "strided":
        y = torch.full(x.shape + (2,), 7, dtype=x.dtype)
        y[..., 0] = x
        return y[..., 0]
    if how == "slice":
        return torch.cat([x, x], 0)[: len(x)]
    if how == "flip":
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    if how == "expand" and x.dim() > 1 and len(x) > 1 and bool((x == x[:1]).all()):
        return x[:1].expand(x.shape)
    return x


def outs(y):
    return list(y) if isinstance(y, (tuple, list)) else [y]


def copy_of(xs):
    return [x.clone() if isinstance(x, torch.Tensor) else x for x in xs]


def same(ctx, xs, keep, kind):
    for i, (x, k) in enumerate(zip(xs, keep)):
        if isinstance(x, torch.Tensor):
            ctx.check(same_bits(x, k), kind, f"argument {i}")


def refill(ctx, op, given, spec, name):
    """the caller fills the tensors of an earlier call with other values and calls again"""
    make, call, judge = spec
    op2 = dict(op, seed=(op["seed"] * 48271 + 11) % (2**31 - 1))
    other = make(op2)
    if other is None or op["lay"] == "expand" or len(other) != len(given):
        return
    t = [isinstance(x, torch.Tensor) for x in given]
    if not any(t) or any(isinstance(z, torch.Tensor) != k or (k and (x.shape != z.shape or x.dtype != z.dtype)) for x, z, k in zip(given, other, t)):
        return
    xs = [layout(x.clone(), op["lay"]) if k else x for x, k in zip(given, t)]
    call(*xs)
    for x, z in zip(xs, other):
        if isinstance(x, torch.Tensor):
            x.copy_(z)
    args = [x if k else z for x, z, k in zip(xs, other, t)]
    y = call(*args)
    same(ctx, args, other, f"{name}:refilled:input-modified")
    judge(ctx, op2, copy_of(other), y, f"{name}:refilled")
    ctx.probe("refilled")


def execute(plan, ctx, specs, bad=None):
    kept = []
    events = 0
    for op in plan["ops"]:
        if op["op"] == "bad":
            bad[op["what"]](ctx, op)
            events += 1
            continue
        name = op["fn"]
        make, call, judge = specs[name]
        given = make(op)
        if given is None:
            continue
        xs = [layout(x, op["lay"]) for x in given]
        keep = copy_of(given)
        if op["fault"] is not None:
            # which operation fails must not depend on how far this process has optimised the function
            with torch.jit.optimized_execution(False):
                events += bool(alloc_fault_call(ctx, lambda: call(*xs), lambda: call(*copy_of(given)), op["fault"], name))
            same(ctx, xs, keep, f"{name}:failed:input-modified")
        y = call(*xs)
        same(ctx, xs, keep, f"{name}:input-modified")
        judge(ctx, op, keep, y, name)
        kept.append((name, outs(y), copy_of(outs(y))))
        again = call(*copy_of(keep))
        judge(ctx, op, keep, again, f"{name}:again")
        if op["seed"] % 5 < 2:
            refill(ctx, op, given, specs[name], name)
        # one row by itself
        row = op.get("row", True)
        if row and op["shape"] and op["shape"][0] > 1 and all(not isinstance(x, torch.Tensor) or x.dim() == 0 or len(x) == op["shape"][0] for x in keep):
            i = op["seed"] % op["shape"][0]
            part = [x[i : i + 1].clone() if isinstance(x, torch.Tensor) and x.dim() else x for x in keep]
            judge(ctx, dict(op, shape=[1] + op["shape"][1:]), copy_of(part), call(*part), f"{name}:row-alone")
        ctx.nontrivial = ctx.nontrivial or events > 0 or len(kept) > 1
        ctx.steps += 1
        ctx.state(name, op["shape"], op["dt"], op["lay"], min(events, 3))
        ctx.log(name, op["shape"], op["dt"], op["lay"])
    for name, ys, was in kept:
        same(ctx, ys, was, f"{name}:result-overwritten-later")
    if plan["threads"]:
        jobs, shared = [], {}
        for t in plan["threads"]:
            job = []
            for op in t:
                key = repr(op)
                if key not in shared:
                    g = specs[op["fn"]][0](op)
                    shared[key] = None if g is None else ([layout(x, op["lay"]) for x in g], copy_of(g))
                if shared[key] is not None:
                    job.append((op, *shared[key]))
            jobs.append(job)
        with torch.jit.optimized_execution(False):  # nothing is left to compile (under a lock) while threads run
            for j in jobs:
                for op, xs, keep in j:
                    specs[op["fn"]][1](*copy_of(keep))
        sim = seams.ThreadSim([(lambda j=j: [specs[op["fn"]][1](*xs) for op, xs, _ in j]) for j in jobs], plan["switches"], ctx, sites=plan.get("sites", ()), ops=True)
        res, errs = sim.run()
        raise_thread_errors(errs)
        for j, ys in zip(jobs, res):
            for (op, xs, keep), y in zip(j, ys):
                same(ctx, xs, keep, f"{op['fn']}:threaded:input-modified")
                specs[op["fn"]][2](ctx, op, keep, y, f"{op['fn']}:threaded")
        if sim.n_switches:
            ctx.nontrivial = True


def reject(fn, kind):
    return lambda ctx, op: must_reject(ctx, fn, kind)
