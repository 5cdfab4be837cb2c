"""Helpers shared by the scenarios."""
import copy
import math

import torch

from . import seams
from .core import MARK, PlanInvalid, SimFault, Violation, is_sim_fault

CPU = torch.device("cpu")


def gen(seed):
    g = torch.Generator()
    g.manual_seed(int(seed) & 0x7FFFFFFF)
    return g


def data(seed, shape, kind="normal", dtype=torch.float64):
    """Deterministic test data of one of several shapes of difficulty."""
    g = gen(seed)
    shape = tuple(shape)
    if kind == "ints":  # exactly representable everywhere, sums stay small
        x = torch.randint(-3, 4, shape, generator=g).to(dtype)
    elif kind == "dups":  # many exact duplicates and ties
        x = torch.randint(-1, 2, shape, generator=g).to(dtype)
    elif kind == "equal":
        x = torch.ones(shape, dtype=dtype) * float(torch.randint(-2, 3, (1,), generator=g))
    elif kind == "big":
        x = torch.randn(shape, generator=g, dtype=torch.float64) * 100.0
    elif kind == "small":
        x = torch.randn(shape, generator=g, dtype=torch.float64) * 1e-3
    elif kind == "positive":
        x = torch.rand(shape, generator=g, dtype=torch.float64)
    elif kind == "negative":
        x = -torch.rand(shape, generator=g, dtype=torch.float64) - 0.05
    else:
        x = torch.randn(shape, generator=g, dtype=torch.float64)
    return x.to(dtype)


def alloc_fault_call(ctx, fn, dry, frac, label):
    """Run fn() with one allocation failing.

    dry() performs the same call on a throw-away copy of the state and tells how
    many allocations the call makes; frac in [0,1) selects which one fails.
    Returns True if the call failed with the injected fault, False if it
    completed.  Anything else it raises is the caller's business.
    """
    dry_run = seams.dry_allocs(dry)
    if dry_run.n_alloc == 0:
        fn()
        return False
    m = seams.FaultMode(fail_at=dry_run.pick(frac))
    try:
        with m:
            fn()
    except Exception as e:  # noqa: BLE001
        if m.fired is None:  # (TorchScript may drop the message of the injected error)
            raise
        ctx.fault("alloc-failure")
        ctx.state("fault", label, m.fired)
        ctx.log("fault", label, m.fired)
        return True
    if m.fired is not None:
        # the call reported success although an allocation inside it failed
        ctx.probe("fault-absorbed")
    return False


def must_reject(ctx, fn, kind, detail=""):
    """fn() is invalid use and has to raise."""
    try:
        fn()
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        ctx.probe("rejected")
        ctx.fault("invalid-call")
        return e
    raise Violation(kind, detail)


def raise_thread_errors(errors):
    for e in errors:
        if e is not None:
            raise e


def same_bits(a, b):
    if a is None or b is None:
        return a is b
    return a.shape == b.shape and a.dtype == b.dtype and torch.equal(
        torch.nan_to_num(a.double(), nan=1.2345e300), torch.nan_to_num(b.double(), nan=1.2345e300)
    )


def make_switches(r, n_threads, est_steps, k=None):
    k = k if k is not None else r.choice([0, 1, 2, 3, 5, 8, 20])
    return sorted([r.randint(1, max(2, est_steps)), r.randrange(n_threads)] for _ in range(k))


def make_sites(r, n_threads):
    """Preemptions at a source line (see ThreadSim)."""
    return [[r.randrange(n_threads), r.choice([5, 20, 60]), r.randrange(60), r.choice([0, 0, 0, 1, 1, 2, 5]), r.randrange(n_threads)] for _ in range(r.choice([0, 1, 1, 2, 3]))]


def close(a, b, atol, rtol=0.0):
    return bool(torch.all((a - b).abs() <= atol + rtol * b.abs()))


class Reuse:
    """a caller that keeps its tensors and fills them with new values, one per shape, type and memory layout"""

    def __init__(self):
        self.kept = {}

    def __call__(self, x):
        key = (tuple(x.shape), x.dtype, x.stride())
        t = self.kept.get(key)
        if t is None:
            t = self.kept[key] = torch.empty_strided(tuple(x.shape), x.stride(), dtype=x.dtype)
        t.copy_(x)
        return t
