"""Core of the simulator: seeded plans, run context, shrinking.

One integer (VERIF_SEED) plus the property id plus the run number decides a run
completely.  A *plan* is a JSON value holding everything that happens in the
run: configuration, operation list, schedule (chunking, arrival order, thread
switches), RNG streams and faults.  execute(plan) is a pure function of the
plan and of the code in /repo.
"""
import copy
import hashlib
import json
import math
import random
import time as _time


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """The simulator itself is at fault."""


class PlanInvalid(Exception):
    """A shrunk plan no longer makes sense; never a failure."""


class SimFault(RuntimeError):
    """An injected failure (allocation failure, device error...)."""


MARK = "simulated-fault"


def is_sim_fault(exc):
    """True if exc was caused by an injected fault (TorchScript re-wraps it)."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if isinstance(exc, (SimFault,)) or MARK in str(exc):
            return True
        exc = exc.__cause__ or exc.__context__
    return False


def run_rng(seed, prop, idx):
    h = hashlib.sha256(f"{seed}/{prop}/{idx}".encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def digest(obj):
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, separators=(",", ":")).encode()
    ).hexdigest()[:16]


class Ctx:
    """Everything one run reports. Logging draws no randomness, reads no clock."""

    def __init__(self, keep_log=False):
        self._h = hashlib.sha256()
        self.n_events = 0
        self.keep_log = keep_log
        self.log_lines = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = False
        self.held = []

    def log(self, *items):
        line = " ".join(str(i) for i in items)
        self._h.update(line.encode() + b"\n")
        self.n_events += 1
        if self.keep_log:
            self.log_lines.append(line)
        elif len(self.log_lines) < 40:
            self.log_lines.append(line)

    def tensor(self, name, t):
        """Log the exact bits of a tensor."""
        import torch

        with torch.no_grad():
            a = t.detach().cpu().contiguous()
            if a.dtype == torch.bool:
                a = a.to(torch.uint8)
            b = hashlib.sha256(a.numpy().tobytes()).hexdigest()[:12]
        self.log(name, tuple(t.shape), b)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *sig):
        s = "|".join(str(x) for x in sig)
        self.states.add(hashlib.sha256(s.encode()).hexdigest()[:12])

    def hold(self, name, *results):
        """Results that a caller keeps: they have to be the same at the end of the run."""
        self.held += [(name, r, r.detach().clone()) for r in results if hasattr(r, "detach") and r.numel() < 300000]

    def release(self):
        import torch

        for name, r, was in self.held:
            a, b = (torch.nan_to_num(torch.view_as_real(x) if x.is_complex() else x, nan=7.25) if x.is_floating_point() or x.is_complex() else x for x in (r.detach(), was))
            self.check(a.shape == b.shape and torch.equal(a, b), f"{name}:result-overwritten-later", "")

    def fail(self, kind, detail=""):
        raise Violation(kind, detail)

    def check(self, cond, kind, detail=""):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def digest(self):
        return self._h.hexdigest()[:16]


NOT_OURS = (KeyboardInterrupt, SystemExit)


def execute(mod, plan, keep_log=False):
    """Run one plan. Returns (ctx, violation-or-None)."""
    import traceback

    ctx = Ctx(keep_log)
    plan = json.loads(json.dumps(plan))  # nothing shared with the caller
    from . import seams

    seams.reset_world(plan)
    try:
        mod.execute(plan, ctx)
        ctx.release()
        return ctx, None
    except Violation as v:
        ctx.log("VIOLATION", v.kind)
        return ctx, v
    except (HarnessError, PlanInvalid):
        raise
    except MemoryError as e:
        raise HarnessError(f"MemoryError: {e}") from e
    except NOT_OURS:
        raise
    except Exception as e:  # noqa: BLE001
        # Nothing the scenarios do may raise on a tree where the property
        # holds: an exception that surfaces here came out of the code under
        # test (or out of a result of the wrong shape or type).
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in reversed(tb):
            if "/ebsdtorch/" in fr.filename:
                where = f"{fr.filename.split('/ebsdtorch/')[-1]}:{fr.name}"
                break
        v = Violation(
            f"exception:{type(e).__name__}",
            f"{str(e)[:300]} [in {where or 'harness: ' + tb[-1].name + ':' + str(tb[-1].lineno)}]",
        )
        v.__cause__ = e
        ctx.log("VIOLATION", v.kind)
        return ctx, v
    finally:
        seams.leave_world()


# ----------------------------------------------------------------- shrinking


def _list_paths(plan):
    out = []

    def walk(node, path, depth):
        if depth > 6:
            return
        if isinstance(node, list):
            out.append(path)
            for i, x in enumerate(node):
                walk(x, path + [i], depth + 1)
        elif isinstance(node, dict):
            for k in sorted(node):
                walk(node[k], path + [k], depth + 1)

    for key in ("ops", "faults", "switches", "threads"):
        if key in plan:
            walk(plan[key], [key], 0)
    return out


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def shrink(mod, plan, kind, budget_s=60.0, max_exec=400):
    """Greedy minimisation that keeps the same violation kind."""
    t0 = _time.monotonic()
    n_exec = 0

    def still_fails(p):
        nonlocal n_exec
        n_exec += 1
        try:
            _, v = execute(mod, p)
        except (HarnessError, PlanInvalid):
            return False
        except Exception:
            return False
        return v is not None and v.kind == kind

    def out_of_budget():
        return _time.monotonic() - t0 > budget_s or n_exec >= max_exec

    best = plan
    frozen = set(getattr(mod, "FROZEN_LISTS", ()))
    changed = True
    while changed and not out_of_budget():
        changed = False
        # 1. remove slices of lists (operations, faults, thread switches)
        for path in _list_paths(best):
            if path[0] in frozen or (len(path) > 1 and not getattr(mod, "DEEP_SHRINK", False)):
                continue
            try:
                lst = _get(best, path)
            except (KeyError, IndexError):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and not out_of_budget():
                i = 0
                while i < len(_get(best, path)) and not out_of_budget():
                    cand = copy.deepcopy(best)
                    l2 = _get(cand, path)
                    del l2[i : i + size]
                    if still_fails(cand):
                        best, changed = cand, True
                    else:
                        i += size
                size //= 2
        # 2. scenario specific simplifications
        if hasattr(mod, "simplify"):
            progress = True
            while progress and not out_of_budget():
                progress = False
                for cand in mod.simplify(copy.deepcopy(best)):
                    if out_of_budget():
                        break
                    if cand != best and still_fails(cand):
                        best, changed, progress = cand, True, True
                        break
        # 3. shrink integers of the configuration
        mins = getattr(mod, "CFG_MIN", {})
        for key, lo in mins.items():
            cur = best.get("cfg", {}).get(key)
            if not isinstance(cur, int) or isinstance(cur, bool):
                continue
            for v in sorted({lo, (lo + cur) // 2, cur - 1}):
                if lo <= v < cur and not out_of_budget():
                    cand = copy.deepcopy(best)
                    cand["cfg"][key] = v
                    if still_fails(cand):
                        best, changed = cand, True
                        break
    return best, n_exec


# ------------------------------------------------------------- plan helpers


def partition(r, n, style=None):
    """Split n items into a seeded list of chunk sizes."""
    if n == 0:
        return []
    style = style or r.choice(["one", "unit", "even", "random", "random", "tail1", "head1"])
    if style == "one":
        return [n]
    if style == "unit":
        return [1] * n
    if style == "even":
        k = r.randint(1, max(1, n))
        out = [k] * (n // k)
        if n % k:
            out.append(n % k)
        return out
    if style == "tail1" and n > 1:
        return [n - 1, 1]
    if style == "head1" and n > 1:
        return [1, n - 1]
    out = []
    left = n
    while left:
        k = r.randint(1, left if r.random() < 0.3 else max(1, min(left, n // 3 + 1)))
        out.append(k)
        left -= k
    return out


def clip_partition(sizes, n):
    """Make any list of sizes a partition of n (plans may have been shrunk)."""
    out, left = [], n
    for s in sizes:
        s = max(0, min(int(s), left))
        out.append(s)
        left -= s
    if left:
        out.append(left)
    return out


def logint(r, lo, hi):
    return int(round(math.exp(r.uniform(math.log(lo), math.log(hi)))))
