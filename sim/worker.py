"""Worker process: executes a slice of the runs of one property."""
import argparse
import gc
import importlib
import json
import os
import sys
import traceback


def load(prop):
    return importlib.import_module(f"sim.props.{prop.lower()}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, required=True)
    ap.add_argument("--mode", default="batch")  # batch | replay | verify
    ap.add_argument("--runs", default="")  # start:stop:step
    ap.add_argument("--out", required=True)
    ap.add_argument("--deadline", type=float, default=1e18)
    ap.add_argument("--plan", default="")
    ap.add_argument("--shrink-s", type=float, default=60.0)
    a = ap.parse_args()

    # what the code under test prints goes nowhere
    out = open(a.out, "w", buffering=1)
    if not os.environ.get("SIM_SHOW"):
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
    from sim import core, seams

    def emit(**kw):
        out.write(json.dumps(kw) + "\n")

    try:
        seams.import_repo()
        mod = load(a.prop)
        for name in getattr(mod, "MODULES", ()):
            seams.repo(name)  # (importing inside a run would add lines to its trace)
        if hasattr(mod, "setup"):
            mod.setup()
    except Exception:
        emit(t="fatal", error=traceback.format_exc())
        return 3
    emit(t="ready")

    if a.mode == "replay":
        rec = json.load(open(a.plan))
        try:
            for idx in rec.get("before", ()):
                r = core.run_rng(rec["seed"], a.prop, idx)
                plan = mod.generate(r, a.tier)
                plan.setdefault("world_seed", r.randrange(2**31))
                core.execute(mod, plan)
            ctx, v = core.execute(mod, rec["plan"], keep_log=True)
        except (core.HarnessError, core.PlanInvalid):
            emit(t="fatal", error=traceback.format_exc())
            return 3
        emit(t="replayed", kind=v.kind if v else None, detail=v.detail if v else "", digest=ctx.digest(), log=ctx.log_lines[-400:])
        return 0

    start, stop, step = (int(x) for x in a.runs.split(":"))
    agg = dict(runs=0, faults={}, probes={}, sim_time=0.0, steps=0, events=0)
    states, sigs, digests, samples = set(), set(), {}, []
    nontrivial = 0
    capped = False
    known = []
    kf = load_known(a.prop)
    for idx in range(start, stop, step):
        if seams.real_monotonic() > a.deadline:
            capped = True
            break
        emit(t="begin", idx=idx)
        try:
            r = core.run_rng(a.seed, a.prop, idx)
            plan = mod.generate(r, a.tier)
            plan.setdefault("world_seed", r.randrange(2**31))
            ctx, v = core.execute(mod, plan)
        except core.PlanInvalid:
            continue
        except Exception:
            emit(t="fatal", idx=idx, error=traceback.format_exc())
            return 3
        agg["runs"] += 1
        for k, n in ctx.faults.items():
            agg["faults"][k] = agg["faults"].get(k, 0) + n
        for k, n in ctx.probes.items():
            agg["probes"][k] = agg["probes"].get(k, 0) + n
        agg["sim_time"] += ctx.sim_time
        agg["steps"] += ctx.steps
        agg["events"] += ctx.n_events
        states |= ctx.states
        d = core.digest(plan)
        if ctx.nontrivial:
            sigs.add(d)
        digests[idx] = ctx.digest()
        if len(samples) < 2:
            s = json.dumps(plan)
            samples.append(dict(run=idx, plan=plan if len(s) < 3000 else s[:3000] + "...", log=ctx.log_lines[:12]))
        if v is not None:
            m = match_known(kf, mod, plan, v)
            if m:
                known.append(m)
                continue
            emit(t="violation", idx=idx, kind=v.kind, detail=v.detail, plan=plan, digest=ctx.digest())
            small, n_exec = core.shrink(mod, plan, v.kind, a.shrink_s)
            ctx2, v2 = core.execute(mod, small)
            if v2 is None or v2.kind != v.kind:
                small, v2, ctx2 = plan, v, ctx
            emit(t="shrunk", idx=idx, kind=v2.kind, detail=v2.detail, plan=small, digest=ctx2.digest(), n_exec=n_exec)
            break
        if idx % 64 == 0:
            gc.collect()
    emit(t="done", agg=agg, states=sorted(states), sigs=sorted(sigs), digests=digests, samples=samples, capped=capped, known=known,
         components=getattr(mod, "COMPONENTS", {}), rule=getattr(mod, "RULE", ""))
    return 0


def load_known(prop):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                k = json.loads(line)
                if k.get("property") == prop:
                    out.append(k)
    return out


def match_known(kf, mod, plan, v):
    for k in kf:
        if k["kind"] == v.kind and getattr(mod, "known_input", lambda p, k: False)(plan, k):
            return k["id"]
    return None


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc or 0)
