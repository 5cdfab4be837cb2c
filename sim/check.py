"""Runs the check of one property: python -m sim.check C01 [--tier quick|thorough]

exit 0  property held on every simulated run
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the simulator itself failed (never a verdict)
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
HANG_S = 150.0


def child_env(hashseed="0"):
    e = dict(os.environ)
    e.update(
        PYTHONPATH=VERIF,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED=hashseed,
        CUDA_VISIBLE_DEVICES="",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONWARNINGS="ignore",
    )
    e.pop("PYTORCH_JIT", None)
    return e


class Proc:
    def __init__(self, args, tmp, name, hashseed="0"):
        self.out = os.path.join(tmp, name + ".jsonl")
        self.err = os.path.join(tmp, name + ".err")
        open(self.out, "w").close()
        self.args = args
        self.p = subprocess.Popen(
            [PY, "-m", "sim.worker", "--out", self.out] + args,
            cwd=tmp,
            env=child_env(hashseed),
            stdout=subprocess.DEVNULL,
            stderr=open(self.err, "w"),
            stdin=subprocess.DEVNULL,
        )
        self.pos = 0
        self.last = time.monotonic()
        self.recs = []
        self.cur = None
        self.buf = ""
        self.shrinking = False

    def poll(self):
        with open(self.out) as f:
            f.seek(self.pos)
            data = f.read()
            self.pos = f.tell()
        self.buf += data
        while "\n" in self.buf:
            line, self.buf = self.buf.split("\n", 1)
            rec = json.loads(line)
            self.last = time.monotonic()
            if rec["t"] == "begin":
                self.cur = rec["idx"]
            else:
                self.recs.append(rec)
                if rec["t"] == "violation":
                    self.shrinking = True
        return self.p.poll()

    def errtail(self):
        try:
            return open(self.err).read()[-3000:]
        except OSError:
            return ""


def run_one(prop, seed, tier, plan_path, tmp, name, timeout=200.0, hashseed="0"):
    """Replay a file in a fresh process. Returns (record|None, status)."""
    pr = Proc(["--prop", prop, "--seed", str(seed), "--tier", tier, "--mode", "replay", "--plan", plan_path], tmp, name, hashseed)
    t0 = time.monotonic()
    while pr.p.poll() is None:
        if time.monotonic() - t0 > timeout:
            pr.p.kill()
            pr.p.wait()
            return None, "hang"
        time.sleep(0.05)
    pr.poll()
    for r in pr.recs:
        if r["t"] == "replayed":
            return r, "ok"
        if r["t"] == "fatal":
            return r, "fatal"
    return {"error": pr.errtail(), "rc": pr.p.returncode}, "died"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--first", type=int, default=0)
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    table = json.load(open(os.path.join(VERIF, "sim", "budgets.json")))
    b = table.get(prop, {})
    runs = a.runs or b.get(tier, table["default"][tier])
    budget = a.budget or (200.0 if tier == "quick" else 780.0)
    workers = a.workers or min(8, os.cpu_count() or 8)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"sim-{prop}-")
    try:
        return drive(prop, tier, a.seed, runs, budget, workers, tmp, a.first)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def harness_fail(msg):
    print("HARNESS-ERROR", msg)
    return 2


def drive(prop, tier, seed, runs, budget, workers, tmp, first):
    t0 = time.monotonic()
    print(f"check {prop} tier={tier} seed={seed} runs={runs} workers={workers}", flush=True)
    deadline = t0 + budget
    procs = []
    for w in range(min(workers, runs)):
        procs.append(
            Proc(["--prop", prop, "--seed", str(seed), "--tier", tier, "--runs", f"{first + w}:{first + runs}:{workers}", "--deadline", str(deadline)], tmp, f"w{w}")
        )
    # determinism sample: the first runs again, one process, another hash seed
    n_det = min(max(4, runs // 40), 40, runs)
    det = Proc(["--prop", prop, "--seed", str(seed), "--tier", tier, "--runs", f"{first}:{first + n_det}:1", "--deadline", str(deadline), "--shrink-s", "0"], tmp, "det", "4242")
    live = procs + [det]
    hangs = []
    finished = []
    while live:
        time.sleep(0.1)
        for pr in list(live):
            rc = pr.poll()
            if rc is not None:
                pr.poll()
                live.remove(pr)
                finished.append(pr)
            elif time.monotonic() - pr.last > (HANG_S if pr.cur is not None else 300) :
                pr.p.kill()
                pr.p.wait()
                live.remove(pr)
                finished.append(pr)
                if pr is not det:
                    hangs.append(pr)
                    if pr.cur is None:
                        return harness_fail("worker did not start: " + pr.errtail())
        if any(r["t"] == "shrunk" for pr in finished if pr is not det for r in pr.recs):
            # a minimised violation is in: no need to wait for the others
            for pr in list(live):
                if not pr.shrinking:
                    pr.p.kill()
                    pr.p.wait()
                    pr.poll()
                    live.remove(pr)
                    finished.append(pr)

    # -------------------------------------------------------------- verdict
    viol = {}
    for pr in procs:
        for r in pr.recs:
            if r["t"] in ("violation", "shrunk"):
                viol[r["idx"]] = r  # shrunk replaces violation
    fatal = [r for pr in procs for r in pr.recs if r["t"] == "fatal"]

    def save(idx, rec, kind, detail, digest_, before=()):
        path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{idx}.json")
        d = dict(property=prop, seed=seed, tier=tier, run=idx, kind=kind, detail=detail, digest=digest_, plan=rec)
        if before:
            d["before"] = list(before)  # runs of the same seed that come first in the same process
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        return path

    def with_earlier_runs(idx, cands):
        """A violation that a fresh process does not show: it needs what earlier runs left behind in the process."""
        mine = list(range(first + (idx - first) % workers, idx, workers))
        t1 = time.monotonic()

        def try_(r, before):
            if time.monotonic() - t1 > 60:
                return None
            path = save(idx, r["plan"], r["kind"], r["detail"], r["digest"], before)
            rep, st = run_one(prop, seed, tier, path, tmp, "history", timeout=60.0, hashseed="7")
            return rep if st == "ok" and rep["kind"] == r["kind"] else None

        for r in cands:
            n = 1
            while True:
                before = mine[-n:]
                rep = try_(r, before)
                if rep:
                    break
                if n >= len(mine):
                    break
                n *= 4
            if not rep:
                continue
            size = len(before) // 2  # leave out what is not needed
            while size >= 1:
                k = 0
                while k < len(before):
                    cut = before[:k] + before[k + size :]
                    got = try_(r, cut) if cut else None
                    if got:
                        before, rep = cut, got
                    else:
                        k += size
                size //= 2
            path = save(idx, r["plan"], rep["kind"], rep["detail"], rep["digest"], before)
            return path, rep, r
        return None, None, None

    result = None
    if viol:
        idx = min(viol)
        r = viol[idx]
        path = save(idx, r["plan"], r["kind"], r["detail"], r["digest"])
        rep, st = run_one(prop, seed, tier, path, tmp, "confirm", hashseed="7")
        same = st == "ok" and rep["kind"] == r["kind"]
        if not same:
            # fall back to the unshrunk plan of the violating run
            orig = [x for pr in procs for x in pr.recs if x["t"] == "violation" and x["idx"] == idx][0]
            path = save(idx, orig["plan"], orig["kind"], orig["detail"], orig["digest"])
            rep, st = run_one(prop, seed, tier, path, tmp, "confirm2", hashseed="7")
            same = st == "ok" and rep["kind"] is not None
            if not same:
                p2, rep2, r2 = with_earlier_runs(idx, [r, orig])
                if p2:
                    path, rep, orig, same, st = p2, rep2, dict(r2, digest=rep2["digest"]), True, "ok"
                else:
                    path = save(idx, orig["plan"], orig["kind"], orig["detail"], orig["digest"])
            r = orig
        if same and rep["digest"] != r["digest"]:
            # earlier runs of the worker had a part in it: the file records what a process of its own does
            d = json.load(open(path))
            d.update(kind=rep["kind"], detail=rep["detail"], digest=rep["digest"])
            json.dump(d, open(path, "w"), indent=1)
            r = dict(r, kind=rep["kind"], detail=rep["detail"], digest=rep["digest"])
            rep, st = run_one(prop, seed, tier, path, tmp, "confirm3", hashseed="3")
        print(f"violation kind={r['kind']} run={idx} replay-reproduces={same} digest-match={st == 'ok' and rep.get('digest') == r['digest']}")
        print("  " + str(r["detail"])[:600].replace("\n", " "))
        result = (path, idx)
    elif hangs:
        from_gen = None
        for pr in hangs:
            # regenerate the plan of the run that hung, replay it alone
            plan_path = os.path.join(tmp, "hang.json")
            code = (
                "import json,sys;from sim import core;from sim.worker import load;from sim import seams;seams.import_repo();"
                f"m=load('{prop}');r=core.run_rng({seed},'{prop}',{pr.cur});p=m.generate(r,'{tier}');p.setdefault('world_seed',r.randrange(2**31));"
                f"json.dump(dict(plan=p),open({plan_path!r},'w'))"
            )
            subprocess.run([PY, "-c", code], env=child_env(), cwd=tmp, timeout=200)
            rep, st = run_one(prop, seed, tier, plan_path, tmp, "hangconfirm", timeout=HANG_S)
            if st == "hang":
                plan = json.load(open(plan_path))["plan"]
                path = save(pr.cur, plan, "hang", f"run does not finish within {HANG_S} s", "")
                print("violation kind=hang run", pr.cur)
                from_gen = (path, pr.cur)
                break
            if st == "ok" and rep["kind"]:
                plan = json.load(open(plan_path))["plan"]
                path = save(pr.cur, plan, rep["kind"], rep["detail"], rep["digest"])
                from_gen = (path, pr.cur)
                break
        result = from_gen
    if result is None and fatal:
        return harness_fail(fatal[0].get("error", "")[-3000:])

    died = [pr for pr in procs if pr not in hangs and not any(r["t"] in ("done", "violation", "fatal") for r in pr.recs)]
    if result is None and died:
        # the process died under the code under test (e.g. out of memory, abort): replay alone
        pr = died[0]
        if pr.cur is None:
            return harness_fail(f"worker died rc={pr.p.returncode}: " + pr.errtail())
        plan_path = os.path.join(tmp, "died.json")
        code = (
            "import json,sys;from sim import core;from sim.worker import load;from sim import seams;seams.import_repo();"
            f"m=load('{prop}');r=core.run_rng({seed},'{prop}',{pr.cur});p=m.generate(r,'{tier}');p.setdefault('world_seed',r.randrange(2**31));"
            f"json.dump(dict(plan=p),open({plan_path!r},'w'))"
        )
        subprocess.run([PY, "-c", code], env=child_env(), cwd=tmp, timeout=200)
        rep, st = run_one(prop, seed, tier, plan_path, tmp, "diedconfirm", timeout=HANG_S)
        if st in ("died", "hang") or (st == "ok" and rep["kind"]):
            plan = json.load(open(plan_path))["plan"]
            kind = rep["kind"] if st == "ok" else "process-death"
            path = save(pr.cur, plan, kind, f"status {st} rc {pr.p.returncode}", "")
            result = (path, pr.cur)
        else:
            return harness_fail(f"worker died rc={pr.p.returncode}: " + pr.errtail())

    # ------------------------------------------------------------- evidence
    agg = dict(runs=0, faults={}, probes={}, sim_time=0.0, steps=0, events=0)
    states, sigs, digests, samples, known = set(), set(), {}, [], []
    capped, comps, rule = False, {}, ""
    for pr in procs:
        for r in pr.recs:
            if r["t"] != "done":
                continue
            g = r["agg"]
            for k in ("runs", "sim_time", "steps", "events"):
                agg[k] += g[k]
            for k in ("faults", "probes"):
                for n, c in g[k].items():
                    agg[k][n] = agg[k].get(n, 0) + c
            states |= set(r["states"])
            sigs |= set(r["sigs"])
            digests.update({int(k): v for k, v in r["digests"].items()})
            samples += r["samples"]
            known += r["known"]
            capped |= r["capped"]
            comps, rule = r["components"], r["rule"]
    det_same = det_diff = 0
    for r in det.recs:
        if r["t"] == "done":
            for k, v in r["digests"].items():
                if int(k) in digests:
                    if digests[int(k)] == v:
                        det_same += 1
                    else:
                        det_diff += 1
                        print("digest differs: run", k)
    findings = run_findings(prop, seed, tier, tmp)
    wall = time.monotonic() - t0
    if result is None and agg["runs"] == 0:
        return harness_fail("no run completed")
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=agg["runs"],
            distinct_nontrivial=len(sigs),
            rule=rule,
            samples=samples[:4],
            simulated_runs=agg["runs"],
            seeds=f"VERIF_SEED={seed}, runs {first}..{first + runs - 1}",
            runs_per_hour=int(agg["runs"] / max(wall, 1e-6) * 3600),
            simulated_time_s=round(agg["sim_time"], 3),
            scheduler_steps=agg["steps"],
            events=agg["events"],
            faults_fired=dict(sorted(agg["faults"].items())),
            probes=dict(sorted(agg["probes"].items())),
            distinct_states=len(states),
            distinct_states_measure="distinct signatures recorded by the scenario (schedule shape, fault site, interleaving point)",
            components=comps,
            determinism=dict(sampled=det_same + det_diff, identical=det_same, different=det_diff, how="same runs, one process instead of many, other PYTHONHASHSEED; event-log digests compared"),
            wall_capped=capped,
            exhaustive=False,
        ),
        assumptions=[
            "CPU build of torch with one intra-op thread; GPU back ends are outside the simulator",
            "faults are injected at torch op, Python line, stream, file and device boundaries, not inside native kernels",
        ],
        wall_s=round(wall, 2),
        violations=1 if result else 0,
    )
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"runs={agg['runs']} nontrivial={len(sigs)} states={len(states)} faults={agg['faults']} probes={agg['probes']} "
        f"det={det_same}/{det_same + det_diff} wall={wall:.1f}s{' CAPPED' if capped else ''}"
    )
    if det_diff:
        print("WARNING: replay nondeterminism in", det_diff, "runs")
    for line in findings:
        print(line)
    if result:
        print(f"VIOLATION property={prop} replay={result[0]}")
        return 1
    return 0


def run_findings(prop, seed, tier, tmp):
    sys.path.insert(0, VERIF)
    from sim.worker import load_known

    lines = []
    for k in load_known(prop):
        path = os.path.join(VERIF, k["replay"])
        rep, st = run_one(prop, seed, tier, path, tmp, "kf-" + k["id"])
        if st == "ok" and rep["kind"] == k["kind"]:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    return lines


if __name__ == "__main__":
    sys.exit(main())
