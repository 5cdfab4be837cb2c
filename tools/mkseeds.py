"""Writes /verif/seeded/<id>/ from tools/seedspecs.py and tests each one in a scratch copy.

python3 tools/mkseeds.py [--check] [ids...]
  without --check: (re)write patch.diff, demo.sh, demo.py, meta.json
  with --check: also confirm (patch applies, changes original lines, tests pass,
  demo 0 -> nonzero) and run the property's quick check against the copy.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "215bdb7"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg PYTHONWARNINGS=ignore
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
"""

sys.path.insert(0, os.path.join(VERIF, "tools"))


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="2", MKL_NUM_THREADS="2")
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def one(s, check):
    d = os.path.join(VERIF, "seeded", s["id"])
    work = f"/tmp/mkseed-{s['id']}"
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree("/repo", work, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    res = dict(id=s["id"], prop=s["prop"])
    try:
        sh("git checkout -q -- . && git clean -qfd", work)
        for f, old, new in s["edits"]:
            p = os.path.join(work, "ebsdtorch", f)
            t = open(p).read()
            if t.count(old) != 1:
                res["error"] = f"{f}: old text found {t.count(old)} times"
                return res
            open(p, "w").write(t.replace(old, new))
        rc, diff = sh("git diff", work)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        # at least one removed/changed line is a line of the base
        base_ok = False
        for f in {e[0] for e in s["edits"]}:
            _, bt = sh(f"git show {BASE}:ebsdtorch/{f}", work)
            base_lines = {x.strip() for x in bt.splitlines()}
            _, fd = sh(f"git diff -- ebsdtorch/{f}", work)
            for ln in fd.splitlines():
                if ln.startswith("-") and not ln.startswith("---") and ln[1:].strip() and ln[1:].strip() in base_lines:
                    base_ok = True
        res["orig_line"] = base_ok
        if not check:
            return res
        rc, out = sh(f"bash {d}/demo.sh", work)
        res["demo_patched"] = rc
        res["demo_out"] = out[-200:]
        for _ in range(3):
          rc, out = sh(f"{PY} -m pytest tests -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors 2>&1 | tail -3", work)
          m = re.search(r"(\d+) passed", out)
          if m and int(m.group(1)) >= 46:
              break
        res["tests"] = int(m.group(1)) if m else out[-200:]
        if not os.environ.get("NOCHECK"):
            rc, out = sh(f"VERIF_SEED=1 {PY} -m sim.check {s['prop']} --tier quick --workers 4", VERIF, dict(EBSD_REPO=work, PYTHONDONTWRITEBYTECODE="1", MKSEED_OUT=work))
            res["check"] = rc
            res["check_out"] = "\n".join(x for x in out.splitlines() if x.startswith(("violation", "VIOLATION", "HARNESS", "  ")))[:300]
        sh("git checkout -q -- .", work)
        rc, out = sh(f"bash {d}/demo.sh", work)
        res["demo_clean"] = rc
        if rc:
            res["demo_out"] = out[-400:]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return res


def main():
    import seedspecs

    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    specs = [s for s in seedspecs.SEEDS if not args or s["id"] in args or s["prop"] in args]
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda s: one(s, check), specs):
            ok = "error" not in r and r.get("orig_line") and (not check or (r["demo_patched"] not in (0,) and r["demo_clean"] == 0 and r["tests"] >= 46))
            print("OK " if ok else "BAD", r["id"], r["prop"], "" if not check else f"caught={r.get('check')}", {k: v for k, v in r.items() if k not in ("id", "prop")} if (not ok or check) else "", flush=True)


if __name__ == "__main__":
    main()
