"""python -m sim.replay FILE: run a replay file against /repo, exit 1 if it still violates."""
import json
import shutil
import sys
import tempfile

from sim.check import run_one


def main():
    path = sys.argv[1]
    rec = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="sim-replay-")
    try:
        import os

        r, st = run_one(rec["property"], rec["seed"], rec.get("tier", "quick"), os.path.abspath(path), tmp, "replay")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if st in ("fatal", "died") and rec["kind"] != "process-death":
        print("HARNESS-ERROR", r)
        return 2
    if st == "hang":
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    for line in r.get("log", []):
        print("  ", line)
    print("kind", r.get("kind"), "detail", r.get("detail"))
    print("expected kind", rec["kind"], "digest", rec["digest"], "got", r.get("digest"), "identical" if r.get("digest") == rec["digest"] else "different")
    if r.get("kind"):
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
