#!/usr/bin/env python3
"""Second mutation study (not a check): faults of state rather than of arithmetic.

statemut.py OUT.jsonl [--kinds ...] [--runs 300] [--only REGEX]

Every public function and method gets, one at a time and in a scratch copy, a wrapper that is wrong only in
one situation: the same argument objects again with other contents, another call while the first result is
still in use, another thread at the same time, a failed call before, and so on.
"""
import argparse
import ast
import glob
import json
import os
import queue
import re
import shutil
import subprocess
import tempfile
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
HEAD = '''

import functools as _ft
import torch as _t


def _ten(a, k):
    return [x for x in list(a) + list(k.values()) if isinstance(x, _t.Tensor)]


def _map(r, f):
    if isinstance(r, _t.Tensor):
        return f(r)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(_map(x, f) for x in r)
    if isinstance(r, list):
        return [_map(x, f) for x in r]
    return r

'''
KIND = {
    # the result of the last call, if the arguments are the same objects
    "sameobj": '''
def _w(f):
    last = []
    @_ft.wraps(f)
    def g(*a, **k):
        o = list(a) + list(k.items())
        if last and len(last[0]) == len(o) and all(x is y or (type(x) is type(y) and not isinstance(x, _t.Tensor) and isinstance(x, (int, float, str, bool, tuple)) and x == y) for x, y in zip(last[0], o)):
            return _map(last[1], lambda t: t.clone())
        r = f(*a, **k)
        last[:] = [o, _map(r, lambda t: t.clone())]
        return r
    return g
''',
    # results are keyed by the first tensor and the number of arguments only
    "firstarg": '''
def _w(f):
    c = {}
    @_ft.wraps(f)
    def g(*a, **k):
        ts = _ten(a, k)
        if not ts or ts[0].requires_grad or len(a) + len(k) < 2:
            return f(*a, **k)
        key = (ts[0].detach().cpu().numpy().tobytes(), tuple(ts[0].shape), ts[0].dtype, id(a[0]) if not isinstance(a[0], _t.Tensor) else 0)
        if key not in c:
            c.clear()
            r = f(*a, **k)
            c[key] = (_map(r, lambda t: t.clone()), a)
            return r
        return _map(c[key][0], lambda t: t.clone())
    return g
''',
    # results of equal shape share their memory
    "buffer": '''
def _w(f):
    c = {}
    def put(t, i):
        if t.requires_grad:
            return t
        key = (i, tuple(t.shape), t.dtype)
        if key in c:
            c[key].copy_(t)
            return c[key]
        c[key] = t.clone()
        return c[key]
    @_ft.wraps(f)
    def g(*a, **k):
        n = [0]
        def p(t):
            n[0] += 1
            return put(t, n[0])
        return _map(f(*a, **k), p)
    return g
''',
    # the arguments pass through a place that all threads share
    "shared": '''
def _w(f):
    box = {}
    @_ft.wraps(f)
    def g(*a, **k):
        box["a"] = a
        box["k"] = k
        n = len(a)
        n = n + len(k)
        return f(*box["a"], **box["k"])
    return g
''',
    # a failed call leaves a mark
    "afterfail": '''
def _w(f):
    st = [0]
    @_ft.wraps(f)
    def g(*a, **k):
        st[0] += 1
        r = f(*a, **k)
        st[0] -= 1
        if st[0]:
            st[0] = 0
            r = _map(r, lambda t: t * 1.5 if t.is_floating_point() or t.is_complex() else t.flip(0) if t.dim() else t)
        return r
    return g
''',
    # an argument is changed a little
    "inplace": '''
def _w(f):
    @_ft.wraps(f)
    def g(*a, **k):
        r = f(*a, **k)
        for x in _ten(a, k):
            if x.is_floating_point() and not x.requires_grad and not any(x is y for y in (r if isinstance(r, tuple) else [r])):
                try:
                    x.mul_(1.01)
                    break
                except RuntimeError:
                    pass
        return r
    return g
''',
    # global state of torch is left changed
    "seed": '''
def _w(f):
    @_ft.wraps(f)
    def g(*a, **k):
        _t.manual_seed(0)
        return f(*a, **k)
    return g
''',
}


def targets():
    out = []
    for path in sorted(glob.glob("/repo/ebsdtorch/**/*.py", recursive=True)):
        tree = ast.parse(open(path).read())
        mod = os.path.relpath(path, "/repo")
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                out.append((mod, None, n.name))
            if isinstance(n, ast.ClassDef):
                for m in n.body:
                    if isinstance(m, ast.FunctionDef) and (m.name == "forward" or not m.name.startswith("_")) and not m.decorator_list:
                        out.append((mod, n.name, m.name))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--kinds", nargs="+", default=list(KIND))
    ap.add_argument("--runs", type=int, default=300)
    ap.add_argument("--only", default="")
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    text = {os.path.basename(p)[:-3].upper(): open(p).read() for p in sorted(glob.glob(V + "/sim/props/c??.py"))}
    names = {os.path.basename(p)[:-3]: open(p).read() for p in glob.glob(V + "/sim/props/_*.py")}
    for k in text:
        for h, s in names.items():
            if re.search(r"import " + h + r"\b|from \.?\.?" + h + r"\b|from \. import [^\n]*\b" + h + r"\b|from \." + h, text[k]):
                text[k] += s
    todo = queue.Queue()
    for mod, cls, fn in targets():
        dotted = mod[:-3].replace("/", ".")
        if a.only and not re.search(a.only, f"{mod}:{cls}.{fn}"):
            continue
        who = [c for c, s in text.items() if re.search(r"\b" + fn + r"\b", s) and (dotted.split(".")[-1] in s)] if fn not in ("forward",) else []
        if not who and cls:
            who = [c for c, s in text.items() if re.search(r"\b" + cls + r"\b", s)]
        if not who:
            continue
        for k in a.kinds:
            todo.put((mod, cls, fn, k, who[:4]))
    if a.workers == 0:
        [print(x) for x in list(todo.queue)[::len(a.kinds)]]
        return
    print(todo.qsize(), "mutants", flush=True)
    scratch = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    outf = open(a.out, "a", buffering=1)
    lock = threading.Lock()

    def work(i):
        tree = f"{scratch}/w{i}"
        shutil.copytree("/repo", tree, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        while True:
            try:
                mod, cls, fn, kind, who = todo.get_nowait()
            except queue.Empty:
                return
            orig = open("/repo/" + mod).read()
            tgt = f"{cls}.{fn}" if cls else fn
            new = orig + HEAD + KIND[kind] + f"\n\n{tgt} = _w({tgt})\n"
            open(f"{tree}/{mod}", "w").write(new)
            env = dict(os.environ, PYTHONPATH=V, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", EBSD_REPO=tree, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONWARNINGS="ignore", CUDA_VISIBLE_DEVICES="")
            res = {}
            killed = None
            for p in who:
                of = f"{scratch}/o{i}"
                open(of, "w").close()
                try:
                    subprocess.run(["nice", PY, "-m", "sim.worker", "--prop", p, "--seed", "1", "--runs", f"0:{a.runs}:1", "--out", of, "--shrink-s", "0", "--deadline", str(time.monotonic() + 300)], env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
                    st = "green"
                    for line in open(of):
                        try:
                            r = json.loads(line)
                        except ValueError:
                            continue
                        if r["t"] == "violation":
                            st = f"{r['kind']}@{r['idx']}"
                            break
                        if r["t"] == "fatal":
                            st = "fatal"
                    else:
                        if st == "green" and '"t": "done"' not in open(of).read():
                            st = "died"
                except subprocess.TimeoutExpired:
                    st = "hang"
                res[p] = st
                if st not in ("green",):
                    killed = p
                    break
            open(f"{tree}/{mod}", "w").write(orig)
            with lock:
                outf.write(json.dumps(dict(mod=mod, target=tgt, kind=kind, res=res, killed=killed)) + "\n")

    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
