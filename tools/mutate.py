#!/usr/bin/env python3
"""Mutation study of the checks (not a check itself).

mutate.py OUT.jsonl MODULE:PROP[,PROP...] ... [--n 30] [--seed 1] [--runs 400]

For each module, n random small changes are made one at a time in scratch copies of the repository,
and the listed checks are run on each (no shrinking). Survivors are written with their diff.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*"}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                skip |= {id(x) for x in ast.walk(d)}
            if isinstance(n, ast.FunctionDef):
                for d in [n.returns, *[a.annotation for a in n.args.args]]:
                    if d is not None:
                        skip |= {id(x) for x in ast.walk(d)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(x) for x in ast.walk(n)}
    out = []

    def rep(a, b, new, what, line):
        out.append((a, b, new, what, line))

    infn = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            infn |= {id(x) for s in n.body for x in ast.walk(s)}
    for n in ast.walk(tree):
        if id(n) in skip or id(n) not in infn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = pos(n.left, True), pos(n.comparators[0])
            seg = raw[a:b].decode()
            o = OPS[type(n.ops[0])]
            rep(a, b, seg.replace(o, CMP[type(n.ops[0])], 1), "cmp", n.lineno)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = pos(n.left, True), pos(n.right)
            seg = raw[a:b].decode()
            rep(a, b, seg.replace(OPS[type(n.op)], BIN[type(n.op)], 1), "bin", n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(pos(n), pos(n, True), str(not n.value), "bool", n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            for v in (n.value + 1, n.value - 1):
                rep(pos(n), pos(n, True), str(v) if v >= 0 else f"({v})", "int", n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            for v in (n.value * 1.25 + (0.25 if n.value == 0 else 0), -n.value):
                if v != n.value:
                    rep(pos(n), pos(n, True), repr(v), "float", n.lineno)
        elif isinstance(n, (ast.If, ast.IfExp)):
            t = n.test
            s = raw[pos(t):pos(t, True)].decode()
            rep(pos(t), pos(t, True), f"(not ({s}))", "ifnot", n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            s = raw[pos(n.operand):pos(n.operand, True)].decode()
            rep(pos(n), pos(n, True), f"({s})", "unary", n.lineno)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("clone", "abs", "clamp", "round", "squeeze", "contiguous", "T", "flip", "sum", "sqrt", "conj", "detach", "copy", "ceil", "floor"):
            s = raw[pos(n.func.value):pos(n.func.value, True)].decode()
            if s not in ("torch", "math", "copy"):
                rep(pos(n), pos(n, True), s, "dropcall", n.lineno)
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            s = raw[pos(n):pos(n, True)].decode()
            tgt = n.targets[0] if isinstance(n, ast.Assign) else getattr(n, "target", None)
            if tgt is None or isinstance(n, ast.AugAssign) or isinstance(tgt, (ast.Attribute, ast.Subscript)) or (isinstance(tgt, ast.Name) and isinstance(n, ast.Assign) and tgt.id in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}):
                if not s.startswith("super()") and "print" not in s[:6]:
                    rep(pos(n), pos(n, True), "pass", "del", n.lineno)
        if isinstance(n, ast.Slice) and n.lower is not None and n.upper is not None and not isinstance(n.lower, ast.Constant):
            rep(pos(n.lower), pos(n.lower, True), raw[pos(n.lower):pos(n.lower, True)].decode() + " + 1", "slice", n.lineno)
    return raw, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("targets", nargs="+")
    ap.add_argument("--n", type=int, default=30)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--runs", type=int, default=400)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--lines", default="")  # a-b restricts the lines
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    jobs = queue.Queue()
    todo = []
    for t in a.targets:
        m, props = t.split(":")
        path = "ebsdtorch/" + m
        src = open("/repo/" + path).read()
        raw, ms = mutants(src)
        if a.lines:
            lo, hi = (int(x) for x in a.lines.split("-"))
            ms = [x for x in ms if lo <= x[4] <= hi]
        rnd.shuffle(ms)
        kept = 0
        for x in ms:
            new = raw[: x[0]] + x[2].encode() + raw[x[1]:]
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            todo.append((path, props.split(","), x, new))
            kept += 1
            if kept >= a.n:
                break
    rnd.shuffle(todo)
    for j in todo:
        jobs.put(j)
    print(len(todo), "mutants", flush=True)
    lock = threading.Lock()
    outf = open(a.out, "a", buffering=1)
    stat = dict(killed=0, survived=0)
    scratch = tempfile.mkdtemp(prefix="mut-", dir="/tmp")

    def work(i):
        tree = f"{scratch}/w{i}"
        shutil.copytree("/repo", tree, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        while True:
            try:
                path, props, x, new = jobs.get_nowait()
            except queue.Empty:
                return
            orig = open("/repo/" + path, "rb").read()
            open(f"{tree}/{path}", "wb").write(new)
            res = {}
            killed = None
            for p in props:
                of = f"{scratch}/o{i}"
                env = dict(os.environ, PYTHONPATH=V, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", EBSD_REPO=tree, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONWARNINGS="ignore", CUDA_VISIBLE_DEVICES="")
                try:
                    subprocess.run([PY, "-m", "sim.worker", "--prop", p, "--seed", "1", "--runs", f"0:{a.runs}:1", "--out", of, "--shrink-s", "0", "--deadline", str(time.monotonic() + 300)], env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
                    st = "green"
                    for line in open(of):
                        try:
                            r = json.loads(line)
                        except ValueError:
                            continue
                        if r["t"] == "violation":
                            st = f"{r['kind']}@{r['idx']}"
                            break
                        if r["t"] == "fatal":
                            st = "fatal"
                    else:
                        if st == "green" and '"t": "done"' not in open(of).read():
                            st = "died"
                except subprocess.TimeoutExpired:
                    st = "hang"
                res[p] = st
                if st != "green":
                    killed = p
                    break
            open(f"{tree}/{path}", "wb").write(orig)
            line = new.decode().split("\n")[x[4] - 1]
            old = orig.decode().split("\n")[x[4] - 1]
            with lock:
                stat["killed" if killed else "survived"] += 1
                outf.write(json.dumps(dict(path=path, line=x[4], what=x[3], old=old.strip(), new=line.strip(), frag=[orig[x[0]:x[1]].decode()[:80], x[2][:80]], res=res, killed=killed)) + "\n")

    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.workers)]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(stat)


main()
