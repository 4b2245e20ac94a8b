#!/usr/bin/env python3
"""Developer aid: small syntactic changes to a source file in scratch copies, and which of the given checks notice them.

mutate.py FILE PROPS N [--func REGEX] [--seed S] [--jobs J] [--out LOG]
"""
import argparse
import ast
import json
import os
import queue
import random
import re
import shutil
import subprocess
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("SEED_SRC", "/repo")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
ATTR = {"min": "max", "max": "min", "first": "last", "last": "first", "ffill": "bfill", "bfill": "ffill", "any": "all", "all": "any",
        "mean": "median", "median": "mean", "idxmin": "idxmax", "idxmax": "idxmin", "argmin": "argmax", "argmax": "argmin", "startswith": "endswith",
        "append": "extend", "update": "setdefault", "sum": "mean", "std": "var", "floor": "ceil", "ceil": "floor", "abs": "negative", "head": "tail", "tail": "head",
        "lower": "upper", "strip": "lstrip", "diff": "cumsum", "nanmin": "nanmax", "nanmax": "nanmin", "keys": "values", "unique": "copy", "dropna": "copy",
        "copy": "squeeze", "deepcopy": "copy", "cumsum": "copy", "fillna": "add", "isin": "eq"}


def seg(src, off, n):
    return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)


def mutants(path, func):
    text = open(path).read()
    data = text.encode()
    starts = [0]
    for line in data.split(b"\n"):
        starts.append(starts[-1] + len(line) + 1)
    off = lambda l, c: starts[l - 1] + c
    tree = ast.parse(text)
    out = []

    def put(n, new, what, fn, a=None, b=None):
        if a is None:
            a, b = seg(data, off, n)
        out.append((fn, n.lineno, what, data[:a] + new.encode() + data[b:], data[a:b].decode()[:90].replace("\n", " "), new[:90].replace("\n", " ")))

    def src(n):
        a, b = seg(data, off, n)
        return data[a:b].decode()

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + n.name
        body = getattr(n, "body", None)
        if isinstance(body, list) and (fn or isinstance(n, ast.Module)):
            for blk in [body, getattr(n, "orelse", []) or [], getattr(n, "finalbody", []) or []]:
                if not isinstance(blk, list):
                    continue
                for st in blk:
                    if isinstance(st, (ast.Assign, ast.AugAssign)) and fn and isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.With, ast.Try)):
                        if not (isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name)):
                            put(st, "pass", "drop", fn)
                    elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and fn:
                        t = src(st)
                        if not re.match(r"(self\.)?(logger|warnings|click|logging|print)\b", t):
                            put(st, "pass", "drop", fn)
                    elif isinstance(st, (ast.Continue, ast.Break)):
                        put(st, "pass", "drop", fn)
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                op = type(n.ops[0])
                a, b = off(n.left.end_lineno, n.left.end_col_offset), off(n.comparators[0].lineno, n.comparators[0].col_offset)
                mid = data[a:b].decode()
                if OPS[op] in mid:
                    put(n, mid.replace(OPS[op], CMP[op], 1), "cmp", fn, a, b)
            elif isinstance(n, ast.BoolOp):
                a, b = off(n.values[0].end_lineno, n.values[0].end_col_offset), off(n.values[1].lineno, n.values[1].col_offset)
                mid = data[a:b].decode()
                w, v = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                put(n, re.sub(rf"\b{w}\b", v, mid, count=1), "bool", fn, a, b)
                put(n, src(n.values[0]), "bool1", fn)
                put(n, src(n.values[-1]), "bool2", fn)
            elif isinstance(n, ast.BinOp):
                swap = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"), ast.FloorDiv: ("//", "%"), ast.Mod: ("%", "//")}.get(type(n.op))
                if swap and not (isinstance(n.op, (ast.Mod, ast.Add)) and isinstance(n.left, (ast.Constant, ast.JoinedStr)) and not isinstance(getattr(n.left, "value", 0), (int, float))):
                    a, b = off(n.left.end_lineno, n.left.end_col_offset), off(n.right.lineno, n.right.col_offset)
                    mid = data[a:b].decode()
                    if swap[0] in mid:
                        put(n, mid.replace(swap[0], swap[1], 1), "arith", fn, a, b)
                    if isinstance(n.op, (ast.BitAnd, ast.BitOr)):
                        put(n, src(n.left), "mask1", fn)
                        put(n, src(n.right), "mask2", fn)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
                put(n, src(n.operand), "not", fn)
            elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
                if n.value is True or n.value is False:
                    put(n, str(not n.value), "const", fn)
                elif isinstance(n.value, int):
                    put(n, str(n.value + 1), "const", fn)
                    if n.value > 0:
                        put(n, str(n.value - 1), "const", fn)
                elif isinstance(n.value, float):
                    put(n, repr(n.value * 1.5), "const", fn)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and not src(n).startswith(('"""', "'''")) and 0 < len(n.value) < 40:
                put(n, repr(n.value + "x"), "str", fn)
            elif isinstance(n, ast.Attribute) and n.attr in ATTR:
                a, b = seg(data, off, n)
                put(n, ATTR[n.attr], "attr", fn, b - len(n.attr), b)
            elif isinstance(n, ast.Call) and n.keywords and len(n.keywords) and not re.match(r"(self\.)?(logger|click)\b", src(n.func)):
                for k in n.keywords:
                    if k.arg and k.arg not in ("help",):
                        a = off(k.value.lineno, k.value.col_offset) - len(k.arg) - 1
                        b = off(k.value.end_lineno, k.value.end_col_offset)
                        t = data[b:]
                        m = re.match(rb"\s*,\s*", t)
                        put(n, "", "kw", fn, off(k.lineno, k.col_offset), b + (m.end() if m else 0))
            elif isinstance(n, (ast.If, ast.IfExp)):
                put(n.test, "True", "if", fn)
                put(n.test, "False", "if", fn)
        doc = ast.get_docstring(n, clean=False) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) else None
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.JoinedStr):
                continue
            if doc is not None and isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            if isinstance(n, ast.Raise):
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and re.match(r"(self\.)?(logger|warnings|click\.echo|logging|print)\b", src(n)):
                continue
            walk(c, fn)
    walk(tree, "")
    good = []
    for m in out:
        if func and not re.search(func, m[0]):
            continue
        if m[3] == data:
            continue
        try:
            compile(m[3], path, "exec")
        except SyntaxError:
            continue
        good.append(m)
    return good


def main():
    p = argparse.ArgumentParser()
    p.add_argument("file")
    p.add_argument("props")
    p.add_argument("n", type=int)
    p.add_argument("--func")
    p.add_argument("--skip")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--jobs", type=int, default=3)
    p.add_argument("--out")
    p.add_argument("--list", action="store_true")
    p.add_argument("--rerun", help="only the mutants which survived in this log")
    a = p.parse_args()
    rng = random.Random(a.seed)
    ms = [m for m in mutants(os.path.join(SRC, a.file), a.func) if not (a.skip and re.search(a.skip, m[0]))]
    if a.rerun:
        left = {x[9:].strip() for x in open(a.rerun) if x.startswith("SURVIVED")}
        ms = [m for m in ms if f"{a.file}:{m[1]} {m[0]} [{m[2]}] {m[4]!r} -> {m[5]!r}" in left]
    # stratify: every function gets its share, roughly by the square root of its mutants
    by = {}
    for m in ms:
        by.setdefault(m[0], []).append(m)
    for v in by.values():
        rng.shuffle(v)
    pick, order = [], sorted(by)
    while len(pick) < min(a.n, len(ms)):
        names = [k for k in order if by[k]]
        k = rng.choices(names, [len(by[k]) ** 0.5 for k in names])[0]
        pick.append(by[k].pop())
    pick.sort(key=lambda m: m[1])
    if a.list:
        for m in pick:
            print(*m[:3], m[4], "->", m[5])
        return
    q = queue.Queue()
    for i, m in enumerate(pick):
        q.put((i, m))
    res, lock = [], threading.Lock()
    log = open(a.out, "a") if a.out else None

    def work(j):
        d = f"/tmp/mut/{os.getpid()}-{j}"
        subprocess.check_call(["rsync", "-a", "--exclude=.git", SRC + "/", d + "/"]) if shutil.which("rsync") else subprocess.check_call(["cp", "-a", SRC, d])
        try:
            while True:
                try:
                    i, m = q.get_nowait()
                except queue.Empty:
                    return
                f = os.path.join(d, a.file)
                keep = open(f, "rb").read()
                open(f, "wb").write(m[3])
                caught = None
                for prop in a.props.split(","):
                    try:
                        c = subprocess.run(["nice", "./check.sh", prop, "quick"], cwd=ROOT, env=dict(os.environ, REPO_ROOT=d, EVIDENCE_DIR=d + "-ev"), capture_output=True, text=True, timeout=300)
                    except subprocess.TimeoutExpired:
                        caught = prop + "(timeout)"
                        break
                    if c.returncode != 0:
                        caught = prop + ("" if c.returncode == 1 else f"({c.returncode})")
                        break
                open(f, "wb").write(keep)
                with lock:
                    line = f"{'caught ' + caught if caught else 'SURVIVED'} {a.file}:{m[1]} {m[0]} [{m[2]}] {m[4]!r} -> {m[5]!r}"
                    res.append(caught)
                    print(line, flush=True)
                    if log:
                        log.write(line + "\n")
                        log.flush()
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(d + "-ev", ignore_errors=True)
    ts = [threading.Thread(target=work, args=(j,)) for j in range(a.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(f"{sum(1 for r in res if r)} of {len(res)} noticed")


if __name__ == "__main__":
    main()
