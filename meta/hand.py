#!/usr/bin/env python3
"""Developer aid: hand-written changes, each applied to a scratch copy, and which of the given checks notice it.

hand.py LIST.py [--jobs J] [--only N,N]     LIST.py defines M = [(props, file, old, new), ...] (or (props, [(file, old, new), ...]))
"""
import os
import queue
import shutil
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("SEED_SRC", "/repo")


def main():
    jobs = int(sys.argv[sys.argv.index("--jobs") + 1]) if "--jobs" in sys.argv else 4
    only = {int(x) for x in sys.argv[sys.argv.index("--only") + 1].split(",")} if "--only" in sys.argv else None
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    q = queue.Queue()
    for i, m in enumerate(ns["M"]):
        if only is None or i in only:
            q.put((i, m))
    base = f"/tmp/hand_work_{os.getpid()}"
    lock = threading.Lock()

    def work(j):
        d = f"{base}/{j}"
        shutil.copytree(SRC, d, ignore=shutil.ignore_patterns(".git", "docs", "test_files"), symlinks=True)
        while True:
            try:
                i, m = q.get_nowait()
            except queue.Empty:
                return
            subs = m[1] if len(m) == 2 else [m[1:]]
            saved = {}
            try:
                bad = None
                for f, a, b in subs:
                    p = os.path.join(d, f)
                    s = open(p).read()
                    saved.setdefault(p, s)
                    if s.count(a) != 1:
                        bad = f"{f}: text occurs {s.count(a)} times: {a[:60]!r}"
                        break
                    open(p, "w").write(s.replace(a, b))
                out = []
                if not bad:
                    for prop in m[0].split(","):
                        r = subprocess.run([os.path.join(ROOT, "check.sh"), prop, "quick"], capture_output=True, text=True,
                                           env=dict(os.environ, REPO_ROOT=d, EVIDENCE_DIR=f"{base}/ev{j}"))
                        if r.returncode:
                            out.append(f"{prop}({[l for l in r.stdout.splitlines() if l.startswith('---')][:1]})"[:230])
                            break
                with lock:
                    a, b = subs[0][1], subs[0][2]
                    print(f"{'ERROR ' + bad if bad else 'caught' if out else 'SURVIVED'} #{i} {m[0]} {subs[0][0]} {a.strip()[:70]!r} -> {b.strip()[:70]!r} {' '.join(out)}", flush=True)
            finally:
                for p, s in saved.items():
                    open(p, "w").write(s)

    ts = [threading.Thread(target=work, args=(j,)) for j in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(base, ignore_errors=True)


main()
