import argparse
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from vlib.core import Obs, Skip, Violation, case_rng, case_seed, known_findings

VERIF = os.environ.get("VERIF_ROOT", os.getcwd())
REPO = os.environ.get("REPO_ROOT", "/repo")


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


def load_monitor(prop):
    return importlib.import_module("monitors." + prop.lower())


_MON = None


@contextlib.contextmanager
def quiet():
    """Redirect the file descriptors (logging handlers keep their own refs)."""
    sys.stdout.flush()
    sys.stderr.flush()
    saved = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        yield
    finally:
        with contextlib.suppress(Exception):
            sys.stdout.flush()
            sys.stderr.flush()
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
        for fd in (*saved, null):
            os.close(fd)


def run_one(job):
    kind, seed, limit = job
    obs = Obs()
    out = {"kind": kind, "seed": seed, "status": "ok", "msg": None, "key": None}
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    cwd = os.getcwd()
    try:
        with quiet():
            _MON.run_case(kind, case_rng(seed), obs)
    except Violation as v:
        out.update(status="violation", msg=str(v), key=v.key, detail=v.detail)
    except Skip as s:
        out.update(status="skip", msg=str(s))
    except _Timeout:
        out.update(status="timeout", msg=f"case did not finish within {limit} s")
    except MemoryError:
        out.update(status="error", msg="MemoryError in harness")
    except BaseException as e:  # noqa: B902 - classified below
        # An exception nobody expected: if it was raised (or passed through)
        # code of the repository the code under test refused a valid input.
        tb = traceback.format_exc()
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        in_repo = any(os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep) for f in frames)
        if isinstance(e, KeyboardInterrupt):
            raise
        out.update(
            status="violation" if in_repo else "error",
            msg=f"{'unexpected exception from the code under test' if in_repo else 'harness error'}: "
                f"{type(e).__name__}: {e}",
            key=None,
            detail=tb,
        )
    finally:
        signal.alarm(0)
        with contextlib.suppress(Exception):
            os.chdir(cwd)
    out.update(
        wall=time.time() - t0, checks=obs.checks, sigs=obs.signatures, sample=obs.sample, events=obs.events
    )
    return out


def main():
    global _MON
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--kind")
    ap.add_argument("--max", type=int)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, REPO)
    prop = a.prop.upper()
    try:
        with quiet():
            _MON = load_monitor(prop)
    except Exception as e:
        tb = traceback.format_exc()
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        print(tb)
        if any(f.startswith(os.path.realpath(REPO) + os.sep) for f in frames):
            # The package cannot even be imported: nothing it promises holds.
            path = write_replay(prop, {"kind": "import", "seed": 0, "msg": tb})
            write_evidence(prop, a.tier, seed, t0, [], 1)
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        return 2

    limit = getattr(_MON, "CASE_LIMIT_S", 150)
    if a.replay:
        doc = json.load(open(a.replay))
        jobs = [(doc["kind"], doc["seed"], limit)]
    else:
        jobs = []
        for kind, (nq, nt) in _MON.KINDS.items():
            if a.kind and kind != a.kind:
                continue
            n = nq if a.tier == "quick" else nt
            if a.max:
                n = min(n, a.max)
            jobs += [(kind, case_seed(prop, kind, i, seed), limit) for i in range(n)]

    if hasattr(_MON, "prepare"):
        with quiet():
            _MON.prepare()

    known = known_findings(prop)
    results, bad = [], []
    known_hits = {}
    nproc = min(a.jobs, len(jobs))
    deadline = t0 + (780 if a.tier == "quick" else 24 * 3600)

    def handle(r):
        results.append(r)
        if r["status"] == "violation":
            if r["key"] is not None and r["key"] in known:
                known_hits.setdefault(r["key"], []).append(r)
                r["status"] = "known"
            else:
                bad.append(r)
        return len(bad) >= 5 and not a.keep_going

    if nproc <= 1:
        for j in jobs:
            if handle(run_one(j)) or time.time() > deadline:
                break
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=getattr(_MON, "TASKS_PER_CHILD", None)) as pool:
            it = pool.imap_unordered(run_one, jobs, chunksize=1)
            while True:
                try:
                    r = it.next(limit + 60)
                except StopIteration:
                    break
                except mp.TimeoutError:
                    # the watchdog of every worker would have fired by now
                    handle({"kind": "lost", "seed": 0, "status": "violation", "key": None, "checks": 0, "sigs": [], "events": {},
                            "msg": f"no result for {limit + 60} s: the code under test ended its process or cannot be interrupted"})
                    pool.terminate()
                    break
                if handle(r) or time.time() > deadline:
                    pool.terminate()
                    break

    for key, rs in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={prop} {known[key]} [{len(rs)} occurrences]")
    errors = [r for r in results if r["status"] == "error"]
    timeouts = [r for r in results if r["status"] == "timeout"]
    ev = write_evidence(prop, a.tier, seed, t0, results, len(bad))
    for r in (bad if a.keep_going else bad[:5]):
        print(f"--- {r['kind']} seed={r['seed']}: {r['msg']}")
        if r.get("detail"):
            print(str(r["detail"])[:3000])
    if bad:
        r = bad[0]
        path = write_replay(prop, r)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for r in (errors + timeouts)[:5]:
        print(f"ERROR in {r['kind']} seed={r['seed']}: {r['msg']}\n{r.get('detail') or ''}")
    if len(timeouts) >= 2:
        # same watchdog firing repeatedly on cases that normally take well under a
        # second: the code under test does not terminate on valid input
        path = write_replay(prop, timeouts[0])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors or timeouts:
        print(f"INCONCLUSIVE property={prop}: harness error")
        return 2
    need = getattr(_MON, "MIN_SIGNATURES", 3)
    if not a.replay and not a.kind and ev["coverage"]["distinct_nontrivial"] < need:
        print(f"INCONCLUSIVE property={prop}: the oracle was evaluated in too few situations")
        return 2
    ran_kinds = {r["kind"] for r in results if r["status"] in ("ok", "known")}
    missing = set(k for k, *_ in jobs) - ran_kinds
    if missing and not a.replay:
        print(f"INCONCLUSIVE property={prop}: workload kinds never decided: {sorted(missing)}")
        return 2
    c = ev["coverage"]
    print(
        f"HELD property={prop} tier={a.tier} seed={seed} executions={c['evaluations']} "
        f"distinct={c['distinct_nontrivial']} assertions={c['assertions']} wall={ev['wall_s']:.1f}s"
    )
    return 0


def write_replay(prop, r):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{r['kind']}-{r['seed']}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "kind": r["kind"],
                "seed": r["seed"],
                "msg": r["msg"],
                "detail": str(r.get("detail") or "")[:20000],
                "how": f"cd {VERIF} && ./check.sh {prop} quick --replay {path}",
            },
            f,
            indent=1,
        )
    return path


def write_evidence(prop, tier, seed, t0, results, n_bad):
    sigs = {}
    events = {}
    kinds = {}
    for r in results:
        for s in r.get("sigs", ()):
            sigs[s] = sigs.get(s, 0) + 1
        for k, v in r.get("events", {}).items():
            events[k] = events.get(k, 0) + v
        k = kinds.setdefault(r["kind"], {"run": 0, "skipped": 0, "known_finding": 0})
        k["run"] += 1
        k["skipped"] += r["status"] == "skip"
        k["known_finding"] += r["status"] == "known"
    samples = []
    for r in results:
        if r.get("sample") and len(samples) < 6 and sum(s["kind"] == r["kind"] for s in samples) < 2:
            samples.append({"kind": r["kind"], "seed": r["seed"], "case": r["sample"]})
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": getattr(_MON, "RULE", ""),
            "samples": samples,
            "assertions": sum(r.get("checks", 0) for r in results),
            "workload_kinds": kinds,
            "observed_events": events,
            "signature_histogram_top": dict(sorted(sigs.items(), key=lambda x: -x[1])[:15]),
        },
        "assumptions": list(getattr(_MON, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": n_bad,
    }
    d = os.environ.get("EVIDENCE_DIR") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, f"{prop}.json"))
    return doc


def scratch_root():
    """Everything temporary goes into one directory (letters only: some loaders look at digits anywhere in a path)."""
    while True:
        d = os.path.join(tempfile.gettempdir(), "vp" + "".join(random.SystemRandom().choices("abdfgijklmopqrstuvwxyz", k=12)))
        try:
            os.mkdir(d)
            return d
        except FileExistsError:
            continue


if __name__ == "__main__":
    top = scratch_root()
    tempfile.tempdir = os.environ["TMPDIR"] = top
    try:
        code = main()
    finally:
        shutil.rmtree(top, ignore_errors=True)
    sys.exit(code)
