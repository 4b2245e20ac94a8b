"""C27 - Splicing the files of an interrupted Maccor test keeps every record of both and lets no counter fall back."""
import csv
import hashlib
import os

import pandas as pd

from monitors.c04 import scratch

ID = "C27"
RULE = (
    "Pairs and chains of Maccor text files (restarting or continuing counters, extra columns, empty fields, single records) are "
    "spliced by the real code; every field of the output is compared with the field of the record it comes from, the counters with "
    "an independent rule, and the spliced file is ingested and its records counted. Non-trivial: a file was spliced; distinct by "
    "(number of files, which counters restart, columns, lengths)."
)
KINDS = {"pair": (900, 9000), "chain": (300, 3000), "ingest": (300, 3000)}
MIN_SIGNATURES = 40
COUNTERS = ["Rec#", "Cyc#", "Test (Sec)", "Loop1", "Loop2", "Loop3", "Loop4"]


def table(rng, start, extra, n):
    """rows of strings; start: counters of the first record"""
    rows, now = [], dict(start)
    for i in range(n):
        r = {k: (f"{v:.2f}" if k == "Test (Sec)" else str(v)) for k, v in now.items()}
        r.update({"Step": str(rng.choice([1, 2, 3, 17])), "Step (Sec)": f"{rng.uniform(0, 4000):.2f}", "Amp-hr": value(rng, 0, 5),
                  "Watt-hr": value(rng, 0, 20), "Amps": value(rng, 0, 9), "Volts": f"{rng.uniform(2, 4.2):.8f}",
                  "State": rng.choice("CDRSP"), "ES": str(rng.choice([0, 1, 5, 128, 133])),
                  "DPt Time": f"{rng.randrange(1, 13):02d}/{rng.randrange(1, 29):02d}/2020 {rng.randrange(24):02d}:{rng.randrange(60):02d}:{rng.randrange(60):02d}"})
        for x in extra:
            r[x] = rng.choice(["", "N/A", f"{rng.uniform(-50, 50):.6f}"]) if x.startswith("Temp") else f"{rng.uniform(0, 1):.8f}"
        rows.append(r)
        now["Rec#"] += rng.choice([1, 1, 1, 2])
        now["Cyc#"] += rng.random() < 0.2
        now["Test (Sec)"] = round(now["Test (Sec)"] + rng.choice([0, 0.01, 1, 60.5, 3600]), 2)
        for k in ("Loop1", "Loop2", "Loop3", "Loop4"):
            if rng.random() < 0.15:
                now[k] = rng.choice([now[k] + 1, 0])
    return rows


def value(rng, lo, hi):
    """as Maccor exports it, or with all the digits"""
    v = rng.uniform(lo, hi)
    return f"{v:.10f}" if rng.random() < 0.7 else repr(v * rng.choice([1, 1000]))


def write(path, meta, cols, rows, rng):
    with open(path, "w", newline="") as f:
        nl = rng.choice(["\n", "\r\n"])
        f.write(meta + nl + "\t".join(cols) + nl)
        for r in rows:
            f.write("\t".join(r[c] for c in cols) + nl)
        if rng.random() < 0.2:
            f.write(nl)


def read(path):
    lines = open(path).read().split("\n")
    return lines[0], list(csv.reader(lines[1:], delimiter="\t"))


def fresh(rng, prev):
    """counters with which the next file starts: restarted, continued or equal"""
    start = {}
    for k in COUNTERS:
        last = 0 if prev is None else prev[k]
        first = {"Rec#": 1, "Test (Sec)": 0.0}.get(k, rng.choice([0, 0, 1]))
        start[k] = rng.choice([first, first, last + 1, last]) if prev is not None else rng.choice([first, first, 7])
    return start


def digest(p):
    return hashlib.md5(open(p, "rb").read()).hexdigest()


def alike(a, b):
    """field a as in the input, field b as in the output"""
    a, b = a.strip(), b.strip()
    if a == b or (a in ("", "N/A") and b in ("", "N/A")):
        return True
    try:
        x, y = float(a), float(b)
    except ValueError:
        return False
    return abs(x - y) <= 1e-12 * abs(x)


def case(kind, rng, obs):
    from beep.utils.splice import MaccorSplice
    n = rng.choice([3, 4]) if kind == "chain" else 2
    extra = rng.sample(["Temp 1", "Temp 2", "ACImp/Ohms", "DCIR/Ohms", "WF Chg Cap", "VAR1", "VAR15"], rng.choice([0, 2, 4]))
    if kind == "ingest":
        extra = list(dict.fromkeys(["ACImp/Ohms", "DCIR/Ohms", "WF Chg Cap", "WF Dis Cap", "WF Chg E", "WF Dis E", "Range"] + [f"VAR{i}" for i in range(1, 16)] + extra))
    some = rng.sample(extra, len(extra) // 2) if rng.random() < 0.25 and kind != "ingest" else []
    cols = ["Rec#", "Cyc#", "Step", "Test (Sec)", "Step (Sec)", "Amp-hr", "Watt-hr", "Amps", "Volts", "State", "ES", "DPt Time",
            "Loop1", "Loop2", "Loop3", "Loop4"] + extra
    if rng.random() < 0.3:
        head, tail = cols[:2], cols[2:]
        rng.shuffle(tail)
        cols = head + tail
    end = rng.choice(["", "", "\t", "  "])
    metas = [f"Today's Date\t0{i + 1}/02/2020\tDate of Test:\t01/0{i + 1}/2020\tFilename:\tC:\\DATA\\PreDiag_00000{i}.0{i}0\tProcedure:\tPreDiag_00000{i}.000\tComment/Barcode: é{i}{end}" for i in range(n)]
    with scratch() as d:
        files, tables, prev, present = [], [], None, set()
        for i in range(n):
            # some columns may be in some of the files only
            lack = rng.sample(some, rng.randrange(len(some) + 1))
            rows = table(rng, fresh(rng, prev), extra, rng.choice([1, 2, 5, 30]))
            if prev is not None and rng.random() < 0.25:
                # the last record is in both files
                keep = {k: dict(tables[-1][-1])[k] for k in tables[-1][-1]}
                now = {k: prev[k] for k in COUNTERS}
                rows = [keep] + table(rng, now, extra, rng.choice([1, 2, 5]))
            for r in rows:
                r.update({k: "" for k in lack})
            prev = {k: float(rows[-1][k]) if k == "Test (Sec)" else int(rows[-1][k]) for k in COUNTERS}
            p = os.path.join(d, f"part{i}.txt")
            write(p, metas[i], [c for c in cols if c not in lack], rows, rng)
            present |= set(cols) - set(lack)
            files.append(p)
            tables.append(rows)
        before = [digest(p) for p in files]
        out = files[0]
        for i in range(1, n):
            nxt = os.path.join(d, f"spliced{i}.txt")
            MaccorSplice(out, files[i], nxt).run_splice()
            out = nxt
        obs.require([digest(p) for p in files] == before, "the input files were changed")
        # independent result
        want, offsets, restarts = [], None, []
        for i, rows in enumerate(tables):
            shift = {}
            for k in COUNTERS:
                last = None if not want else want[-1][k]
                first = float(rows[0][k])
                shift[k] = last if last is not None and first < last else 0
                restarts.append(shift[k] > 0)
            for r in rows:
                w = dict(r)
                w.update({k: float(r[k]) + shift[k] for k in COUNTERS})
                want.append(w)
        meta, got = read(out)
        obs.require(meta.rstrip("\r") == metas[0], lambda: f"metadata {meta!r}, of the first file {metas[0]!r}")
        header, got = got[0], [r for r in got[1:] if r]
        obs.require(sorted(header) == sorted(present), lambda: f"columns {header}, of the files {sorted(present)}")
        obs.require(len(got) == len(want), lambda: f"{len(got)} records, the files have {[len(t) for t in tables]}")
        for j, (g, w) in enumerate(zip(got, want)):
            for h, v in zip(header, g):
                if h in COUNTERS:
                    obs.require(abs(float(v) - w[h]) <= 1e-6, lambda: f"record {j}: {h} is {v}, expected {w[h]}")
                else:
                    obs.require(alike(w[h], v), lambda: f"record {j}: {h} is {v!r}, in its file {w[h]!r}")
        ends = [sum(len(t) for t in tables[:i + 1]) for i in range(n - 1)]
        for e in ends:
            for k in COUNTERS:
                a, b = float(got[e - 1][header.index(k)]), float(got[e][header.index(k)])
                obs.require(b >= a, lambda: f"{k} falls from {a} to {b} between the files")
        obs.count("records", len(got))
        obs.saw(kind, n, tuple(restarts), len(extra), tuple(min(len(t), 3) for t in tables))
        obs.describe(f"{kind}: {[len(t) for t in tables]} records, columns {extra}")
        if kind == "ingest":
            from beep.structure.maccor import MaccorDatapath
            dp = MaccorDatapath.from_file(out)
            obs.require(len(dp.raw_data) == len(want), lambda: f"{len(dp.raw_data)} records ingested, {len(want)} spliced")
            obs.require([int(x) for x in dp.raw_data.cycle_index] == [int(w["Cyc#"]) for w in want], "cycle numbers of the ingested file")
            tt = [float(x) for x in dp.raw_data.test_time]
            obs.require(all(abs(a - w["Test (Sec)"]) <= 1e-6 * max(1, a) for a, w in zip(tt, want)), "test times of the ingested file")
            obs.count("ingested")


def run_case(kind, rng, obs):
    case(kind, rng, obs)
