"""C09 - lifetime metrics name the right cycles and do not depend on how the run was obtained."""
import os

import numpy as np
import pandas as pd

from monitors.c04 import scratch
from vlib import cells
from vlib.cells import same
from vlib.core import Skip

ID = "C09"
RULE = (
    "Capacity fade histories (monotone, noisy with a dip and recovery, rising first, never failing, ending exactly on the "
    "threshold; below and above 40 cycles; any numbering origin and gaps) are turned into structured runs, the metrics are "
    "computed on the fresh run, on its saved copies and on a run structured after loading, and compared with a direct scan. "
    "Non-trivial: at least one threshold compared; distinct by (history shape, length class, numbering, crossing)."
)
KINDS = {"metrics": (400, 4000), "structured": (40, 300)}
MIN_SIGNATURES = 40


def history(rng, n):
    shape = rng.choice(["linear", "knee", "noisy", "dip", "rise", "flat", "exact"])
    q0 = rng.choice([1.1, 1.07, 4.7, 0.25])
    base = q0 if n > 40 else 1.1
    xs = []
    for k in range(n):
        f = k / max(n - 1, 1)
        y = {"linear": 1 - 0.5 * f, "knee": 1 - 0.05 * f - 0.6 * max(0, f - 0.6), "noisy": 1 - 0.4 * f + rng.uniform(-0.03, 0.03),
             "dip": 1 - 0.35 * f - (0.3 if 0.45 < f < 0.5 else 0), "rise": 1 + 0.08 * min(f, 0.2) - 0.4 * max(0, f - 0.2),
             "flat": 1 - 0.01 * f, "exact": 1 - 0.1 * f}[shape]
        xs.append(round(y * base, 5))
    return shape, xs


def expected(caps, cycles, threshold, cutoff=40):
    top = float(np.median(caps[:cutoff])) if len(caps) > cutoff else 1.1
    lim = threshold * top
    if any(abs(c - lim) < 1e-9 and c != lim for c in caps):
        return None
    if caps[-1] < lim:
        return next(c for c, q in zip(cycles, caps) if q < lim)
    return len(caps) + 1


def compare(obs, dp, caps, cycles, tag, rng_thresholds, extra):
    crossed = 0
    for th in rng_thresholds:
        want = expected(caps, cycles, th)
        if want is None:
            continue
        got = dp.get_cycle_life(threshold=th)
        obs.require(got == want, lambda: f"{tag}: cycle life at {th} is {got}, the run drops below at {want}")
        crossed += want != len(caps) + 1
        obs.count("thresholds")
        cutoff = extra[3]
        want = expected(caps, cycles, th, cutoff)
        if want is not None:
            got = dp.get_cycle_life(cutoff, th)
            obs.require(got == want, lambda: f"{tag}: cycle life at {th} of the first {cutoff} cycles is {got}, expected {want}")
    if 0.8 in rng_thresholds:
        obs.require(dp.get_cycle_life() == dp.get_cycle_life(threshold=0.8), "default threshold is not 0.8")
    lo, hi, step, _ = extra
    table = dp.cycles_to_capacities(cycle_min=lo, cycle_max=hi, cycle_interval=step)
    grid = list(range(lo, hi, step))
    obs.require(list(table.columns) == [f"cycle_{k}" for k in grid], lambda: f"{tag}: columns {list(table.columns)}")
    for k in grid:
        want = caps[k] if k < len(caps) else 0
        obs.require(same(table[f"cycle_{k}"].iloc[0], want, 1e-6, 1e-9),
                    lambda: f"{tag}: cycle_{k} is {table[f'cycle_{k}'].iloc[0]}, capacity there is {want}")
    ths = [round(0.98 - 0.03 * k, 2) for k in range(7)]
    table = dp.capacities_to_cycles()
    obs.require(list(table.columns) == [f"capacity_{t}" for t in ths], lambda: f"{tag}: columns {list(table.columns)}")
    for t in ths:
        want = expected(caps, cycles, t)
        if want is not None:
            got = table[f"capacity_{t}"].iloc[0]
            obs.require(got == want, lambda: f"{tag}: capacity_{t} is {got}, expected {want}")
    table = dp.capacities_to_cycles(thresh_max_cap=0.9, thresh_min_cap=0.69, interval_cap=0.1)
    obs.require(list(table.columns) == ["capacity_0.9", "capacity_0.8", "capacity_0.7"], lambda: f"{tag}: columns {list(table.columns)}")
    for t in (0.9, 0.8, 0.7):
        want = expected(caps, cycles, t)
        if want is not None:
            obs.require(table[f"capacity_{t}"].iloc[0] == want, lambda: f"{tag}: capacity_{t} is {table[f'capacity_{t}'].iloc[0]}, expected {want}")
    return crossed


def run_case(kind, rng, obs):
    n = rng.choice([1, 2, 10, 39, 40, 41, 60, 120])
    if kind == "structured":
        n = rng.choice([3, 12])
    shape, caps = history(rng, n)
    origin = rng.choice([0, 1, 1, 37])
    gap = rng.random() < 0.3
    cycles, c = [], origin
    for _ in range(n):
        cycles.append(c)
        c += 1 + (rng.randrange(1, 4) if gap and rng.random() < 0.1 else 0)
    cls = cells.datapath_class(rng.choice(["arbin", "maccor", "neware"]))
    # minimal raw data which really passes through structuring
    rows = []
    t = 0.0
    pts = 3
    for cyc, q in zip(cycles, caps):
        for st, sgn in ((1, 1), (2, -1)):
            for k in range(pts):
                t += 60
                f = k / (pts - 1)
                rows.append({"cycle_index": cyc, "step_index": st, "test_time": t, "step_time": 60.0 * k, "current": float(sgn),
                             "voltage": 2.9 + 0.6 * (f if sgn > 0 else 1 - f),
                             "charge_capacity": 1.01 * q * f if sgn > 0 else 1.01 * q, "discharge_capacity": 0.0 if sgn > 0 else q * f,
                             "charge_energy": 1.02 * q * f if sgn > 0 else 1.02 * q, "discharge_energy": 0.0 if sgn > 0 else 0.98 * q * f,
                             "internal_resistance": 0.02, "temperature": 30.0, "date_time_iso": "2019-01-01T00:00:00+00:00"})
    raw = pd.DataFrame(rows)
    dp = cls(raw_data=raw, metadata={"barcode": "b", "protocol": "p", "channel_id": 1})
    if kind == "structured":
        dp.structure(resolution=3)
    else:
        # only the summary matters for the metrics
        dp.structured_summary = dp.summarize_cycles()
        dp.structured_data = pd.DataFrame({"cycle_index": cycles[:1], "voltage": [3.0]})
    got = list(dp.structured_summary.discharge_capacity)
    obs.require(len(got) == n and all(same(a, b, 1e-9) for a, b in zip(got, caps)), "summary does not hold the history")
    caps = [float(q) for q in got]
    ths = [0.8, rng.choice([0.5, 0.9, 0.95, 0.7]), round(rng.uniform(0.4, 0.99), 3)]
    top = float(np.median(caps[:40])) if n > 40 else 1.1
    for q in rng.sample(caps, min(n, 5)) if rng.random() < 0.5 else ():
        if (q / top) * top == q:  # some cycle sits exactly on the threshold
            ths.append(q / top)
            break
    if shape == "exact":
        ths.append(caps[-1] / top if (caps[-1] / top) * top == caps[-1] else 0.8)
    extra = rng.choice([(200, 1800, 200), (0, 50, 10), (5, 38, 4), (1, 100, 20)]) + (rng.choice([10, 40, 5, 59, 0]),)
    crossed = compare(obs, dp, caps, cycles, "fresh run", ths, extra)
    with scratch() as d:
        form = rng.choice(["x.json", "x.json.gz"])
        p = os.path.join(d, form)
        dp.to_json_file(p, omit_raw=rng.random() < 0.5)
        back = cls.from_json_file(p)
        compare(obs, back, caps, cycles, "saved and loaded run", ths, extra)
    obs.describe(f"{shape} {n} cycles from {origin}, gaps={gap}, thresholds={ths}")
    obs.saw(shape, n, origin, gap, crossed)
    # unstructured runs are refused
    if rng.random() < 0.2:
        fresh = cls(raw_data=raw, metadata={})
        for op in ("get_cycle_life", "cycles_to_capacities", "capacities_to_cycles"):
            try:
                getattr(fresh, op)()
            except RuntimeError:
                continue
            obs.require(False, f"{op} answered on an unstructured run")
