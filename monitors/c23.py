"""C23 - Degradation targets: remaining fractions, throughput to threshold, and exclusion criteria."""
import calendar
import copy
import datetime
import math
import os

import numpy as np
import pandas as pd

from monitors.c04 import scratch
from monitors.c21 import close, isnan
from vlib import diag
from vlib.core import Skip

ID = "C23"
RULE = (
    "Runs with several diagnostics between regular cycles (with or without a first cycle, ending within, right after or long after "
    "the last diagnostic, lost capacities) get their remaining fractions, normalized throughputs, crossings of a threshold (reached "
    "or extrapolated, over any axes, cycle type and metric) and exclusion verdicts, which are compared with an independent "
    "computation from the generated cycles; refusals are checked as well and the run must stay as it was. Non-trivial: features "
    "are created or a refusal is due; distinct by (function, run shape, hyperparameters)."
)
KINDS = {"remaining": (100, 1500), "threshold": (250, 3000), "exclusion": (250, 2500)}
MIN_SIGNATURES = 60

from beep import PROTOCOL_PARAMETERS_DIR  # noqa: E402
from beep.features import featurizer_helpers as fh  # noqa: E402
from beep.features.base import BEEPFeaturizationError  # noqa: E402
from beep.features.core import DiagnosticProperties, ExclusionCriteria  # noqa: E402

# the settings used when none are given (the folder of the parameter tables is beep's own)
DEFAULTS = {
    DiagnosticProperties: {"parameters_dir": PROTOCOL_PARAMETERS_DIR, "quantities": ["discharge_energy", "discharge_capacity"], "threshold": 0.8,
                           "metric": "discharge_energy", "filter_kinks": None, "interpolation_axes": ["normalized_regular_throughput", "cycle_index"],
                           "cycle_type": "rpt_1C", "extrapolate_threshold": True},
    ExclusionCriteria: {"parameters_dir": PROTOCOL_PARAMETERS_DIR, "EOL_conditions": {"cycle_type": "rpt_0.2C", "threshold": 0.8, "quantity": "discharge_capacity"},
                        "throughput_first_n_cycles": {"n": 30, "cutoff": 20}, "equivalent_full_cycles_cutoff": 30, "early_CV_cutoff": 0.3},
}


def run_case(kind, rng, obs):
    with scratch() as d:
        globals()["case_" + kind](rng, obs, os.path.join(d, "params"))


def remaining(d, reg, metric, cycle_type):
    """the documented table: one row per diagnostic cycle of a type, up to the last regular cycle"""
    norm = "discharge_energy" if "energy" in metric else "discharge_capacity"
    diags = {int(c) for c in d.summary.cycle_index}
    regular = [(int(c), float(q)) for c, q in zip(reg.cycle_index, reg[norm]) if c != 0 and int(c) not in diags]
    last = max(c for c, _ in regular)
    second = d.cycles[1]["reset"]
    x = math.fsum(q for c, q in regular if c < second and not isnan(q))
    base = float(d.summary[metric].iloc[0])
    rows = []
    for c, t, m, when in zip(d.summary.cycle_index, d.summary.cycle_type, d.summary[metric], d.summary.date_time_iso):
        if t != cycle_type or c > last:
            continue
        rows.append({
            "cycle_index": int(c), "fractional_metric": float(m) / base, "initial_regular_throughput": x,
            "normalized_regular_throughput": math.fsum(q for k, q in regular if k < c and not isnan(q)) / x,
            "normalized_diagnostic_throughput": math.fsum(float(q) for k, q in zip(d.summary.cycle_index, d.summary[norm]) if k < c and not isnan(q)) / x,
            "diagnostic_start_cycle": d.row["diagnostic_start_cycle"], "diagnostic_interval": d.row["diagnostic_interval"],
            "epoch_time": calendar.timegm(datetime.datetime.fromisoformat(when).timetuple())})
    return rows


def usable(d):
    """the last regular cycles have to lie behind the second diagnostic"""
    last = max(d.regular)
    if last < d.cycles[1]["rpt_2C"]:
        raise Skip("no regular cycles after the second diagnostic")
    return last


def lose(rng, d):
    if rng.random() < 0.3:
        # regular cycles whose capacity is not known; never the one that ends the initial regular cycles
        ends = {d.cycles[1]["reset"] - 1}
        for i, c in enumerate(d.regular):
            if rng.random() < 0.1 and c not in ends:
                d.reg.loc[i, ["discharge_capacity", "discharge_energy"]] = math.nan
        d.dp.structured_summary = d.reg.copy()
        return True
    return False


def case_remaining(rng, obs, folder):
    d = diag.build(rng, folder, points=6)
    last = usable(d)
    lost = lose(rng, d)
    dp = d.dp
    metric, t = rng.choice(diag.METRICS), rng.choice(diag.ORDER)
    want = remaining(d, d.reg, metric, t)
    both = rng.random() < 0.2
    if both:
        # the summary of regular cycles may list the diagnostic cycles, too
        extra = pd.DataFrame([{k: r[k] for k in ("cycle_index", "discharge_capacity", "charge_capacity", "discharge_energy", "charge_energy", "date_time_iso")}
                              for r in d.summary.to_dict("records")])
        dp.structured_summary = pd.concat([d.reg, extra]).sort_values("cycle_index").reset_index(drop=True)
    snap = diag.snapshot(dp)
    got = fh.get_fractional_quantity_remaining_nx(dp, metric, t, parameters_path=folder)
    diag.unchanged(obs, dp, snap, "get_fractional_quantity_remaining_nx")
    obs.require(len(got) == len(want) and set(got.columns) == set(want[0]), lambda: f"{t}: {len(got)} rows of {list(got.columns)}, expected {len(want)} of {list(want[0])}")
    for i, w in enumerate(want):
        for k, v in w.items():
            g = float(got[k].iloc[i])
            obs.require(close(g, v, 1e-9), lambda: f"{k} of {metric} at {t} cycle {w['cycle_index']} is {g}, expected {v}")
    obs.count("rows", len(want))
    simple = fh.get_fractional_quantity_remaining(dp, metric, t)
    diag.unchanged(obs, dp, snap, "get_fractional_quantity_remaining")
    base = float(d.summary[metric].iloc[0])
    late = [(int(c), float(m) / base) for c, x, m in zip(d.summary.cycle_index, d.summary.cycle_type, d.summary[metric]) if x == t and c > 100]
    obs.require([(int(a), b) for a, b in zip(simple.cycle_index, simple.fractional_metric)] == late or (
        len(simple) == len(late) and all(int(a) == u and abs(b - v) < 1e-12 for a, b, (u, v) in zip(simple.cycle_index, simple.fractional_metric, late))),
        lambda: f"{simple}, expected {late}")
    obs.saw("remaining", metric, t, d.n, lost, both, last - d.cycles[-1]["rpt_2C"] > 0, 0 in d.regular)
    obs.describe(f"{metric} at {t}: {len(want)} diagnostics")


def crossing(xs, ys, th):
    """where the line through the points, continued beyond its end, reaches the threshold"""
    for (x0, y0), (x1, y1) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
        if y0 >= th >= y1:
            return x0 + (y0 - th) / (y0 - y1) * (x1 - x0)
    x0, x1, y0, y1 = xs[-2], xs[-1], ys[-2], ys[-1]
    return x0 + (y0 - th) / (y0 - y1) * (x1 - x0)


def case_threshold(rng, obs, folder):
    d = diag.build(rng, folder, n_diags=rng.choice([3, 4, 8]), points=6, monotone=True)
    usable(d)
    lose(rng, d)
    dp = d.dp
    axes = rng.choice([["normalized_regular_throughput", "cycle_index"], ["normalized_regular_throughput"], ["cycle_index"],
                       ["cycle_index", "normalized_diagnostic_throughput"], ["cycle_index", "normalized_regular_throughput", "epoch_time"]])
    metric, t = rng.choice(diag.METRICS), rng.choice(diag.ORDER)
    others = [m for m in diag.METRICS if m != metric]
    quantities = rng.sample([metric] + rng.sample(others, rng.choice([0, 1, 2])), 1) if rng.random() < 0 else None
    quantities = [metric] + rng.sample(others, rng.choice([0, 1, 2]))
    rng.shuffle(quantities)
    rows = remaining(d, d.reg, metric, t)
    ys = [r["fractional_metric"] for r in rows]
    kinks = None
    if rng.random() < 0.3:
        # what follows an abrupt loss is left out
        bends = [c - 2 * b + a for a, b, c in zip(ys, ys[1:], ys[2:])]
        kinks = round(rng.uniform(-0.15, 0.02), 3)
        if kinks == 0 or any(abs(b - kinks) < 1e-6 for b in bends):
            raise Skip("at the limit")
        stop = next((i + 2 for i, b in enumerate(bends) if b < kinks), None)
        rows, ys = rows[:stop], ys[:stop]
    if len(ys) < 2 or any(b >= a for a, b in zip(ys, ys[1:])):
        raise Skip("not a degradation")
    th = round(rng.uniform(max(0.3, ys[-1] - 0.1), ys[0]), rng.choice([2, 3])) if rng.random() < 0.8 else 0.8
    if any(abs(y - th) < 1e-6 for y in ys) or th > ys[0]:
        raise Skip("no crossing")
    h = {"parameters_dir": folder, "quantities": quantities, "threshold": th, "metric": metric, "filter_kinks": kinks,
         "interpolation_axes": list(axes), "cycle_type": t, "extrapolate_threshold": rng.random() < 0.7}
    mine = copy.deepcopy(h)
    reached = ys[-1] < th
    snap = diag.snapshot(dp)
    f = DiagnosticProperties(dp, h)
    obs.require(f.validate()[0], "a run with diagnostics is refused")
    try:
        f.create_features()
        refused = None
    except BEEPFeaturizationError as e:
        refused = e
    diag.unchanged(obs, dp, snap, "DiagnosticProperties")
    obs.require(h == mine and f.hyperparameters == mine and DiagnosticProperties.DEFAULT_HYPERPARAMETERS == DEFAULTS[DiagnosticProperties],
                lambda: f"hyperparameters became {f.hyperparameters}, given {mine}")
    obs.saw("threshold", tuple(axes), metric, t, len(quantities), kinks is not None and len(rows), reached, h["extrapolate_threshold"], len(rows))
    obs.describe(f"{metric} at {t} down to {th} over {axes}: {'reached' if reached else 'not reached'}")
    if not reached and not h["extrapolate_threshold"]:
        obs.require(refused is not None, lambda: f"{metric} at {t} has only come down to {ys[-1]}, yet {th} is reached at {f.features.to_dict('list')}")
        return
    obs.require(refused is None, lambda: f"refused: {refused}")
    X = f.features
    names = {f"{t}{metric}{th}_{a}": a for a in axes}
    real = f"{t}{metric}{th}_real_regular_throughput" if "normalized_regular_throughput" in axes else None
    want = set(names) | {"initial_regular_throughput"} | ({real} if real else set())
    obs.require(X.shape[0] == 1 and set(X.columns) == want, lambda: f"columns {list(X.columns)}, expected {sorted(want)}")
    x0 = rows[0]["initial_regular_throughput"]
    obs.require(close(float(X["initial_regular_throughput"].iloc[0]), x0, 1e-9), lambda: f"initial throughput {X['initial_regular_throughput'].iloc[0]}, expected {x0}")
    for name, a in names.items():
        xs = [r[a] for r in rows]
        w = crossing(xs, ys, th)
        # the crossing is looked for on 1000 points of the axis
        end = xs[-1] if reached else xs[-2] + (ys[-2] - th + 0.1) / (ys[-2] - ys[-1]) * (xs[-1] - xs[-2])
        tol = abs(end - xs[0]) / 999 + 1e-9 * abs(w)
        g = float(X[name].iloc[0])
        obs.require(abs(g - w) <= tol, lambda: f"{name} is {g}, expected {w} within {tol} ({'reached' if reached else 'extrapolated'}; {list(zip(xs, ys))})")
        if a == "normalized_regular_throughput":
            g2 = float(X[real].iloc[0])
            obs.require(close(g2, g * x0, 1e-9), lambda: f"{real} is {g2}, expected {g * x0}")
        obs.count("crossings")


def curves(rng, d, cutoff, eol):
    """structured data whose charges turn to constant voltage early, late or never, in cycles which may start with the discharge"""
    rows, onset = [], {}
    mood = rng.choice(["late", "one", "one", "mixed", "never"])
    near = [c for c in d.regular if c <= eol][-2:] + [c for c in d.regular if c > eol][:2]
    chosen = rng.choice(near)
    for c in d.regular:
        begin = float((d.when[c] - d.when[0]).total_seconds()) if 0 in d.when else c * 1e4
        kind = {"late": "late", "never": "never", "one": "early" if c == chosen else "late"}.get(mood) or rng.choice(["late", "late", "late", "early", "never"])
        dt = rng.choice([5.0, 60.0])
        # of n points of charge the first k are at constant current, m points of discharge before or behind
        n, m, first = rng.choice([12, 20]), rng.choice([6, 20, 40, 60]), rng.random() < 0.3
        lead = m if first else 0
        want = cutoff * rng.uniform(0.3, 0.9) if kind == "early" else rng.uniform(cutoff + 0.05, 0.9)
        k = round(want * (n + m) - lead)
        if kind == "never":
            k = n
        elif not 3 <= k <= n - 4:
            m, lead, first = (60, 0, False) if kind == "early" else (4, 0, False)
            k = max(3, min(n - 4, round(want * (n + m))))
        t = begin
        charge, discharge = [], []
        volt, cur = 2.8, 3.0
        for part in (["discharge", "charge"] if first else ["charge", "discharge"]):
            if part == "discharge":
                for i in range(m):
                    discharge.append({"cycle_index": c, "step_type": "discharge", "voltage": 4.1 - 1.4 * i / m, "current": -2.0, "test_time": t, "charge_capacity": 2.0})
                    t += dt
                continue
            for i in range(n):
                if i < k:
                    volt = 2.8 + 1.3 * i / k
                else:
                    cur *= 0.8
                charge.append({"cycle_index": c, "step_type": "charge", "voltage": volt, "current": cur, "test_time": t, "charge_capacity": i * 0.1})
                if i == k and kind != "never":
                    onset[c] = (t - 3 * dt - begin, t + dt - begin)
                t += dt
        rows += charge + discharge if rng.random() < 0.5 else discharge + charge
        if c in onset:
            onset[c] = tuple(x / (t - dt - begin) for x in onset[c])
    return pd.DataFrame(rows), onset


def case_exclusion(rng, obs, folder):
    d = diag.build(rng, folder, points=6, monotone=True, first_regular=rng.choice([3, 12]))
    last = usable(d)
    dp = d.dp
    reg = d.reg
    if rng.random() < 0.3:
        reg.loc[rng.sample(range(len(reg)), rng.choice([1, 2])), "charge_throughput"] = math.nan
        dp.structured_summary = reg.copy()
    metric, t = rng.choice(diag.METRICS[:2]), rng.choice(diag.RATES)
    odd = rng.choice([None, None, None, "high", "lost"])
    if odd:
        # a last diagnostic that is above the first one, or was not measured
        at = max(i for i, (c, x) in enumerate(zip(d.summary.cycle_index, d.summary.cycle_type)) if x == t and c <= last)
        d.summary.loc[at, metric] = math.nan if odd == "lost" else 1.2 * d.summary[metric].iloc[0]
        dp.diagnostic_summary = d.summary.copy()
    rows = remaining(d, reg, metric, t)
    fr = [r["fractional_metric"] for r in rows]
    n = rng.randrange(0, len(reg))
    thr = [float(v) for v in reg.charge_throughput]
    first = 0.0 if isnan(thr[n]) else thr[n]
    h = {"parameters_dir": folder, "EOL_conditions": {"cycle_type": t, "threshold": rng.choice([0.8, 0.9, 0.7, 0.95]), "quantity": metric},
         "throughput_first_n_cycles": {"n": n, "cutoff": rng.choice([20, 5, first + 1, first - 1])},
         "equivalent_full_cycles_cutoff": rng.choice([3, 30, 10]), "early_CV_cutoff": rng.choice([0.3, 0.2, 0.25])}
    nominal = d.nominal
    if rng.random() < 0.4:
        nominal = rng.choice([1.0, 3.0])
        dp.structuring_parameters = {"nominal_capacity": nominal, "resolution": 1000}
    w = {"first_n_cycles_throughput": first, "is_above_first_n_cycles_throughput": first > h["throughput_first_n_cycles"]["cutoff"]}
    seen = [v for v in fr if not isnan(v)]
    if len(seen) < 2:
        raise Skip("a single diagnostic")
    end = seen[-1]
    if end > 1:
        if isnan(fr[-1]):
            raise Skip("which diagnostic precedes an implausible one after which one was lost is open")
        end = seen[-2]
    th = h["EOL_conditions"]["threshold"]
    w["fractional_capacity_at_EOT"], w["is_below_fractional_capacity_at_EOT"] = end, end < th
    eol = next(r["cycle_index"] for r in rows if r["fractional_metric"] < th) if end < th else rows[-1]["cycle_index"]
    data, onset = curves(rng, d, h["early_CV_cutoff"], eol)
    dp.structured_data = data
    upto = [i for i, c in enumerate(d.regular) if c <= eol]
    known = [thr[i] for i in upto if not isnan(thr[i])]
    if isnan(thr[0]) or not known:
        raise Skip("no throughput known")
    w["equivalent_full_cycles_at_EOL"] = known[-1] / nominal
    w["is_above_equivalent_full_cycles_at_EOL"] = known[-1] / nominal > h["equivalent_full_cycles_cutoff"]
    early = False
    if d.row["charge_constant_current_1"] > d.row["charge_constant_current_2"]:
        for i in upto:
            o = onset.get(d.regular[i])
            if o and o[0] <= h["early_CV_cutoff"] <= o[1]:
                raise Skip("the onset is at the limit")
            early |= bool(o and o[1] < h["early_CV_cutoff"])
    w["is_not_early_CV"] = not early
    w["to_include"] = all(v for k, v in w.items() if k.startswith("is_"))
    for v, k in ((first, h["throughput_first_n_cycles"]["cutoff"]), (end, th), (known[-1] / nominal, h["equivalent_full_cycles_cutoff"])):
        if abs(v - k) < 1e-9:
            raise Skip("at the limit")
    mine, snap = copy.deepcopy(h), diag.snapshot(dp)
    f = ExclusionCriteria(dp, h)
    obs.require(f.validate()[0], "a run with diagnostics is refused")
    f.create_features()
    diag.unchanged(obs, dp, snap, "ExclusionCriteria")
    obs.require(h == mine and f.hyperparameters == mine and ExclusionCriteria.DEFAULT_HYPERPARAMETERS == DEFAULTS[ExclusionCriteria],
                lambda: f"hyperparameters became {f.hyperparameters}, given {mine}")
    X = f.features
    obs.require(X.shape[0] == 1 and set(X.columns) == set(w), lambda: f"columns {list(X.columns)} of {X.shape[0]} rows")
    for k, v in w.items():
        g = X[k].iloc[0]
        obs.require(bool(g) == v if isinstance(v, (bool, np.bool_)) else close(float(g), float(v), 1e-9), lambda: f"{k} is {g}, expected {v} ({h})")
    obs.count("criteria", len(w))
    obs.saw("exclusion", metric, t, tuple(bool(v) for k, v in w.items() if k.startswith("is_")), nominal != d.nominal, last > d.cycles[-1]["reset"], odd,
            d.row["charge_constant_current_1"] > d.row["charge_constant_current_2"])
    obs.describe(f"{w}")
