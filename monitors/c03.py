"""C03 - diagnostic cycles: partition, labelling, step-by-step interpolation and summary."""
import math

import numpy as np
import pandas as pd

from monitors.c02 import cv_segment, parse
from vlib import cells
from vlib.cells import same
from vlib.interp import Curve, agrees

ID = "C03"
RULE = (
    "Seeded runs with diagnostic cycles (rpt/hppc/reset/custom names, repeated pulse steps, one-record steps, CCCV in one "
    "step, configured cycles absent from the data) are structured by the real code; every contiguous step block of every "
    "diagnostic cycle is re-derived from the records and compared (grid, values, counters, types, dQ/dV, summary row). "
    "'match' cases derive the configuration from step numbers and compare with set logic; 'config' cases check "
    "overlap rejection and round trips. Non-trivial: a configuration with at least one diagnostic cycle was judged."
)
KINDS = {"structure": (280, 2500), "match": (240, 2000), "config": (300, 3000)}
MIN_SIGNATURES = 40
VALUE_COLS = ["current", "voltage", "charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy",
              "internal_resistance", "temperature", "test_time"]
TYPES = ["rpt_0.2C", "rpt_1C", "hppc", "HPPC_late", "reset", "Reset cycle", "my_custom", "RPT2C", "slow_rpt", "initial-HPPC", "hard reset"]


def run_case(kind, rng, obs):
    {"structure": structure, "match": match, "config": config}[kind](rng, obs)


def config(rng, obs):
    from beep.structure.diagnostic import DiagnosticConfig
    names = rng.sample(TYPES, rng.randrange(1, 5))
    pool = list(range(0, 60))
    rng.shuffle(pool)
    cfg, k = {}, 0
    for nme in names:
        m = rng.choice([0, 1, 2, 5])
        cfg[nme] = pool[k:k + m]
        k += m
    overlap = False
    if len(names) > 1 and rng.random() < 0.35:
        src = [nme for nme in names if cfg[nme]]
        if src:
            a = rng.choice(src)
            b = rng.choice([x for x in names if x != a])
            cfg[b] = cfg[b] + [rng.choice(cfg[a])]
            overlap = True
    typ = rng.choice([list, set, tuple])
    arg = {a: typ(b) for a, b in cfg.items()}
    params = {"p%d" % i: rng.choice([1, 2.5, "s", True]) for i in range(rng.randrange(3))}
    if rng.random() < 0.1:
        what = rng.choice(["empty", "parameter"])
        try:
            DiagnosticConfig(*([{}] if what == "empty" else [{"rpt": [1, 2]}]), **({} if what == "empty" else {"p": rng.choice([[1], {"a": 1}, None, (2,)])}))
        except (ValueError if what == "empty" else TypeError):
            obs.saw("config-refused", what)
            return
        obs.require(False, f"a configuration with {what} which cannot be used is accepted")
    try:
        dc = DiagnosticConfig(arg, **params)
    except ValueError:
        obs.require(overlap, f"disjoint configuration {arg} was refused")
        obs.saw("config-overlap", len(names))
        return
    obs.require(not overlap, f"configuration with a cycle of two types accepted: {arg}")
    for d in (dc, DiagnosticConfig.from_dict(dc.as_dict()), DiagnosticConfig.from_dict(__import__("json").loads(dc.to_json()))):
        allx = {c for v in cfg.values() for c in v}
        obs.require(set(d.all_ix) == allx, "the set of diagnostic cycles changed")
        obs.require({a: set(b) for a, b in d.cycles.items()} == {a: set(b) for a, b in cfg.items()}, "cycle types changed")
        for nme, ix in cfg.items():
            for c in ix:
                obs.require(d.type_by_ix[c] == nme, f"cycle {c} labelled {d.type_by_ix[c]} instead of {nme}")
        obs.require(set(d.type_by_ix) == allx, "labelled cycles differ from configured ones")
        for fam in ("hppc", "rpt", "reset"):
            want = {c for nme, ix in cfg.items() if fam in nme.lower() for c in ix}
            obs.require(set(getattr(d, fam + "_ix")) == want, f"{fam} cycles are {getattr(d, fam + '_ix')}, want {want}")
        obs.require(d.params == params, "parameters changed")
    obs.saw("config", tuple(sorted(names)), typ.__name__, len(params))


def match(rng, obs):
    from beep.structure.diagnostic import DiagnosticConfig
    n = rng.choice([3, 6, 12])
    start = rng.choice([0, 1, 5])
    rows, steps = [], {}
    for c in range(start, start + n):
        k = rng.choice([1, 2, 3, 4])
        s = rng.sample(range(1, 8), k)
        seq = s + ([rng.choice(s)] if rng.random() < 0.3 else [])
        steps[c] = set(s)
        for x in seq:
            for _ in range(rng.choice([1, 2])):
                rows.append({"cycle_index": c, "step_index": x})
    df = pd.DataFrame(rows)
    crit = {}
    for nme in rng.sample(TYPES, rng.choice([1, 2])):
        pats = [tuple(rng.sample(range(1, 8), rng.choice([1, 2, 3]))) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.5 and steps:
            pats[0] = tuple(steps[rng.choice(list(steps))])
        if rng.random() < 0.3:
            k = rng.randrange(len(pats))
            pats[k] = pats[k] + (rng.choice(pats[k]),)  # named twice
        crit[nme] = (rng.choice(["contains", "exact"]), pats)
    want = {nme: {c for c, s in steps.items() if any(
        (set(p) <= s) if rule == "contains" else (set(p) == s) for p in pats)} for nme, (rule, pats) in crit.items()}
    union = [c for v in want.values() for c in v]
    overlap = len(union) != len(set(union))
    if rng.random() < 0.1:
        what = rng.choice(["column", "rule"])
        try:
            DiagnosticConfig.from_step_numbers(df.drop(columns="step_index") if what == "column" else df,
                                               matching_criteria={"hppc": ("exact" if what == "column" else rng.choice(["any", "Exact", "", None]), [(1, 2)])})
        except ValueError:
            obs.saw("match-refused", what)
            return
        obs.require(False, f"step numbers are matched with an unusable {what}")
    try:
        dc = DiagnosticConfig.from_step_numbers(df, matching_criteria=crit, x=1)
    except ValueError:
        obs.require(overlap, f"criteria {crit} refused although no cycle matches two types")
        obs.saw("match-overlap", len(crit))
        return
    obs.require(not overlap, lambda: f"cycle matched by two types accepted: {want}")
    for nme in crit:
        obs.require(set(int(c) for c in dc.cycles[nme]) == want[nme],
                    lambda: f"criteria {crit[nme]} matched cycles {sorted(dc.cycles[nme])}, want {sorted(want[nme])}; "
                            f"steps {steps}")
    obs.describe(f"steps per cycle {steps} criteria {crit} -> {want}")
    obs.saw("match", tuple(sorted((r, len(p)) for r, p in crit.values())), sum(map(len, want.values())) > 0, n, start)


def structure(rng, obs):
    from beep.structure.diagnostic import DiagnosticConfig
    n = rng.choice([2, 4, 6, 8])
    diag = {k: rng.choice(TYPES) for k in rng.sample(range(n), rng.randrange(1, min(4, n) + 1))}
    if len(diag) == n:
        diag.pop(max(diag))
    if not diag:
        diag = {0: "hppc"}
    run = cells.make_run(rng, n_cycles=n, diag={k: (v.lower() if "hppc" in v.lower() else v) for k, v in diag.items()})
    cfg = {k: list(v) for k, v in run.diag.items()}
    if rng.random() < 0.3:
        # configured, but not part of this run
        absent = [c for c in range(run.order[-1]) if c not in run.order]
        cfg.setdefault("rpt_extra", []).append(rng.choice([100000] + absent))
    raw = run.frame()
    if rng.random() < 0.4:
        # single-record blips between steps, as cyclers write at mode switches
        c = rng.choice(sorted(run.diag_cycles))
        pos = rng.choice(list(raw.index[raw.cycle_index == c])[1:-1])
        raw.loc[pos, "step_index"] = 77
        if rng.random() < 0.5:
            raw.loc[raw.index[raw.cycle_index == c][-1], "step_index"] = 78
    if rng.random() < 0.4:
        # a step along which the voltage hardly moves
        for c in rng.sample(sorted(run.diag_cycles), rng.choice([1, len(run.diag_cycles)])):
            s = rng.choice(list(raw.step_index[raw.cycle_index == c].unique()))
            at = (raw.cycle_index == c) & (raw.step_index == s)
            v = raw.loc[at, "voltage"]
            if v.max() - v.min() > 0.05:
                raw.loc[at, "voltage"] = v.iloc[0] + (v - v.iloc[0]) * rng.choice([0.0003, 0.0006, 0.0015, 0.004, 0.012]) / (v.max() - v.min())
    vendor = rng.choice(["arbin", "maccor", "battery_archive"])
    dp = cells.datapath_class(vendor)(raw_data=raw.copy(), metadata={"barcode": "x", "protocol": "p", "channel_id": 3})
    dp.diagnostic = DiagnosticConfig(cfg)
    tres = vres = res = rng.choice([2, 7, 25])
    fallback = None
    default = rng.random() < 0.04
    if rng.random() < 0.5:
        if default:
            tres = vres = res = 500
        dp.structure(resolution=4, **({} if default else {"diagnostic_resolution": res}))
        data, summ = dp.diagnostic_data, dp.diagnostic_summary
        # disjointness of the two partitions
        reg = set(int(c) for c in dp.structured_data.cycle_index.unique()) if len(dp.structured_data) else set()
        regs = set(int(c) for c in dp.structured_summary.cycle_index)
        obs.require(not (reg | regs) & run.diag_cycles,
                    lambda: f"diagnostic cycles {sorted((reg | regs) & run.diag_cycles)} appear among the regular ones")
    else:
        vres = rng.choice([2, 7, 25])
        fallback = rng.choice([None, None, (2.5, 4.0)])
        if default:
            tres = vres = 1000
        data = dp.interpolate_diagnostic_cycles(dv_fallback=fallback, **({} if default else {"time_resolution": tres, "voltage_resolution": vres}))
        summ = dp.summarize_diagnostic()
    obs.describe(f"{vendor} cycles {run.order} diag={cfg} res={res} rows={len(raw)}")

    # ---- expected blocks
    expected = {}
    for c in sorted(run.diag_cycles):
        rows = raw[raw.cycle_index == c]
        counter, prev, order = 0, None, []
        blocks = {}
        for i, s in zip(rows.index, rows.step_index):
            if s != prev:
                counter += 1
                prev = s
            if s not in order:
                order.append(s)
            blocks.setdefault(counter, (int(s), []))[1].append(i)
        for k, (s, idx) in blocks.items():
            if len(idx) >= 2:
                expected[(c, k)] = (s, raw.loc[idx], order.index(s))
    got = {(int(c), int(k)): g for (c, k), g in
           data.groupby([data.cycle_index.astype(int), data.step_index_counter.astype(int)], sort=False) if len(g)}
    obs.require(set(got) == set(expected), lambda: f"diagnostic step blocks differ: missing "
                f"{sorted(set(expected) - set(got))[:6]} unexpected {sorted(set(got) - set(expected))[:6]}")
    order_keys = list(zip(data.cycle_index.astype(int), data.step_index_counter.astype(int), data.test_time.fillna(np.inf)))
    obs.require(order_keys == sorted(order_keys), "diagnostic data is not ordered by cycle, step and time")
    for key, (s, rows, stype) in expected.items():
        g = got[key]
        ctype = dp.diagnostic.type_by_ix[key[0]]
        obs.require(set(g.cycle_type.astype(str)) == {ctype}, f"block {key}: cycle type {set(g.cycle_type)} not {ctype}")
        obs.require(set(g.step_index.astype(int)) == {s}, f"block {key}: step index {set(g.step_index)} not {s}")
        obs.require(set(int(x) for x in g.step_type.astype(int)) == {stype}, f"block {key}: step order {set(g.step_type)} not {stype}")
        vlo, vhi = rows.voltage.min(), rows.voltage.max()
        if abs((vhi - vlo) - 0.001) < 1e-9:
            continue
        on_v = vhi - vlo >= 0.001
        if on_v:
            axis, lo, hi, r = "voltage", vlo, vhi, vres
            if fallback and key[0] not in dp.diagnostic.hppc_ix:
                lo, hi = fallback
        else:
            axis, lo, hi, r = "test_time", rows.test_time.min(), rows.test_time.max(), tres
        grid = np.linspace(lo, hi, r)
        g = g.sort_values(axis, kind="stable")
        obs.require(len(g) == r, lambda: f"block {key}: {len(g)} points, promised {r}")
        ax = g[axis].to_numpy(float)
        obs.require(np.allclose(ax, grid, rtol=2e-7, atol=1e-7), lambda: f"block {key}: {axis} grid is {ax[:3]}.., promised {grid[:3]}..")
        idx = range(r) if r <= 8 else sorted(rng.sample(range(r), 8))
        for col in VALUE_COLS:
            if col == axis:
                continue
            if col not in rows.columns:
                obs.require(bool(g[col].isna().all()), f"column {col} was invented")
                continue
            cur = Curve(rows[axis], rows[col])
            vals = g[col].to_numpy(float)
            for i in idx:
                obs.require(agrees(cur, grid[i], vals[i]),
                            lambda: f"block {key} on {axis}: {col} at {grid[i]:.6g} is {vals[i]!r}, records give {cur.bounds(grid[i])}")
        if on_v:
            dv = (hi - lo) / (r - 1)
            for q, name in (("discharge_capacity", "discharge_dQdV"), ("charge_capacity", "charge_dQdV")):
                qq = g[q].to_numpy(float)
                d = g[name].to_numpy(float)
                obs.require(np.isnan(d[0]), f"block {key}: {name} starts with a value")
                want = np.diff(qq) / dv
                obs.require(np.allclose(d[1:], want, rtol=1e-4, atol=1e-6, equal_nan=True),
                            lambda: f"block {key}: {name} is not the slope of {q}: {d[1:4]} vs {want[:3]}")
        else:
            v = g.voltage.to_numpy(float)
            for q, name in (("discharge_capacity", "discharge_dQdV"), ("charge_capacity", "charge_dQdV")):
                qq, d = g[q].to_numpy(float), g[name].to_numpy(float)
                for i in range(1, len(g)):
                    if abs(v[i] - v[i - 1]) > 2e-5 and abs(qq[i] - qq[i - 1]) > 1e-4:
                        want = (qq[i] - qq[i - 1]) / (v[i] - v[i - 1])
                        obs.require(abs(d[i] - want) <= 0.05 * abs(want), lambda: f"block {key} on time: {name} is {d[i]}, the slope of {q} is {want}")
                        obs.count("slopes on time")
        obs.count("blocks_compared")
        obs.count("on_voltage" if on_v else "on_time")

    # ---- summary
    rows = [int(c) for c in summ.cycle_index]
    obs.require(rows == sorted(run.diag_cycles), lambda: f"diagnostic summary lists {rows}, configured {sorted(run.diag_cycles)}")
    for pos, c in enumerate(rows):
        rs = raw[raw.cycle_index == c].to_dict("records")
        row = summ.iloc[pos]

        def cell(col, want, rel=3e-6, ab=1e-7):
            obs.require(col in summ.columns, f"diagnostic summary lacks {col}")
            obs.require(same(row[col], want, rel, ab), lambda: f"diagnostic cycle {c}: {col} is {row[col]!r}, records give {want!r}")

        q = {k: max(r[k] for r in rs) for k in ("charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy")}
        for k, v in q.items():
            cell(k, v)
        if q["charge_capacity"] > 0:
            cell("coulombic_efficiency", q["discharge_capacity"] / q["charge_capacity"])
        temps = [r.get("temperature", math.nan) for r in rs]
        if not any(math.isnan(x) for x in temps):
            cell("temperature_maximum", max(temps))
            cell("temperature_minimum", min(temps))
            cell("temperature_average", sum(temps) / len(temps))
        obs.require(row["date_time_iso"] == rs[0]["date_time_iso"], f"diagnostic cycle {c}: wrong start timestamp")
        obs.require(str(row["cycle_type"]) == dp.diagnostic.type_by_ix[c], f"diagnostic cycle {c}: type {row['cycle_type']}")
        t = [parse(r["date_time_iso"]) for r in rs]
        gap = max([b - a for a, b in zip(t, t[1:])], default=0)
        cell("paused", gap if gap > 3600 else 0)
        first = min(r["step_index"] for r in rs)
        chg = [r for r in rs if r["step_index"] == first]
        found, p = cv_segment(chg)
        if found:
            seg = [r for r in chg if r["test_time"] >= chg[p]["test_time"]]
            cell("CV_time", seg[-1]["test_time"] - seg[0]["test_time"], ab=1e-3)
            cell("CV_current", seg[-1]["current"])
            cell("CV_capacity", seg[-1]["charge_capacity"] - seg[0]["charge_capacity"], ab=1e-6)
            obs.count("cv_holds")
        elif found is False:
            cell("CV_time", math.nan)
        obs.count("diagnostic_cycles_compared")
    obs.saw("structure", vendor, tuple(sorted(cfg)), n, res, fallback is not None)
