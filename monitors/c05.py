"""C05 - structuring is repeatable, leaves its inputs alone and treats cycles independently."""
import copy

import numpy as np
import pandas as pd

from monitors.c04 import frame_equal
from vlib import cells
from vlib.cells import same

ID = "C05"
RULE = (
    "Histories of operations (structure with varying parameters, unstructure, change or clear the diagnostic "
    "configuration, summarize, interpolate, validate, pause analysis, serialize) are run on seeded datapaths; after every "
    "operation the raw table and all arguments are compared with snapshots, and the final structured tables with those of a "
    "fresh datapath. 'locality' removes or permutes whole cycles and compares what is left. Non-trivial: a history of at "
    "least two operations or a comparison of a cut run."
)
KINDS = {"history": (44, 1000), "locality": (36, 800), "interleave": (16, 250)}
MIN_SIGNATURES = 40
FRAMES = ("structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary")


def run_case(kind, rng, obs):
    {"history": history, "locality": locality, "interleave": interleave}[kind](rng, obs)


def params(rng, cycles):
    p = {"resolution": rng.choice([2, 5, 17])}
    if rng.random() < 0.5:
        p["v_range"] = rng.choice([[2.0, 3.5], [2.7, 4.2]])
    if rng.random() < 0.5:
        p["nominal_capacity"] = rng.choice([0.25, 4.7])
    if rng.random() < 0.5:
        p["full_fast_charge"] = rng.choice([0.3, 0.6])
    if rng.random() < 0.5:
        p["charge_axis"] = rng.choice(["voltage", "test_time"])
    if rng.random() < 0.5:
        p["discharge_axis"] = rng.choice(["discharge_capacity", "test_time"])
    if rng.random() < 0.4:
        p["diagnostic_resolution"] = rng.choice([3, 8])
    if rng.random() < 0.4 and len(cycles) > 2:
        ex = rng.sample(cycles, rng.choice([1, 1, min(2, len(cycles) - 1)])) + rng.choice([[], [10 ** 6], [-7]])
        rng.shuffle(ex)
        p["exclude_cycles"] = ex
    return p


def build(rng, n=None, diag=True):
    n = n or rng.choice([3, 4, 6])
    d = None
    if diag:
        d = {k: rng.choice(["rpt_0.2C", "hppc", "reset"]) for k in rng.sample(range(n), rng.choice([1, 2]))}
    run = cells.make_run(rng, n_cycles=n, diag=d)
    return run, run.frame(), cells.datapath_class(rng.choice(["arbin", "maccor", "battery_archive", "neware"]))


def history(rng, obs):
    from beep.structure.diagnostic import DiagnosticConfig
    run, raw, cls = build(rng, diag=rng.random() < 0.7)
    if rng.random() < 0.3:
        raw.index = raw.index + 100
    dp = cls(raw_data=raw.copy(), metadata={"barcode": "b", "protocol": None, "channel_id": 1})
    snap = dp.raw_data.copy(deep=True)
    regular = [c for c in run.order if c not in run.diag_cycles]
    cfgs = [DiagnosticConfig(run.diag)] if run.diag else []
    for _ in range(2):
        pick = rng.sample(run.order, rng.choice([1, 1, 2]))
        cfgs.append(DiagnosticConfig({rng.choice(["rpt_0.2C", "hppc", "reset"]): pick}))
    cur_diag, cur_params, structured = None, None, False
    ops, done = [], []
    for _ in range(rng.randrange(2, 7)):
        ops.append(rng.choice(["structure", "structure", "unstructure", "setdiag", "setdiag", "cleardiag", "summarize", "interpolate",
                               "validate", "paused", "as_dict", "diagsummary", "diaginterp"]))
    ops.append("structure")
    for op in ops:
        done.append(op)
        if op == "structure":
            p = copy.deepcopy(cur_params) if cur_params and rng.random() < 0.5 else params(rng, regular)
            keep = copy.deepcopy(p)
            dp.structure(**p)
            obs.require(p == keep, lambda: f"structure changed its arguments: {keep} -> {p}")
            cur_params, structured = keep, True
        elif op == "unstructure":
            dp.unstructure()
            cur_diag, structured = None, False
            obs.require(not dp.is_structured and dp.diagnostic is None and dp.structuring_parameters == {},
                        "unstructure left something behind")
        elif op == "setdiag":
            cur_diag = dp.diagnostic = rng.choice(cfgs)
        elif op == "cleardiag":
            dp.diagnostic = None
            cur_diag = None
        elif op == "summarize":
            a = dp.summarize_cycles()
            b = dp.summarize_cycles()
            frame_equal(a, b, "summarize_cycles twice", obs)
        elif op == "interpolate":
            a = dp.interpolate_cycles(resolution=4)
            b = dp.interpolate_cycles(resolution=4)
            frame_equal(a, b, "interpolate_cycles twice", obs)
        elif op == "validate":
            obs.require(dp.validate() == dp.validate(), "validate is not repeatable")
        elif op == "paused":
            a, b = dp.paused_intervals, dp.paused_intervals
            obs.require(a.equals(b), "paused_intervals is not repeatable")
        elif op == "as_dict":
            dp.as_dict()
        elif op == "diagsummary" and dp.diagnostic:
            dp.summarize_diagnostic()
        elif op == "diaginterp" and dp.diagnostic:
            dp.interpolate_diagnostic_cycles(time_resolution=3, voltage_resolution=4)
        now = dp.raw_data
        obs.require(list(now.columns) == list(snap.columns) and list(now.index) == list(snap.index),
                    lambda: f"{op} changed the raw table: {sorted(set(now.columns) ^ set(snap.columns))}")
        frame_equal(snap, now, f"raw_data after {op}", obs)
        obs.count("operations")
    obs.describe(f"{cls.__name__} cycles={run.order} diag={run.diag} ops={done} params={cur_params}")
    fresh = cls(raw_data=raw.copy(), metadata={"barcode": "b"})
    fresh.diagnostic = cur_diag
    fresh.structure(**copy.deepcopy(cur_params))
    for f in FRAMES:
        frame_equal(getattr(fresh, f), getattr(dp, f), f"{f} after {done}", obs)
    # the recorded parameters reproduce the result
    rec = dict(dp.structuring_parameters)
    for k, v in cur_params.items():
        obs.require(rec.get(k) == v, lambda: f"recorded parameter {k} is {rec.get(k)!r}, was {v!r}")
    again = cls(raw_data=raw.copy(), metadata={"barcode": "b"})
    again.diagnostic = cur_diag
    again.structure(**copy.deepcopy(rec))
    for f in FRAMES:
        frame_equal(getattr(dp, f), getattr(again, f), f"{f} from recorded parameters", obs)
    obs.saw("history", cls.__name__, tuple(sorted(set(done))), cur_diag is not None)


def interleave(rng, obs):
    """Two datapaths structured side by side do not influence each other."""
    from beep.structure.diagnostic import DiagnosticConfig
    a, b = build(rng), build(rng, diag=False)
    dps, refs = [], []
    for run, raw, cls in (a, b):
        for lst in (dps, refs):
            dp = cls(raw_data=raw.copy(), metadata={"barcode": "b"})
            if run.diag:
                dp.diagnostic = DiagnosticConfig(run.diag)
            lst.append(dp)
    ps = [params(rng, [c for c in run.order if c not in run.diag_cycles]) for run, *_ in (a, b)]
    for i in (0, 1):
        refs[i].structure(**copy.deepcopy(ps[i]))
    order = [0, 1, 1, 0, 0, 1]
    rng.shuffle(order)
    for i in order:
        if rng.random() < 0.5:
            dps[i].summarize_cycles(nominal_capacity=0.3)
        dps[i].structure(**copy.deepcopy(ps[i]))
    for i in (0, 1):
        for f in FRAMES:
            frame_equal(getattr(refs[i], f), getattr(dps[i], f), f"{f} of interleaved datapath {i}", obs)
    obs.describe(f"{a[2].__name__} and {b[2].__name__}, order {order}")
    obs.saw("interleave", a[2].__name__, b[2].__name__, tuple(order))


LOCAL = ["discharge_capacity", "charge_capacity", "discharge_energy", "charge_energy", "dc_internal_resistance",
         "temperature_maximum", "temperature_average", "temperature_minimum", "date_time_iso", "energy_efficiency",
         "charge_duration", "time_temperature_integrated", "paused", "CV_time", "CV_current", "CV_capacity"]


def locality(rng, obs):
    """What is reported about a cycle depends on that cycle's records only."""
    run, raw, cls = build(rng, n=rng.choice([4, 6, 8]), diag=False)
    p = {"resolution": 6, "charge_axis": rng.choice(["voltage", "test_time"]),
         "discharge_axis": rng.choice(["voltage", "test_time"])}
    mode = rng.choice(["drop", "relabel", "extra_column", "shuffle_cycles"])
    raw2 = raw.copy()
    rename = {c: c for c in run.order}
    if mode == "drop":
        drop = set(rng.sample(run.order, rng.randrange(1, len(run.order) - 1)))
        raw2 = raw2[~raw2.cycle_index.isin(drop)]
        if rng.random() < 0.5:
            raw2 = raw2.reset_index(drop=True)
    elif mode == "relabel":
        off = rng.choice([1, 5, 1000])
        raw2["cycle_index"] += off
        rename = {c: c + off for c in run.order}
    elif mode == "extra_column":
        raw2["my_extra"] = "text"
        raw2["_private"] = np.arange(len(raw2))[::-1]
    else:
        # the same records, cycles stored in another order
        order = list(run.order)
        rng.shuffle(order)
        raw2 = pd.concat([raw2[raw2.cycle_index == c] for c in order], ignore_index=True)
    a = cls(raw_data=raw.copy(), metadata={})
    b = cls(raw_data=raw2.copy(), metadata={})
    a.structure(**p)
    b.structure(**p)
    sa, sb = a.structured_summary, b.structured_summary
    da, db = a.structured_data, b.structured_data
    n = 0
    for c in run.order:
        c2 = rename[c]
        ra, rb = sa[sa.cycle_index == c], sb[sb.cycle_index == c2]
        if len(ra) == 1 and len(rb) == 1:
            for col in LOCAL:
                if col not in sa.columns:
                    continue
                x, y = ra[col].iloc[0], rb[col].iloc[0]
                obs.require(same(x, y, 1e-6, 1e-6), lambda: f"{mode}: cycle {c} {col} is {y!r}, was {x!r}")
            n += 1
        ga, gb = da[da.cycle_index == c], db[db.cycle_index == c2]
        if c2 not in set(raw2.cycle_index):
            obs.require(len(gb) == 0, "a removed cycle is still interpolated")
            continue
        obs.require(len(ga) == len(gb), lambda: f"{mode}: cycle {c} has {len(gb)} interpolated rows, had {len(ga)}")
        for col in ga.columns:
            if col == "cycle_index":
                continue
            x, y = ga[col].to_numpy(), gb[col].to_numpy()
            ok = all(same(i, j, 1e-6, 1e-6) for i, j in zip(x, y))
            obs.require(ok, lambda: f"{mode}: interpolated {col} of cycle {c} changed")
        obs.count("cycles_compared")
    if mode in ("relabel", "extra_column"):
        obs.require(len(sa) == len(sb), f"{mode}: number of summarized cycles changed")
        for col in ("charge_throughput", "energy_throughput"):
            obs.require(all(same(i, j) for i, j in zip(sa[col], sb[col])), f"{mode}: {col} changed")
    obs.describe(f"{cls.__name__} {mode} cycles={run.order} axes={p}")
    obs.saw("locality", cls.__name__, mode, p["charge_axis"], p["discharge_axis"], len(run.order), n > 0)
