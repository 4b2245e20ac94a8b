"""C02 - per-cycle summary equals an independent recomputation from the raw records."""
import datetime as dt
import math
import os
import time

import numpy as np

from vlib import cells
from vlib.cells import same

ID = "C02"
RULE = (
    "Seeded synthetic runs (any cycle numbering, gaps, pauses around the one-hour threshold, CV holds, sparse or absent "
    "temperature/resistance, incomplete last cycles, diagnostic cycles mixed in, erroneous energy spikes, host time zones "
    "with daylight saving) are summarized by the real code and every cell of the summary is recomputed record by record. "
    "Non-trivial: at least one cycle row compared; distinct by (run features, parameters, time zone)."
)
KINDS = {"regular": (320, 3000), "diagnostic": (100, 900), "spike": (60, 400), "timezone": (80, 600)}
MIN_SIGNATURES = 40


def parse(s):
    return dt.datetime.fromisoformat(s).timestamp()


def cv_segment(rows):
    """(found, onset position) of the constant-voltage part of the charging records."""
    for i in range(len(rows) - 1):
        d = rows[i + 1]["test_time"] - rows[i]["test_time"]
        if d < 1:
            continue
        dv = abs((rows[i + 1]["voltage"] - rows[i]["voltage"]) / d)
        di = abs((rows[i + 1]["current"] - rows[i]["current"]) / d)
        if any(abs(a - b) < 1e-6 * b for a, b in ((dv, 1e-5), (di, 1e-4))):
            return None, None  # on the tolerance itself
        if dv <= 1e-5 and di >= 1e-4:
            return True, max(i - 1, 0)
    return False, None


def run_case(kind, rng, obs):
    n = rng.choice([1, 2, 3, 5, 9])
    diag = None
    if kind == "diagnostic":
        n = rng.choice([5, 7])
        diag = {k: rng.choice(["rpt_0.2C", "hppc", "reset"]) for k in rng.sample(range(n), rng.choice([1, 2, 3]))}
        if kind == "diagnostic" and rng.random() < 0.1:
            # nothing but diagnostic cycles
            n = rng.choice([1, 2, 3])
            diag = {k: rng.choice(["rpt_0.2C", "hppc", "reset"]) for k in range(n)}
    if kind == "timezone":
        n = rng.choice([3, 5])
    run = cells.make_run(rng, n_cycles=n, diag=diag)
    raw = run.frame()
    vendor = rng.choice(["arbin", "maccor", "battery_archive"])
    tz = None
    if kind == "timezone":
        tz = rng.choice(["America/New_York", "Europe/Berlin", "Asia/Kolkata", "Australia/Lord_Howe"])
        # place the run around a daylight-saving switch of that zone
        base = {"America/New_York": dt.datetime(2021, 3, 14, 1, 0), "Europe/Berlin": dt.datetime(2021, 3, 28, 0, 0),
                "Asia/Kolkata": dt.datetime(2021, 6, 1), "Australia/Lord_Howe": dt.datetime(2021, 10, 3, 0, 0)}[tz]
        first = dt.datetime.fromisoformat(raw.date_time_iso.iloc[0]).replace(tzinfo=None)
        shift = base - first + dt.timedelta(seconds=rng.randrange(-3600, 3600))
        raw["date_time_iso"] = [cells.iso(dt.datetime.fromisoformat(x).replace(tzinfo=None) + shift)
                                for x in raw.date_time_iso]
    stamp = "utc"
    if kind == "regular" and rng.random() < 0.3:
        # other ways to write the same moments
        stamp = rng.choice(["offset", "zulu", "fraction", "millis"])
        hours = rng.choice([-7, 1, 9])
        zone = dt.timezone(dt.timedelta(hours=hours))
        def rewrite(x):
            m = dt.datetime.fromisoformat(x)
            if stamp == "offset":
                return m.astimezone(zone).isoformat()
            if stamp == "zulu":
                return m.strftime("%Y-%m-%dT%H:%M:%SZ")
            m = m + dt.timedelta(microseconds=rng.randrange(1000) * 1000)
            return m.isoformat(timespec="milliseconds" if stamp == "millis" else "microseconds")
        raw["date_time_iso"] = [rewrite(x) for x in raw.date_time_iso]
    spikes = set()
    if kind == "spike":
        for col in ("charge_energy", "discharge_energy"):
            if rng.random() < 0.7:
                pos = rng.randrange(len(raw))
                if rng.random() < 0.25:
                    # a counter that is wrong throughout a cycle, far below zero
                    raw.loc[raw.cycle_index == raw.cycle_index[pos], col] = -rng.choice([2e6, 5e8])
                else:
                    raw.loc[pos, col] = rng.choice([2e6, 5e8])
                spikes.add((int(raw.cycle_index[pos]), col))
    nominal = rng.choice([1.1, 1.1, 4.7, 0.25])
    ffc = rng.choice([0.8, 0.8, 0.5, 0.95])
    if rng.random() < 0.3:
        # a record reaches the fast-charge level exactly (no rounding in either form of the comparison)
        level = float(rng.choice([q for q in raw.charge_capacity if q > 0] or [1.0]))
        ffc, nominal = rng.choice([(1.0, level), (0.5, 2 * level)])
    limits = {"cycle_complete_discharge_ratio": 0.97, "cycle_complete_vmin": 3.3, "cycle_complete_vmax": 3.3, "error_threshold": 1e6}
    cls = cells.datapath_class(vendor)
    dp = cls(raw_data=raw.copy(), metadata={"barcode": "x", "protocol": "p", "channel_id": 3})
    if diag:
        from beep.structure.diagnostic import DiagnosticConfig
        dp.diagnostic = DiagnosticConfig(run.diag)
    regular = [c for c in run.order if c not in run.diag_cycles]
    via = rng.choice(["summarize", "structure", "custom"])
    given = {"nominal_capacity": nominal, "full_fast_charge": ffc}
    if via != "custom" and rng.random() < 0.15:
        # the settings of those who give none
        given, nominal, ffc = {}, 1.1, 0.8
    if via == "custom":
        vs = sorted(raw.voltage)
        limits["cycle_complete_discharge_ratio"] = rng.choice([0.2, 0.9, 0.995, 1.2])
        limits["cycle_complete_vmin"] = rng.choice([3.3, vs[0] - 0.01, vs[0] + 0.3])
        limits["cycle_complete_vmax"] = rng.choice([3.3, vs[-1] + 0.01, vs[-1] - 0.3])
        limits["error_threshold"] = rng.choice([1e6, 1e5, 3e6])
        spikes = {(int(c), col) for c, g in raw.groupby("cycle_index") for col in ("charge_energy", "discharge_energy")
                  if abs(g[col].max()) > limits["error_threshold"]}
    old = os.environ.get("TZ")
    try:
        if tz:
            os.environ["TZ"] = tz
            time.tzset()
        if via == "structure":
            dp.structure(**given, resolution=5, diagnostic_resolution=5)
            out = dp.structured_summary
        else:
            out = dp.summarize_cycles(**given, **(limits if via == "custom" else {}))
    finally:
        if tz:
            if old is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = old
            time.tzset()
    obs.describe(f"{vendor} cycles {run.order} diag={run.diag} nominal={nominal} ffc={ffc} tz={tz} via={via}")

    recs = raw.to_dict("records")
    by_cycle = {}
    for r in recs:
        by_cycle.setdefault(int(r["cycle_index"]), []).append(r)

    # ---- which cycles
    rows = [int(c) for c in out["cycle_index"]]
    obs.require(list(out.index) == rows, lambda: f"summary rows are not labelled by their cycle: {list(out.index)} vs {rows}")
    full = sorted(regular)
    if not full:
        obs.require(rows == [], lambda: f"summarized cycles {rows} of a run of diagnostic cycles only")
        obs.saw("diagnostic only", vendor, via, len(run.order))
        return
    last = by_cycle[max(by_cycle)]
    lastrow = by_cycle[full[-1]]
    q_d = max(r["discharge_capacity"] for r in lastrow)
    q_c = max(r["charge_capacity"] for r in lastrow)
    vs = [r["voltage"] for r in last]
    complete = min(vs) < limits["cycle_complete_vmin"] and max(vs) > limits["cycle_complete_vmax"] \
        and q_d > limits["cycle_complete_discharge_ratio"] * q_c
    if len(full) == 1:
        allowed = [full]
    elif max(by_cycle) in run.diag_cycles:
        allowed = [full, full[:-1]]  # the run ends on a diagnostic cycle: judged by either
    else:
        allowed = [full if complete else full[:-1]]
    obs.require(rows in allowed, lambda: f"summarized cycles {rows}, expected {allowed[0]}")

    # ---- every cell
    qsum = esum = 0.0
    for c in rows:
        rs = by_cycle[c]
        row = out.loc[c]
        t = [parse(r["date_time_iso"]) for r in rs]

        def cell(col, want, rel=3e-6, ab=1e-7):
            obs.require(col in out.columns, f"summary lacks column {col}")
            obs.require(same(row[col], want, rel, ab),
                        lambda: f"cycle {c}: {col} is {row[col]!r}, the records give {want!r}")

        q = {k: max(r[k] for r in rs) for k in
             ("charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy")}
        cell("charge_capacity", q["charge_capacity"])
        cell("discharge_capacity", q["discharge_capacity"])
        spiked = {k for (cc, k) in spikes if cc == c}
        for k in ("charge_energy", "discharge_energy"):
            cell(k, math.nan if k in spiked else q[k])
        if not spiked:
            cell("energy_efficiency", q["discharge_energy"] / q["charge_energy"] if q["charge_energy"] else math.nan)
        qsum += q["charge_capacity"]
        if "charge_energy" not in spiked:
            esum += q["charge_energy"]
        cell("charge_throughput", qsum)
        cell("energy_throughput", math.nan if "charge_energy" in spiked else esum)
        ir = [r.get("internal_resistance", math.nan) for r in rs]
        ir = [x for x in ir if not math.isnan(x)]
        cell("dc_internal_resistance", ir[-1] if ir else math.nan)
        temps = [r.get("temperature", math.nan) for r in rs]
        if any(math.isnan(x) for x in temps):
            for k in ("temperature_maximum", "temperature_average", "temperature_minimum"):
                cell(k, math.nan)
        else:
            cell("temperature_maximum", max(temps))
            cell("temperature_minimum", min(temps))
            cell("temperature_average", sum(temps) / len(temps))
            integ = sum((t[i + 1] - t[i]) / 60.0 * (temps[i] + temps[i + 1]) / 2 for i in range(len(t) - 1))
            cell("time_temperature_integrated", integ, rel=1e-6, ab=1e-6)
        obs.require(row["date_time_iso"] == rs[0]["date_time_iso"], f"cycle {c}: wrong start timestamp")
        reach = [x for x, r in zip(t, rs) if r["charge_capacity"] >= nominal * ffc]
        if reach and stamp in ("fraction", "millis"):
            obs.require(abs(row["charge_duration"] - (reach[0] - t[0])) <= 0.0052 + 2e-7 * (reach[0] - t[0]),  # told in hundredths
                        lambda: f"cycle {c}: charge_duration is {row['charge_duration']!r}, the records give {reach[0] - t[0]!r}")
        else:
            cell("charge_duration", round(reach[0] - t[0], 2) if reach else math.nan)
        gap = max([b - a for a, b in zip(t, t[1:])], default=0)
        if stamp in ("fraction", "millis"):
            # pauses are told in whole seconds
            obs.require(abs(row["paused"] - gap) <= 1 if gap > 3601 else gap > 3599 or row["paused"] == 0,
                        lambda: f"cycle {c}: paused is {row['paused']!r}, the longest gap is {gap!r}")
        else:
            cell("paused", gap if gap > 3600 else 0)
        charging = [r for r in rs if r["current"] > 0]
        found, pos = cv_segment(charging)
        if found:
            seg = charging[pos:]
            cell("CV_time", seg[-1]["test_time"] - seg[0]["test_time"], ab=1e-3)
            cell("CV_current", seg[-1]["current"])
            cell("CV_capacity", seg[-1]["charge_capacity"] - seg[0]["charge_capacity"], ab=1e-6)
            obs.count("cv_holds")
        elif found is False:
            for k in ("CV_time", "CV_current", "CV_capacity"):
                cell(k, math.nan)
            obs.count("no_cv")
        obs.count("pauses_over_threshold", gap > 3600)
        obs.count("reached_fast_charge", bool(reach))
        obs.count("cycles_compared")
    if rows:
        obs.saw(kind, vendor, via, n, run.order[0], run.order[-1] - run.order[0] + 1 != len(run.order), complete, tz,
                nominal, ffc, stamp)
