"""C01 - interpolated cycle data: complete, on the promised grid, faithful to the raw records."""
import numpy as np

from vlib import cells
from vlib.core import Violation
from vlib.interp import Curve, agrees

ID = "C01"
RULE = (
    "Seeded synthetic cycler runs (cycle numbering origin and gaps, multi-step charges, CV holds, rests, 1- and "
    "2-record steps, pauses, noise, sparse resistance, waveform discharges, diagnostic cycles, excluded cycles) are "
    "structured by the real code; every (cycle, step) group of the result is compared point by point with a reference "
    "linear interpolation of the raw records; single frames are also interpolated directly, on any axis (time stamps "
    "included), range and choice of columns. Non-trivial: at least one interpolated group was compared; distinct by "
    "(axes, features of the run)."
)
KINDS = {"regular": (140, 2500), "diagnostic": (50, 900), "exclude": (50, 900), "waveform": (40, 700), "frame": (60, 1500)}
MIN_SIGNATURES = 40
VALUE_COLS = ["test_time", "voltage", "current", "charge_capacity", "discharge_capacity", "charge_energy",
              "discharge_energy", "internal_resistance", "temperature"]


def frame_case(rng, obs):
    """The interpolation of one frame of records, on the axis, over the range and for the columns asked for."""
    import pandas as pd
    from beep.structure.base import interpolate_df
    n = rng.choice([2, 3, 5, 20, 80])
    time = np.cumsum([rng.choice([1.0, 5.0, 30.0, 600.0]) for _ in range(n)]) + rng.choice([0, 12345])
    down = rng.random() < 0.3
    volt = np.sort(np.round([rng.uniform(2.7, 4.2) for _ in range(n)], rng.choice([2, 6])))
    if down:
        volt = volt[::-1]
    df = pd.DataFrame({"test_time": time, "voltage": volt,
                       "charge_capacity": np.cumsum([rng.choice([0, 0.01, 0.1]) for _ in range(n)]),
                       "current": [rng.uniform(-2, 2) for _ in range(n)],
                       "internal_resistance": [rng.uniform(0.01, 0.1) if rng.random() < 0.7 else np.nan
                                               for _ in range(n)],
                       "date_time_iso": [(pd.Timestamp("2020-03-08T01:00:00+00:00") + pd.Timedelta(seconds=float(t))
                                          ).isoformat() for t in time]})
    if rng.random() < 0.5:
        df.index = df.index * rng.choice([1, 3]) + rng.randrange(0, 400)
    axis = rng.choice(["voltage", "test_time", "charge_capacity", "date_time_iso"])
    values = [c for c in ("test_time", "voltage", "charge_capacity", "current", "internal_resistance") if c != axis]
    cols = None
    if axis != "date_time_iso":
        df = df.drop(columns="date_time_iso")
    if rng.random() < 0.6:
        values = rng.sample(values, rng.choice([1, 2, 3]))
        cols = values + ([axis] if rng.random() < 0.4 else [])
    res = rng.choice([2, 3, 11, 100])
    x = pd.to_datetime(df[axis]) if axis == "date_time_iso" else df[axis]
    secs = (lambda t: (pd.to_datetime(pd.Series(t), utc=True) - pd.Timestamp("2020-03-08T01:00:00+00:00")
                       ).dt.total_seconds().to_numpy(float)) if axis == "date_time_iso" else \
        (lambda t: np.asarray(t, float))
    rng_arg = None
    if axis != "date_time_iso" and rng.random() < 0.6:
        lo, hi = float(x.min()), float(x.max())
        w = (hi - lo) or 1.0
        rng_arg = sorted([lo + w * rng.uniform(-0.3, 0.6), lo + w * rng.uniform(0.61, 1.4)])
    elif axis == "voltage" and down:
        rng_arg = [float(x.iloc[-1]), float(x.iloc[0])]
    kw = {k: v for k, v in (("field_range", rng_arg), ("columns", cols)) if v is not None or rng.random() < 0.5}
    obs.describe(f"interpolate_df axis={axis} n={n} down={down} range={rng_arg} cols={cols} res={res}")
    out = interpolate_df(df, field_name=axis, resolution=res, **kw)
    sx = secs(x)
    ends = rng_arg or [sx[0], sx[-1]]
    grid = np.linspace(*ends, res)
    if ends[0] == ends[1]:
        grid = grid[:1]
    obs.require(set(out.columns) == {axis, *values},
                lambda: f"columns {sorted(out.columns)}, asked for {sorted([axis, *values])}")
    got = secs(out[axis])
    obs.require(len(got) == len(grid) and np.allclose(got, grid, rtol=1e-9, atol=1e-6),
                lambda: f"axis {axis} is not the grid {ends} x {res}: {len(got)} points {got[:3]}..{got[-3:]}")
    for col in values:
        cur = Curve(sx, df[col])
        for q, v in zip(got, out[col].to_numpy(float)):
            obs.require(agrees(cur, q, v),
                        lambda: f"{col} at {axis}={q!r} is {v!r}, records give {cur.bounds(q)}")
    obs.count("points_compared", len(got) * len(values))
    obs.saw("frame", axis, down, rng_arg is None, cols is None, n, res)


def run_case(kind, rng, obs):
    if kind == "frame":
        return frame_case(rng, obs)
    n = rng.choice([1, 2, 3, 5, 8])
    diag = None
    if kind == "diagnostic" or (kind == "waveform" and rng.random() < 0.4):
        n = rng.choice([4, 6, 9])
        diag = {k: rng.choice(["rpt_0.2C", "hppc", "reset"]) for k in rng.sample(range(n), rng.choice([1, 2, 3]))}
        if kind == "diagnostic" and rng.random() < 0.1:
            # nothing but diagnostic cycles
            n = rng.choice([1, 2, 3])
            diag = {k: rng.choice(["rpt_0.2C", "hppc", "reset"]) for k in range(n)}
    run = cells.make_run(rng, n_cycles=n, diag=diag, waveform=(kind == "waveform" and "maybe") if kind == "waveform" else False)
    raw = run.frame()
    if kind == "waveform":
        # driven charges too, and driven steps of diagnostic cycles, which do not matter to the others
        for (c, s), t in run.steps.items():
            if t == "charge" and rng.random() < (0.5 if c in run.diag_cycles else 0.05):
                raw.loc[(raw.cycle_index == c) & (raw.step_index == s), "_wf_chg_cap"] = 0.01
            elif t == "discharge" and c in run.diag_cycles and rng.random() < 0.3:
                raw.loc[(raw.cycle_index == c) & (raw.step_index == s), "_wf_dis_cap"] = 0.01
        if run.diag_cycles and rng.random() < 0.5:
            # only diagnostic cycles are driven, or only left out ones: the others keep the axis asked for
            raw.loc[~raw.cycle_index.isin(run.diag_cycles), ["_wf_chg_cap", "_wf_dis_cap"]] = np.nan
    if rng.random() < 0.25 and kind != "waveform":
        # a run cut out of a larger table keeps its original row labels
        raw.index = raw.index + rng.randrange(1, 500)
    vendor = rng.choice(["arbin", "maccor", "battery_archive"]) if kind != "waveform" else "maccor"
    cls = cells.datapath_class(vendor)
    dp = cls(raw_data=raw.copy(), metadata={"barcode": "x", "protocol": "p", "channel_id": 3})
    if rng.random() < 0.2:
        dp.indeterminate_step_default_charge = False
    if diag:
        from beep.structure.diagnostic import DiagnosticConfig
        dp.diagnostic = DiagnosticConfig(run.diag)
    res = rng.choice([2, 5, 10, 37, 100])
    caxis = rng.choice(["charge_capacity", "charge_capacity", "voltage", "test_time"])
    daxis = rng.choice(["voltage", "voltage", "discharge_capacity", "test_time"])
    v_range = rng.choice([None, [2.8, 3.5], [2.7, 4.2], [2.0, 3.6], [3.0, 3.1]])
    exclude = None
    if kind == "exclude":
        exclude = rng.sample(run.order, min(len(run.order), rng.choice([1, 2, 3])))
        if rng.random() < 0.3:
            exclude = [10 ** 5 + i for i in range(rng.choice([1, 3, 12, 40]))] + exclude
    kwargs = dict(resolution=res, charge_axis=caxis, discharge_axis=daxis, v_range=v_range)
    if rng.random() < 0.05:
        # with the settings of those who give none
        kwargs, res, caxis, daxis, v_range = {}, 1000, "charge_capacity", "voltage", None
    if exclude is not None:
        kwargs["exclude_cycles"] = exclude
    if diag:
        kwargs["diagnostic_resolution"] = 5
    if rng.random() < 0.5:
        dp.structure(**kwargs)
        out = dp.structured_data
    else:
        kwargs.pop("diagnostic_resolution", None)
        out = dp.interpolate_cycles(**kwargs)
    obs.describe(f"{vendor} {n} cycles {run.order} res={res} axes=({caxis},{daxis}) v_range={v_range} "
                 f"diag={run.diag} exclude={exclude} rows={len(raw)}")

    # ---- what must be there
    truth = dict(run.steps)
    regular = [c for c in run.order if c not in run.diag_cycles and c not in (exclude or [])]
    eff = {"charge": caxis, "discharge": daxis}
    if kind == "waveform":
        for (c, s), t in truth.items():
            rows = raw[(raw.cycle_index == c) & (raw.step_index == s)]
            if c in run.diag_cycles or not (rows._wf_chg_cap.notna().any() or rows._wf_dis_cap.notna().any()):
                continue
            # a step record flagged as waveform switches that direction to the time axis
            eff["charge" if t in ("charge", "rest") else "discharge"] = "test_time"
    expected = {}
    for (c, s), t in truth.items():
        if c not in regular:
            continue
        rows = raw[(raw.cycle_index == c) & (raw.step_index == s)]
        if len(rows) < 2:
            continue
        if t == "rest":
            t = "charge" if dp.indeterminate_step_default_charge else "discharge"
        expected[(c, t, s)] = rows

    got = {}
    if len(out):
        for col in ("cycle_index", "step_type", "step_index", *VALUE_COLS):
            obs.require(col in out.columns, f"interpolated data lacks column {col}")
        for key, g in out.groupby([out.cycle_index.astype(int), out.step_type.astype(str), out.step_index.astype(int)],
                                  sort=False):
            if len(g):
                got[(int(key[0]), str(key[1]), int(key[2]))] = g
    obs.require(set(got) == set(expected),
                lambda: f"interpolated groups differ: missing {sorted(set(expected) - set(got))[:5]} "
                        f"unexpected {sorted(set(got) - set(expected))[:5]}")
    total = sum(len(g) for g in got.values())
    obs.require(total == len(out), lambda: f"{len(out) - total} interpolated rows belong to no cycle/step")

    vr = v_range or [2.8, 3.5]
    for key, rows in expected.items():
        c, t, s = key
        axis = eff[t]
        if axis in ("charge_capacity", "discharge_capacity"):
            lo, hi = raw[axis].min(), raw[axis].max()
        elif axis == "test_time":
            lo, hi = rows[axis].min(), rows[axis].max()
        else:
            lo, hi = vr
        grid = np.linspace(lo, hi, res)
        if lo == hi:
            grid = grid[:1]
        g = got[key]
        obs.require(len(g) == len(grid), lambda: f"group {key}: {len(g)} points, promised {len(grid)}")
        ax = g[axis].to_numpy(float)
        obs.require(np.allclose(ax, grid, rtol=2e-7, atol=1e-7),
                    lambda: f"group {key}: axis {axis} is not the evenly spaced grid {lo}..{hi}: {ax[:4]}..{ax[-3:]}")
        idx = range(len(grid)) if len(grid) <= 12 else sorted(rng.sample(range(len(grid)), 12))
        for col in VALUE_COLS:
            if col == axis:
                continue
            if col not in rows.columns:
                vals = g[col].to_numpy(float)
                obs.require(np.isnan(vals).all(), f"column {col} was invented")
                continue
            cur = Curve(rows[axis], rows[col])
            vals = g[col].to_numpy(float)
            for i in idx:
                obs.require(agrees(cur, grid[i], vals[i]),
                            lambda: f"group {key} axis {axis}: {col} at {grid[i]:.6g} is {vals[i]!r}, raw records give "
                                    f"{cur.bounds(grid[i])}")
        obs.count("points_compared", len(idx) * (len(VALUE_COLS) - 1))
        obs.count("groups_compared")
    if expected:
        obs.saw(kind, caxis, daxis, vendor, "gap" if run.order[-1] - run.order[0] + 1 != len(run.order) else "dense",
                run.order[0], n, bool(diag), "vr" if v_range else "-", dp.indeterminate_step_default_charge)
