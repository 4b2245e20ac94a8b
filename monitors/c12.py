"""C12 - waveforms deliver the requested profile: power model, cycler waveform files, driving and rapid-charge profiles."""
import copy
import os

import numpy as np
import pandas as pd

from monitors.c04 import frame_equal, scratch
from vlib.core import Skip

ID = "C12"
RULE = (
    "Random velocity traces (any units, non-uniform times, standstill), power/current waveforms (sign changes, plateaus, "
    "zeros, one sample) and rapid-charge parameters go through the real conversions; the written waveform files are replayed "
    "second by second against the requested profile, with limits, repeats and scaling, and calls are interleaved to observe "
    "leakage between them. Non-trivial: a whole profile replayed; distinct by (function, profile features)."
)
KINDS = {"velocity": (160, 1200), "file": (350, 3000), "driving": (32, 300), "rapid": (150, 1000), "rapid_file": (60, 400)}
MIN_SIGNATURES = 40
COLS = ["state", "control", "value", "limit_mode", "limit", "duration", "end_mode", "end_op", "end_value", "report_mode",
        "report_value", "range"]


def config(rng):
    return {"control_mode": rng.choice(["P", "I"]), "value_scale": rng.choice([1, 30, 24.2, 0.5]),
            "charge_limit_mode": "V", "charge_limit_value": rng.choice([4.2, 4.05]), "discharge_limit_mode": "V",
            "discharge_limit_value": rng.choice([2.7, 3.0]), "charge_end_mode": "V", "charge_end_operation": ">=",
            "charge_end_mode_value": rng.choice([4.25, 4.3]), "discharge_end_mode": "V", "discharge_end_operation": "<=",
            "discharge_end_mode_value": rng.choice([2.5, 2.2]), "report_mode": "T", "report_value": 3.0, "range": "A"}


def replay(obs, path, samples, cfg, quantity, what):
    """Play the file second by second and compare with the requested samples (signed)."""
    mwf = pd.read_csv(path, sep="\t", header=None, names=COLS, keep_default_na=False)
    obs.require(len(mwf.columns) == 12, "waveform file has a wrong number of columns")
    obs.require(int(mwf.duration.sum()) == len(samples),
                lambda: f"{what}: file lasts {int(mwf.duration.sum())} s, the profile {len(samples)} s")
    played = []
    for r in mwf.itertuples():
        obs.require(r.duration > 0 and r.value >= 0, lambda: f"{what}: bad segment {r}")
        played += [(r, r.value if r.state == "C" else -r.value)] * int(r.duration)
    tol = 2e-5 + 1e-9 * max(abs(x) for x in samples)
    for k, ((r, got), want) in enumerate(zip(played, samples)):
        obs.require(abs(got - want) <= tol, lambda: f"{what}: at second {k} the file asks for {got}, the profile for {want}")
        side = "charge" if r.state == "C" else "discharge"
        if want != 0:
            obs.require(r.state == ("C" if want > 0 else "D"), lambda: f"{what}: wrong direction at second {k}")
        ok = (r.limit_mode == cfg[side + "_limit_mode"] and r.limit == cfg[side + "_limit_value"] and
              r.end_mode == cfg[side + "_end_mode"] and r.end_op == cfg[side + "_end_operation"] and
              abs(r.end_value - cfg[side + "_end_mode_value"]) < 1e-9 and r.report_mode == cfg["report_mode"] and
              r.report_value == cfg["report_value"] and r.range == cfg["range"])
        obs.require(ok, lambda: f"{what}: limits of segment {tuple(r)} are not those of {side} in {cfg}")
        mode = "I" if want == 0 and quantity == "power" and cfg["control_mode"] == "P" else cfg["control_mode"]
        obs.require(r.control == mode, lambda: f"{what}: control mode {r.control} for {want}, expected {mode}")
    obs.count("seconds_replayed", len(samples))
    return mwf


def profile(rng, n):
    shape = rng.choice(["random", "plateaus", "one", "zeros", "positive", "negative", "alternating"])
    if shape == "one":
        return shape, [rng.choice([-3.0, 5.0, 0.25])]
    if shape == "plateaus":
        out = []
        while len(out) < n:
            out += [rng.choice([-2.0, -1.0, 0.0, 1.5, 3.0])] * rng.randrange(1, 12)
        out = out[:n]
    elif shape == "zeros":
        out = [0.0 if rng.random() < 0.5 else rng.uniform(-5, 5) for _ in range(n)]
    elif shape == "positive":
        out = [rng.uniform(0.1, 5) for _ in range(n)]
    elif shape == "negative":
        out = [-rng.uniform(0.1, 5) for _ in range(n)]
    elif shape == "alternating":
        out = [(-1) ** k * 2.0 for k in range(n)]
    else:
        out = [rng.uniform(-5, 5) for _ in range(n)]
    if all(x == 0 for x in out):
        out[0] = 1.0
    return shape, out


def waveform_file(rng, obs):
    from beep.protocol import maccor
    shape, xs = profile(rng, rng.choice([2, 17, 120]))
    quantity = rng.choice(["power", "current"])
    df = pd.DataFrame({"time": range(len(xs)), quantity: xs})
    if rng.random() < 0.3:
        df["note"] = "x"
    if rng.random() < 0.3:
        df.index = rng.sample(range(5000), len(df))
    keep = df.copy(deep=True)
    cfg = config(rng)
    if quantity == "current":
        cfg["control_mode"] = "I"
    keepcfg = copy.deepcopy(cfg)
    default = rng.random() < 0.2
    what = f"{shape} {quantity}"
    with scratch() as d:
        name = rng.choice(["wave", "LA4_8rep", "a.b"])
        if default:
            path = maccor.generate_maccor_waveform_file(df, name, d)
            from beep.conversion_schemas import MACCOR_WAVEFORM_CONFIG
            cfg = dict(MACCOR_WAVEFORM_CONFIG)
            obs.require(cfg["value_scale"] == 1 and cfg["charge_limit_value"] == 4.2 and cfg["discharge_end_mode_value"] == 2.5,
                        lambda: f"default waveform settings changed: {cfg}")
        else:
            path = maccor.generate_maccor_waveform_file(df, name, d, mwf_config=cfg)
            obs.require(cfg == keepcfg, "waveform settings were changed")
        obs.require(path == os.path.join(d, name + ".MWF") and os.listdir(d) == [name + ".MWF"], f"file written to {path}")
        frame_equal(keep, df, "waveform table", obs)
        peak = max(abs(x) for x in xs)
        samples = [x / peak * cfg["value_scale"] for x in xs]
        mwf = replay(obs, path, samples, cfg, quantity, what)
        obs.require(abs(mwf.value.max() - cfg["value_scale"]) < 2e-5, "the largest value is not the requested scale")
    obs.describe(f"{what} {len(xs)} s cfg={cfg}")
    obs.saw("file", shape, quantity, len(xs), default, cfg["control_mode"])


def velocity(rng, obs):
    from beep.utils.waveform import convert_velocity_to_power_waveform
    n = rng.choice([2, 10, 60])
    t, ts = 0.0, []
    uniform = rng.random() < 0.6
    for _ in range(n):
        ts.append(round(t, 3))
        t += 1 if uniform else rng.choice([0.5, 1, 2.5])
    vs = [rng.choice([0.0, rng.uniform(0, 60)]) for _ in ts]
    k = {"mph": 1600 / 3600, "kmph": 1000 / 3600, "mps": 1.0}
    unit = rng.choice(sorted(k))
    with scratch() as d:
        res = {}
        for u in {unit, rng.choice(sorted(k))}:
            p = os.path.join(d, u + ".txt")
            with open(p, "w") as f:
                f.write("Time(s)\tSpeed\n")
                for a, b in zip(ts, vs):
                    f.write(f"{a}\t{b * k[unit] / k[u]:.12g}\n")
            res[u] = convert_velocity_to_power_waveform(p, u)
        try:
            convert_velocity_to_power_waveform(p, "knots")
            obs.require(False, "an unknown unit was accepted")
        except NotImplementedError:
            pass
    for u, df in res.items():
        obs.require(list(df.columns) == ["time", "power"] and list(df.time) == ts, "time axis changed")
        m = [v * k[unit] for v in vs]
        for i in range(n):
            lo, hi = max(i - 1, 0), min(i + 1, n - 1)
            if 0 < i < n - 1:
                h1, h2 = ts[i] - ts[i - 1], ts[i + 1] - ts[i]
                a = (h1 * h1 * m[i + 1] + (h2 * h2 - h1 * h1) * m[i] - h2 * h2 * m[i - 1]) / (h1 * h2 * (h1 + h2))
            else:
                a = (m[hi] - m[lo]) / (ts[hi] - ts[lo])
            force = 1500 * a + 0.01 * 1500 * 9.8 + 0.5 * 1.225 * 0.34 * 1.75 * m[i] ** 2
            want = -force * m[i]
            got = df.power.iloc[i]
            obs.require(abs(got - want) <= 1e-6 * max(1, abs(want)), lambda: f"{u}: power at {ts[i]} s is {got}, model gives {want}")
        obs.count("points", n)
    obs.describe(f"velocity {n} points {unit} uniform={uniform}")
    obs.saw("velocity", n, unit, uniform, len(res))


def driving(rng, obs):
    from beep.protocol.maccor import insert_driving_parametersv1
    from beep.protocol import PROTOCOL_SCHEMA_DIR
    from beep.conversion_schemas import MACCOR_WAVEFORM_CONFIG
    from beep.utils.waveform import convert_velocity_to_power_waveform
    before = dict(MACCOR_WAVEFORM_CONFIG)
    with scratch() as d:
        wd = os.path.join(d, "mwf", "deep") if rng.random() < 0.5 else d
        todo = []
        for _ in range(2):
            p = {"discharge_profile": rng.choice(["US06", "LA4"]), "profile_charge_limit": rng.choice([4.2, 4.1]),
                 "max_profile_power": rng.choice([40, 25.0, 7]), "n_repeats": rng.choice([1, 2, 4]),
                 "discharge_cutoff_voltage": rng.choice([2.7, 3.0]), "power_scaling": rng.choice([1.0, 0.6, 0.27])}
            row = pd.Series(p, dtype=object)
            path = insert_driving_parametersv1(row, waveform_directory=wd)
            obs.require(dict(row) == p, "the parameters were changed")
            obs.require(dict(MACCOR_WAVEFORM_CONFIG) == before, "the default waveform settings were changed")
            base = convert_velocity_to_power_waveform(
                os.path.join(PROTOCOL_SCHEMA_DIR, p["discharge_profile"] + "_velocity_waveform.txt"), "mph").power.tolist()
            peak = max(map(abs, base))
            scale = p["max_profile_power"] * p["power_scaling"]
            cfg = dict(before, value_scale=scale, charge_limit_value=p["profile_charge_limit"],
                       charge_end_mode_value=p["profile_charge_limit"] + 0.05,
                       discharge_end_mode_value=p["discharge_cutoff_voltage"] - 0.1)
            xs = [x / peak * scale for x in base] * p["n_repeats"]
            obs.require(os.path.dirname(path) == wd and os.path.isfile(path), f"waveform written to {path}")
            replay(obs, path, xs, cfg, "power", f"driving {p}")
            todo.append(p)
    obs.describe(f"driving {todo}")
    obs.saw("driving", *[(p["discharge_profile"], p["n_repeats"]) for p in todo])


def rapid_params(rng):
    pts = sorted(rng.uniform(0.1, 0.75) for _ in range(2))
    while pts[1] - pts[0] < 0.05:
        pts = sorted(rng.uniform(0.1, 0.75) for _ in range(2))
    rates = [rng.uniform(0.4, 2.6) for _ in range(4)]
    rates[3] = rng.uniform(0.3, 1.2)
    return rates, [0.05, *pts, rng.choice([0.8, 0.8, 0.9])]


def check_rapid(obs, rates, mesh, smooth, step, tm, what):
    """Profiles against the requested windows (window i runs at rates[i])."""
    n = len(tm)
    obs.require(len(smooth) == n and len(step) == n, f"{what}: profiles of different length")
    obs.require(list(tm) == list(range(n)), f"{what}: time is not a 1 s grid from 0")
    durations = [(b - a) / r * 3600 for a, b, r in zip(mesh, mesh[1:], rates)]
    total = sum(durations)
    grain = (mesh[-1] - mesh[0]) / 999   # the profiles are made on a grid of 1000 states of charge
    slow = grain / min(rates) * 3600
    obs.require(abs(n - total) <= 4 * slow + 4, lambda: f"{what}: lasts {n} s, the windows ask for {total:.0f} s")
    dsoc = mesh[-1] - mesh[0]
    for name, xs in (("step", step), ("smooth", smooth)):
        q = float(np.sum(xs)) / 3600
        obs.require(abs(q - dsoc) <= 5 * grain + 4 * max(rates) / 3600, lambda: f"{what}: the {name} profile charges {q:.4f} instead of {dsoc:.4f}")
    # every window of the stepwise profile runs at its own rate
    t0 = 0.0
    for i, (dur, r) in enumerate(zip(durations, rates)):
        margin = 5 * slow + 5
        lo, hi = int(t0 + margin), int(t0 + dur - margin)
        if hi - lo >= 3:
            seg = step[lo:hi]
            obs.require(np.allclose(seg, r, rtol=1e-6), lambda: f"{what}: window {i} runs at {seg.min():.4f}..{seg.max():.4f}, not {r}")
            obs.count("windows")
        t0 += dur
    return n


def rapid(rng, obs):
    from beep.utils.waveform import RapidChargeWave
    rates, mesh = rapid_params(rng)
    top, low = 3.0, 0.2
    what = f"rates={['%.3f' % r for r in rates]} soc={['%.3f' % m for m in mesh]}"
    wave = RapidChargeWave(rates[-1], mesh[0], mesh[-1], top, low)
    if rng.random() < 0.2:
        bad = list(mesh)
        i = rng.choice([0, 1])
        bad[i + 1] = bad[i] - rng.choice([0.0, 0.03]) if rng.random() < 0.5 else bad[i]
        try:
            wave.get_currents_with_uniform_time_basis(list(rates), bad)
        except AssertionError:
            obs.require(True, "")
            obs.saw("rapid", "refused", i)
            return
        obs.require(False, f"windows in wrong order were accepted: {bad}")
    keep = (list(rates), list(mesh))
    try:
        smooth, step, tm = wave.get_currents_with_uniform_time_basis(rates, mesh)
    except AssertionError:
        raise Skip("no smooth profile of the same duration exists within the rate limits")
    obs.require((list(rates), list(mesh)) == keep, "the parameters were changed")
    n = check_rapid(obs, rates, mesh, smooth, step, tm, what)
    obs.require(np.max(smooth) <= top + 1e-9 and np.min(smooth) >= low - 1e-9, f"{what}: smooth profile leaves the rate limits")
    obs.require(np.max(step) <= max(rates) + 1e-9, f"{what}: stepwise profile exceeds its rates")
    again = wave.get_currents_with_uniform_time_basis(rates, mesh)
    obs.require(all(np.array_equal(a, b) for a, b in zip((smooth, step, tm), again)), "the same parameters give another profile")
    obs.describe(what)
    obs.saw("rapid", n // 500, [round(r) for r in rates])


def rapid_file(rng, obs):
    from beep.protocol.maccor import insert_charging_parametersv1
    from beep.utils.waveform import RapidChargeWave
    rates, mesh = rapid_params(rng)
    kind = rng.choice(["smooth", "step", "step"])
    over = rng.random() < 0.15
    if over:
        rates[1] = 3.3
    p = {"project_name": "RapidC", "seq_num": rng.randrange(1000), "charge_type_1": kind, "charge_start_soc": mesh[0],
         "charge_soc_param_1": mesh[1], "charge_soc_param_2": mesh[2], "charge_fast_soc_limit": mesh[3],
         "charge_cutoff_voltage": rng.choice([4.2, 4.1]), "charge_voltage_offset_1": rng.choice([0.01, 0.05]),
         "capacity_nominal": rng.choice([4.84, 1.1])}
    p.update({f"charge_current_param_{k + 1}": r for k, r in enumerate(rates)})
    row = pd.Series(p, dtype=object)
    with scratch() as d:
        wd = os.path.join(d, "mwf")
        try:
            path = insert_charging_parametersv1(row, waveform_directory=wd)
        except AssertionError:
            if over:
                obs.require(True, "")
                obs.saw("rapid_file", "refused")
                return
            raise Skip("refused: no matching smooth profile")
        obs.require(not over, "a charging rate beyond the limit was accepted")
        obs.require(dict(row) == p, "the parameters were changed")
        wave = RapidChargeWave(rates[-1], mesh[0], mesh[-1], 3.0, 0.2)
        smooth, step, tm = wave.get_currents_with_uniform_time_basis(rates, mesh)
        xs = [float(x) * p["capacity_nominal"] for x in (smooth if kind == "smooth" else step)]
        cfg = dict(config(rng), control_mode="I", charge_limit_value=p["charge_cutoff_voltage"] - p["charge_voltage_offset_1"],
                   discharge_limit_value=2.7, charge_end_mode_value=4.25, discharge_end_mode_value=2.5)
        replay(obs, path, xs, cfg, "current", f"rapid {kind}")
        check_rapid(obs, rates, mesh, smooth, step, tm, "rapid file")
        obs.require(os.path.basename(path) == f"RapidC_{kind}_{p['seq_num']}.MWF", f"file name {path}")
    obs.describe(f"{p}")
    obs.saw("rapid_file", kind, [round(r) for r in rates])


def run_case(kind, rng, obs):
    {"velocity": velocity, "file": waveform_file, "driving": driving, "rapid": rapid, "rapid_file": rapid_file}[kind](rng, obs)
