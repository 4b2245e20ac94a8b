"""C24 - HPPC features are the documented changes of resistance, rest voltage, discharge curve and diffusion."""
import copy
import math
import os

import numpy as np
import pandas as pd

from monitors.c04 import scratch
from monitors.c21 import close, degenerate, line, moments
from vlib import diag
from vlib.core import Skip

ID = "C24"
RULE = (
    "HPPC cycles of several diagnostics (5 to 10 state-of-charge windows, random pulses, rests, rates, step numbers that change "
    "between diagnostics, grids in order of time or voltage, a misnumbered final HPPC) are annotated and featurized at random "
    "diagnostic positions and windows; step annotations, resistance changes, rest-voltage statistics, discharge-curve statistics and "
    "diffusion slopes are compared with an independent computation from the generated points. Non-trivial: features are created; "
    "distinct by (run, position, window)."
)
KINDS = {"features": (78, 1200), "steps": (33, 400)}
MIN_SIGNATURES = 50

from beep import PROTOCOL_PARAMETERS_DIR  # noqa: E402
from beep.features import featurizer_helpers as fh  # noqa: E402
from beep.features.core import HPPCResistanceVoltageFeatures  # noqa: E402

# the settings used when none are given (the folder of the parameter tables is beep's own)
DEFAULTS = {"test_time_filter_sec": 1000000, "cycle_index_filter": 6, "diag_pos": 1, "soc_window": 8, "parameters_path": PROTOCOL_PARAMETERS_DIR}
NAMES = ("hppc_charge_to_soc", "hppc_long_rest", "hppc_discharge_pulse", "hppc_short_rest", "hppc_charge_pulse",
         "hppc_discharge_to_next_soc", "hppc_final_discharge")


def run_case(kind, rng, obs):
    with scratch() as d:
        globals()["case_" + kind](rng, obs, os.path.join(d, "params"))


def maker(plan):
    """a function that makes the HPPC cycle of a diagnostic and notes its steps in plan[position]"""

    def hppc(rng, d, k, cycle, base, begin):
        me = plan[k] = {"cycle": cycle, "steps": {}, "parts": {}}
        number = list(range(base, base + 7))
        if rng.random() < 0.3:
            rng.shuffle(number)
        me["steps"] = dict(zip(NAMES, number))
        windows = rng.choice(plan["windows"])
        me["windows"] = windows
        nominal = d.nominal
        t, q, counter, frames = begin, 0.0, rng.choice([0, 0, rng.randrange(100)]), []
        soh = 1 - 0.08 * k

        def add(name, j, dur, current, volts, n, capacity=False):
            nonlocal t, q, counter
            ts = np.linspace(0, dur, n)
            if name.endswith("_pulse") and plan["fine"]:
                # points around the limits of the ohmic and the charge transfer resistance
                ts = np.unique(np.concatenate([[0.0, 0.0005, 0.004, 0.3, 2.0, 3.0], ts]))
            v = np.array([volts(x) for x in ts])
            amps = np.array([current(x) for x in ts])
            dq = np.concatenate([[0], np.cumsum((amps[1:] + amps[:-1]) / 2 * np.diff(ts) / 3600)])
            df = pd.DataFrame({"cycle_index": cycle, "cycle_type": "hppc", "step_index": me["steps"][name], "step_index_counter": counter,
                               "step_type": 0, "voltage": v, "current": amps, "test_time": t + ts,
                               "charge_capacity": np.where(dq > 0, dq, 0), "discharge_capacity": q + np.where(dq < 0, -dq, 0),
                               "charge_energy": 0.0, "discharge_energy": 0.0, "charge_dQdV": 0.0, "discharge_dQdV": 0.0})
            if dq[-1] < 0:
                q -= dq[-1]
            t += dur + plan["gap"]
            counter += 1
            me["parts"].setdefault(name, []).append(df)
            if name in ("hppc_discharge_to_next_soc", "hppc_final_discharge", "hppc_discharge_pulse") and plan["reverse"]:
                df = df.iloc[::-1]      # on a grid of the voltage, which falls
            frames.append(df)
            return df

        c = rng.uniform(0.2, 0.5)
        add("hppc_charge_to_soc", 0, 9000.0, lambda x: c * nominal, lambda x: 3 + 1.2 * x / 9000, 12)
        n_rest, n_pulse = rng.choice([20, 33]), rng.choice([12, 21])
        longs, shorts = rng.uniform(1200, 3600), rng.uniform(30, 60)
        dpul, cpul = rng.uniform(10, 40), rng.uniform(5, 15)
        ci, di, ni = rng.uniform(0.55, 1), rng.uniform(0.8, 2), rng.uniform(0.25, 0.5)
        if not plan["free rates"]:
            ci, di, ni = 0.75, 1.0, 0.33
        for j in range(windows):
            ocv = 4.15 - 0.12 * j - rng.uniform(0, 0.02) - 0.01 * k
            r0, r1 = rng.uniform(0.02, 0.04) / soh, rng.uniform(0.01, 0.03) / soh
            noise = lambda: rng.uniform(-1e-4, 1e-4)  # noqa: E731
            add("hppc_long_rest", j, longs, lambda x: plan["leak"] * rng.uniform(0.5, 1), lambda x: ocv + 0.02 * math.exp(-x / 300) * -1 + noise(), n_rest)
            add("hppc_discharge_pulse", j, dpul, lambda x: -di * nominal + noise(), lambda x: ocv - di * nominal * (r0 + r1 * (1 - math.exp(-x / 8))), n_pulse)
            a = rng.uniform(0.002, 0.01)
            add("hppc_short_rest", j, shorts, lambda x: plan["leak"] * rng.uniform(0.5, 1),
                lambda x: ocv - 0.02 - a * (math.sqrt(x + dpul) - math.sqrt(x)) + noise() / 50, n_rest)
            add("hppc_charge_pulse", j, cpul, lambda x: ci * nominal + noise(), lambda x: ocv + ci * nominal * (r0 + r1 * (1 - math.exp(-x / 8))), n_pulse)
            # the voltage is a cubic of the capacity, which cubic splines reproduce
            dur = rng.uniform(0.06, 0.1) / ni * 3600
            w = [rng.uniform(0.5, 1.5) for _ in range(3)]
            z = lambda x: x / dur  # noqa: E731
            add("hppc_discharge_to_next_soc", j, dur, lambda x: -ni * nominal,
                lambda x: ocv - 0.03 - 0.1 * (w[0] * z(x) + 0.2 * w[1] * z(x) ** 2 + 0.1 * w[2] * z(x) ** 3) - 0.01 * k, 25)
        if plan["final"]:
            add("hppc_final_discharge", 0, 4000.0, lambda x: -0.3 * nominal * (1.0 if x < 2500 or not plan["taper"] else 0.3), lambda x: 3.1 - 0.4 * x / 4000, 15)
        else:
            del me["steps"]["hppc_final_discharge"]
        return pd.concat(frames, ignore_index=True)

    return hppc


def setup(rng, folder, windows):
    plan = {"windows": windows, "reverse": rng.random() < 0.5, "final": rng.random() < 0.8, "taper": rng.random() < 0.5,
            "free rates": rng.random() < 0.6,
            "fine": rng.random() < 0.5, "gap": rng.choice([0.0, 0.0, 0.5, 2.0]), "leak": rng.choice([0.0, 0.0, 0.004, -0.004])}
    d = diag.build(rng, folder, n_diags=rng.choice([2, 3, 3]), points=6, hppc=maker(plan))
    return d, plan


def case_steps(rng, obs, folder):
    d, plan = setup(rng, folder, [2, 5, 9])
    snap = diag.snapshot(d.dp)
    for k in range(d.n):
        got = fh.get_step_index(d.dp, "hppc", k, parameters_path=folder)
        obs.require({a: int(b) for a, b in got.items()} == plan[k]["steps"], lambda: f"steps of HPPC {k} are {got}, expected {plan[k]['steps']}")
        for t in diag.RATES + ("reset",):
            got = fh.get_step_index(d.dp, t, k, parameters_path=folder)
            want = {f"{t}_{a}": b for a, b in d.steps[(k, t)].items()}
            obs.require({a: int(b) for a, b in got.items()} == want, lambda: f"steps of {t} {k} are {got}, expected {want}")
            obs.count("annotated cycles")
    last = fh.get_step_index(d.dp, "hppc", -1, parameters_path=folder)
    obs.require({a: int(b) for a, b in last.items()} == plan[d.n - 1]["steps"], lambda: f"steps of the last HPPC are {last}")
    try:
        fh.get_step_index(d.dp, rng.choice(["rpt_3C", "waveform"]), 0, parameters_path=folder)
        ok = False
    except (NotImplementedError, IndexError):
        ok = True
    obs.require(ok, "an unknown cycle type is annotated")
    diag.unchanged(obs, d.dp, snap, "get_step_index")
    obs.saw("steps", d.n, plan["final"], plan["taper"], plan["free rates"], plan["reverse"], tuple(plan[k]["windows"] for k in range(d.n)))
    obs.describe(f"annotations of {d.n} diagnostics: {plan[0]['steps']}")


def resistances(me):
    out = {}
    for tag, rest, pulse in (("c", "hppc_short_rest", "hppc_charge_pulse"), ("d", "hppc_long_rest", "hppc_discharge_pulse")):
        for j in range(9):
            for when in ("0s", "3s", "end"):
                key = f"r_{tag}_{when}_{j}"
                if j >= me["windows"]:
                    out[key] = None
                    continue
                r, p = me["parts"][rest][j], me["parts"][pulse][j]
                v0, i0 = float(r.voltage.iloc[-1]), math.fsum(r.current.iloc[-5:]) / 5
                ts = [float(x) - float(p.test_time.iloc[0]) for x in p.test_time]
                limit = {"0s": 0.001, "3s": 3, "end": 1e9}[when]
                i = max(n for n, x in enumerate(ts) if x <= limit)
                out[key] = (float(p.voltage.iloc[i]) - v0) / (float(p.current.iloc[i]) - i0)
    return out


def shape(values):
    """var, min, mean, skew, kurtosis, sum of magnitudes, sum of squares"""
    n, m, (m2, m3, m4) = moments(values)
    return [m2, min(values), m, m3 / m2 ** 1.5, ((n * n - 1) * m4 / m2 ** 2 - 3 * (n - 1) ** 2) / ((n - 2) * (n - 3)) + 3,
            math.fsum(abs(x) for x in values), math.fsum(x * x for x in values)]


def rests(me):
    return [math.fsum(float(v) for v in p.voltage.iloc[-10:]) / 10 for p in me["parts"]["hppc_long_rest"][:9]]


def diffusion(me):
    out = {}
    for i in range(1, min(me["windows"], 9)):
        pulse, rest = me["parts"]["hppc_discharge_pulse"][i], me["parts"]["hppc_short_rest"][i]
        td = float(pulse.test_time.max() - pulse.test_time.min())
        t = [float(x) - float(rest.test_time.iloc[0]) for x in rest.test_time]
        x = [math.sqrt(a + td) - math.sqrt(a) for a in t]
        v = [float(a) for a in rest.voltage]
        low = min(v)
        k = round(2 * len(x) / 3)
        out[f"D_{i}"] = line(x[k:], [a - low for a in v][k:])[0]
    return out


def curve_difference(a, b, window):
    """first minus later discharge curve of a window, on the later points within the range of the first"""
    if min(a["windows"], b["windows"]) <= window:
        return None
    p, q = a["parts"]["hppc_discharge_to_next_soc"][window], b["parts"]["hppc_discharge_to_next_soc"][window]
    Q, V = np.array(p.discharge_capacity, dtype=float), np.array(p.voltage, dtype=float)
    mid, half = (Q[0] + Q[-1]) / 2, (Q[-1] - Q[0]) / 2
    poly = np.polyfit((Q - mid) / half, V, 3)
    assert abs(np.polyval(poly, (Q - mid) / half) - V).max() < 1e-9
    pts = [(float(x), float(v)) for x, v in zip(q.discharge_capacity, q.voltage) if Q[0] < x < Q[-1]]
    return [float(np.polyval(poly, (x - mid) / half)) - v for x, v in pts]


def case_features(rng, obs, folder):
    d, plan = setup(rng, folder, rng.choice([[9, 10], [5, 9], [10], [7]]))
    dp = d.dp
    pos = rng.randrange(1, d.n)
    window = rng.choice([8, 0, 3, 5, 9])
    h = {"test_time_filter_sec": 1000000, "cycle_index_filter": 6, "diag_pos": pos, "soc_window": window, "parameters_path": folder}
    final = rng.random() < 0.3
    if final:
        extra = dp.diagnostic_data[dp.diagnostic_data.cycle_index == plan[0]["cycle"]].copy()
        extra["test_time"] += 3e6
        extra["step_index_counter"] += rng.choice([0, 1000])
        dp.diagnostic_data = pd.concat([dp.diagnostic_data, extra], ignore_index=True)
    mine, snap = copy.deepcopy(h), diag.snapshot(dp)
    r0, r1 = resistances(plan[0]), resistances(plan[pos])
    want = {}
    for k in r0:
        a, b = r0[k], r1[k]
        want[k + "0"] = math.nan if a is None or b is None else (b - a) / a
    ocv = [a - b for a, b in zip(rests(plan[0]), rests(plan[pos]))]
    if degenerate(ocv):
        raise Skip("rest voltages without a well defined difference")
    tags = ("var", "min", "mean", "skew", "kurtosis", "sum", "sum_square")
    want.update(zip([t + "_ocv" for t in tags], shape(ocv)))
    dv = curve_difference(plan[0], plan[pos], window)
    if dv is not None:
        if len(dv) < 8 or degenerate(dv) or moments(dv)[2][0] < 1e-7:
            raise Skip("discharge curves without a well defined difference")
        want.update(zip([t + "_v_diff" for t in tags], shape(dv)))
    d0, d1 = diffusion(plan[0]), diffusion(plan[pos])
    for k in set(d0) | set(d1):
        want[k] = (d1[k] - d0[k]) / d0[k] if k in d0 and k in d1 else math.nan
    f = HPPCResistanceVoltageFeatures(dp, h)
    obs.require(f.validate()[0], "a run with HPPC is refused")
    f.create_features()
    X = f.features
    diag.unchanged(obs, dp, snap, "HPPCResistanceVoltageFeatures")
    obs.require(h == mine and f.hyperparameters == mine and HPPCResistanceVoltageFeatures.DEFAULT_HYPERPARAMETERS == DEFAULTS, "hyperparameters changed")
    obs.require(X.shape[0] == 1 and set(X.columns) == set(want), lambda: f"columns differ by {sorted(set(X.columns) ^ set(want))} (windows {[plan[k]['windows'] for k in range(d.n)]})")
    for k, w in want.items():
        g = X[k].iloc[0]
        g = math.nan if g is None else float(g)
        obs.require(close(g, w, 1e-5), lambda: f"{k} is {g}, expected {w} (position {pos}, window {window}, final {final})")
    obs.count("features", len(want))
    obs.saw("features", pos, d.n, window, plan[0]["windows"], plan[pos]["windows"], final, plan["reverse"], plan["free rates"])
    obs.describe(f"HPPC {pos} of {d.n} against the first, window {window}: {len(want)} features")
