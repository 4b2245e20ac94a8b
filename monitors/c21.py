"""C21 - Regular-cycle features are the documented statistics of the structured cycles."""
import copy
import math

import numpy as np
import pandas as pd

from monitors.c09 import expected as cycle_life
from vlib import cells
from vlib.core import Skip

ID = "C21"
RULE = (
    "Structured runs, synthetic or really structured, with random degradation, missing grid points, missing and zero resistances "
    "are featurized with random hyperparameters, and every feature is compared with an independent computation of the statistic "
    "its label names; validity verdicts are compared with the run's cycles, and the run has to stay as it was. Non-trivial: "
    "features are created; distinct by (featurizer, run, hyperparameters)."
)
KINDS = {"summary": (280, 2000), "fast": (280, 2000), "trajectory": (160, 800), "structured": (40, 160), "verdict": (240, 1500)}
MIN_SIGNATURES = 60

from beep.features.core import CycleSummaryStats, DeltaQFastCharge, TrajectoryFastCharge  # noqa: E402

STATS = ["var", "min", "mean", "skew", "kurtosis", "abs", "square"]
QUANT = [("charging_capacity", "charge", "charge_capacity"), ("discharging_capacity", "discharge", "discharge_capacity"),
         ("charging_energy", "charge", "charge_energy"), ("discharging_energy", "discharge", "discharge_energy")]
NAN = float("nan")


def isnan(v):
    return v is None or (isinstance(v, (float, np.floating)) and math.isnan(v))


def moments(a):
    n = len(a)
    m = math.fsum(a) / n
    d = [x - m for x in a]
    return n, m, [math.fsum(x ** k for x in d) / n for k in (2, 3, 4)]


def log10abs(v):
    v = abs(v)
    return NAN if isnan(v) else -math.inf if v == 0 else math.log10(v)


def degenerate(a):
    n, m, (m2, _, _) = moments(a)
    return n < 5 or m2 <= 1e-14 * max(x * x for x in a) or m2 == 0


def statistic(name, a):
    """the value a summary statistic has to have, and the relative tolerance for its logarithm"""
    n, m, (m2, m3, m4) = moments(a)
    if name == "var":
        return log10abs(m2)
    if name == "min":
        return log10abs(min(a))
    if name == "mean":
        return log10abs(m)
    if name == "abs":
        return log10abs(math.fsum(abs(x) for x in a))
    if name == "square":
        return log10abs(math.fsum(x * x for x in a))
    if name == "skew":
        return log10abs(m3 / m2 ** 1.5)
    if name == "kurtosis":
        return log10abs(((n * n - 1) * m4 / m2 ** 2 - 3 * (n - 1) ** 2) / ((n - 2) * (n - 3)) + 3)
    raise AssertionError(name)


def close(got, want, tol=1e-6):
    if isnan(got) or isnan(want):
        return isnan(got) and isnan(want)
    if math.isinf(want) or math.isinf(got):
        return got == want
    return abs(got - want) <= tol * (1 + abs(want))


def close_log(got, want, slack=0.0):
    """logarithms: a value that nearly cancels to zero has no well defined logarithm"""
    if not isnan(want) and want < -12 and (isnan(got) or got < -10):
        return True
    return close(got, want, 1e-5)


def blank_raw():
    return pd.DataFrame({"cycle_index": [0, 0], "step_index": [1, 1], "current": [0.0, 0.0], "voltage": [3.0, 3.0],
                         "charge_capacity": [0.0, 0.0], "discharge_capacity": [0.0, 0.0], "charge_energy": [0.0, 0.0],
                         "discharge_energy": [0.0, 0.0], "test_time": [0.0, 1.0], "date_time_iso": ["2020-01-01T00:00:00+00:00"] * 2,
                         "data_point": [0, 1], "step_time": [0.0, 1.0]})


def synthetic(rng, n_cycles, first=0, points=None, keep=None):
    """a datapath whose structured tables are filled in directly"""
    points = points or rng.choice([6, 15, 40])
    dp = cells.datapath_class(rng.choice(["arbin", "maccor"]))(raw_data=blank_raw(), metadata={}, paths={"structured": "/d/x.json"})
    rows = []
    keep = range(first, first + n_cycles) if keep is None else keep
    for c in keep:
        lost = rng.random() < 0.1
        for kind in ("charge", "discharge"):
            q0, e0 = rng.uniform(0.5, 1.5), rng.uniform(2, 5)
            bend = rng.uniform(0.5, 2)
            for k in range(points):
                x = (k + 1) / points
                row = {"cycle_index": c, "voltage": 2.0 + 1.6 * k / max(1, points - 1), "step_type": kind}
                gone = rng.random() < (0.2 if lost else 0.0)
                for other in ("charge", "discharge"):
                    f = (x if other == kind else 1.0) ** bend
                    row[other + "_capacity"] = NAN if gone else q0 * f + rng.uniform(0, 0.05)
                    row[other + "_energy"] = NAN if gone else e0 * f + rng.uniform(0, 0.2)
                rows.append(row)
    sd = pd.DataFrame(rows)
    if rng.random() < 0.3:
        sd = sd.sort_values(["step_type", "cycle_index"], kind="stable", ascending=rng.choice([True, False])).reset_index(drop=True)
    cap = [1.1 * (1 - rng.uniform(0, 0.004) * k) + rng.uniform(-0.01, 0.01) for k in range(n_cycles)]
    ir = [rng.choice([0.0, NAN]) if rng.random() < 0.1 else rng.uniform(0.01, 0.03) for _ in range(n_cycles)]
    ss = pd.DataFrame({
        "cycle_index": list(range(first, first + n_cycles)), "discharge_capacity": cap, "charge_capacity": [c + 0.01 for c in cap],
        "time_temperature_integrated": [NAN if rng.random() < 0.1 else rng.uniform(1e3, 1e5) for _ in range(n_cycles)],
        "charge_duration": [NAN if rng.random() < 0.05 else rng.uniform(600, 4000) for _ in range(n_cycles)],
        "temperature_maximum": [NAN if rng.random() < 0.05 else rng.uniform(28, 40) for _ in range(n_cycles)],
        "temperature_minimum": [NAN if rng.random() < 0.05 else rng.uniform(20, 28) for _ in range(n_cycles)],
        "dc_internal_resistance": ir})
    if rng.random() < 0.4:
        ss.loc[n_cycles - 1, "dc_internal_resistance"] = 0.0
    dp.structured_data = sd
    dp.structured_summary = ss
    return dp


def snapshot(dp):
    return dp.structured_data.copy(), dp.structured_summary.copy()


def unchanged(obs, dp, snap, what):
    obs.require(dp.structured_data.equals(snap[0]) and dp.structured_summary.equals(snap[1]), f"{what} changed the structured run")


def make(cls, dp, h):
    mine = copy.deepcopy(h)
    f = cls(dp, h)
    f.create_features()
    return f, mine


def hyper_intact(obs, f, cls, h, mine, defaults):
    want = mine if mine else defaults
    obs.require(h == mine and dict(f.hyperparameters) == want and cls.DEFAULT_HYPERPARAMETERS == defaults,
                lambda: f"{cls.__name__}: hyperparameters became {f.hyperparameters} (given {mine}, defaults {cls.DEFAULT_HYPERPARAMETERS})")


# the settings used when none are given
DEFAULTS = {
    CycleSummaryStats: {"cycle_comp_num": [10, 100], "statistics": list(STATS)},
    DeltaQFastCharge: {"init_pred_cycle": 10, "mid_pred_cycle": 91, "final_pred_cycle": 100, "n_nominal_cycles": 40},
    TrajectoryFastCharge: {"thresh_max_cap": 0.98, "thresh_min_cap": 0.78, "interval_cap": 0.03},
}


def run_case(kind, rng, obs):
    globals()["case_" + kind](rng, obs)


# --- CycleSummaryStats -------------------------------------------------------

def curve(sd, cycle, step, col):
    return [float(v) for c, s, v in zip(sd.cycle_index, sd.step_type, sd[col]) if c == cycle and s == step]


def summary_check(obs, dp, h, tag):
    a, b = h["cycle_comp_num"] if h else DEFAULTS[CycleSummaryStats]["cycle_comp_num"]
    stats = h["statistics"] if h else STATS
    sd = dp.structured_data
    want = {}
    for name, step, col in QUANT:
        x, y = curve(sd, a, step, col), curve(sd, b, step, col)
        diff = [v - u for u, v in zip(x, y) if not isnan(u) and not isnan(v)]
        if len(x) != len(y) or degenerate(diff or [0]):
            raise Skip("curves without a well defined difference")
        for s in stats:
            want[f"{s}_{name}"] = statistic(s, diff)
    snap = snapshot(dp)
    f, mine = make(CycleSummaryStats, dp, h)
    unchanged(obs, dp, snap, "CycleSummaryStats")
    hyper_intact(obs, f, CycleSummaryStats, h, mine, DEFAULTS[CycleSummaryStats])
    obs.require(f.features.shape[0] == 1 and sorted(f.features.columns) == sorted(want), lambda: f"{tag}: columns {list(f.features.columns)}")
    for c, w in want.items():
        got = float(f.features[c].iloc[0])
        obs.require(close_log(got, w), lambda: f"{tag}: {c} is {got}, expected {w} (cycles {a} and {b})")
    obs.count("features", len(want))
    return want


def case_summary(rng, obs):
    n = rng.choice([12, 30])
    default = rng.random() < 0.1
    if default:
        dp = synthetic(rng, 101, points=6, keep=[10, 100, 55])
        h = None
    else:
        a, b = rng.sample(range(n), 2)
        dp = synthetic(rng, n, first=rng.choice([0, 1]), keep=None)
        off = int(dp.structured_data.cycle_index.min())
        h = {"cycle_comp_num": [a + off, b + off], "statistics": rng.sample(STATS, rng.choice([7, 7, 1, 3, 6]))}
        if rng.random() < 0.2:
            h["statistics"] = list(STATS)
    summary_check(obs, dp, h, "summary")
    obs.saw("summary", default, None if default else (len(h["statistics"]), h["statistics"] == sorted(h["statistics"], key=STATS.index)),
            len(dp.structured_data) // max(1, dp.structured_data.cycle_index.nunique()))
    obs.describe(f"CycleSummaryStats with {h}")


# --- DeltaQFastCharge --------------------------------------------------------

def nn(a):
    return [x for x in a if not isnan(x)]


def line(x, y):
    n = len(x)
    mx, my = math.fsum(x) / n, math.fsum(y) / n
    sxx = math.fsum((u - mx) ** 2 for u in x)
    s = math.fsum((u - mx) * (v - my) for u, v in zip(x, y)) / sxx
    return s, my - s * mx


def fast_check(obs, dp, h, tag):
    hh = h or DEFAULTS[DeltaQFastCharge]
    last, mid, init = hh["final_pred_cycle"] - 1, hh["mid_pred_cycle"] - 1, hh["init_pred_cycle"] - 1
    ss, sd = dp.structured_summary, dp.structured_data
    col = {c: [float(v) for v in ss[c]] for c in ss.columns if c not in ("date_time_iso", "paused", "CV_time", "CV_current", "CV_capacity")}
    q = col["discharge_capacity"]
    if any(isnan(v) for v in q[:last + 1]):
        raise Skip("missing capacities")
    w = {}
    w["discharge_capacity_cycle_2"] = q[1]
    w["max_discharge_capacity_difference"] = max(q[:last + 1]) - q[1]
    w["discharge_capacity_cycle_100"] = q[last]
    w["integrated_time_temperature_cycles_1:100"] = math.fsum(nn(col["time_temperature_integrated"][:last + 1]))
    five = nn(col["charge_duration"][1:6])
    w["charge_time_cycles_1:5"] = math.fsum(five) / len(five) if five else NAN
    u, v = curve(sd, init, "discharge", "discharge_capacity"), curve(sd, last, "discharge", "discharge_capacity")
    if len(u) != len(v):
        raise Skip("curves of different length")
    diff = [y - x for x, y in zip(u, v)]
    d = nn(diff)
    if diff and degenerate(d or [0]):
        raise Skip("curves without a well defined difference")
    lab = "abs_%s_discharge_capacity_difference_cycles_2:100"
    logs = {}
    if diff:
        n, m, (m2, m3, m4) = moments(d)
        logs["min"], logs["mean"], logs["variance"] = log10abs(min(d)), log10abs(m), log10abs(m2)
        whole = len(d) == len(diff)
        logs["skew"] = log10abs(m3 / m2 ** 1.5) if whole else NAN
        logs["kurtosis"] = log10abs(m4 / m2 ** 2 - 3) if whole else NAN
        logs["first"] = log10abs(diff[0])
    else:
        logs = {k: NAN for k in ("min", "mean", "variance", "skew", "kurtosis", "first")}
    for what, c, f in (("max_temperature_cycles_1:100", "temperature_maximum", max), ("min_temperature_cycles_1:100", "temperature_minimum", min)):
        t = nn(col[c][1:last + 1])
        w[what] = f(t) if t else NAN
    w["slope_discharge_capacity_cycle_number_2:100"], w["intercept_discharge_capacity_cycle_number_2:100"] = line(
        list(range(1, last + 1)), q[1:last + 1])
    w["slope_discharge_capacity_cycle_number_91:100"], w["intercept_discharge_capacity_cycle_number_91:100"] = line(
        list(range(mid, last + 1)), q[mid:last + 1])
    r = col["dc_internal_resistance"]
    good = [x for x in nn(r[1:last + 1]) if x != 0]
    w["min_internal_resistance_cycles_2:100"] = min(good) if good else NAN
    w["internal_resistance_cycle_2"] = r[1]
    w["internal_resistance_difference_cycles_2:100"] = r[last] - r[1]
    w["nominal_capacity_by_median"] = float(np.median(q[:hh["n_nominal_cycles"]]))
    snap = snapshot(dp)
    f, mine = make(DeltaQFastCharge, dp, h)
    unchanged(obs, dp, snap, "DeltaQFastCharge")
    hyper_intact(obs, f, DeltaQFastCharge, h, mine, DEFAULTS[DeltaQFastCharge])
    obs.require(f.features.shape == (1, 21) and set(f.features.columns) == set(w) | {lab % k for k in logs},
                lambda: f"{tag}: columns {sorted(set(f.features.columns) ^ (set(w) | {lab % k for k in logs}))}")
    for c, x in w.items():
        got = float(f.features[c].iloc[0])
        # features of capacities that nearly cancel are compared on the scale of the capacities
        scale = 1e-9 if "slope" in c or "difference" in c or "resistance" in c else 0
        obs.require(close(got, x, 1e-6) and (isnan(x) or abs(got - x) <= 1e-5 * abs(x) + scale), lambda: f"{tag}: {c} is {got}, expected {x}")
    for k, x in logs.items():
        got = float(f.features[lab % k].iloc[0])
        obs.require(close_log(got, x), lambda: f"{tag}: {lab % k} is {got}, expected {x} (cycles {init} and {last})")
    obs.count("features", 21)


def case_fast(rng, obs):
    if rng.random() < 0.15:
        h, n = None, rng.choice([101, 105])
        init, final = 10, 100
    else:
        final = rng.choice([12, 20, 40])
        init = rng.choice([10, 5, 3])
        h = {"init_pred_cycle": init, "mid_pred_cycle": rng.choice([final - 1, final - 2, 3]), "final_pred_cycle": final,
             "n_nominal_cycles": rng.choice([40, 5, 1, 10, 1000])}
        n = final + rng.choice([0, 1, 30])
    keep = [init - 1, final - 1, 2, 1] + [c for c in (9, init, final, 99, 10) if c < n]
    if rng.random() < 0.1:
        keep = [2]
    dp = synthetic(rng, n, keep=sorted(set(keep)))
    if rng.random() < 0.1:
        typed, bare = copy.deepcopy(dp), dp
        typed.structured_data = typed.structured_data[typed.structured_data.step_type == "discharge"]
        bare.structured_data = typed.structured_data.drop(columns="step_type")
        fast_check(obs, typed, h, "fast")
        f, g = make(DeltaQFastCharge, bare, h)[0], make(DeltaQFastCharge, typed, h)[0]
        obs.require(f.features.equals(g.features), "curves without step types give other features")
        obs.saw("fast", "untyped", h is None)
        return
    fast_check(obs, dp, h, "fast")
    obs.saw("fast", h is None, n - final, None if h is None else (h["init_pred_cycle"], h["n_nominal_cycles"], final - h["mid_pred_cycle"]), len(keep) == 1)
    obs.describe(f"DeltaQFastCharge with {h} on {n} cycles")


# --- TrajectoryFastCharge ----------------------------------------------------

def case_trajectory(rng, obs):
    n = rng.choice([41, 60, 120, 30])
    dp = synthetic(rng, n, points=6, keep=[0])
    caps = [float(x) for x in dp.structured_summary.discharge_capacity]
    h = rng.choice([None, {"thresh_max_cap": rng.choice([0.98, 0.95, 0.9]), "thresh_min_cap": rng.choice([0.78, 0.7, 0.85]),
                           "interval_cap": rng.choice([0.03, 0.02, 0.05, 0.01])}])
    hh = h or DEFAULTS[TrajectoryFastCharge]
    ths, t, k = [], hh["thresh_max_cap"], 0
    steps = (hh["thresh_max_cap"] - hh["thresh_min_cap"]) / hh["interval_cap"]
    while k < steps - 1e-6:
        ths.append(round(hh["thresh_max_cap"] - k * hh["interval_cap"], 2))
        k += 1
    snap = snapshot(dp)
    f, mine = make(TrajectoryFastCharge, dp, h)
    unchanged(obs, dp, snap, "TrajectoryFastCharge")
    hyper_intact(obs, f, TrajectoryFastCharge, h, mine, DEFAULTS[TrajectoryFastCharge])
    names = [f"capacity_{x}" for x in ths]
    got = list(f.features.columns)
    ends = abs(steps - round(steps)) < 1e-6     # whether the lower end belongs is a rounding question
    obs.require(f.features.shape[0] == 1 and (got == names or (ends and got[:len(names)] == names and len(got) <= len(names) + 1)),
                lambda: f"columns {got}, expected {names}")
    crossed = 0
    for x in ths:
        want = cycle_life(caps, list(dp.structured_summary.cycle_index), x)
        if want is None:
            continue
        v = float(f.features[f"capacity_{x}"].iloc[0])
        crossed += want != n + 1
        obs.require(v == want, lambda: f"capacity_{x} is reached at {v}, expected {want}")
        obs.count("thresholds")
    valid = f.validate()[0]
    ratio = min(caps) / max(caps)
    if abs(ratio - hh["thresh_max_cap"]) > 1e-9:
        obs.require(bool(valid) == (ratio < hh["thresh_max_cap"]), lambda: f"a run that loses {1 - ratio:.4f} is called {valid} for {hh['thresh_max_cap']}")
    obs.saw("trajectory", n, h is None or tuple(h.values()), min(crossed, 4), bool(valid))
    obs.describe(f"{len(ths)} thresholds on {n} cycles, {crossed} crossed")


# --- real structuring --------------------------------------------------------

def case_structured(rng, obs):
    n = rng.choice([13, 15])
    run = cells.make_run(rng, n_cycles=n, first_cycle=0, gaps=False, temp=True, ir=True, rest=False, incomplete_last="full", pauses=False,
                         multi_charge=False, resolution_pts=15)
    raw = run.frame()
    dp = cells.datapath_class("arbin")(raw_data=raw, metadata={}, paths={"structured": "/d/x.json"})
    dp.structure(v_range=[2.0, 4.3], resolution=rng.choice([30, 60]))
    if len(dp.structured_summary) < 12:
        raise Skip("not enough structured cycles")
    try:
        summary_check(obs, dp, {"cycle_comp_num": sorted(rng.sample(range(1, 11), 2)), "statistics": rng.sample(STATS, rng.choice([7, 4]))}, "structured")
        did = "both"
    except Skip:
        did = "fast"
    fast_check(obs, dp, {"init_pred_cycle": 3, "mid_pred_cycle": 8, "final_pred_cycle": 12, "n_nominal_cycles": 5}, "structured")
    obs.saw("structured", n, did)
    obs.describe(f"really structured run of {n} cycles, {did}")


# --- verdicts ----------------------------------------------------------------

def case_verdict(rng, obs):
    which = rng.choice(["summary", "summary column", "fast", "fast late", "fast mid", "fast order", "unsupported"])
    if which.startswith("summary"):
        n = 12
        have = sorted(rng.sample(range(n), rng.choice([2, 6, 11])))
        dp = synthetic(rng, n, points=6, keep=have)
        a, b = rng.sample(range(n), 2)
        want = a in have and b in have
        if which == "summary column":
            dp.structured_data = dp.structured_data.drop(columns=[rng.choice([q[2] for q in QUANT])])
            want = False
        f = CycleSummaryStats(dp, {"cycle_comp_num": [a, b], "statistics": list(STATS)})
    elif which == "unsupported":
        dp = synthetic(rng, 5, points=6)
        f = CycleSummaryStats(dp, {"cycle_comp_num": [1, 3], "statistics": ["var", rng.choice(["max", "VAR", "median"])]})
        try:
            f.create_features()
        except ValueError:
            obs.saw("verdict", which)
            return
        obs.require(False, "an unsupported statistic is accepted")
    else:
        final = rng.choice([20, 40])
        n = final + rng.choice([-5, -1, 2, 10])
        h = {"init_pred_cycle": 10, "mid_pred_cycle": final - 5, "final_pred_cycle": final, "n_nominal_cycles": 40}
        want = n > final
        if which == "fast mid":
            h["mid_pred_cycle"] = rng.choice([5, 10])
            want = False
        elif which == "fast order":
            h["mid_pred_cycle"] = final + rng.choice([0, 1])
            want = False
        dp = synthetic(rng, n, points=6, keep=[1])
        if which == "fast late":
            dp.structured_summary = dp.structured_summary.iloc[11:]
            want = False
        f = DeltaQFastCharge(dp, h)
    snap = snapshot(dp)
    got = f.validate()
    obs.require(bool(got[0]) == want and (got[0] or isinstance(got[1], str)), lambda: f"{which}: verdict {got}, expected {want}")
    unchanged(obs, dp, snap, "validating")
    obs.saw("verdict", which, want)
    obs.describe(f"{which}: {got}")
