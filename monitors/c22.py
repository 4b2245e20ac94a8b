"""C22 - Diagnostic-cycle features are the documented statistics of the diagnostic cycles."""
import copy
import math
import os

import pandas as pd

from monitors.c04 import scratch
from monitors.c21 import STATS, close, close_log, degenerate, isnan, statistic
from vlib import diag
from vlib.core import Skip

ID = "C22"
RULE = (
    "Runs with several diagnostics (reset, HPPC, rate tests; step numbers that change between diagnostics, missing grid points, "
    "misnumbered final diagnostics) with their parameter tables are featurized with random hyperparameters; every summary statistic, "
    "summary difference, image channel and charging parameter is compared with an independent computation from the generated cycles, "
    "verdicts with the cycles present, and the run must stay as it was. Non-trivial: features are created; distinct by "
    "(featurizer, run, hyperparameters)."
)
KINDS = {"summary": (200, 1500), "image": (200, 1500), "protocol": (240, 1500), "lookup": (240, 1500), "verdict": (320, 1280)}
MIN_SIGNATURES = 60

from beep import PROTOCOL_PARAMETERS_DIR  # noqa: E402
from beep.deprecated.parameters_lookup import get_protocol_parameters  # noqa: E402
from beep.features.core import (ChargingProtocol, DiagnosticProperties, DiagnosticSummaryStats, ExclusionCriteria,  # noqa: E402
                                HPPCResistanceVoltageFeatures, RawInterpolatedData)

# the settings used when none are given (the folder of the parameter tables is beep's own)
DEFAULTS = {
    DiagnosticSummaryStats: {"test_time_filter_sec": 1000000, "cycle_index_filter": 6, "diagnostic_cycle_type": "rpt_0.2C", "diag_pos_list": [0, 1],
                             "statistics": ["var", "min", "mean", "skew", "kurtosis", "abs", "square"], "parameters_path": PROTOCOL_PARAMETERS_DIR},
    RawInterpolatedData: {"metrics": ["capacity", "dQdV", "test_time"], "cycle_types": ["rpt_0.2C", "rpt_1C", "rpt_2C"], "diag_positions": [0, 1], "impute": True},
    ChargingProtocol: {"parameters_dir": PROTOCOL_PARAMETERS_DIR,
                       "quantities": ["charge_constant_current_1", "charge_constant_current_2", "charge_cutoff_voltage", "charge_constant_voltage_time",
                                      "discharge_constant_current", "discharge_cutoff_voltage"]},
}
QUANT = [("charging_capacity", "charge", "charge_capacity"), ("discharging_capacity", "discharge", "discharge_capacity"),
         ("charging_energy", "charge", "charge_energy"), ("discharging_energy", "discharge", "discharge_energy"),
         ("charging_dQdV", "charge", "charge_dQdV"), ("discharging_dQdV", "discharge", "discharge_dQdV")]


def run_case(kind, rng, obs):
    with scratch() as d:
        globals()["case_" + kind](rng, obs, os.path.join(d, "params"))


def column(df, cycle, step, col):
    return [float(v) for c, s, v in zip(df.cycle_index, df.step_index, df[col]) if c == cycle and s == step]


def create(obs, cls, dp, h):
    mine = copy.deepcopy(h)
    snap = diag.snapshot(dp)
    f = cls(dp, h)
    f.create_features()
    diag.unchanged(obs, dp, snap, cls.__name__)
    obs.require(h == mine and f.hyperparameters == mine and cls.DEFAULT_HYPERPARAMETERS == DEFAULTS[cls],
                lambda: f"{cls.__name__}: hyperparameters became {f.hyperparameters}, given {mine}")
    return f.features


def case_summary(rng, obs, folder):
    d = diag.build(rng, folder)
    dp = d.dp
    t = rng.choice(diag.RATES + ("rpt_0.2C", "reset"))
    pos = [0, 1] if rng.random() < 0.3 else rng.sample(range(d.n), 2)
    stats = list(STATS) if rng.random() < 0.4 else rng.sample(STATS, rng.choice([1, 3, 7]))
    h = {"test_time_filter_sec": 1000000, "cycle_index_filter": 6, "diagnostic_cycle_type": t, "diag_pos_list": pos, "statistics": stats,
         "parameters_path": folder}
    clean = dp.diagnostic_data
    final = rng.random() < 0.4
    if final:
        # a final diagnostic at the end of the file which starts numbering its cycles anew
        h["test_time_filter_sec"] = rng.choice([1000000, 600000])
        extra = clean[clean.cycle_index == d.cycles[0][t]].copy()
        extra["test_time"] += 2.5e6
        extra["cycle_index"] = rng.choice([d.cycles[0][t], d.cycles[0][t], 5])
        extra["step_index"] += rng.choice([0, 100])
        if extra.test_time.isna().any():
            extra = extra[extra.test_time.notna()]
        dp.diagnostic_data = pd.concat([clean, extra], ignore_index=True)
        late = clean[(clean.cycle_index < 6) & (clean.test_time > h["test_time_filter_sec"])]
        if len(late):
            raise Skip("early cycles beyond the time filter")
    want = {}
    for name, kind, col in QUANT:
        a, b = (column(clean, d.cycles[p][t], d.steps[(p, t)][kind], col) for p in pos)
        diff = [v - u for u, v in zip(a, b) if not isnan(u) and not isnan(v)]
        if degenerate(diff or [0]):
            raise Skip("curves without a well defined difference")
        for s in stats:
            want[f"{s}_{name}"] = statistic(s, diff)
    plain = {}
    for r in diag.RATES:
        for m in diag.METRICS:
            x = {int(c): float(v) for c, v in zip(d.summary.cycle_index, d.summary[m])}
            a, b = x[d.cycles[pos[0]][r]], x[d.cycles[pos[1]][r]]
            plain[f"diag_sum_diff_{pos[0]}_{pos[1]}_{r}{m}"] = (b - a) / a
    f = DiagnosticSummaryStats(dp, h)
    v = f.validate()
    obs.require(v[0], lambda: f"a run with {d.n} diagnostics is refused for positions {pos}: {v}")
    X = create(obs, DiagnosticSummaryStats, dp, h)
    obs.require(X.shape[0] == 1 and sorted(X.columns) == sorted(list(want) + list(plain)), lambda: f"columns {list(X.columns)}")
    for c, w in want.items():
        got = float(X[c].iloc[0])
        obs.require(close_log(got, w), lambda: f"{c} is {got}, expected {w} ({t} at {pos}, final diagnostic: {final})")
    for c, w in plain.items():
        got = float(X[c].iloc[0])
        obs.require(abs(got - w) <= 1e-9, lambda: f"{c} is {got}, expected {w}")
    # asked for other positions, types and metrics
    q = rng.choice([None, rng.sample(range(d.n), 2)])
    some = {} if rng.random() < 0.4 else {"cycle_types": rng.sample(diag.RATES, rng.choice([1, 2])), "metrics": rng.sample(list(diag.METRICS), rng.choice([1, 2]))}
    values, labels = f.get_summary_diff(q, **some) if q or rng.random() < 0.5 else f.get_summary_diff(**some)
    asked = {}
    for r in some.get("cycle_types", diag.RATES):
        for m in some.get("metrics", diag.METRICS):
            x = {int(c): float(v) for c, v in zip(d.summary.cycle_index, d.summary[m])}
            a, b = (x[d.cycles[p][r]] for p in (q or pos))
            asked[f"diag_sum_diff_{(q or pos)[0]}_{(q or pos)[1]}_{r}{m}"] = (b - a) / a
    got = dict(zip(labels, map(float, values)))
    obs.require(len(labels) == len(asked) and set(got) == set(asked) and all(abs(got[k] - w) <= 1e-9 for k, w in asked.items()),
                lambda: f"get_summary_diff({q}, {some}) at {pos} is {got}, expected {asked}")
    obs.count("features", len(want) + len(plain))
    obs.saw("summary", t, tuple(pos), len(stats), final, d.n)
    obs.describe(f"{t} at {pos} of {d.n} diagnostics, {len(stats)} statistics, final diagnostic {final}")


def same_list(a, b):
    return len(a) == len(b) and all(close(float(x), float(y), 1e-9) for x, y in zip(a, b))


def filled(a):
    out, last = [], math.nan
    for v in a:
        last = last if isnan(v) else v
        out.append(last)
    last = math.nan
    for i in range(len(out) - 1, -1, -1):
        last = last if isnan(out[i]) else out[i]
        out[i] = last
    return out


def case_image(rng, obs, folder):
    d = diag.build(rng, folder)
    dp = d.dp
    h = {"metrics": rng.sample(["capacity", "dQdV", "test_time", "energy", "voltage", "current"], rng.choice([1, 3, 4])),
         "cycle_types": rng.sample(["rpt_0.2C", "rpt_1C", "rpt_2C", "reset"], rng.choice([1, 2, 3])),
         "diag_positions": rng.sample(range(d.n), rng.choice([1, 2, d.n])), "impute": rng.random() < 0.6}
    if rng.random() < 0.2:
        h = copy.deepcopy(DEFAULTS[RawInterpolatedData])
    data = dp.diagnostic_data
    want = {}
    for t in h["cycle_types"]:
        for m in h["metrics"]:
            for i, kind in enumerate(("charge", "discharge")):
                for p in h["diag_positions"]:
                    get = lambda col: column(data, d.cycles[p][t], d.steps[(p, t)][kind], col)  # noqa: E731
                    if m in ("capacity", "energy"):
                        c, q = get("charge_" + m), get("discharge_" + m)
                        known = [x for x in c if not isnan(x)]
                        if not known:
                            raise Skip("no point left")
                        top = max(known)
                        v = [math.nan if isnan(x) or isnan(y) else min(x, top - y) for x, y in zip(c, q)]
                        v = filled(v) if h["impute"] else v
                    elif m == "test_time":
                        c = get("test_time")
                        known = [x for x in c if not isnan(x)]
                        if not known:
                            raise Skip("no point left")
                        v = [x - min(known) for x in c]
                        v = [0.0 if isnan(x) and h["impute"] else x for x in v]
                    elif m == "dQdV":
                        v = [x + y for x, y in zip(get("charge_dQdV"), get("discharge_dQdV"))]
                        v = [0.0 if isnan(x) and h["impute"] else x for x in v]
                    else:
                        v = get(m)
                    want[f"diag_cycle_{p}_{t}_{m}_step_{i}"] = v
    X = create(obs, RawInterpolatedData, dp, h)
    obs.require(X.shape[0] == 1 and list(X.columns) == list(want), lambda: f"channels {list(X.columns)}, expected {list(want)}")
    for c, w in want.items():
        got = list(X[c].iloc[0])
        obs.require(same_list(got, w), lambda: f"channel {c} is {got}, expected {w}")
    obs.count("channels", len(want))
    obs.saw("image", tuple(sorted(h["metrics"])), len(h["cycle_types"]), len(h["diag_positions"]), h["impute"])
    obs.describe(f"{len(want)} channels with {h}")


def case_protocol(rng, obs, folder):
    d = diag.build(rng, folder, n_diags=2, points=8)
    keys = [k for k, v in d.row.items() if isinstance(v, (int, float))]
    h = {"parameters_dir": folder, "quantities": rng.sample(keys, rng.choice([1, 3, len(keys)])) if rng.random() < 0.8
         else list(DEFAULTS[ChargingProtocol]["quantities"])}
    if rng.random() < 0.3:
        d.dp.paths = {"structured": "/z/" + os.path.basename(d.raw_path).split(".")[0] + "_structured.json.gz"}
    X = create(obs, ChargingProtocol, d.dp, h)
    obs.require(X.shape[0] == 1 and list(X.columns) == h["quantities"], lambda: f"columns {list(X.columns)}")
    for q in h["quantities"]:
        got = float(X[q].iloc[0])
        obs.require(got == d.row[q], lambda: f"{q} of {d.raw_path} is {got}, the table says {d.row[q]}")
    obs.count("parameters", len(h["quantities"]))
    obs.saw("protocol", d.params.project, len(d.params.rows), len(os.listdir(folder)), "raw" in d.dp.paths, len(h["quantities"]))
    obs.describe(f"{h['quantities']} of {d.raw_path}")


def case_lookup(rng, obs, folder):
    p = diag.Params(rng, folder)
    seq = p.pick(rng)
    have = True
    project = p.project
    what = rng.random()
    if what < 0.2:
        seq, have = rng.choice([x for x in range(1, 500) if x not in p.rows]), False
    elif what < 0.4:
        project, have = rng.choice(["Nowhere", p.project[:-1], p.project + "L", "re" + p.project]), False
        if any(f.startswith(project + "_") for f in os.listdir(folder)):
            have = None
    if have is None:
        raise Skip("another project of that name")
    raw, protocol = diag.names(rng, project, seq)
    before = {f: open(os.path.join(folder, f)).read() for f in os.listdir(folder)}
    for path in (raw, protocol.split("\\")[-1]):
        row, table = get_protocol_parameters(path, folder)
        if not have:
            obs.require(row is None and table is None, lambda: f"{path} has no parameters in {sorted(before)}, but gets {row}")
            continue
        obs.require(row is not None and len(row) == 1, lambda: f"no parameters for {path} in {sorted(before)}")
        got = row.iloc[0].to_dict()
        obs.require(got == p.rows[seq], lambda: f"{path} gets {got}, the table says {p.rows[seq]}")
        obs.require(sorted(table.seq_num) == sorted(p.rows), lambda: f"{path} gets the table of {sorted(table.seq_num)}")
    obs.require(before == {f: open(os.path.join(folder, f)).read() for f in os.listdir(folder)}, "the lookup changed the tables")
    obs.saw("lookup", have, project, len(before), len(p.rows))
    obs.describe(f"{raw} and {protocol}: {have}")


def case_verdict(rng, obs, folder):
    d = diag.build(rng, folder, n_diags=3, points=8)
    dp = d.dp
    what = rng.choice(["none", "empty", "late", "no hppc", "cut", "fine", "no path"])
    kept = d.summary
    if what == "none":
        dp.diagnostic_summary = None
    elif what == "empty":
        dp.diagnostic_summary = d.summary.iloc[0:0]
    elif what == "cut":
        # the run ends within its last diagnostic
        kept = d.summary.iloc[:10 + rng.choice([0, 1, 2, 3, 4, 5])]
        dp.diagnostic_summary = kept
        dp.diagnostic_data = dp.diagnostic_data[dp.diagnostic_data.cycle_index.isin(kept.cycle_index)]
    elif what == "no hppc":
        kept = d.summary[d.summary.cycle_type != "hppc"]
        dp.diagnostic_summary = kept
    elif what == "no path":
        dp.paths = {"other": "/x"}
    usable = what not in ("none", "empty")
    t = rng.choice(diag.RATES)
    pos = rng.choice([[0, 1], [0, 2], [2, 1], [1, 3]]) if what != "late" else rng.choice([[0, 3], [5, 1]])
    count = {x: int((kept.cycle_type == x).sum()) for x in diag.ORDER}
    want = {
        DiagnosticSummaryStats: usable and all(count[x] > max(pos) for x in diag.RATES),
        RawInterpolatedData: usable,
        DiagnosticProperties: usable,
        HPPCResistanceVoltageFeatures: usable and count["hppc"] > 0,
        ChargingProtocol: usable and what != "no path",
        ExclusionCriteria: usable and what != "no path",
    }
    h = {DiagnosticSummaryStats: {"test_time_filter_sec": 1e6, "cycle_index_filter": 6, "diagnostic_cycle_type": t, "diag_pos_list": pos,
                                  "statistics": list(STATS), "parameters_path": folder}}
    for cls, w in want.items():
        if what == "no path" and not w:
            pass
        got = cls(dp, h.get(cls)).validate()
        obs.require(bool(got[0]) == w and (got[0] or isinstance(got[1], str)), lambda: f"{cls.__name__} on {what} run ({count}, {pos}): {got}, expected {w}")
        obs.saw("verdict", what, cls.__name__, w, max(pos))
    obs.describe(f"{what}: {count}, positions {pos}")
