"""Synthetic runs with diagnostics (reset, HPPC and rate tests) and the parameter tables they refer to."""
import datetime
import os

import numpy as np
import pandas as pd

from vlib import cells

NAN = float("nan")
RATES = ("rpt_0.2C", "rpt_1C", "rpt_2C")
ORDER = ("reset", "hppc") + RATES
METRICS = ("discharge_capacity", "discharge_energy", "charge_capacity", "charge_energy")


def blank_raw():
    return pd.DataFrame({"cycle_index": [0, 0], "step_index": [1, 1], "current": [0.0, 0.0], "voltage": [3.0, 3.0],
                         "charge_capacity": [0.0, 0.0], "discharge_capacity": [0.0, 0.0], "charge_energy": [0.0, 0.0],
                         "discharge_energy": [0.0, 0.0], "test_time": [0.0, 1.0], "date_time_iso": ["2020-01-01T00:00:00+00:00"] * 2,
                         "data_point": [0, 1], "step_time": [0.0, 1.0]})


class Params:
    """a directory of parameter tables: that of the run's project and those of others"""

    def __init__(self, rng, folder):
        self.folder = folder
        os.makedirs(folder, exist_ok=True)
        self.project = rng.choice(["PreDiag", "Talos", "Cell", "X1"])
        self.rows = {}
        names = [self.project] + rng.sample([self.project + "2", self.project + "Long", "Other", "Pre"], rng.choice([0, 1, 2]))
        for p in names:
            seqs = rng.sample(range(1, 400), rng.choice([1, 3, 8]))
            if rng.random() < 0.7:
                seqs.sort()
            rows = [{"project_name": p, "seq_num": s, "template": "t.000", "charge_constant_current_1": rng.randrange(1, 40) / 10,
                     "charge_constant_current_2": rng.randrange(1, 40) / 10, "charge_cutoff_voltage": rng.randrange(36, 43) / 10,
                     "charge_constant_voltage_time": rng.randrange(0, 60), "discharge_constant_current": rng.randrange(1, 20) / 10,
                     "discharge_cutoff_voltage": rng.randrange(25, 30) / 10, "capacity_nominal": rng.choice([1.1, 2.0, 4.84]),
                     "diagnostic_type": "HPPC+RPT", "diagnostic_parameter_set": "Tesla21700", "diagnostic_start_cycle": rng.choice([10, 30, 50]),
                     "diagnostic_interval": rng.choice([50, 100, 200])} for s in seqs]
            if p == self.project:
                self.rows = {r["seq_num"]: r for r in rows}
                if rng.random() < 0.3:
                    for r in rows:
                        r["note"] = "hand made"
            tail = rng.choice(["_parameters - GP.csv", "_parameters.csv", "_parameters - DP v2.csv"])
            pd.DataFrame(rows).to_csv(os.path.join(folder, p + tail), index=False)

    def pick(self, rng):
        return rng.choice(list(self.rows))


def names(rng, project, seq):
    """a raw file name and a protocol name of a sequence number of a project"""
    raw = f"/data/{rng.choice(['', 'a_1/', 'Other_000001/'])}{project}_{seq:06d}_{rng.choice(['00012F', '000170', '0A'])}.{rng.choice(['071', '006', 'csv'])}"
    base = f"{project}_{seq:06d}.{rng.choice(['000', '006', 'sdu'])}"
    return raw, rng.choice(["", "PreDiag\\", "Other_000001\\a_b\\", "/srv/x_1/", "prediag/"]) + base


class Diag:
    """what a run with diagnostics was made of, next to the datapath holding it"""


def build(rng, folder, n_diags=None, points=None, first_regular=None, hppc=None, monotone=None, extras=True):
    """hppc: None or a function (rng, nominal, position) -> list of (step_index, counter, frame columns) for the HPPC cycles"""
    d = Diag()
    d.params = Params(rng, folder)
    d.seq = d.params.pick(rng)
    d.row = d.params.rows[d.seq]
    d.nominal = d.row["capacity_nominal"]
    raw, protocol = names(rng, d.params.project, d.seq)
    d.raw_path = raw
    paths = {"raw": raw, "structured": "/s/" + os.path.splitext(os.path.basename(raw))[0] + "_structured.json"}
    if rng.random() < 0.3:
        paths = {"structured": paths["structured"]}
    n_diags = n_diags or rng.choice([2, 3, 5])
    d.n = n_diags
    n1, n2 = first_regular or rng.choice([3, 12, 30]), rng.choice([4, 20])
    d.regular, d.cycles, c = [], [], 1
    if rng.random() < 0.7:
        d.regular.append(0)
    for k in range(n_diags):
        d.cycles.append({t: c + i for i, t in enumerate(ORDER)})
        c += 5
        n = n1 if k == 0 else n2
        if k == n_diags - 1 and extras:
            n = rng.choice([0, 1, n2])
        d.regular += list(range(c, c + n))
        c += n
    t0 = datetime.datetime(2020, rng.randrange(1, 13), rng.randrange(1, 28), rng.randrange(24), 17, 3, tzinfo=datetime.timezone.utc)
    when = {cyc: t0 + datetime.timedelta(seconds=int(cyc * rng.choice([20000, 20001]))) for cyc in range(c + 1)}
    d.when = when
    level = [1.0]
    for _ in range(n_diags):
        level.append(level[-1] - rng.uniform(0.005, 0.12))
    rows = []
    factor = {"reset": 1.0, "hppc": rng.uniform(0.97, 1.1), "rpt_0.2C": rng.uniform(0.97, 1.03), "rpt_1C": rng.uniform(0.9, 1.0), "rpt_2C": rng.uniform(0.8, 0.95)}
    for k, cyc in enumerate(d.cycles):
        for t in ORDER:
            f = level[k] * factor[t]
            wob = 1.0 if monotone else 1 + rng.uniform(-0.002, 0.002)
            rows.append({"cycle_index": cyc[t], "cycle_type": t, "discharge_capacity": d.nominal * f * wob, "charge_capacity": d.nominal * f * wob * 1.003,
                         "discharge_energy": 3.6 * d.nominal * f ** 1.5 * wob, "charge_energy": 3.8 * d.nominal * f ** 1.4 * wob,
                         "date_time_iso": when[cyc[t]].isoformat()})
    summary = pd.DataFrame(rows)
    d.summary = summary
    reg = []
    thr = 0.0
    for cyc in d.regular:
        q = d.nominal * rng.uniform(0.6, 0.9)
        thr += q * 1.01
        reg.append({"cycle_index": cyc, "discharge_capacity": q, "charge_capacity": q * 1.01, "discharge_energy": q * 3.5, "charge_energy": q * 3.7,
                    "charge_throughput": thr, "energy_throughput": thr * 3.7, "date_time_iso": when[cyc].isoformat()})
    d.reg = pd.DataFrame(reg)
    points = points or rng.choice([8, 20, 50])
    frames = []
    shift = rng.choice([0, 0, 30])
    d.steps = {}
    for k, cyc in enumerate(d.cycles):
        base = 3 + (shift if k else 0)
        for t in ORDER:
            begin = float((when[cyc[t]] - t0).total_seconds())
            if t == "hppc":
                if hppc:
                    frames.append(hppc(rng, d, k, cyc[t], base + 10, begin))
                continue
            s0 = base + {"reset": 0, "rpt_0.2C": 40, "rpt_1C": 50, "rpt_2C": 60}[t]
            rate = {"reset": 0.05, "rpt_0.2C": 0.2, "rpt_1C": 1, "rpt_2C": 2}[t]
            d.steps[(k, t)] = {"charge": s0, "discharge": s0 + 1}
            half = 3600 / rate
            for i, kind in enumerate(("charge", "discharge")):
                x = np.linspace(0, 1, points)
                f = level[k] * factor[t]
                bend = rng.uniform(0.6, 1.6)
                cols = {"cycle_index": cyc[t], "cycle_type": t, "step_index": s0 + i, "step_index_counter": i, "step_type": i,
                        "voltage": 2.7 + 1.5 * x, "current": (1 if kind == "charge" else -1) * rate * d.nominal * np.ones(points),
                        "test_time": begin + i * half + half * x}
                for other in ("charge", "discharge"):
                    full = x ** bend if other == kind else (np.ones(points) if kind == "discharge" else np.zeros(points))
                    noise = np.array([rng.uniform(0, 0.01) for _ in range(points)]) if other == kind else np.zeros(points)
                    cols[other + "_capacity"] = d.nominal * f * full + noise
                    cols[other + "_energy"] = 3.6 * d.nominal * f * full + 3 * noise
                    cols[other + "_dQdV"] = np.array([rng.uniform(0.1, 3) for _ in range(points)]) if other == kind else np.zeros(points)
                df = pd.DataFrame(cols)
                if kind == "discharge":
                    df["test_time"] = df["test_time"].values[::-1].copy()
                lost = [j for j in range(points) if rng.random() < 0.1] if rng.random() < 0.4 else []
                value = ["current", "test_time"] + [a + b for a in ("charge", "discharge") for b in ("_capacity", "_energy", "_dQdV")]
                df.loc[lost, value] = NAN
                frames.append(df)
    data = pd.concat(frames, ignore_index=True)
    dp = cells.datapath_class("maccor")(raw_data=blank_raw(), metadata={"protocol": protocol, "barcode": "B", "channel_id": 1}, paths=paths)
    dp.structured_summary = d.reg.copy()
    dp.structured_data = pd.DataFrame({"cycle_index": [], "step_type": [], "voltage": []})
    dp.diagnostic_summary = summary.copy()
    dp.diagnostic_data = data
    d.dp = dp
    return d


def snapshot(dp):
    return {k: getattr(dp, k).copy() for k in ("structured_summary", "structured_data", "diagnostic_summary", "diagnostic_data")}


def unchanged(obs, dp, snap, what):
    for k, v in snap.items():
        obs.require(getattr(dp, k).equals(v), f"{what} changed the {k} of the run it was given")


def num(v):
    return float(v)
