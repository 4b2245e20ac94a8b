"""C11 - generating a batch of protocols: one correct file per supported row, an honest account of the rest."""
import csv
import glob
import os
import re

import pandas as pd

from monitors import c10, c12
from monitors.c04 import scratch
from vlib.core import Skip

ID = "C11"
RULE = (
    "Parameter tables (one project per table, shuffled rows, rows with unsupported, unknown or not implemented templates in "
    "between, repeated calls into the same directory) are turned into protocols by the real batch entry point; the files on "
    "disk, their contents against a stand-alone generation of the same row, the waveforms they name, the reported lists, counts "
    "and messages, and the name files are compared. Non-trivial: at least one row generated; distinct by (project, row mix)."
)
KINDS = {"exp": (96, 600),
         "diag": (96, 600),
         "drive": (48, 288),
         "rapid": (48, 288),
         "form": (80, 480),
         "mixed": (64, 384),
         "collision": (16, 96)}
MIN_SIGNATURES = 20
SETS = ["Tesla21700", "BJ-A1003335AA"]


def feasible(rng):
    """Parameters for which a smooth profile of equal duration exists."""
    from beep.utils.waveform import RapidChargeWave
    for _ in range(30):
        rates, mesh = c12.rapid_params(rng)
        try:
            w = RapidChargeWave(rates[-1], mesh[0], mesh[-1], 3.0, 0.2).get_currents_with_uniform_time_basis(list(rates), mesh)
        except AssertionError:
            continue
        if max(w[0].max(), w[1].max()) <= 3.0:
            return rates, mesh
    raise Skip("no feasible charging parameters drawn")


def rows_for(kind, rng, n):
    rows = []
    for i in range(n):
        if kind == "exp":
            r = {"project_name": "Exp", "template": "EXP.000", "cutoff_voltage": round(rng.uniform(3.5, 4.3), 3),
                 "charge_rate": rng.choice([1.5, 2, 0.5]), "discharge_rate": rng.choice([1.0, 3.25])}
        elif kind == "form":
            u = lambda a, b: round(rng.uniform(a, b), 4)  # noqa: E731
            r = {"project_name": "Form", "template": "formationV1.mps", "capacity_nominal": u(0.05, 5)}
            for stage in ("initial_charge", "mid_charge", "final_charge", "initial_discharge", "mid_discharge", "final_discharge"):
                for k in ("1", "2") if stage == "initial_charge" else ("1",):
                    r[f"{stage}_voltage_{k}"] = u(2.5, 4.3)
                    r[f"{stage}_current_{k}"] = u(0.05, 2)
            for k in ("1", "2"):
                r[f"initial_charge_cvhold_{k}"] = u(1, 90)
                r[f"initial_charge_rest_{k}"] = u(1, 90)
            r["final_discharge_cvhold_1"] = u(1, 90)
            r["mid_cycle_reps"] = rng.randrange(1, 20)
        else:
            p = c10.reg_params(rng)
            r = {k: (round(v, 4) if isinstance(v, float) else v) for k, v in p.items()}
            r["diagnostic_type"] = "HPPC+RPT"
            r["diagnostic_parameter_set"] = rng.choice(SETS)
            r["project_name"] = rng.choice(["PreDiag", "PredictionDiagnostics"])
            r["template"] = rng.choice(["diagnosticV2.000", "diagnosticV3.000", "diagnosticV4.000"])
            if kind == "drive":
                r.update(project_name="Drive", template=rng.choice(["diagnosticV5.000", "drivingV1.000"]),
                         discharge_profile=rng.choice(["US06", "LA4"]), profile_charge_limit=rng.choice([4.2, 4.1]),
                         max_profile_power=rng.choice([40, 30]), n_repeats=rng.choice([1, 2, 3]), power_scaling=rng.choice([1.0, 0.6, 0.27]))
                r["charge_constant_current_2"] = r["charge_constant_current_1"] + 0.5
            if kind == "rapid":
                rates, mesh = feasible(rng)
                for k in ("charge_constant_current_1", "charge_constant_current_2", "charge_percent_limit_1"):
                    del r[k]
                r.update(project_name="RapidC", template="diagnosticV4.000", charge_type_1=rng.choice(["step", "smooth"]),
                         charge_start_soc=mesh[0], charge_soc_param_1=mesh[1], charge_soc_param_2=mesh[2], charge_fast_soc_limit=mesh[3],
                         charge_voltage_offset_1=0.01, **{f"charge_current_param_{k + 1}": x for k, x in enumerate(rates)})
        r["seq_num"] = i
        rows.append(r)
    nums = rng.sample(range(0, 99999), n)
    for r, k in zip(rows, nums):
        r["seq_num"] = k
    return rows


def standalone(row, index, d):
    """The same row generated on its own through the class interface -> bytes, waveform."""
    from beep.protocol import BIOLOGIC_TEMPLATE_DIR, PROCEDURE_TEMPLATE_DIR
    from beep.protocol.biologic import Settings
    from beep.protocol.maccor import Procedure, insert_charging_parametersv1, insert_driving_parametersv1
    t = row["template"]
    out = os.path.join(d, "alone")
    os.makedirs(out, exist_ok=True)
    wave = None
    row = row.copy()
    if t.endswith(".mps"):
        s = Settings.from_file(os.path.join(BIOLOGIC_TEMPLATE_DIR, t)).formation_protocol_bcs(row)
        f = os.path.join(out, "x.mps")
        s.to_file(f)
        return open(f, "rb").read(), None
    full = os.path.join(PROCEDURE_TEMPLATE_DIR, t)
    if t == "EXP.000":
        p = Procedure.from_exp(row["cutoff_voltage"], row["charge_rate"], row["discharge_rate"])
    else:
        dp = pd.read_csv(os.path.join(PROCEDURE_TEMPLATE_DIR, "PreDiag_parameters - DP.csv"))
        q = dp[dp.diagnostic_parameter_set == row["diagnostic_parameter_set"]].iloc[0]
        if t == "diagnosticV2.000":
            p = Procedure.from_regcyclev2(row)
            p.add_procedure_diagcyclev2(row["capacity_nominal"], q)
        else:
            if row["project_name"] == "Drive":
                wave = insert_driving_parametersv1(row, waveform_directory=out)
                p = Procedure.generate_procedure_drivingv1(index, row, wave, template=full)
            elif row["project_name"] == "RapidC":
                wave = insert_charging_parametersv1(row, waveform_directory=out)
                p = Procedure.generate_procedure_chargingv1(index, row, wave, template=full)
            else:
                p = Procedure.generate_procedure_regcyclev3(index, row, template=full)
            p.generate_procedure_diagcyclev3(row["capacity_nominal"], q)
    f = os.path.join(out, "x.000")
    p.to_file(f)
    return open(f, "rb").read(), (os.path.basename(wave), open(wave, "rb").read()) if wave else None


def tree(d):
    return {os.path.relpath(f, d) for f in glob.glob(os.path.join(d, "**"), recursive=True) if os.path.isfile(f)}


def one_call(rng, obs, d, kind, prior):
    from beep.protocol.generate_protocol import generate_protocol_files_from_csv
    base = {"mixed": rng.choice(["exp", "diag", "form"]), "collision": "drive"}.get(kind, kind)
    rows = rows_for(base, rng, rng.choice([1, 2, 4]))
    while True:
        taken = {(r["project_name"], r["seq_num"]) for r in rows}
        if len(taken) == len(rows) and not any(f"{p}_{s:06d}." in f for p, s in taken for f in prior):
            break
        rows = rows_for(base, rng, len(rows))
    if kind == "collision":
        rows = rows_for(base, rng, 2)
        rows[1]["discharge_profile"] = rows[0]["discharge_profile"]
        for r, v in zip(rows, (4.1, 4.2)):
            r.update(n_repeats=2, max_profile_power=40, power_scaling=0.6, profile_charge_limit=v)
    elif base == "drive":
        for k, r in enumerate(rows):
            r["n_repeats"] = k + 1
    good = list(rows)
    bad = []
    if kind == "mixed" or rng.random() < 0.4:
        for _ in range(rng.choice([1, 2, 3])):
            r = dict(rng.choice(good))
            r["template"] = rng.choice(["EXP-SOH.000", "nothing.000", "20170630-3_6C_9per_5C.sdu", "x.mps", "notes.txt"])
            r["seq_num"] = rng.randrange(100000, 200000)
            bad.append(r)
    allrows = good + bad
    rng.shuffle(allrows)
    project = good[0]["project_name"]
    csvf = os.path.join(d, f"{project}_parameters {rng.randrange(10 ** 6)}.csv")
    order = list({k: None for r in allrows for k in r})
    rng.shuffle(order)
    with open(csvf, "w", newline="") as f:
        w = csv.DictWriter(f, order)
        w.writeheader()
        w.writerows(allrows)
    before_csv = open(csvf, "rb").read()
    out = os.path.join(d, "out")
    before = {f: open(os.path.join(out, f), "rb").read() for f in tree(out)} if os.path.isdir(out) else {}
    made, failures, result, message = generate_protocol_files_from_csv(csvf, output_directory=out)
    obs.require(open(csvf, "rb").read() == before_csv, "the parameter table was changed")
    after = tree(out)
    table = pd.read_csv(csvf)
    expected, waves = {}, {}
    names = []
    for index, row in table.iterrows():
        supported = any(r["seq_num"] == row["seq_num"] for r in good)
        if not supported:
            continue
        prefix = "{}_{:06d}".format(row["project_name"], row["seq_num"])
        sub, ext = ("settings", ".mps") if row["template"].endswith(".mps") else ("procedures", ".000")
        content, wave = standalone(row, index, d)
        expected[os.path.join(sub, prefix + ext)] = content
        names.append(prefix + "_")
        if wave:
            waves.setdefault(wave[0], []).append(wave[1])
    new = after - set(before)
    name_files = {f for f in new if f.startswith("names" + os.sep)}
    wave_files = {f for f in new if f.startswith("mwf_files" + os.sep)}
    obs.require(set(expected) <= after, lambda: f"rows without a file: {sorted(set(expected) - after)}")
    extra = new - name_files - wave_files - set(expected)
    obs.require(not extra, lambda: f"unexpected files {sorted(extra)}")
    want_list = list(expected)
    got_list = [os.path.relpath(f, out) for f in made]
    obs.require(got_list == want_list, lambda: f"reported files {got_list}, rows ask for {want_list}")
    for f, content in expected.items():
        got = open(os.path.join(out, f), "rb").read()
        obs.require(got == content, lambda: f"{f} differs from the protocol generated for that row alone")
        obs.count("protocols")
    for w, contents in waves.items():
        got = open(os.path.join(out, "mwf_files", w), "rb").read()
        if len(set(contents)) > 1:
            # the name encodes profile, repeats and whole watts only
            obs.require(False, f"rows with different waveforms share the file {w}", key="drive-waveform-name-collision" if kind == "collision" else None)
        obs.require(got == contents[0], lambda: f"waveform {w} differs from the one generated for that row alone")
        obs.count("waveforms")
    for f, content in before.items():
        if f in expected or os.path.basename(f) in waves:
            continue
        obs.require(os.path.exists(os.path.join(out, f)) and open(os.path.join(out, f), "rb").read() == content,
                    lambda: f"an earlier file was changed: {f}")
    obs.require(len(name_files) == 1, lambda: f"name files written: {sorted(name_files)}")
    nf = name_files.pop()
    got = [r[0] for r in csv.reader(open(os.path.join(out, nf)))]
    obs.require(got == names, lambda: f"name file lists {got}, generated {names}")
    obs.require(os.path.basename(nf).startswith(project + "_names_"), f"name file called {nf}")
    # honest account
    obs.require(len(failures) == len(bad), lambda: f"{len(failures)} failures reported for {len(bad)} unsupported rows")
    unsupported = sorted(r["template"] for r in bad)
    told = sorted(m.group(1) for m in (re.search(r"template: (.*)$", x["comment"]) for x in failures) if m)
    obs.require(told == [t for t in unsupported if not t.endswith(".sdu")], lambda: f"failures name {told}, rows {unsupported}")
    obs.require(result == ("error" if bad else "success"), lambda: f"result {result} with {len(bad)} unsupported rows")
    obs.require(message["comment"] == f"Generated {len(good)} of {len(allrows)} protocols", lambda: f"message {message}")
    obs.require(message["error"] == (f"Failed to generate {len(bad)} of {len(allrows)} protocols" if bad else ""), lambda: f"message {message}")
    obs.saw(base, len(good), len(bad), sorted(set(unsupported)), bool(before))
    return f"{base}: {len(good)} rows, unsupported {unsupported}"


def run_case(kind, rng, obs):
    with scratch() as d:
        text = []
        for _ in range(1 if kind == "collision" else rng.choice([1, 1, 2])):
            out = os.path.join(d, "out")
            text.append(one_call(rng, obs, d, kind, tree(out) if os.path.isdir(out) else []))
        obs.describe("; ".join(text))
