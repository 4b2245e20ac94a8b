"""C10 - Maccor procedures survive writing and reading, and parameters land on the intended fields only."""
import copy
import os
import re

import numpy as np
import pandas as pd

from monitors.c04 import scratch

ID = "C10"
RULE = (
    "Random procedures (any step mix, one/many/no end conditions and reports, empty fields, markup and non-ASCII text, "
    "several encodings) are written and read back; templates are parameterised with random protocol and diagnostic "
    "parameters (durations beyond a day, tiny and large rates) and the full field-by-field difference from the template is "
    "compared with an independently stated list of intended changes. Non-trivial: all fields compared; distinct by (generator, template, features)."
)
KINDS = {"roundtrip": (280, 4500),
         "exp": (160, 1200),
         "regv2": (60, 900),
         "regv3": (100, 900),
         "driving": (60, 600),
         "charging": (60, 450),
         "edit": (240, 2400)}
MIN_SIGNATURES = 30


def flat(node, path=()):
    if isinstance(node, dict):
        out = {}
        for k, v in node.items():
            out.update(flat(v, path + (k,)))
        return out or {path: None}
    if isinstance(node, (list, tuple)):
        out = {}
        for k, v in enumerate(node):
            out.update(flat(v, path + (k,)))
        return out
    return {path: node}


def text(v):
    """Content of an element as it reads back from a file."""
    return None if v is None or str(v).strip() == "" else str(v).strip()


def compare_procs(obs, a, b, what):
    fa, fb = flat(a), flat(b)
    keys = set(fa) | set(fb)
    for k in keys:
        obs.require(k in fa and k in fb, lambda: f"{what}: field {k} only on one side")
        obs.require(text(fa[k]) == text(fb[k]), lambda: f"{what}: {k} is {fb[k]!r}, was {fa[k]!r}")
    obs.count("fields", len(keys))


def fresh(path):
    """the template as it is on disk, read without the code under test"""
    import xmltodict
    with open(path, "rb") as f:
        return xmltodict.parse(f.read().decode("UTF-8"), process_namespaces=False, strip_whitespace=True)


def templates():
    from beep.protocol import PROCEDURE_TEMPLATE_DIR
    return PROCEDURE_TEMPLATE_DIR


WORDS = ["a<b & c", "Überlauf µ", "x]]>y", "\"quoted\" 'text'", "4.2", "0|4*CRATE*(STIME/3600)", "<Limits></Limits>", "<Ends></Ends>", "日本"]


def random_step(rng):
    def end():
        return {"EndType": rng.choice(["StepTime", "Voltage", "Current", "Loop Cnt", "Variable", "T"]),
                "SpecialType": rng.choice([None, "A", None]), "Oper": rng.choice(["=", "<=", ">=", "<", ">", None, "!="]),
                "Step": rng.choice([None, f"{rng.randrange(1, 200):03d}", f"{rng.randrange(1, 200):03d}"]),
                "Value": rng.choice(["00:00:30", "4.2", 3.7, 12, "120:00:00", None])}

    def rep():
        return {"ReportType": rng.choice(["StepTime", "Voltage", "I"]), "Value": rng.choice(["00:00:30", "0.01", 2.2, None])}

    def bag(make, key):
        n = rng.choice([0, 1, 1, 2, 3])
        if n == 0:
            return None
        return {key: make() if n == 1 else [make() for _ in range(n)]}

    return {"StepType": rng.choice(["Charge", "Dischrge", "Rest", "Do 1", "Loop 1", "AdvCycle", "FastWave", "End", "Chg Func", "LongStepType"]),
            "StepMode": rng.choice([None, "Current", "Voltage", "", "Power"]),
            "StepValue": rng.choice([None, "1.0", 2.5, 0.0001, "2.0C", rng.choice(WORDS)]),
            "Limits": rng.choice([None, {"Voltage": 4.2}, {"Current": "0.3", "Voltage": "2.7"}]),
            "Ends": bag(end, "EndEntry"), "Reports": bag(rep, "ReportEntry"),
            "Range": rng.choice(["A", "4", None]), "Option1": "N", "Option2": "N", "Option3": "N",
            "StepNote": rng.choice([None, rng.choice(WORDS)])}


def roundtrip(rng, obs):
    from beep.protocol.maccor import Procedure
    mode = rng.choice(["random", "template", "random"])
    if mode == "template":
        name = rng.choice(sorted(f for f in os.listdir(templates()) if f.endswith(".000")))
        p = Procedure.from_file(os.path.join(templates(), name))
        steps = p["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
        for _ in range(rng.randrange(0, 4)):
            steps[rng.randrange(len(steps))] = random_step(rng)
    else:
        name = "random"
        p = Procedure({"MaccorTestProcedure": {
            "header": {"BuildTestVersion": {"major": "1", "minor": "5"}, "FileFormatVersion": {"BTVersion": "11"},
                       "ProcDesc": {"desc": rng.choice([None, rng.choice(WORDS)])}},
            "ProcSteps": {"TestStep": [random_step(rng) for _ in range(rng.randrange(2, 12))]}}})
    enc = rng.choice(["UTF-8", "UTF-8", "UTF-16", "ISO-8859-1"])
    if enc == "ISO-8859-1":
        try:
            "".join(str(v) for v in flat(p).values()).encode(enc)
        except UnicodeEncodeError:
            enc = "UTF-8"
    keep = copy.deepcopy(p)
    with scratch() as d:
        f1, f2 = os.path.join(d, "a.000"), os.path.join(d, "b.000")
        args = {} if enc == "UTF-8" and rng.random() < 0.5 else {"encoding": enc}
        p.to_file(f1, **args)
        obs.require(flat(keep) == flat(p), "writing changed the procedure")
        q = Procedure.from_file(f1, **args)
        compare_procs(obs, keep, q, f"{name} {enc} written and read")
        q.to_file(f2, **args)
        obs.require(open(f1, "rb").read() == open(f2, "rb").read(), "a second generation differs from the first")
        doc = open(f1, "rb").read().decode(enc).splitlines()
        obs.require(re.match(r"<\?xml .*\?>", doc[0].lstrip("\ufeff")) is not None and
                    doc[1] == '<?maccor-application progid="Maccor Procedure File"?>', "file header is damaged")
        if mode == "template":
            # untouched steps keep the exact cycler formatting
            fresh = Procedure.from_file(os.path.join(templates(), name))
            fresh.to_file(f2)
            a = open(os.path.join(templates(), name), "rb").read().replace(b"\r\n", b"\n")
            obs.require(a == open(f2, "rb").read(), f"rewriting {name} changes it")
    ends = {type(s["Ends"]["EndEntry"]).__name__ if s["Ends"] else None for s in keep["MaccorTestProcedure"]["ProcSteps"]["TestStep"]}
    obs.describe(f"{mode} {name} {enc} steps={len(keep['MaccorTestProcedure']['ProcSteps']['TestStep'])}")
    obs.saw("roundtrip", mode, name, enc, sorted(map(str, ends)))


def hms(v):
    m = re.fullmatch(r"(\d{2,}):(\d\d):(\d\d)", str(v))
    if not m or int(m[2]) > 59 or int(m[3]) > 59:
        return None
    return int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3])


class Plan:
    """The intended changes, by (step, field...)."""

    def __init__(self):
        self.want = {}

    def num(self, step, field, value, tol=6e-4):
        self.want[(step,) + field] = ("num", value, tol)

    def time(self, step, field, seconds, tol=0.51):
        self.want[(step,) + field] = ("time", seconds, tol)

    def exact(self, step, field, value):
        for k in [k for k in self.want if k[0] == step and k[1:1 + len(field)] == field]:
            del self.want[k]
        self.want[(step,) + field] = ("exact", value, None)

    def judge(self, obs, template, result, what):
        pre = ("MaccorTestProcedure", "ProcSteps", "TestStep")
        ft, fr = flat(template), flat(result)
        for k in set(ft) | set(fr):
            w = None
            if k[:3] == pre:
                w = next((self.want[k[3:n]] for n in range(4, len(k) + 1) if k[3:n] in self.want), None)
            if w is None:
                obs.require(k in ft and k in fr and ft[k] == fr[k],
                            lambda: f"{what}: {k[3:]} was not meant to change: {ft.get(k)!r} -> {fr.get(k)!r}")
                continue
            kind, value, tol = w
            if k not in fr:
                continue
            got = fr[k]
            if kind == "exact":
                ok = got == value or (text(got) is None and text(value) is None)
            elif kind == "time":
                s = hms(got)
                ok = s is not None and abs(s - value) <= tol
            else:
                ok = abs(float(got) - float(value)) <= tol
            obs.require(ok, lambda: f"{what}: {k[3:]} is {got!r}, the parameters ask for {value!r}")
            obs.count("parameters_applied")
        for k in self.want:
            obs.require(any(x[3:3 + len(k)] == k for x in fr if x[:3] == pre), lambda: f"{what}: field {k} is missing")


E0, E1 = ("Ends", "EndEntry", 0, "Value"), ("Ends", "EndEntry", 1, "Value")
SV, LV, LI = ("StepValue",), ("Limits", "Voltage"), ("Limits", "Current")


def reg_params(rng):
    u = rng.uniform
    return {
        "project_name": "PreDiag", "seq_num": rng.randrange(1000), "charge_constant_current_1": rng.choice([u(0.01, 4), 1.0, 0.02, 3]),
        "charge_percent_limit_1": rng.choice([u(1, 100), 30, 80]), "charge_constant_current_2": rng.choice([u(0.01, 4), 2]),
        "charge_cutoff_voltage": rng.choice([u(3.5, 4.3), 4.1, 3.6]), "charge_constant_voltage_time": rng.choice([30, 1, 0, 90, 1440, 3000, 59]),
        "charge_rest_time": rng.choice([5, 0, 1439, 1440, 1500, 61]), "discharge_constant_current": rng.choice([u(0.01, 4), 1]),
        "discharge_cutoff_voltage": rng.choice([u(2.0, 3.3), 2.7]), "discharge_rest_time": rng.choice([15, 0, 2000, 60]),
        "cell_temperature_nominal": 25, "capacity_nominal": rng.choice([u(0.05, 300), 4.84, 1.1]),
        "diagnostic_start_cycle": rng.choice([1, 30, 500]), "diagnostic_interval": rng.choice([1, 100, 250]),
    }


def diag_params(rng):
    u = rng.uniform
    return {
        "diagnostic_charge_cutoff_voltage": u(3.6, 4.4), "diagnostic_discharge_cutoff_voltage": u(2, 3),
        "diagnostic_cutoff_current": u(0.01, 0.1), "HPPC_baseline_constant_current": rng.choice([0.333, u(0.05, 2), 0.002]),
        "HPPC_pulse_cutoff_voltage": u(4.2, 4.5), "HPPC_pulse_current_1": u(0.2, 3), "HPPC_pulse_current_2": u(0.2, 3),
        "HPPC_pulse_duration_1": rng.choice([30, 1, 4000]), "HPPC_pulse_rest_time": rng.choice([40, 3601]),
        "HPPC_pulse_duration_2": rng.choice([10, 60]), "HPPC_interval": rng.choice([10, 5, 20]),
        "HPPC_rest_time": rng.choice([60, 30, 1440, 2000]), "RPT_charge_constant_current": u(0.05, 1),
        "RPT_discharge_constant_current_1": u(0.05, 1), "RPT_discharge_constant_current_2": u(0.05, 2),
        "RPT_discharge_constant_current_3": u(0.05, 3), "reset_cycle_current": u(0.01, 0.5), "reset_cycle_cutoff_current": u(0.005, 0.1),
    }


def plan_charge(pl, i, p, first=True, both_limits=False):
    cap = p["capacity_nominal"]
    if first:
        pl.num(i, SV, p["charge_constant_current_1"] * cap)
        pl.time(i, E0, 36.0 * p["charge_percent_limit_1"] / p["charge_constant_current_1"])
        if both_limits:
            pl.num(i, E1, p["charge_cutoff_voltage"])
    pl.num(i + 1, SV, p["charge_constant_current_2"] * cap)
    pl.num(i + 1, E0, p["charge_cutoff_voltage"])
    pl.num(i + 2, SV, p["charge_cutoff_voltage"])
    pl.time(i + 2, E0, 60 * p["charge_constant_voltage_time"])
    pl.time(i + 3, E0, 60 * p["charge_rest_time"])


def plan_discharge(pl, i, p, loop_count):
    pl.num(i, SV, p["discharge_constant_current"] * p["capacity_nominal"])
    pl.num(i, E0, p["discharge_cutoff_voltage"])
    pl.time(i + 1, E0, 60 * p["discharge_rest_time"])
    pl.num(i + 3, ("Ends", "EndEntry", "Value"), loop_count, 0)


def plan_storage(pl, i, p, listed):
    cap = p["capacity_nominal"]
    pl.num(i, SV, 0.5 * cap)
    pl.num(i, LV, p["discharge_cutoff_voltage"])
    pl.num(i, E0 if listed else ("Ends", "EndEntry", "Value"), 0.05 * cap)
    pl.num(i + 1, SV, 0.5 * cap)
    pl.time(i + 1, E0, 720)


def plan_diag(pl, resets, hppcs, rpts, cap, q):
    hi, lo = q["diagnostic_charge_cutoff_voltage"], q["diagnostic_discharge_cutoff_voltage"]
    cut = cap * q["diagnostic_cutoff_current"]
    for i in resets:
        for k in (i, i + 1):
            pl.num(k, SV, cap * q["reset_cycle_current"], 6e-5)
        pl.num(i, LV, hi)
        pl.num(i, E0, cap * q["reset_cycle_cutoff_current"], 6e-5)
        pl.num(i + 1, E0, lo)
    for i in hppcs:
        base = cap * q["HPPC_baseline_constant_current"]
        pl.num(i, SV, base)
        pl.num(i, LV, hi)
        pl.num(i, E0, cut)
        pl.time(i + 2, E0, 60 * q["HPPC_rest_time"])
        pl.num(i + 3, SV, cap * q["HPPC_pulse_current_1"])
        pl.time(i + 3, E0, q["HPPC_pulse_duration_1"])
        pl.num(i + 3, E1, lo)
        pl.time(i + 4, E0, q["HPPC_pulse_rest_time"])
        pl.num(i + 5, SV, cap * q["HPPC_pulse_current_2"])
        pl.time(i + 5, E0, q["HPPC_pulse_duration_2"])
        pl.num(i + 5, E1, q["HPPC_pulse_cutoff_voltage"])
        pl.num(i + 6, SV, base)
        pl.time(i + 6, E0, 36.0 * q["HPPC_interval"] / q["HPPC_baseline_constant_current"] - 1)
        pl.num(i + 6, E1, lo)
        pl.num(i + 8, SV, lo)
        pl.num(i + 8, LI, base)
        pl.num(i + 8, E0, cut)
    for i in rpts:
        for k, name in ((0, "1"), (3, "2"), (6, "3")):
            pl.num(i + k, SV, cap * q["RPT_charge_constant_current"])
            pl.num(i + k, LV, hi)
            pl.num(i + k, E0, cut)
            pl.num(i + k + 1, SV, cap * q["RPT_discharge_constant_current_" + name])
            pl.num(i + k + 1, E0, lo)


def plan_wave(pl, i, name):
    for f, v in (("StepType", "FastWave"), ("StepMode", ""), ("Ends", None), ("Reports", None), ("Range", ""), ("Option1", ""),
                 ("Option2", ""), ("Option3", ""), ("StepValue", name)):
        pl.exact(i, (f,), v)


DIAG3 = ([4, 37, 70], [8, 40, 74], [18, 50, 84])


def finish(obs, pl, tpl, proc, what, rng):
    pl.judge(obs, tpl, proc, what)
    from beep.protocol.maccor import Procedure
    with scratch() as d:
        f = os.path.join(d, "x.000")
        proc.to_file(f)
        compare_procs(obs, proc, Procedure.from_file(f), what + " written and read")


def as_row(rng, p):
    return pd.Series(p) if rng.random() < 0.7 else pd.DataFrame([p]).iloc[0]


def kept(obs, row, p):
    obs.require(dict(row) == p, lambda: f"the parameters given were changed: {[(k, row.get(k), p.get(k)) for k in set(row.index) | set(p) if row.get(k) != p.get(k)]}")


def regv2(rng, obs):
    from beep.protocol.maccor import Procedure
    p, q = reg_params(rng), diag_params(rng)
    tpl = fresh(os.path.join(templates(), "diagnosticV2.000"))
    row, diag = as_row(rng, p), pd.Series(q)
    proc = Procedure.from_regcyclev2(row)
    proc.add_procedure_diagcyclev2(p["capacity_nominal"], diag)
    kept(obs, row, p)
    kept(obs, diag, q)
    pl = Plan()
    pl.num(1, SV, p["capacity_nominal"])
    for i, n in ((28, "diagnostic_start_cycle"), (60, "diagnostic_interval")):
        plan_charge(pl, i, p)
        plan_discharge(pl, i + 4, p, p[n])
    plan_storage(pl, 69, p, False)
    plan_diag(pl, DIAG3[0][:2], DIAG3[1][:2], DIAG3[2][:2], p["capacity_nominal"], q)
    obs.describe(f"regv2 {p}")
    finish(obs, pl, tpl, proc, "regv2", rng)
    obs.saw("regv2", p["charge_rest_time"] >= 1440, p["charge_constant_current_1"] < 0.05, round(p["capacity_nominal"]))


def regv3(rng, obs):
    from beep.protocol.maccor import Procedure
    p, q = reg_params(rng), diag_params(rng)
    name = rng.choice(["diagnosticV3.000", "diagnosticV4.000", None])
    path = os.path.join(templates(), name or "diagnosticV3.000")
    tpl = fresh(path)
    index = rng.choice([0, 1, 5, 95, 96, 97, 200, 1000])
    row = as_row(rng, p)
    proc = Procedure.generate_procedure_regcyclev3(index, row, template=path if name else None)
    kept(obs, row, p)
    diag = rng.random() < 0.8
    pl = Plan()
    pl.time(0, E0, 3 * 3600 + 720 * (index % 96))
    pl.num(1, SV, p["capacity_nominal"])
    for i, n in ((28, "diagnostic_start_cycle"), (60, "diagnostic_interval")):
        plan_charge(pl, i, p, both_limits=True)
        plan_discharge(pl, i + 4, p, p[n])
    plan_storage(pl, 93, p, True)
    if diag:
        row = pd.Series(q)
        proc.generate_procedure_diagcyclev3(p["capacity_nominal"], row)
        kept(obs, row, q)
        plan_diag(pl, *DIAG3, p["capacity_nominal"], q)
    obs.describe(f"regv3 {name} index={index} {p}")
    finish(obs, pl, tpl, proc, f"regv3 {name}", rng)
    obs.saw("regv3", name, index, diag, p["charge_rest_time"] >= 1440)


def driving(rng, obs):
    from beep.protocol.maccor import Procedure
    p, q = reg_params(rng), diag_params(rng)
    p["charge_constant_current_2"] = p["charge_constant_current_1"] + rng.choice([0, 0.4])
    path = os.path.join(templates(), rng.choice(["drivingV1.000", "diagnosticV5.000"]))
    tpl = fresh(path)
    index = rng.randrange(300)
    wave = rng.choice(["US06_x4_24W.MWF", os.path.join("/data.v2/my.dir", "LA4_x8_10W.mwf"), "a_b.MWF"])
    row = as_row(rng, p)
    proc = Procedure.generate_procedure_drivingv1(index, row, wave, template=path)
    kept(obs, row, p)
    proc.generate_procedure_diagcyclev3(p["capacity_nominal"], pd.Series(q))
    pl = Plan()
    pl.time(0, E0, 3 * 3600 + 720 * (index % 96))
    pl.num(1, SV, p["capacity_nominal"])
    for i in (28, 60):
        plan_charge(pl, i, p, both_limits=True)
        plan_wave(pl, i + 4, os.path.basename(wave).rsplit(".", 1)[0])
    plan_storage(pl, 93, p, True)
    plan_diag(pl, *DIAG3, p["capacity_nominal"], q)
    obs.describe(f"driving {wave} {p}")
    finish(obs, pl, tpl, proc, "driving", rng)
    obs.saw("driving", os.path.basename(path), wave, index > 95)


def charging(rng, obs):
    from beep.protocol.maccor import Procedure
    p, q = reg_params(rng), diag_params(rng)
    for k in ("charge_constant_current_1", "charge_constant_current_2", "charge_percent_limit_1"):
        del p[k]
    p.update(charge_current_param_4=rng.uniform(0.2, 2), charge_fast_soc_limit=rng.choice([0.8, 0.5]))
    path = os.path.join(templates(), "diagnosticV4.000")
    tpl = fresh(path)
    index = rng.randrange(300)
    with scratch() as d:
        wave = os.path.join(d, "RapidC_step_" + str(rng.randrange(999)) + ".MWF")
        lims = [p["charge_cutoff_voltage"] - rng.choice([0.05, 0.01, 0.2]) for _ in range(3)]
        high = rng.random() < 0.2
        if high:
            lims[rng.randrange(3)] = p["charge_cutoff_voltage"] + 0.05
        with open(wave, "w") as f:
            for v in lims:
                f.write("\t".join(["C", "I", "1.0", "V", f"{v:.4f}", "30", "V", ">=", "4.25", "T", "3.0", "A"]) + "\n")
        try:
            row = as_row(rng, p)
            proc = Procedure.generate_procedure_chargingv1(index, row, wave, template=path)
            kept(obs, row, p)
        except AssertionError:
            obs.require(high, "a valid charging waveform was refused")
            obs.saw("charging", "refused")
            return
        obs.require(not high, "a waveform charging beyond the cut-off voltage was accepted")
    proc.generate_procedure_diagcyclev3(p["capacity_nominal"], pd.Series(q))
    pl = Plan()
    pl.time(0, E0, 3 * 3600 + 720 * (index % 96))
    pl.num(1, SV, p["capacity_nominal"])
    p = dict(p, charge_constant_current_2=p["charge_current_param_4"])
    for i, n in ((28, "diagnostic_start_cycle"), (60, "diagnostic_interval")):
        plan_charge(pl, i, p, first=False)
        plan_wave(pl, i, os.path.basename(wave).rsplit(".", 1)[0])
        plan_discharge(pl, i + 4, p, p[n])
    plan_storage(pl, 93, p, True)
    plan_diag(pl, *DIAG3, p["capacity_nominal"], q)
    obs.describe(f"charging {p}")
    finish(obs, pl, tpl, proc, "charging", rng)
    obs.saw("charging", p["charge_fast_soc_limit"], index > 95)


def exp(rng, obs):
    from beep.protocol.maccor import Procedure
    path = os.path.join(templates(), "EXP.000")
    tpl = Procedure.from_file(path)
    v, c, d = rng.uniform(3, 4.5), rng.choice(["1.1C", 2.5, 0.2]), rng.choice(["0.9C", 1.5, 4])
    template = None
    with scratch() as tmp:
        if rng.random() < 0.5:
            # same protocol with extra steps before and inside the first loop
            steps = tpl["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
            extra, more = (copy.deepcopy(steps[rng.choice([5, 6, 7, 9, 12])]) for _ in range(2))
            steps.insert(rng.choice([1, 4, 5, 7, 8, len(steps) - 1, len(steps) - 2]), extra)
            if rng.random() < 0.5:
                steps.insert(len(steps) - 1, more)
            template = os.path.join(tmp, "EXPplus.000")
            tpl.to_file(template)
            tpl = fresh(template)
        proc = Procedure.from_exp(v, c, d, template=template)
    steps = tpl["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
    types = [s["StepType"] for s in steps]
    a, b = types.index("Do 1"), types.index("Loop 1")
    pl = Plan()
    for i, s in enumerate(steps):
        inside = a < i < b and s["StepMode"] == "Current"
        if s["StepType"] == "Charge":
            if s["Limits"] and "Voltage" in s["Limits"]:
                pl.exact(i, LV, v)
            if inside:
                pl.exact(i, SV, c)
        elif s["StepType"] == "Dischrge" and inside:
            pl.exact(i, SV, d)
    obs.describe(f"EXP v={v} c={c} d={d} custom={template is not None}")
    finish(obs, pl, tpl, proc, "EXP", rng)
    obs.saw("exp", template is not None, str(c), str(d), len(steps), a, b)


def edit(rng, obs):
    from beep.protocol.maccor import Procedure
    name = rng.choice(["diagnosticV3.000", "diagnosticV5.000", "EXP.000", "diagnosticV2.000"])
    tpl = fresh(os.path.join(templates(), name))
    proc = Procedure.from_file(os.path.join(templates(), name))
    steps = tpl["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
    pl = Plan()
    op = rng.choice(["modify", "skip", "wave", "badwave"])
    if op == "modify":
        i = rng.randrange(len(steps))
        t = rng.choice([steps[i]["StepType"], "Charge", "Rest"])
        proc.modify_step_value(i, t, "7.25")
        if steps[i]["StepType"] == t:
            pl.exact(i, SV, "7.25")
    elif op == "skip":
        key = rng.choice(["070", "023", "072", "999"])
        new = rng.choice([None, "095"])
        kw = {"new_step_key": new} if new else {}
        proc.set_skip_to_end_diagnostic(4.41, 1.9, step_key=key, **kw)
        for i, s in enumerate(steps):
            if s["Ends"] and isinstance(s["Ends"]["EndEntry"], list):
                for j, e in enumerate(s["Ends"]["EndEntry"]):
                    if e["Step"] == key and e["EndType"] == "Voltage" and e["Oper"] in (">=", "<="):
                        pl.exact(i, ("Ends", "EndEntry", j, "Value"), 4.41 if e["Oper"] == ">=" else 1.9)
                        if new:
                            pl.exact(i, ("Ends", "EndEntry", j, "Step"), new)
    elif op == "wave":
        i = rng.randrange(len(steps) - 1)
        w = rng.choice(["x.mwf", "./deep.er/name_1.MWF", "a" * 24 + ".mwf"])
        proc.insert_maccor_waveform(i, w)
        plan_wave(pl, i, os.path.basename(w).rsplit(".", 1)[0])
    else:
        try:
            proc.insert_maccor_waveform(5, rng.choice(["x.csv", "a" * 25 + ".mwf"]))
        except AssertionError:
            obs.require(True, "")
            obs.saw("edit", "refused")
            return
        obs.require(False, "an unusable waveform name was accepted")
    obs.describe(f"{op} on {name}: {list(pl.want)[:3]}")
    finish(obs, pl, tpl, proc, f"{op} {name}", rng)
    obs.saw("edit", op, name, len(pl.want) > 0)


def run_case(kind, rng, obs):
    {"roundtrip": roundtrip, "exp": exp, "regv2": regv2, "regv3": regv3, "driving": driving, "charging": charging,
     "edit": edit}[kind](rng, obs)
