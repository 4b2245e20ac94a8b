"""C15 - Biologic settings survive reading and writing; the formation protocol sets exactly what was requested."""
import copy
import os
import re

from monitors.c04 import scratch
from monitors.c10 import flat

ID = "C15"
RULE = (
    "Settings files rendered from a random model (one to four techniques, any number of steps, metadata lines with and without "
    "values, blank lines, line ends, encodings, column widths and step lengths) and the shipped templates are read, edited and "
    "written, and every entry and every line compared with the model; formation settings are generated directly and through "
    "the csv batch and every field compared with an independent table of what each parameter sets. Non-trivial: at least one "
    "step; distinct by (operation, number of techniques and steps, file features)."
)
KINDS = {"roundtrip": (1440, 11520), "template": (144, 1152), "formation": (1080, 8640), "batch": (90, 720)}
MIN_SIGNATURES = 40
TEXTS = ["", "0", "1.000", "<None>", "Rest", "CC", "Next sequence", "Ecell", "> 3", "a:b", "a : b", "Technique", "10 mA", "µ°²", "x" * 19]
META = ["BT-LAB SETTING FILE", " at x = 0.000", "for DX = 1, DQ = 26.802 mA.h", "Do not turn to OCV between techniques",
        "Safety Limits :", "10:30 h", "Filename : C:\\Users\\User\\a : b.mps", "Device : BCS-805", "Note on Technique : none", "Comments : ",
        "Electrode surface area : 0.001 cm²", "Cycle Definition : Charge/Discharge alternance", "\tvalue = 1", "Number of linked techniques : 2",
        "Battery capacity : 200.000 mA.h", "Characteristic mass : 0.001 g"]

# free text and repeated lines (comments of several lines)
FREE = ["Comments : cell 7", "Comments : Technique", "Comments : blank", "Comments : Metadata", "Comments : ", "Comments : Technique.1.Step.1",
        "\tvalue = 1", "Comments : cell 7", " at x = 0.000"]


def model(rng, width):
    """list of ('line', text) and ('technique', number, type, [(name, [values])])"""
    items = []
    metas = META[:]
    rng.shuffle(metas)
    nt = rng.choice([0, 1, 1, 2, 3, 4])
    length = rng.choice([63, 63, 5, 12, 2])
    names = ["p%d %s" % (i, rng.choice(["val", "unit", "(V)", "a:b"])) for i in range(length - 1)]
    for t in range(nt + 1):
        for _ in range(rng.randrange(0, 6)):
            r = rng.random()
            items.append(("line", rng.choice(FREE) if r < 0.12 else metas.pop() if metas and r < 0.75 else ""))
        if t < nt:
            ns = rng.choice([1, 2, 3, 9, 55])
            items.append(("technique", str(t + 1), rng.choice(["Modulo Bat", "Open Circuit Voltage", "OCV"]),
                          [(n, [rng.choice(TEXTS + ["y" * width])[:width].strip() for _ in range(ns)]) for n in names]))
    if not items:
        items.append(("line", metas.pop()))
    return items, length, nt


def render(items, width, sep):
    lines = []
    for it in items:
        if it[0] == "line":
            lines.append(it[1])
        else:
            lines += ["Technique : " + it[1], it[2]]
            lines += ["".join(str(x).ljust(width) for x in [n] + v) for n, v in it[3]]
    return sep.join(lines)


def compare(obs, s, items, what):
    meta, again = [], []
    line = 0
    for it in items:
        if it[0] == "line":
            if it[1] == "":
                meta.append(("line%d" % line, "blank"))
            elif " : " in it[1]:
                meta.append(tuple(it[1].split(" : ", 1)))
            else:
                meta.append((it[1], None))
            line += 1
        else:
            meta.append(("Technique_" + it[1], it[1]))
            line += 2 + len(it[3])
        # what a repeated line is called is up to the reader, so long as it is there
        if meta[-1][0] in {k for k, _ in meta[:-1]}:
            again.append(meta.pop())
    got = list(s["Metadata"].items())
    rest = [x for x in got if x not in meta]
    obs.require([x for x in got if x in meta] == meta and len(rest) == len(again)
                and all(a[0] in " ".join(map(str, r)) and (a[1] or "") in " ".join(map(str, r)) for a, r in zip(again, rest)), lambda: f"{what}: metadata is {[x for x in got if x not in meta][:3]} and lacks {[x for x in meta if x not in got][:3]}")
    want = {}
    for it in items:
        if it[0] == "technique":
            want[("Technique", it[1], "Type")] = it[2]
            for n, vals in it[3]:
                for i, v in enumerate(vals):
                    want[("Technique", it[1], "Step", str(i + 1), n)] = v
    g = {k: v for k, v in flat(s).items() if k[0] != "Metadata"}
    for k in set(g) | set(want):
        obs.require(k in g and k in want, lambda: f"{what}: {k} is {g.get(k)!r}, expected {want.get(k)!r}")
        obs.require(g[k] == want[k], lambda: f"{what}: {k} is {g[k]!r}, expected {want[k]!r}")
    obs.count("fields", len(want) + len(meta))


# what each parameter of the formation project sets: {(step, field): formula}
def formation(p):
    amp = lambda k: p[k] * p["capacity_nominal"]
    w = {
        (2, "ctrl1_val"): amp("initial_charge_current_1"), (2, "lim1_value"): p["initial_charge_voltage_1"],
        (3, "ctrl1_val"): p["initial_charge_voltage_1"], (3, "lim1_value"): p["initial_charge_cvhold_1"],
        (4, "lim1_value"): p["initial_charge_rest_1"],
        (5, "ctrl1_val"): amp("initial_charge_current_2"), (5, "lim1_value"): p["initial_charge_voltage_2"],
        (6, "ctrl1_val"): p["initial_charge_voltage_2"], (6, "lim1_value"): p["initial_charge_cvhold_2"],
        (7, "lim1_value"): p["initial_charge_rest_2"],
        (8, "ctrl1_val"): amp("initial_discharge_current_1"), (8, "lim1_value"): p["initial_discharge_voltage_1"],
        (9, "ctrl1_val"): amp("mid_charge_current_1"), (9, "lim1_value"): p["mid_charge_voltage_1"],
        (10, "ctrl1_val"): amp("mid_discharge_current_1"), (10, "lim1_value"): p["mid_discharge_voltage_1"],
        (11, "ctrl_repeat"): p["mid_cycle_reps"] - 1,
        (12, "ctrl1_val"): amp("final_charge_current_1"), (12, "lim1_value"): p["final_charge_voltage_1"],
        (13, "ctrl1_val"): amp("final_discharge_current_1"), (13, "lim1_value"): p["final_discharge_voltage_1"],
        (14, "ctrl1_val"): p["final_discharge_voltage_1"], (14, "lim1_value"): p["final_discharge_cvhold_1"],
    }
    return w


def params(rng):
    p = {"capacity_nominal": rng.choice([0.2, 4.84, round(rng.uniform(0.01, 6), 4)]), "mid_cycle_reps": rng.randrange(1, 40)}
    for k in ("initial_charge_current_1", "initial_charge_current_2", "initial_discharge_current_1", "mid_charge_current_1",
              "mid_discharge_current_1", "final_charge_current_1", "final_discharge_current_1"):
        p[k] = round(rng.uniform(0.02, 4), rng.choice([1, 3, 6]))
    for k in ("initial_charge_voltage_1", "initial_charge_voltage_2", "initial_discharge_voltage_1", "mid_charge_voltage_1",
              "mid_discharge_voltage_1", "final_charge_voltage_1", "final_discharge_voltage_1"):
        p[k] = round(rng.uniform(1.5, 4.9), rng.choice([1, 3, 6]))
    for k in ("initial_charge_cvhold_1", "initial_charge_cvhold_2", "initial_charge_rest_1", "initial_charge_rest_2",
              "final_discharge_cvhold_1"):
        p[k] = rng.choice([rng.randrange(1, 600), round(rng.uniform(0.5, 100), 2), 0])
    return p


def own_fields(path):
    """(metadata lines, {(step, field): text}) of a one-technique file, read independently"""
    lines = re.split("\r\n|\n", open(path, encoding="ISO-8859-1", newline="").read())
    t = [i for i, l in enumerate(lines) if l.startswith("Technique : ")][0]
    rows = lines[t + 2:t + 64]
    out = {}
    for r in rows:
        for c in range(1, len(r) // 20):
            out[(c, r[:20].strip())] = r[c * 20:(c + 1) * 20].strip()
    return lines[:t + 2] + lines[t + 64:], out


def check_formation(obs, path, p):
    from beep.protocol import BIOLOGIC_TEMPLATE_DIR
    m0, f0 = own_fields(os.path.join(BIOLOGIC_TEMPLATE_DIR, "formationV1.mps"))
    m1, f1 = own_fields(path)
    obs.require(m0 == m1, "metadata of the template changed")
    obs.require(set(f0) == set(f1), "fields of the template appeared or vanished")
    want = formation(p)
    for k, v in f0.items():
        if k in want:
            obs.require(abs(float(f1[k]) - want[k]) <= 5.1e-4, lambda: f"step {k[0]} {k[1]} is {f1[k]}, requested {want[k]}")
            if k[1] == "ctrl_repeat":
                obs.require(re.fullmatch(r"\d+", f1[k]), lambda: f"repeat count written as {f1[k]!r}")
        else:
            obs.require(f1[k] == v, lambda: f"step {k[0]} {k[1]} changed from {v!r} to {f1[k]!r}")
    obs.count("fields", len(f0))


def run_case(kind, rng, obs):
    import beep.protocol as bp
    from beep.protocol.biologic import Settings
    with scratch() as d:
        path, out = os.path.join(d, "in.mps"), os.path.join(d, "out.mps")
        if kind == "roundtrip":
            width = rng.choice([20, 20, 24])
            items, length, nt = model(rng, width)
            sep, enc = rng.choice(["\r\n", "\n", "\r"]), rng.choice(["ISO-8859-1", "utf-8"])
            open(path, "wb").write(render(items, width, sep).encode(enc))
            kw = {}
            if enc != "ISO-8859-1":
                kw["encoding"] = enc
            if width != 20:
                kw["column_width"] = width
            s = Settings.from_file(path, **dict(kw, **({} if length == 63 else {"step_entry_length": length})))
            compare(obs, s, items, "read")
            edits = 0
            if nt and rng.random() < 0.6:
                for _ in range(rng.randrange(1, 4)):
                    it = rng.choice([i for i in items if i[0] == "technique"])
                    n, vals = rng.choice(it[3])
                    c = rng.randrange(len(vals))
                    v = rng.choice(["5.000", "new", ""])
                    s["Technique"][it[1]]["Step"][str(c + 1)][n] = vals[c] = v
                    edits += 1
            keep = copy.deepcopy(flat(s))
            wsep, wenc = rng.choice([None, "\n", "\r\n"]), rng.choice([None, "utf-8", "ISO-8859-1"])
            kw = {k: v for k, v in (("linesep", wsep), ("encoding", wenc)) if v}
            if width != 20:
                kw["column_width"] = width
            s.to_file(out, **kw)
            obs.require(flat(s) == keep, "writing changed the settings")
            raw = open(out, "rb").read().decode(wenc or "ISO-8859-1")
            want = render(items, width, wsep or "\r\n")
            obs.require(raw == want, lambda: f"the written file differs: {[(a, b) for a, b in zip(raw.split(chr(10)), want.split(chr(10))) if a != b][:2]} ({len(raw)} for {len(want)} characters)")
            steps = tuple(len(i[3][0][1]) if i[3] else 0 for i in items if i[0] == "technique")
            obs.saw("roundtrip", nt, steps, length, sep.encode().hex(), enc, edits)
            obs.describe(f"{nt} techniques with {steps} steps of {length} lines, {edits} edits")
        elif kind == "template":
            names = sorted(f for f in os.listdir(bp.BIOLOGIC_TEMPLATE_DIR) if f.endswith(".mps"))
            src = os.path.join(bp.BIOLOGIC_TEMPLATE_DIR, rng.choice(names))
            s = Settings.from_file(src)
            for _ in range(rng.randrange(1, 3)):
                s.to_file(out)
                s = Settings.from_file(out)
            norm = lambda b: re.sub(b"\r?\n", b"\r\n", b)
            obs.require(norm(open(out, "rb").read()) == norm(open(src, "rb").read()), "a shipped settings file does not survive reading and writing")
            n = rng.choice(list(s["Technique"]["1"]["Step"]))
            s.set(f"Technique.1.Step.{n}.ctrl1_val", "9.876")
            s.to_file(out)
            m0, f0 = own_fields(src)
            m1, f1 = own_fields(out)
            obs.require(m0 == m1 and {k for k in f0 if f0[k] != f1.get(k)} == {(int(n), "ctrl1_val")} and set(f0) == set(f1),
                        "editing one value changed something else")
            obs.saw("template", os.path.basename(src), n)
            obs.describe(os.path.basename(src) + " step " + n)
        elif kind == "formation":
            s = Settings.from_file(os.path.join(bp.BIOLOGIC_TEMPLATE_DIR, "formationV1.mps"))
            p = params(rng)
            keep = dict(p)
            r = s.formation_protocol_bcs(p)
            obs.require(p == keep, "the parameters were changed")
            r.to_file(out)
            check_formation(obs, out, p)
            obs.saw("formation", *(round(v, 2) for v in list(p.values())[:4]))
            obs.describe(f"formation {p}")
        else:
            import pandas as pd
            from beep.protocol.generate_protocol import generate_protocol_files_from_csv
            rows = [dict(params(rng), project_name="Form", seq_num=i, template="formationV1.mps") for i in rng.sample(range(1000), rng.randrange(1, 5))]
            csv = os.path.join(d, "Form_parameters - X.csv")
            pd.DataFrame(rows).to_csv(csv, index=False)
            made, fails, result, msg = generate_protocol_files_from_csv(csv, output_directory=d)
            obs.require(len(made) == len(rows) and not fails and result == "success", f"batch: {made} {fails} {result} {msg}")
            for p in rows:
                f = os.path.join(d, "settings", "Form_%06d.mps" % p["seq_num"])
                obs.require(f in made and os.path.exists(f), f"no settings for {p['seq_num']}: {made}")
                check_formation(obs, f, p)
            obs.saw("batch", len(rows), rows[0]["seq_num"])
            obs.describe(f"batch of {len(rows)} formation rows")
