"""C17 - A Biologic Modulo Bat settings file converted to Maccor has the same steps, limits and jumps."""
import os
import re
import xml.etree.ElementTree as ET

from monitors.c04 import scratch
from monitors.c15 import own_fields, render

ID = "C17"
RULE = (
    "Modulo Bat files are rendered from random programs (control types, units, limits, records, loops, cycle advances written "
    "as a loop to an empty loop, jumps) and converted; the XML is parsed independently and every step, set point, end, target "
    "and report compared with the program; programs that have no Maccor equivalent have to be refused. Non-trivial: at least "
    "one step; distinct by (shape of the program, jumps, what is refused)."
)
KINDS = {"convert": (2250, 22500), "refuse": (4500, 45000), "maccor": (450, 4500)}
MIN_SIGNATURES = 50
CUR = {"A": 1.0, "mA": 1e-3, "\xb5A": 1e-6, "nA": 1e-9, "pA": 1e-12}
VOLT = {"V": 1.0, "mV": 1e-3}
OHM = {"MOhm": 1e6, "kOhm": 1e3, "Ohm": 1.0, "mOhm": 1e-3, "\xb5Ohm": 1e-6}
WATT = {"W": 1.0, "mW": 1e-3, "\xb5W": 1e-6}
TIME = {"h": 3600.0, "mn": 60.0, "s": 1.0, "ms": 1e-3}
_names = []


def names():
    if not _names:
        from beep.protocol import BIOLOGIC_TEMPLATE_DIR
        _, f = own_fields(os.path.join(BIOLOGIC_TEMPLATE_DIR, "formationV1.mps"))
        _names.extend(k for c, k in f if c == 1)
    return _names


def blank(i):
    q = {n: "" for n in names()}
    q.update({"Ns": str(i), "charge/discharge": "Charge", "ctrl_seq": "0", "ctrl_repeat": "0", "lim_nb": "0", "rec_nb": "0", "Apply I/C": "I", "N": "15.00"})
    for l in "123":
        q.update({f"lim{l}_type": "Time", f"lim{l}_comp": "<", f"lim{l}_value": "0.000", f"lim{l}_value_unit": "s", f"lim{l}_action": "Next sequence", f"lim{l}_seq": str(i + 1),
                  f"rec{l}_type": "Time", f"rec{l}_value": "10.000", f"rec{l}_value_unit": "s"})
    return q


def val(rng):
    return "%.3f" % rng.choice([rng.uniform(0, 10), rng.randrange(1, 500), rng.uniform(0.001, 0.01)])


def physical(rng, i):
    q = blank(i)
    t = rng.choice(["CC", "CV", "CR", "CP", "Rest", "Rest"])
    q["ctrl_type"] = t
    q["charge/discharge"] = rng.choice(["Charge", "Discharge", "Discharge"])
    if t != "Rest":
        q["ctrl1_val"] = val(rng)
        q["ctrl1_val_unit"] = rng.choice(list({"CC": CUR, "CV": VOLT, "CR": OHM, "CP": WATT}[t]))
        q["ctrl1_val_vs"] = "Ref" if t == "CV" else "<None>"
    # a sequence repeats the settings of its loop columns even when it is no loop
    if rng.random() < 0.2:
        q["ctrl_repeat"] = str(rng.randrange(1, 5))
    for kind, n in (("lim", rng.choice([0, 1, 1, 2, 3])), ("rec", rng.choice([0, 1, 1, 2, 3]))):
        q[kind + "_nb"] = str(n)
        for l in range(1, n + 1):
            ty = rng.choice(["Time", "Ecell", "I"] + (["Power"] if kind == "rec" else []))
            unit = rng.choice(list({"Time": TIME, "Ecell": VOLT, "I": CUR, "Power": WATT}[ty]))
            v = val(rng)
            if ty == "Time" and unit == "ms":
                v = "%.3f" % (10 * rng.randrange(1, 5000))
            q[f"{kind}{l}_type"], q[f"{kind}{l}_value"], q[f"{kind}{l}_value_unit"] = ty, v, unit
            if kind == "lim":
                q[f"lim{l}_comp"] = ">" if ty == "Time" else rng.choice("<>")
    return q


def program(rng):
    """(sequences, shape as [(kind, first, last)])"""
    seqs, parts = [], []
    for _ in range(rng.randrange(1, 6)):
        r = rng.random()
        a = len(seqs)
        if r < 0.5 or not seqs and r > 0.85:
            for _ in range(rng.randrange(1, 4)):
                seqs.append(physical(rng, len(seqs)))
            parts.append(("P", a, len(seqs) - 1))
        elif r < 0.75:
            for _ in range(rng.randrange(1, 4)):
                seqs.append(physical(rng, len(seqs)))
            if rng.random() < 0.3:
                # an empty loop within the loop
                q = blank(len(seqs))
                q.update(ctrl_type="Loop", ctrl_seq=str(rng.randrange(0, a + 1)), ctrl_repeat="0", ctrl1_val="100.000")
                seqs.append(q)
                for _ in range(rng.choice([0, 0, 1])):
                    seqs.append(physical(rng, len(seqs)))
            q = blank(len(seqs))
            q.update(ctrl_type="Loop", ctrl_seq=str(a), ctrl_repeat=str(rng.randrange(1, 60)), ctrl1_val="100.000")
            seqs.append(q)
            parts.append(("L", a, len(seqs) - 1))
        elif r < 0.9:
            for rep in (0, 1):
                q = blank(len(seqs))
                q.update(ctrl_type="Loop", ctrl_seq=str(len(seqs) - rep if rep else rng.randrange(0, a + 1)), ctrl_repeat=str(rep), ctrl1_val="100.000")
                seqs.append(q)
            parts.append(("A", a, a + 1))
        else:
            q = blank(len(seqs))
            q.update(ctrl_type="Loop", ctrl_seq="0", ctrl_repeat="0", ctrl1_val="100.000")
            seqs.append(q)
            parts.append(("B", a, a))
    # an empty loop directly ahead of a loop that returns to it is a cycle advance
    return seqs, parts


def jumps(rng, seqs, parts):
    n = 0
    part = {i: p for p in parts for i in range(p[1], p[2] + 1)}
    ends = lambda i: max([p[2] for p in parts if p[0] in "LA" and p[2] < i] + [-1])
    for i, q in enumerate(seqs):
        if q["ctrl_type"] == "Loop":
            continue
        ok = []
        for j, t in enumerate(seqs):
            if t["ctrl_type"] == "Loop" or j <= ends(i):
                continue
            p = part[j]
            if p == part[i] or p[0] == "P" or (p[0] == "L" and j == p[1] and part[i][0] == "P" and j > i):
                ok.append(j)
        for l in range(1, int(q["lim_nb"]) + 1):
            r = rng.random()
            if r < 0.15:
                q[f"lim{l}_action"] = "End"
                n += 1
            elif r < 0.5 and ok:
                q[f"lim{l}_action"], q[f"lim{l}_seq"] = "Goto sequence", str(rng.choice(ok))
                n += 1
    return n


def expected(seqs, parts):
    """[(type, sequence index)] of the Maccor steps, {sequence: step number to continue with it}, {loop start: Do step}"""
    steps, num, do = [], {}, {}
    start = {p[1] for p in parts if p[0] == "L"}
    kind = {i: p for p in parts for i in range(p[1], p[2] + 1)}
    for i, q in enumerate(seqs):
        if i in start:
            steps.append(("Do 1", None))
            do[i] = len(steps)
        p = kind[i]
        if q["ctrl_type"] == "Loop":
            if p[0] == "A" and i == p[2]:
                steps.append(("AdvCycle", None))
                num[i] = len(steps)
            elif p[0] == "L" and i == p[2]:
                steps.append(("AdvCycle", None))
                num[i] = len(steps)
                steps.append(("Loop 1", i))
        else:
            steps.append(({"Rest": "Rest"}.get(q["ctrl_type"], "Charge" if q["charge/discharge"] == "Charge" else "Dischrge"), i))
            num[i] = len(steps)
    steps.append(("End", None))
    return steps, num, do


def mps(seqs, extra=0):
    items = [("line", "BT-LAB SETTING FILE"), ("line", ""), ("line", "Number of linked techniques : 1"), ("line", "Safety Limits :"),
             ("line", "Electrode surface area : 0.001 cm\xb2"), ("line", "Cycle Definition : Loop"), ("line", "")]
    rows = [(n, [q[n] for q in seqs] + [""] * extra) for n in names()]
    return items + [("technique", "1", "Modulo Bat", rows)]


def seconds(text):
    h, m, s = text.split(":")
    return float(h or 0) * 3600 + float(m or 0) * 60 + float(s or 0)


def close(a, b):
    return abs(a - b) <= 1e-9 * abs(b) + 1e-15


def convert(d, rng, items, style, existing=True):
    from beep.protocol.biologic_mb_to_maccor import BiologicMbToMaccorProcedure as B
    text = render(items, 20, "\r\n") + "\r\n"
    out = os.path.join(d, "out.000")
    if style == "file" and rng.random() < 0.3 and existing:
        open(out, "w").write("<an earlier procedure/>" * 3000)
    if style == "file":
        src = os.path.join(d, "in.mps")
        open(src, "wb").write(text.encode("ISO-8859-1"))
        B.convert(src, out)
    else:
        xml = B.biologic_mb_text_to_maccor_xml(text)
        open(out, "w").write(xml)
    return out


def check(obs, path, seqs, parts):
    raw = open(path, "rb").read().decode()
    obs.require(raw.startswith('<?xml version="1.0" encoding="UTF-8"?>') and '<?maccor-application progid="Maccor Procedure File"?>' in raw[:200], "no Maccor header lines")
    root = ET.fromstring(raw.replace("\r", ""))
    steps = root.findall("./ProcSteps/TestStep")
    want, num, do = expected(seqs, parts)
    known = []
    types = [s.findtext("StepType").strip() for s in steps]
    fold = lambda t: "Dischrge" if t == "Charge" else t
    obs.require([fold(t) for t in types] == [fold(t) for t, _ in want], lambda: f"steps {types}, expected {[t for t, _ in want]}")
    for no, (st, (t, i)) in enumerate(zip(steps, want), 1):
        what = f"step {no} (sequence {i})"
        if i is None:
            obs.require(not (st.findtext("StepValue") or "").strip() and st.find("Ends/EndEntry") is None and st.find("Reports/ReportEntry") is None, f"{what}: {t} with conditions")
            continue
        q = seqs[i]
        ends = st.findall("Ends/EndEntry")
        if t == "Loop 1":
            obs.require(len(ends) == 1 and ends[0].findtext("EndType").strip() == "Loop Cnt", f"{what}: loop without count")
            n = (ends[0].findtext("Value") or "").strip()
            other = (ends[0].findtext("StepValue") or "").strip()
            rep = int(q["ctrl_repeat"])
            first = do[int(q["ctrl_seq"])]
            obs.require(ends[0].findtext("Step") == "%03d" % first, lambda: f"{what}: the loop goes back to step {ends[0].findtext('Step')}, its Do is step {first}")
            if not n:
                obs.require(other == str(rep), f"{what}: loop count {n!r}/{other!r} for {rep} repetitions")
                known.append(("mb-loop-count-not-in-value", f"{what}: the loop has no count in Value, {rep} repetitions requested"))
            else:
                obs.require(int(n) in (rep, rep + 1), f"{what}: loop count {n} for {rep} repetitions")
            continue
        if q["ctrl_type"] == "Rest":
            obs.require(not (st.findtext("StepMode") or "").strip() and not (st.findtext("StepValue") or "").strip(), f"{what}: rest with a set point")
        else:
            if types[no - 1] != t:
                obs.require(t == "Charge" and types[no - 1] == "Dischrge", f"{what}: {types[no - 1]} for {t}")
                known.append(("mb-charge-becomes-discharge", f"{what}: a charge is converted to a discharge"))
            mode, units = {"CC": ("Current", CUR), "CV": ("Voltage", VOLT), "CR": ("Resistance", OHM), "CP": ("Power", WATT)}[q["ctrl_type"]]
            obs.require(st.findtext("StepMode").strip() == mode, lambda: f"{what}: mode {st.findtext('StepMode')} for {mode}")
            obs.require(close(float(st.findtext("StepValue")), float(q["ctrl1_val"]) * units[q["ctrl1_val_unit"]]),
                        lambda: f"{what}: set point {st.findtext('StepValue')} for {q['ctrl1_val']} {q['ctrl1_val_unit']}")
        obs.require(len(ends) == int(q["lim_nb"]), f"{what}: {len(ends)} ends for {q['lim_nb']} limits")
        for l, e in enumerate(ends, 1):
            ty, comp, v, unit = (q[f"lim{l}_{k}"] for k in ("type", "comp", "value", "value_unit"))
            et, units = {"Time": ("StepTime", TIME), "Ecell": ("Voltage", VOLT), "I": ("Current", CUR)}[ty]
            op = "=" if ty == "Time" else comp + "="
            obs.require(e.findtext("EndType").strip() == et and e.findtext("Oper").strip() == op, lambda: f"{what}: end {e.findtext('EndType')} {e.findtext('Oper')} for {ty} {comp}")
            got = seconds(e.findtext("Value")) if ty == "Time" else float(e.findtext("Value"))
            obs.require(close(got, float(v) * units[unit]), lambda: f"{what}: end value {e.findtext('Value')} for {v} {unit}")
            action = q[f"lim{l}_action"]
            j = int(q[f"lim{l}_seq"])
            to = len(want) if action == "End" else no + 1 if action == "Next sequence" else do[j] if j in do and j > i else num[j]
            obs.require(e.findtext("Step").strip() == "%03d" % to, lambda: f"{what}: end goes to step {e.findtext('Step')}, expected {to} ({action} {j})")
        reps = st.findall("Reports/ReportEntry")
        obs.require(len(reps) == int(q["rec_nb"]), f"{what}: {len(reps)} reports for {q['rec_nb']} records")
        for l, e in enumerate(reps, 1):
            ty, v, unit = (q[f"rec{l}_{k}"] for k in ("type", "value", "value_unit"))
            et, units = {"Time": ("StepTime", TIME), "Ecell": ("Voltage", VOLT), "I": ("Current", CUR), "Power": ("Power", WATT)}[ty]
            got = seconds(e.findtext("Value")) if ty == "Time" else float(e.findtext("Value"))
            obs.require(e.findtext("ReportType").strip() == et and close(got, float(v) * units[unit]), lambda: f"{what}: report {e.findtext('ReportType')} {e.findtext('Value')} for {ty} {v} {unit}")
    obs.count("steps", len(steps))
    return known


def shape(parts):
    return "".join(k + str(b - a + 1) for k, a, b in parts)


def run_case(kind, rng, obs):
    with scratch() as d:
        seqs, parts = program(rng)
        n = jumps(rng, seqs, parts)
        if kind == "convert":
            path = convert(d, rng, mps(seqs, rng.choice([0, 0, 1])), rng.choice(["file", "text"]))
            known = check(obs, path, seqs, parts)
            obs.saw("convert", shape(parts), n)
            obs.describe(f"{shape(parts)} with {n} jumps")
            if known:
                key, msg = rng.choice(known)
                obs.require(False, msg, key=key)
        elif kind == "maccor":
            from beep.protocol.maccor import Procedure
            path = convert(d, rng, mps(seqs), "file")
            p = Procedure.from_file(path)
            want, _, _ = expected(seqs, parts)
            got = p["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
            got = got if isinstance(got, list) else [got]
            obs.require(len(got) == len(want), f"{len(got)} steps read back, expected {len(want)}")
            p.to_file(os.path.join(d, "again.000"))
            a, b = (ET.fromstring(open(os.path.join(d, f), encoding="utf-8").read()) for f in ("out.000", "again.000"))
            flat = lambda r: [(e.tag, (e.text or "").strip()) for e in r.iter()]
            obs.require(flat(a) == flat(b), "the converted procedure does not survive Procedure reading and writing")
            obs.saw("maccor", shape(parts), n)
            obs.describe(f"{shape(parts)} read as a Maccor procedure")
        else:
            why = rng.choice(["into", "before", "overlap", "unit", "vs", "type", "limits", "records", "limtype", "rectype", "technique", "modulo", "blankgoto", "direction", "action", "ms", "other", "loopblank"])
            ph = [i for i, q in enumerate(seqs) if q["ctrl_type"] != "Loop"]
            items = None
            if why in ("into", "before", "overlap", "blankgoto", "other", "loopblank"):
                # straight steps, a loop, straight steps, an empty loop
                seqs = [physical(rng, i) for i in range(8)]
                loop = blank(8)
                loop.update(ctrl_type="Loop", ctrl_seq="3", ctrl_repeat="4")
                seqs += [loop, physical(rng, 9), physical(rng, 10)]
                for q in seqs:
                    q["lim_nb"] = "1" if q["ctrl_type"] != "Loop" else "0"
                src, to = {"into": (rng.randrange(0, 3), rng.randrange(4, 8)), "before": (rng.choice([9, 10]), rng.randrange(0, 8)),
                           "overlap": (0, 1), "blankgoto": (0, 11), "other": (rng.randrange(3, 8), rng.choice([9, 10, 10])), "loopblank": (0, 1)}[why]
                if why == "other":
                    # from one loop into the next or its start
                    other = blank(11)
                    other.update(ctrl_type="Loop", ctrl_seq="9", ctrl_repeat="2")
                    seqs.append(other)
                elif why == "loopblank":
                    other = blank(11)
                    other.update(ctrl_type="Loop", ctrl_seq="0", ctrl_repeat="0")
                    last = blank(13)
                    last.update(ctrl_type="Loop", ctrl_seq="11", ctrl_repeat="2")
                    seqs += [other, physical(rng, 12), last]
                    seqs[12]["lim_nb"] = "1"
                if why == "overlap":
                    other = blank(11)
                    other.update(ctrl_type="Loop", ctrl_seq=str(rng.randrange(1, 9)), ctrl_repeat="2")
                    seqs.append(other)
                elif why == "blankgoto":
                    other = blank(11)
                    other.update(ctrl_type="Loop", ctrl_seq="0", ctrl_repeat="0")
                    seqs.append(other)
                if why not in ("overlap", "loopblank"):
                    seqs[src]["lim1_action"], seqs[src]["lim1_seq"] = "Goto sequence", str(to)
            elif not ph:
                obs.saw("refuse", "none")
                return
            else:
                q = seqs[rng.choice(ph)]
                q["lim_nb"] = q["rec_nb"] = "1"
                if why == "unit":
                    q["lim1_type"], q["lim1_value_unit"] = rng.choice([("Time", "us"), ("Ecell", "A"), ("I", "V"), ("Time", "V")])
                elif why == "vs":
                    q.update(ctrl_type="CV", ctrl1_val="3.000", ctrl1_val_unit="V", ctrl1_val_vs=rng.choice(["Eoc", "Ectrl"]))
                elif why == "type":
                    q["ctrl_type"] = rng.choice(["GEIS", "CA", "VS"])
                elif why == "limits":
                    q["lim_nb"] = "4"
                elif why == "records":
                    q["rec_nb"] = "4"
                elif why == "limtype":
                    q["lim1_type"], q["lim1_value_unit"] = rng.choice(["Q", "Energy", "|Q|"]), rng.choice(["A", "V", "s", "mA.h"])
                elif why == "rectype":
                    q["rec1_type"], q["rec1_value_unit"] = "Q", rng.choice(["A", "V", "s", "W"])
                elif why == "direction":
                    q["charge/discharge"] = rng.choice(["", "Both"])
                elif why == "action":
                    q["lim1_action"] = "Pause"
                elif why == "ms":
                    q["lim1_type"], q["lim1_value"], q["lim1_value_unit"], q["lim1_comp"] = "Time", rng.choice(["15.000", "1.000", "1001.500", "17.000", "2019.500", "0.300"]), "ms", ">"
                elif why == "technique":
                    items = mps(seqs)
                    items = items + [("line", ""), ("technique", "2", "Modulo Bat", items[-1][3])]
                elif why == "modulo":
                    items = mps(seqs)
                    items[-1] = ("technique", "1", "OCV", items[-1][3])
            try:
                convert(d, rng, items or mps(seqs), rng.choice(["file", "text"]), False)
            except Exception:
                obs.require(not os.path.exists(os.path.join(d, "out.000")), "a refused file leaves a procedure")
            else:
                obs.require(False, f"a file without Maccor equivalent is converted ({why})")
            obs.saw("refuse", why, shape(parts)[:4])
            obs.describe(f"{why} refused")
