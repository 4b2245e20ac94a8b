"""C14 - a Maccor procedure and the Arbin schedule converted from it run the cell through the same steps."""
import copy
import os
from collections import OrderedDict

from monitors.c04 import scratch
from monitors.c10 import flat
from monitors.c13 import model, parse_own, render, template

ID = "C14"
RULE = (
    "Random procedures (nested and consecutive loops from the first step on, jumps, one, many or no end conditions and reports, "
    "times beyond a day) are converted by the real code. Two independent interpreters, one of Maccor steps and one of Arbin "
    "steps, limits and counters, execute both programs against the same random sequence of triggered conditions; control values, "
    "limits, logging conditions, branch taken and cycle advances are compared at every step. Non-trivial: at least one step "
    "executed; distinct by (entry point, shape of the program)."
)
KINDS = {"sdu": (42, 800), "compile": (135, 3000), "refuse": (36, 300), "templates": (3, 30)}
MIN_SIGNATURES = 60


def num(rng, lo, hi):
    return rng.choice([f"{rng.uniform(lo, hi):.3f}", f"{rng.uniform(lo, hi):.1f}", str(rng.randrange(1, 5))])


def steptime(rng):
    h, m, s = rng.choice([0, 1, 23, 24, 36, 100]), rng.randrange(60), rng.randrange(60)
    return rng.choice([f"{h:02d}:{m:02d}:{s:02d}", f"{h:02d}:{m:02d}:{s:02d}.5", "::.1", "::5", "00:00:00.25", "00:05:00"])


def seconds(v):
    h, m, s = [x.strip() or "0" for x in v.split(":")]
    return int(h) * 3600 + int(m) * 60 + float(s)


def bag(rng, make, key, sizes):
    n = rng.choice(sizes)
    if n == 0:
        return None
    return {key: make() if n == 1 else [make() for _ in range(n)]}


def entries(node, key):
    if node is None:
        return []
    e = node[key]
    return e if isinstance(e, list) else [e]


def program(rng):
    """List of Maccor steps; gotos refer to step numbers."""
    steps = []

    def add(kind, mode=None, value=None, limits=None):
        s = {"StepType": kind, "StepMode": mode, "StepValue": value, "Limits": limits, "Ends": None, "Reports": None,
             "Range": "A", "Option1": "N", "Option2": "N", "Option3": "N",
             "StepNote": rng.choice([None, "note", "a-b", "HPPC 10%", "3-note"]), "_depth": len(stack)}
        steps.append(s)
        return s

    stack = []

    def physical():
        k = rng.choice(["Charge", "Dischrge", "Charge", "Dischrge", "Rest"])
        if k == "Rest":
            return add("Rest")
        what = rng.choice(["cc", "cccv", "cv", "cvi", "crate", "cratev"])
        if what == "cc":
            return add(k, "Current", num(rng, 0.01, 5))
        if what == "cccv":
            return add(k, "Current", num(rng, 0.01, 5), {"Voltage": num(rng, 2, 4.3)})
        if what == "cv":
            return add(k, "Voltage", num(rng, 2, 4.3))
        if what == "cvi":
            return add(k, "Voltage", num(rng, 2, 4.3), {"Current": num(rng, 0.01, 5)})
        if what == "crate":
            return add(k, "Current", num(rng, 0.01, 3) + "C")
        return add(k, "Current", num(rng, 0.01, 3) + "C", {"Voltage": num(rng, 2, 4.3)})

    def block(level):
        for _ in range(rng.randrange(1, 4)):
            r = rng.random()
            if r < 0.35 and level <= 2:
                add(f"Do {level}")
                stack.append(level)
                block(level + 1)
                stack.pop()
                lo = add(f"Loop {level}")
                lo["Ends"] = {"EndEntry": {"EndType": "Loop Cnt", "SpecialType": None, "Oper": rng.choice(["=", "= ", ">="]),
                                           "Step": None, "Value": str(rng.randrange(1, 4))}}
            elif r < 0.5:
                add("AdvCycle")
            else:
                physical()

    for _ in range(rng.randrange(1, 4)):
        block(1)
    add("End")
    n = len(steps)
    for i, s in enumerate(steps):
        later = [j for j in range(i + 1, n) if steps[j]["_depth"] == 0 and not steps[j]["StepType"].startswith("Loop")]

        def goto():
            back = [j for j in range(i + 1) if steps[j]["_depth"] == 0 and steps[j]["StepMode"]] if s["_depth"] == 0 else []
            j = i + 1 if rng.random() < 0.7 else rng.choice(back) if back and rng.random() < 0.4 else rng.choice(later)
            return f"{j + 1:03d}"

        if s["StepType"].startswith("Loop"):
            s["Ends"]["EndEntry"]["Step"] = goto()
        elif s["StepType"] in ("Charge", "Dischrge", "Rest"):
            kinds = ["Voltage", "StepTime"]
            if s["StepMode"] == "Voltage" or s["Limits"]:
                kinds += ["Current"] * 2

            def end():
                t = rng.choice(kinds)
                return {"EndType": t, "SpecialType": None, "Step": goto(),
                        "Oper": "=" if t == "StepTime" else rng.choice(["<=", ">=", "< ", "> ", "<="]),
                        "Value": steptime(rng) if t == "StepTime" else num(rng, 0.01, 4.3)}

            s["Ends"] = bag(rng, end, "EndEntry", [0, 1, 1, 2, 3, 11] if s["StepType"] != "Rest" else [1, 1, 2])
            s["Reports"] = bag(rng, lambda: (lambda t: {"ReportType": t, "Value": steptime(rng) if t == "StepTime" else num(rng, 0.001, 1)})(
                rng.choice(["Voltage", "Current", "StepTime"])), "ReportEntry", [0, 1, 2, 3])
    for s in steps:
        del s["_depth"]
    return steps


# ---- the two interpreters -------------------------------------------------

def f(x):
    return round(float(x), 6)


def maccor_view(steps, i):
    """(control, [end conditions in order], {logging conditions}) of a physical step."""
    s = steps[i]
    sign = {"Charge": 1, "Dischrge": -1}.get(s["StepType"], 0)
    lim = s["Limits"] or {}
    if s["StepType"] == "Rest":
        ctrl = ("Rest",)
    elif s["StepMode"] == "Current":
        v = sign * float(s["StepValue"].rstrip("C"))
        if lim:
            ctrl = ("CCCV", f(v), f(lim["Voltage"]))
        else:
            ctrl = ("C-Rate" if "C" in s["StepValue"] else "Current(A)", f(v))
    else:
        ctrl = ("CCCV", f(sign * float(lim["Current"])), f(s["StepValue"])) if lim else ("Voltage(V)", f(s["StepValue"]))
    ends = []
    for e in entries(s["Ends"], "EndEntry"):
        op = e["Oper"].strip()
        if e["EndType"] == "StepTime":
            c = ("time", ">", f(seconds(e["Value"])))
        elif e["EndType"] == "Voltage":
            c = ("voltage", op, f(e["Value"]))
        else:
            if sign < 0:
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
            c = ("current", op, f(sign * float(e["Value"])))
        ends.append((c, int(e["Step"]) - 1))
    logs = [({"Voltage": "DV_Voltage", "Current": "DV_Current", "StepTime": "DV_Time"}[r["ReportType"]],
             f(seconds(r["Value"]) if r["ReportType"] == "StepTime" else r["Value"])) for r in entries(s["Reports"], "ReportEntry")]
    return ctrl, ends, logs


def run_maccor(steps, choose, limit=400):
    pos, cnt, trace = 0, {}, []
    while len(trace) < limit:
        s = steps[pos]
        t = s["StepType"]
        if t == "End":
            trace.append(("end",))
            return trace
        if t == "AdvCycle":
            trace.append(("advance",))
            pos += 1
        elif t.startswith("Do"):
            cnt[t[3:]] = 0
            pos += 1
        elif t.startswith("Loop"):
            k = t[5:]
            cnt[k] = cnt.get(k, 0) + 1
            e = s["Ends"]["EndEntry"]
            if cnt[k] < int(e["Value"]):
                pos = max(j for j in range(pos) if steps[j]["StepType"] == "Do " + k) + 1
            else:
                pos = int(e["Step"]) - 1
        else:
            ctrl, ends, logs = maccor_view(steps, pos)
            trace.append(("step", ctrl, [c for c, _ in ends], sorted(logs)))
            pos = ends[choose(len(ends))][1] if ends else pos + 1
    return trace


class Stuck(Exception):
    pass


def limits_of(step):
    n = int(step["m_uLimitNum"])
    names = [k for k in step if k.startswith("Limit")]
    if sorted(names) != sorted(f"Limit{j}" for j in range(n)):
        raise Stuck(f"m_uLimitNum is {n} but the step has limits {names}")
    return [step[f"Limit{j}"] for j in range(n)]


def run_arbin(steps, choose, limit=400):
    labels = {}
    for j, s in enumerate(steps):
        if s["m_szLabel"] in labels:
            raise Stuck(f"label {s['m_szLabel']!r} is not unique")
        labels[s["m_szLabel"]] = j

    def target(pos, lim):
        g = lim["m_szGotoStep"]
        if g == "Next Step":
            return pos + 1
        if g not in labels:
            raise Stuck(f"step {pos + 1} goes to {g!r}, which is not the label of any step")
        return labels[g]

    pos, tc, trace = 0, {}, []
    while len(trace) < limit:
        if pos >= len(steps):
            trace.append(("end",))
            return trace
        s = steps[pos]
        lims = limits_of(s)
        stops = [l for l in lims if l["m_bStepLimit"] == "1"]
        if not stops:
            raise Stuck(f"step {pos + 1} has no limit that ends it")
        for l in lims:
            if l["m_bStepLimit"] not in ("0", "1") or l["m_bLogDataLimit"] not in ("0", "1"):
                raise Stuck(f"step {pos + 1}: incomplete limit {dict(l)}")
        logs = sorted((l["Equation0_szLeft"], f(l["Equation0_szRight"])) for l in lims if l["m_bStepLimit"] == "0")
        kind = s["m_szStepCtrlType"]
        if kind == "Set Variable(s)":
            reset, inc = int(s["m_szCtrlValue"]), int(s["m_szExtCtrlValue1"])
            for k in range(1, 5):
                if reset >> (15 + k) & 1:
                    tc[k] = 0
                if inc >> k & 1:
                    tc[k] = tc.get(k, 0) + 1
            if inc & 1:
                if reset & 15 != 15:
                    raise Stuck("advancing the cycle does not reset the cycle's counters")
                trace.append(("advance",))
            nxt = None
            for l in stops:
                left, op, right = l["Equation0_szLeft"], l["Equation0_szCompareSign"], float(l["Equation0_szRight"])
                if left == "PV_CHAN_Step_Time" and op == ">" and right == 0:
                    hit = True
                elif left.startswith("TC_Counter"):
                    v = tc.get(int(left[len("TC_Counter"):]), 0)
                    hit = {"<": v < right, "=": v == right, ">=": v >= right, ">": v > right, "<=": v <= right}[op]
                else:
                    raise Stuck(f"step {pos + 1}: unexpected condition {left}")
                if hit:
                    nxt = target(pos, l)
                    break
            if nxt is None:
                raise Stuck(f"step {pos + 1}: no limit is true with counters {tc}")
            pos = nxt
            continue
        if kind == "CCCV":
            ctrl = ("CCCV", f(s["m_szCtrlValue"]), f(s["m_szExtCtrlValue1"]))
        elif kind == "Rest":
            ctrl = ("Rest",)
        else:
            ctrl = (kind, f(s["m_szCtrlValue"]))
        blank = len(stops) == 1 and stops[0]["m_bLogDataLimit"] == "0"
        if blank:
            l = stops[0]
            if (l["Equation0_szLeft"], l["Equation0_szCompareSign"], l["Equation0_szRight"], l["m_szGotoStep"]) != ("PV_CHAN_Step_Time", ">", "0", "Next Step"):
                raise Stuck(f"step {pos + 1}: blank limit is {dict(l)}")
            if kind == "Rest" and pos == len(steps) - 1:
                trace.append(("end",))
                return trace
            trace.append(("step", ctrl, [], logs))
            pos += 1
            continue
        conds = []
        for l in stops:
            left = {"PV_CHAN_Step_Time": "time", "PV_CHAN_Voltage": "voltage",
                    "PV_CHAN_CV_Stage_Current": "current", "PV_CHAN_Current": "current"}.get(l["Equation0_szLeft"], l["Equation0_szLeft"])
            if left == "current" and (l["Equation0_szLeft"] == "PV_CHAN_CV_Stage_Current") != (kind == "CCCV"):
                raise Stuck(f"step {pos + 1}: {l['Equation0_szLeft']} in a {kind} step")
            conds.append((left, l["Equation0_szCompareSign"], f(l["Equation0_szRight"])))
            for q in (1, 2):
                if any(l.get(f"Equation{q}_{x}") for x in ("szLeft", "szCompareSign", "szRight")):
                    raise Stuck("a further equation is set")
        trace.append(("step", ctrl, conds, logs))
        pos = target(pos, stops[choose(len(stops))])
    return trace


def judge(obs, rng, msteps, asteps, what):
    obs.require(len(msteps) == len(asteps), f"{what}: {len(asteps)} Arbin steps from {len(msteps)} Maccor steps")
    n = 0
    for _ in range(6):
        seed = rng.randrange(2 ** 31)
        import random
        ra, rb = random.Random(seed), random.Random(seed)
        want = run_maccor(msteps, lambda k: ra.randrange(k))
        try:
            got = run_arbin(asteps, lambda k: rb.randrange(k))
        except (Stuck, ValueError, KeyError, TypeError) as e:
            obs.require(False, f"{what}: the schedule cannot run: {e!r}")
        obs.require(len(want) == len(got), lambda: f"{what}: {len(got)} events, the procedure has {len(want)}")
        for i, (a, b) in enumerate(zip(want, got)):
            obs.require(a == b, lambda: f"{what}: event {i} is {b}, the procedure does {a}")
        n += len(want)
    obs.count("events_compared", n)
    # every step, also those not reached
    for i, s in enumerate(msteps):
        if s["StepType"] in ("Charge", "Dischrge", "Rest"):
            one = [dict(s), {"StepType": "End"}]
            ctrl, ends, logs = maccor_view(msteps, i)
            a = asteps[i]
            obs.require(a["m_szLabel"].startswith(f"{i + 1}-"), f"{what}: label of step {i + 1} is {a['m_szLabel']}")
            try:
                lims = limits_of(a)
            except Stuck as e:
                obs.require(False, f"{what}: step {i + 1}: {e}")
            obs.require(len([l for l in lims if l["m_bStepLimit"] == "1"]) == (len(ends) or 1), f"{what}: step {i + 1} has a wrong number of end limits")
            obs.require(len([l for l in lims if l["m_bStepLimit"] == "0"]) == len(logs), f"{what}: step {i + 1} has a wrong number of logging limits")


def nested(secs):
    out = OrderedDict()
    for h, b in secs.items():
        if len(h) == 2 and h[1].startswith("Step"):
            out[h[1]] = dict(b)
        elif len(h) == 3 and h[1] in out:
            out[h[1]][h[2]] = dict(b)
    return [out[f"Step{i}"] for i in range(len(out))]


def run_case(kind, rng, obs):
    from beep.protocol.maccor import Procedure
    from beep.protocol.maccor_to_arbin import ProcedureToSchedule
    steps = program(rng)
    crange = rng.choice(["Range1", "Range2", "Parallel-High"])
    if kind == "templates":
        from beep.protocol import PROCEDURE_TEMPLATE_DIR
        name = rng.choice(["diagnosticV3.000", "diagnosticV4.000", "diagnosticV2.000", "diagnosticV5.000", "BioTest_000001.000"])
        steps = Procedure.from_file(os.path.join(PROCEDURE_TEMPLATE_DIR, name))["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
        for s in steps:
            if s["StepType"].startswith("Loop"):
                s["Ends"]["EndEntry"]["Value"] = str(rng.randrange(1, 4))
    if kind == "refuse":
        what = rng.choice(["loop", "mode", "end", "flow"])
        i = rng.randrange(len(steps))
        if what == "loop":
            steps.insert(i, {"StepType": "Loop 7", "StepMode": None, "StepValue": None, "Limits": None, "Reports": None, "StepNote": None,
                             "Ends": {"EndEntry": {"EndType": "Loop Cnt", "SpecialType": None, "Oper": "=", "Step": "001", "Value": "2"}}})
        elif what == "mode":
            steps[i] = dict(steps[i], StepType="Charge", StepMode=rng.choice(["Power", "Resistance", "FastWave"]), StepValue="1.0", Limits=None)
        elif what == "flow":
            steps[i] = dict(steps[i], StepType=rng.choice(["FastWave", "Pause", "Chg Func"]), StepMode=None)
        else:
            steps[i] = dict(steps[i], StepType="Charge", StepMode="Current", StepValue="1.0", Limits=None,
                            Ends={"EndEntry": {"EndType": rng.choice(["Energy", "Current", "Delta V"]), "SpecialType": None, "Oper": ">=", "Step": "001", "Value": "2"}})
        try:
            with scratch() as d:
                ProcedureToSchedule(steps).create_sdu(template(), os.path.join(d, "o.sdu"))
        except Exception:
            obs.describe(f"refused {what}")
            obs.saw("refuse", what, steps[i]["StepType"], len(steps))
            return
        obs.require(False, f"a step that has no Arbin equivalent was converted silently: {steps[i]}")
    if rng.random() < 0.4:
        steps = [OrderedDict(s) for s in steps]
        for s in steps:
            if s["Ends"] and isinstance(s["Ends"]["EndEntry"], dict):
                s["Ends"]["EndEntry"] = OrderedDict(s["Ends"]["EndEntry"])
    keep = copy.deepcopy(steps)
    conv = ProcedureToSchedule(steps)
    shape = [s["StepType"] for s in steps]
    obs.describe(f"{kind}: {list(zip(range(1, len(steps) + 1), shape))}")
    if kind == "compile":
        for _ in range(rng.choice([1, 2])):
            names, flow = conv.create_metadata()
            out = [conv.compile_to_arbin(s, i, names, flow, current_range=crange) for i, s in enumerate(steps)]
            obs.require(flat(keep) == flat(steps), "converting changed the procedure")
            judge(obs, rng, keep, out, "compiled")
        for a in out:
            obs.require(a["m_szCurrentRange"] == crange, "wrong current range")
    else:
        with scratch() as d:
            dst = os.path.join(d, "o.sdu")
            shell = template()
            if rng.random() < 0.6:
                shell = os.path.join(d, "shell.sdu")
                open(shell, "wb").write(render(model(rng), "\r\n").encode("latin-1"))
            v, t, c = [2.0, 4.25], rng.choice([[-100, 100], [0, 60]]), [-7.5, 8.25]
            for _ in range(rng.choice([1, 2])):
                kw = {} if rng.random() < 0.3 else dict(current_range=crange, global_v_range=v, global_temp_range=t, global_current_range=c)
                before = open(shell, "rb").read()
                conv.create_sdu(shell, dst, **kw)
                obs.require(open(shell, "rb").read() == before, "the shell schedule was changed")
                obs.require(flat(keep) == flat(steps), "converting changed the procedure")
                secs = parse_own(open(dst, encoding="latin-1", newline="").read())
                judge(obs, rng, keep, nested(secs), "schedule file")
                top, ref = secs[("Schedule",)], parse_own(open(shell, encoding="latin-1", newline="").read())
                obs.require(top["m_uStepNum"] == str(len(steps)), f"m_uStepNum is {top['m_uStepNum']}, there are {len(steps)} steps")
                g = (v, t, c) if kw else ([2.5, 4.5], [-100, 100], [-30, 30])
                for key, val in zip(("m_VoltageSafetyScope", "m_AuxTempSafetyScope", "m_CurrentSafetyScope"), g):
                    obs.require([float(x) for x in top[key].split("^")] == [float(x) for x in val], f"{key} is {top[key]}, requested {val}")
                # the auxiliary temperature is watched only when a range was requested
                aux = ref[("Schedule",)]["m_AuxSafetyEnabled"] if not kw or t == [-100, 100] else top.get("m_AuxSafetyEnabled")
                obs.require(top.get("m_AuxSafetyEnabled") == aux and ("1^1" in aux or not kw or t == [-100, 100]),
                            lambda: f"m_AuxSafetyEnabled is {top.get('m_AuxSafetyEnabled')}, {aux} in the shell, requested {t}")
                changed = {"m_uStepNum", "m_VoltageSafetyScope", "m_AuxTempSafetyScope", "m_CurrentSafetyScope", "m_AuxSafetyEnabled"}
                for h, b in ref.items():
                    if len(h) > 1 and h[1].startswith("Step"):
                        continue
                    obs.require(h in secs, f"section {h} of the shell is lost")
                    for k in b:
                        if h == ("Schedule",) and k in changed:
                            continue
                        obs.require(secs[h].get(k) == b[k], f"{h}.{k} of the shell changed")
    obs.saw(kind, crange, tuple(sorted(set(shape))), len(steps), shape[0], shape.count("Loop 1"), shape.count("Loop 2"))
