"""C16 - A Maccor procedure converted to Biologic does the same steps, and its data gets the same cycle index."""
import contextlib
import copy
import io
import os
import re

from monitors.c04 import scratch

ID = "C16"
RULE = (
    "Maccor procedures are generated from a random program (rests, charges and discharges under current or voltage control with "
    "and without a voltage limit, end and report entries, jumps, loops, loops in loops, cycle advances) and converted; the file "
    "is parsed independently and every technique, sequence, limit, target, loop and record compared with the program. The "
    "converted file is then executed in simulation, its data run through the cycle advancement rules, and the cycle index of "
    "every record compared with the cycle counter of the program. Programs that cannot be represented have to be refused. "
    "Non-trivial: at least one sequence; distinct by (shape of the program, end and jump features)."
)
KINDS = {"convert": (1040, 3000), "cycles": (1200, 4000), "refuse": (400, 800), "mappers": (160, 600), "ranges": (4, 8), "jump": (4, 8)}
MIN_SIGNATURES = 60
UNIT = {"pA": 1e-12, "nA": 1e-9, "\xb5A": 1e-6, "mA": 1e-3, "A": 1.0, "mV": 1e-3, "V": 1.0, "ms": 1e-3, "s": 1.0, "mn": 60.0, "h": 3600.0, "d": 86400.0}


# ---- programs -------------------------------------------------------------------------------------------------------

def number(rng, lo, hi):
    x = rng.uniform(lo, hi)
    if rng.random() < 0.15:
        x *= rng.choice([1e-3, 1e-3, 1e-5]) if lo < 0.1 else 1
    form = rng.choice(["%.1f", "%.3f", "%.4f", "%.5f", "%.6f", "%d", "%.2E", "%.4E"])
    t = form % x
    return t if float(t) > 0 else "%.3f" % x if x >= 0.001 else "%.3E" % x


def clock(rng):
    """(text, seconds)"""
    k = rng.randrange(11)
    if k == 0:
        s = rng.choice([".01", ".5", ".57", "2.3", "1.1", "0.29", "8.41", "%.2f" % rng.uniform(0.01, 60), "%.3f" % rng.uniform(0.01, 60)])
        return "::" + s, float(s)
    if k == 9:
        h, m = rng.choice([0.5, 0.25, 2.75]), rng.randrange(1, 60)
        return f"{h}:{m:02d}:00", h * 3600 + m * 60
    if k == 10:
        h, m, s = rng.choice([0, 1, 30]), rng.choice([0, 0, 7]), rng.choice([".5", "0.25", "00.04"])
        return f"{h}:{m}:{s}", h * 3600 + m * 60 + float(s)
    if k == 1:
        h = rng.randrange(1, 3600)
        return f"{h}::", h * 3600.0
    if k == 2:
        m = rng.randrange(1, 200)
        return f":{m}:", m * 60.0
    if k == 3:
        h = rng.choice([0.5, 1.5, 12.25])
        return f"{h}::", h * 3600
    if k == 4:
        h, m, s = rng.randrange(0, 99), rng.randrange(60), rng.choice([1.5, 2.3, 59.99, 30.125, round(rng.uniform(0.01, 59), 3), round(rng.uniform(0.01, 59), 2)])
        return f"{h:02d}:{m:02d}:{s}", h * 3600 + m * 60 + s
    h, m, s = rng.randrange(0, 99), rng.randrange(60), rng.randrange(60)
    if h + m + s == 0:
        s = 1
    return f"{h:02d}:{m:02d}:{s:02d}", h * 3600.0 + m * 60 + s


def measure(rng):
    st = {"kind": "M", "type": rng.choice(["Rest", "Charge", "Dischrge"]), "mode": None, "value": None, "limit": None, "ends": [], "reports": []}
    if st["type"] != "Rest":
        st["mode"] = rng.choice(["Current", "Current", "Voltage"])
        st["value"] = number(rng, 0.002, 9) if st["mode"] == "Current" else number(rng, 0.2, 4.4)
        if st["mode"] == "Current" and rng.random() < 0.4:
            st["limit"] = number(rng, 1.0, 4.4)
    room = 3 - (st["limit"] is not None)
    for _ in range(rng.choice([0 if st["limit"] is None else 1, 1, 1, 2, room])):
        if len(st["ends"]) >= room:
            break
        t = rng.choice(["StepTime", "Voltage", "Current"])
        if t == "StepTime":
            text, val = clock(rng)
            st["ends"].append({"type": t, "op": "=", "text": text, "value": val, "to": "next"})
        else:
            text = number(rng, 0.5, 4.9) if t == "Voltage" else number(rng, 0.001, 3)
            st["ends"].append({"type": t, "op": rng.choice([">=", "<="]), "text": text, "value": float(text), "to": "next"})
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = rng.choice(["StepTime", "Voltage", "Current"])
        if t == "StepTime":
            text, val = clock(rng)
        else:
            text = number(rng, 0.001, 1)
            val = float(text)
        st["reports"].append({"type": t, "text": text, "value": val})
    return st


def body(rng, level, adv=0.35):
    """statements with at least one measurement"""
    out = []
    for _ in range(rng.randrange(1, 4)):
        if rng.random() < adv:
            out.append({"kind": "A"})
        out.append(measure(rng))
    if level and rng.random() < 0.2:
        # nothing but a loop, ahead and after which cycles may advance
        inside = [s for s in out if s["kind"] == "M"][:rng.choice([1, 2, 3])]
        if len(inside) > 1 and rng.random() < 0.5:
            inside.insert(rng.choice([0, 1, len(inside)]), {"kind": "A"})
        out = [{"kind": "L", "n": rng.randrange(1, 5), "body": inside}]
        if rng.random() < 0.5:
            out.insert(rng.choice([0, 1]), {"kind": "A"})
        return out
    if rng.random() < adv:
        out.append({"kind": "A"})
    if level:
        for _ in range(rng.randrange(1, 3)):
            out.insert(rng.randrange(len(out) + 1), {"kind": "L", "n": rng.randrange(1, 5), "body": body(rng, 0, adv)})
    return out


def program(rng, adv=0.35, many=False):
    """statements of the top level; 'L' with nested 'L' becomes a looped technique"""
    prog = []
    for _ in range(rng.choice([1, 2, 3, 3, 7]) if many else rng.randrange(1, 4)):
        r = rng.random()
        if r < 0.45:
            prog += body(rng, 0, adv)
        elif r < 0.7:
            prog.append({"kind": "L", "n": rng.randrange(1, 5), "body": body(rng, 0, adv)})
        else:
            # the technique in front of a looped one holds at least one measurement
            if prog and not any(s["kind"] == "M" for s in prog[-3:]) and prog[-1]["kind"] == "A":
                prog.append(measure(rng))
            prog.append({"kind": "L", "n": rng.randrange(1, 5), "body": body(rng, 1, adv)})
    if prog[-1]["kind"] == "A":
        prog.append(measure(rng))
    return prog


def nested(s):
    return s["kind"] == "L" and any(x["kind"] == "L" for x in s["body"])


def listing(prog):
    """numbered Maccor steps [(type, statement or None, extra)] and techniques; step numbers are 1-based"""
    steps = []

    def emit(t, s=None, n=None):
        steps.append({"type": t, "s": s, "n": n})
        return len(steps)

    techs = []
    cur = None
    for s in prog:
        if nested(s):
            emit("Do 1")
            t = {"loop": s["n"], "items": [], "src": s}
            inner(s["body"], 2, t["items"], emit)
            emit("Loop 1", n=s["n"])
            techs.append(t)
            cur = None
        else:
            if cur is None:
                cur = {"loop": None, "items": [], "src": None}
                techs.append(cur)
            inner([s], 1, cur["items"], emit)
    emit("End")
    return steps, techs


def inner(stmts, level, items, emit):
    for s in stmts:
        if s["kind"] == "M":
            items.append(("M", emit(s["type"], s), s))
        elif s["kind"] == "A":
            items.append(("A", emit("AdvCycle"), None))
        else:
            items.append(("Do", emit("Do %d" % level), s))
            inner(s["body"], level, items, emit)
            items.append(("Loop", emit("Loop %d" % level, n=s["n"]), s))


def targets(techs, rng, total):
    """give some ends jumps: to the end of the test or within the straight segment / out of the loop ahead"""
    n = 0
    for t in techs:
        depth, spans = 0, []
        for kind, num, s in t["items"]:
            if kind == "Do":
                start = num
            elif kind == "Loop":
                spans.append((start, num))
        inside = lambda num: next((sp for sp in spans if sp[0] < num < sp[1]), None)
        ms = [num for kind, num, s in t["items"] if kind == "M"]
        for kind, num, s in t["items"]:
            if kind != "M":
                continue
            low = 0
            for a, b in spans:
                if b < num:
                    low = b
                elif a < num < b:
                    low = a
            for e in s["ends"]:
                r = rng.random()
                ok = [m for m in ms if m > low and (inside(m) == inside(num) or (inside(m) is None and m > num))]
                if r < 0.15:
                    e["to"] = total
                    n += 1
                elif r < 0.4 and ok:
                    e["to"] = rng.choice(ok)
                    n += 1
    return n


def xml(steps, rng=None):
    out = ['<?xml version="1.0" encoding="UTF-8"?>', '<?maccor-application progid="Maccor Procedure File"?>', "<MaccorTestProcedure>",
           "  <header><BuildTestVersion>1.5.7072.22499</BuildTestVersion></header>", "  <ProcSteps>"]
    for i, st in enumerate(steps):
        s = st["s"]
        out.append("    <TestStep>")
        out.append(f"      <StepType>{st['type'].center(10)}</StepType>")
        if s is None:
            out.append("      <StepMode>        </StepMode>\n      <StepValue></StepValue>\n      <Limits/>")
            if st["n"] is not None:
                out.append("      <Ends><EndEntry><EndType>Loop Cnt</EndType><SpecialType> </SpecialType><Oper> = </Oper>"
                           f"<Step>{i + 2:03d}</Step><Value>{st['n']}</Value></EndEntry></Ends>")
            else:
                out.append("      <Ends/>")
            out.append("      <Reports/>")
        else:
            out.append(f"      <StepMode>{(s['mode'] or '').ljust(8)}</StepMode>\n      <StepValue>{s['value'] or ''}</StepValue>")
            out.append("      <Limits/>" if s["limit"] is None else f"      <Limits><Voltage>{s['limit']}</Voltage></Limits>")
            ends = "".join(f"<EndEntry><EndType>{e['type'].ljust(8)}</EndType><SpecialType> </SpecialType><Oper>{e['op'].replace('<', '&lt;').replace('>', '&gt;')} </Oper>"
                           f"<Step>{(i + 2 if e['to'] == 'next' else e['to']):03d}</Step><Value>{e['text']}</Value></EndEntry>" for e in s["ends"])
            out.append(f"      <Ends>{ends}</Ends>" if ends else "      <Ends/>")
            out.append("      <Reports>" + "".join(f"<ReportEntry><ReportType>{r['type'].ljust(8)}</ReportType><Value>{r['text']}</Value></ReportEntry>" for r in s["reports"]) + "</Reports>")
        out.append("      <Range>A</Range><Option1>N</Option1><Option2>N</Option2><Option3>N</Option3><StepNote></StepNote>")
        out.append("    </TestStep>")
    out += ["  </ProcSteps>", "</MaccorTestProcedure>"]
    return "\n".join(out)


# ---- the produced file ----------------------------------------------------------------------------------------------

def parse_mps(path):
    raw = open(path, "rb").read().decode("ISO-8859-1")
    head, *rest = re.split(r"\r\nTechnique : (\d+)\r\n", raw)
    techs = []
    for num, text in zip(rest[::2], rest[1::2]):
        kind, *lines = text.split("\r\n")
        rows = {l[:20].strip(): [l[i:i + 20].strip() for i in range(20, len(l) - 19, 20)] for l in lines if l}
        n = len(next(iter(rows.values())))
        techs.append((int(num), kind, [{k: v[i] for k, v in rows.items()} for i in range(n)]))
    return head, techs


def convert(rng, d, steps, cfg=None, setup=None):
    from beep.protocol.maccor_to_biologic_mb import MaccorToBiologicMb
    src = os.path.join(d, "proc.000")
    open(src, "w", encoding="utf-8").write(xml(steps))
    c = MaccorToBiologicMb()
    for k, v in (cfg or {}).items():
        setattr(c, k, v)
    if setup:
        setup(c)
    out = os.path.join(d, "out")
    os.makedirs(out)
    with contextlib.redirect_stdout(io.StringIO()):
        return c.convert(src, out, "conv")


def quantity(obs, text, unit, want, what):
    obs.require(unit in UNIT, f"{what}: unknown unit {unit!r}")
    got = float(text) * UNIT[unit]
    obs.require(abs(got - want) <= resolution(unit) + 1e-9 * abs(want), lambda: f"{what} is {text} {unit}, requested {want}")


def resolution(unit):
    """the file gives three decimals in a unit of choice: no digit of a request may be lost to a coarse unit"""
    return 1e-14 if unit.endswith("A") else 0.51e-6


def kept(e, cfg):
    if e["type"] == "Voltage":
        if e["op"] == ">=" and cfg["max_voltage_v"] is not None and e["value"] >= cfg["max_voltage_v"]:
            return False
        if e["op"] == "<=" and cfg["min_voltage_v"] is not None and e["value"] <= cfg["min_voltage_v"]:
            return False
    if e["type"] == "Current":
        if e["op"] == ">=" and cfg["max_current_a"] is not None and e["value"] > cfg["max_current_a"]:
            return False
        if e["op"] == "<=" and cfg["min_current_a"] is not None and e["value"] < cfg["min_current_a"]:
            return False
    return True


DEFAULT = {"max_voltage_v": 4.45, "min_voltage_v": 0, "max_current_a": None, "min_current_a": None}


def layout(items):
    """[(kind, step number, statement, part, loop start index)] of the sequences, and {step number: first sequence}"""
    seqs, first, open_at = [], {}, None
    for kind, num, s in items:
        first[num] = len(seqs)
        if kind == "M":
            for part in range(2 if s["limit"] is not None else 1):
                seqs.append(("M", num, s, part if s["limit"] is not None else None, None))
        elif kind == "Do":
            open_at = len(seqs)
        elif kind == "Loop":
            seqs.append(("Loop", num, s, None, open_at))
    return seqs, first


def check_limits(obs, q, s, part, i, want, what):
    """limits of sequence i: want is [(type, comparison, value, target index or 9999)]"""
    nb = int(q["lim_nb"])
    got = []
    for l in range(1, nb + 1):
        unit = q[f"lim{l}_value_unit"]
        obs.require(unit in UNIT, f"{what}: limit unit {unit!r}")
        action = q[f"lim{l}_action"]
        obs.require(action in ("Next sequence", "Goto sequence"), f"{what}: action {action!r}")
        got.append((q[f"lim{l}_type"], q[f"lim{l}_comp"], float(q[f"lim{l}_value"]) * UNIT[unit], resolution(unit),
                    i + 1 if action == "Next sequence" else int(q[f"lim{l}_seq"])))
    for w in want:
        m = [g for g in got if g[:2] == w[:2] and abs(g[2] - w[2]) <= g[3] + 1e-9 * abs(w[2]) and g[4] == w[3]]
        obs.require(m, lambda: f"{what}: no limit {w}, found {got}")
        got.remove(m[0])
    return got


def check_file(obs, path, techs, total, cfg):
    head, found = parse_mps(path)
    want = []
    num = 1
    for t in techs:
        want.append((num, "Modulo Bat", t))
        num += 1
        if t["loop"] is not None:
            want.append((num, "Loop", t))
            num += 1
    obs.require([(a, b) for a, b, _ in found] == [(a, b) for a, b, _ in want], lambda: f"techniques {[(a, b) for a, b, _ in found]}, expected {[(a, b) for a, b, _ in want]}")
    obs.require(f"Number of linked techniques : {num - 1}\r\n" in head, "wrong number of linked techniques")
    obs.require("Ecell min = %.2f V" % cfg["min_voltage_v"] in head and "Ecell max = %.2f V" % cfg["max_voltage_v"] in head, "safety limits of the header")
    nseq = 0
    for (no, kind, seqs), (_, _, t) in zip(found, want):
        if kind == "Loop":
            obs.require(int(seqs[0]["goto Ne"]) == no - 1, "the loop technique goes back to the wrong technique")
            obs.require(int(seqs[0]["nt times"]) in (t["loop"], t["loop"] - 1), lambda: f"the loop technique repeats {seqs[0]['nt times']} times, the loop has {t['loop']} passes")
            continue
        lay, first = layout(t["items"])
        obs.require(len(seqs) == len(lay), lambda: f"technique {no} has {len(seqs)} sequences, expected {len(lay)}")
        for i, (q, (k, step, s, part, back)) in enumerate(zip(seqs, lay)):
            what = f"technique {no} sequence {i} (step {step})"
            nseq += 1
            obs.require(int(q["Ns"]) == i, f"{what}: numbered {q['Ns']}")
            if k == "Loop":
                obs.require(q["ctrl_type"] == "Loop" and int(q["ctrl_seq"]) == back and int(q["ctrl_repeat"]) == s["n"] - 1,
                            lambda: f"{what}: {q['ctrl_type']} to {q['ctrl_seq']} {q['ctrl_repeat']} times, expected a loop to {back} {s['n'] - 1} times")
                continue
            ends = [e for e in s["ends"] if kept(e, cfg)]
            mode, value = s["mode"], s["value"]
            if part == 1:
                mode, value = "Voltage", s["limit"]
            if s["type"] == "Rest":
                obs.require(q["ctrl_type"] == "Rest", f"{what}: {q['ctrl_type']} for a rest")
            else:
                obs.require(q["ctrl_type"] == {"Current": "CC", "Voltage": "CV"}[mode], f"{what}: {q['ctrl_type']} for {mode} control")
                obs.require(q["charge/discharge"] == {"Charge": "Charge", "Dischrge": "Discharge"}[s["type"]], f"{what}: {q['charge/discharge']} for {s['type']}")
                obs.require(q["ctrl1_val_unit"].endswith("A" if mode == "Current" else "V"), f"{what}: {mode} in {q['ctrl1_val_unit']}")
                quantity(obs, q["ctrl1_val"], q["ctrl1_val_unit"], float(value), what + ": set point")
            wl = []
            for e in ends:
                if part == 0 and e["type"] == "Voltage":
                    continue
                end = first[step] + (2 if part is not None else 1)
                to = end if e["to"] == "next" or e["to"] == step + 1 else 9999 if e["to"] == total else first[e["to"]]
                wl.append(({"StepTime": "Time", "Voltage": "Ecell", "Current": "|I|"}[e["type"]], {"=": ">", ">=": ">", "<=": "<"}[e["op"]], e["value"], to))
            if part == 0:
                wl.append(("Ecell", ">" if s["type"] == "Charge" else "<", float(s["limit"]), i + 1))
            rest = check_limits(obs, q, s, part, i, wl, what)
            obs.require(all(part == 0 and g[0] == "Ecell" for g in rest), lambda: f"{what}: unrequested limits {rest}")
            recs = [(q[f"rec{r}_type"], float(q[f"rec{r}_value"]) * UNIT[q[f"rec{r}_value_unit"]], resolution(q[f"rec{r}_value_unit"])) for r in range(1, int(q["rec_nb"]) + 1)]
            obs.require(len(recs) == len(s["reports"]), f"{what}: {len(recs)} records for {len(s['reports'])} reports")
            for g, r in zip(recs, s["reports"]):
                obs.require(g[0] == {"StepTime": "Time", "Voltage": "Ecell", "Current": "I"}[r["type"]] and abs(g[1] - r["value"]) <= g[2] + 1e-9 * abs(r["value"]),
                            lambda: f"{what}: record {g}, requested {r}")
    obs.count("sequences", nseq)
    return found


# ---- execution ------------------------------------------------------------------------------------------------------

class Stop(Exception):
    pass


def run_program(prog, stop_at):
    """[(cycle, statement, part)] of the measurements in the order Maccor performs them"""
    out, state = [], {"c": 1}

    def go(stmts):
        for s in stmts:
            if s["kind"] == "A":
                state["c"] += 1
            elif s["kind"] == "L":
                for _ in range(s["n"]):
                    go(s["body"])
            else:
                for p in range(2 if s["limit"] is not None else 1):
                    out.append(state["c"])
                    if stop_at is not None and len(out) >= stop_at:
                        raise Stop
    try:
        go(prog)
    except Stop:
        pass
    return out


def run_file(found, techs, stop_at):
    """{technique number: [(Ns, Loop)]} of the measurements in the order the converted file performs them"""
    visits = {}
    n = 0
    it = iter(techs)
    for no, kind, seqs in found:
        if kind == "Loop":
            continue
        t = next(it)
        v = visits.setdefault(no, [])
        for rep in range(t["loop"] or 1):
            left = {}
            i = 0
            while i < len(seqs):
                if seqs[i]["ctrl_type"] == "Loop":
                    left.setdefault(i, int(seqs[i]["ctrl_repeat"]))
                    if left[i] > 0:
                        left[i] -= 1
                        i = int(seqs[i]["ctrl_seq"])
                        continue
                    del left[i]
                    i += 1
                    continue
                v.append((i, rep))
                n += 1
                if stop_at is not None and n >= stop_at:
                    return visits
                i += 1
    return visits


def enlarge(prog, rng):
    for s in prog:
        if s["kind"] == "L":
            s["n"] = rng.choice([s["n"], rng.randrange(90, 130), rng.randrange(900, 3000)])
            enlarge(s["body"], rng)


def run_steps(steps, techs, rng, stop_at):
    """
    a random execution in which ends with and without jumps fire: [(technique, Ns, Loop, cycle)], jumps taken, exits from the
    constant current part of a split step. Jumps whose records look like those of another path with a different number of
    cycle advances are not taken.
    """
    where, pairs = {}, []
    no = 1
    for t in techs:
        lay, first = layout(t["items"])
        for i, (k, num, s, part, _b) in enumerate(lay):
            if k == "M":
                where.setdefault(num, (no, []))[1].append(i)
        # transitions between consecutive steps and around the loops with their number of advances
        prev, count, start = None, 0, None
        for kind, num, s in t["items"]:
            if kind == "A":
                count += 1
            elif kind == "Do":
                start = num
            elif kind == "Loop":
                c, j = count, start
                while j < num - 1 and steps[j]["type"] == "AdvCycle":
                    c, j = c + 1, j + 1
                pairs.append((prev, j + 1, c))
            else:
                pairs.append((prev, num, count))
                prev, count = num, 0
        no += 2 if t["loop"] is not None else 1
    opens = {}
    stack = []
    for i, st in enumerate(steps):
        if st["type"].startswith("Do"):
            stack.append(i)
        elif st["type"].startswith("Loop"):
            opens[i] = stack.pop()
    out, cycle, pc, left, jumps, early = [], 1, 0, {}, 0, 0
    rep = {}
    while pc < len(steps):
        st = steps[pc]
        if st["type"] == "AdvCycle":
            cycle += 1
        elif st["type"].startswith("Do"):
            left[pc] = None
            if any(t["loop"] is not None and t["items"] and t["items"][0][1] == pc + 2 for t in techs):
                rep = {pc: 0}
        elif st["type"].startswith("Loop"):
            o = opens[pc]
            if left[o] is None:
                left[o] = st["n"] - 1
            if left[o] > 0:
                left[o] -= 1
                if o in rep:
                    rep[o] += 1
                pc = o + 1
                continue
        elif st["type"] == "End":
            break
        else:
            no, seqs = where[pc + 1]
            s = st["s"]
            inloop = [(a, b) for b, a in opens.items() if a < pc < b]
            alone = any(sum(1 for x in steps[a:b] if x["s"] is not None) == 1 for a, b in inloop)
            to = pc + 1
            for p, q in enumerate(seqs):
                out.append((no, q, max(rep.values()) if rep and any(a in rep for a, b in inloop) else 0, cycle))
                if stop_at is not None and len(out) >= stop_at:
                    return out, jumps, early
                ends = [e for e in s["ends"] if kept(e, DEFAULT) and not (p == 0 and len(seqs) == 2 and e["type"] == "Voltage")]
                e = rng.choice(ends) if ends and rng.random() < 0.5 and len(out) < 300 else None
                if e is None:
                    continue
                if e["to"] == "next" or e["to"] == pc + 2:
                    if p == 0 and len(seqs) == 2 and not alone:
                        early += 1
                        break
                elif e["to"] == len(steps):
                    return out, jumps, early
                elif not alone and all(c == 0 for a, b, c in pairs if (a, b) == (pc + 1, e["to"])):
                    jumps += 1
                    to = e["to"] - 1
                    break
            pc = to
            continue
        pc += 1
    return out, jumps, early


def impossible(prog):
    """a repeated body that advances the cycle with fewer than two sequences cannot be told apart from its data"""
    def bad(s):
        if s["kind"] != "L":
            return False
        if nested(s):
            return any(bad(x) for x in s["body"])
        seqs = sum((2 if x["limit"] is not None else 1) for x in s["body"] if x["kind"] == "M")
        return seqs < 2 and any(x["kind"] == "A" for x in s["body"])
    return any(bad(s) for s in prog)


def shape(prog):
    return "".join("A" if s["kind"] == "A" else "(%s)" % shape(s["body"]) if s["kind"] == "L" else ("S" if s["limit"] is not None else "M") for s in prog)


def run_case(kind, rng, obs):
    import pandas as pd
    with scratch() as d:
        if kind == "ranges":
            steps, techs = listing([dict(measure(rng), kind="M")])
            cfg = dict(max_voltage_v=4.35, min_voltage_v=2.5, max_current_a=2.125, min_current_a=0.03125)
            fp, _ = convert(rng, d, steps, cfg)
            _, found = parse_mps(fp)
            obs.saw("ranges")
            obs.describe("bounds in the ranges of the sequences")
            low = {k.lower(): v for k, v in found[0][2][0].items()}
            got = [low.get(c) for c in ("e range min (v)", "e range max (v)", "i range min", "i range max")]
            obs.require(got == ["2.500", "4.350", "0.031", "2.125"], lambda: f"bounds 2.5 V, 4.35 V, 0.03125 A, 2.125 A appear as ranges {got}", key="bounds-not-in-sequence-ranges")
        elif kind == "jump":
            a, b, c = measure(rng), measure(rng), measure(rng)
            for s in (a, b, c):
                s.update(type="Rest", mode=None, value=None, limit=None, ends=[{"type": "StepTime", "op": "=", "text": "00:00:10", "value": 10, "to": "next"}])
            a["ends"].append({"type": "Voltage", "op": ">=", "text": "4.0", "value": 4.0, "to": 3})
            steps, techs = listing([a, b, {"kind": "A"}, c])
            fp, rules = convert(rng, d, steps)
            from beep.structure.biologic import get_cycle_index
            obs.saw("jump")
            obs.describe("jump to a cycle advance")
            got = list(get_cycle_index([0, 1, 2], rules[0]))
            obs.require(got == [1, 1, 2], lambda: f"cycles {got} without jump")
            got = list(get_cycle_index([0, 2], rules[0]))
            obs.require(got == [1, 2], lambda: f"jump from the first step to the cycle advance ahead of the third: cycles {got} instead of [1, 2]", key="jump-to-cycle-advance")
        elif kind == "convert":
            prog = program(rng, 0.2, True)
            while impossible(prog):
                prog = program(rng, 0.2, True)
            if rng.random() < 0.3:
                enlarge(prog, rng)
            steps, techs = listing(prog)
            jumps = targets(techs, rng, len(steps))
            cfg = dict(DEFAULT)
            if rng.random() < 0.5:
                cfg.update(max_voltage_v=round(rng.uniform(3, 5), 4), min_voltage_v=round(rng.uniform(0, 3), 4))
                if rng.random() < 0.5:
                    cfg.update(max_current_a=round(rng.uniform(0.5, 3), 5), min_current_a=round(rng.uniform(0.001, 0.5), 5))
            for st in steps:
                for e in st["s"]["ends"] if st["s"] else []:
                    key = {("Voltage", ">="): "max_voltage_v", ("Voltage", "<="): "min_voltage_v", ("Current", ">="): "max_current_a", ("Current", "<="): "min_current_a"}.get((e["type"], e["op"]))
                    if key and cfg[key] is not None and rng.random() < 0.2:
                        e["value"] = cfg[key]
                        e["text"] = str(cfg[key])
            fp, rules = convert(rng, d, steps, cfg)
            obs.require(len(set(rules)) == len(rules), "two techniques share a rules file")
            obs.require(os.path.exists(fp) and fp.endswith(".mps") and len(rules) == len(techs) and all(map(os.path.exists, rules)), "missing output files")
            check_file(obs, fp, techs, len(steps), cfg)
            obs.saw("convert", shape(prog), jumps, cfg != DEFAULT)
            obs.describe(f"{shape(prog)} with {jumps} jumps")
        elif kind == "cycles":
            from beep.protocol.maccor_to_biologic_mb import add_cycle_nums_to_csvs
            prog = program(rng, rng.choice([0.2, 0.5, 0.8]))
            steps, techs = listing(prog)
            if impossible(prog):
                once = lambda st: any(s["kind"] == "L" and (s["n"] == 1 or once(s["body"])) for s in st)
                try:
                    convert(rng, d, steps)
                except Exception:
                    obs.require(not any(f.endswith(".mps") for f in os.listdir(os.path.join(d, "out"))), "a refused procedure leaves a settings file")
                else:
                    obs.require(once(prog), lambda: f"{shape(prog)} is converted although its cycle index cannot be recovered")
                obs.saw("impossible", shape(prog))
                obs.describe(f"{shape(prog)} refused")
                return
            stop = rng.choice([None, None, rng.randrange(1, 40)])
            wander = rng.random() < 0.5
            if wander:
                targets(techs, rng, len(steps))
            fp, rules = convert(rng, d, steps)
            if wander:
                found = check_file(obs, fp, techs, len(steps), DEFAULT)
                trace, jumps, early = run_steps(steps, techs, rng, stop)
                want, visits = [c for _, _, _, c in trace], {}
                for no, q, rep, _ in trace:
                    visits.setdefault(no, []).append((q, rep))
                obs.count("jumps", jumps)
                obs.count("early exits", early)
            else:
                _, found = parse_mps(fp)
                want = run_program(prog, stop)
                visits = run_file(found, techs, stop)
            obs.require(sum(map(len, visits.values())) == len(want), lambda: f"{shape(prog)}: {sum(map(len, visits.values()))} steps are performed instead of {len(want)}")
            csvs, outs, used, rows_per = [], [], [], {}
            for no, rf in zip(sorted(n for n, k, _ in found if k != "Loop"), rules):
                if not visits.get(no):
                    continue
                rows = []
                for v, (ns, loop) in enumerate(visits[no]):
                    for r in range(rng.choice([1, 1, 2, 4])):
                        again = rows and rows[-1]["visit"] == v and rng.random() < 0.3
                        rows.append({"Ns": ns, "Loop": loop, "Ecell/V": rows[-1]["Ecell/V"] if again else round(rng.uniform(2, 4), 4), "visit": v})
                rows_per[no] = rows
                p = os.path.join(d, f"t{no}.csv")
                pd.DataFrame(rows).to_csv(p, sep=";", index=False)
                csvs.append(p)
                outs.append(os.path.join(d, f"o{no}.csv"))
                used.append(rf)
            add_cycle_nums_to_csvs(csvs, used, outs)
            from beep.structure.biologic import get_cycle_index
            k = 0
            nrow = 0
            last = 1
            loops = {n: t["loop"] for (n, kd, _), t in zip([f for f in found if f[1] != "Loop"], techs)}
            for no, o, rf in zip(sorted(rows_per), outs, used):
                # the same rules applied to the data of one technique count from one
                ns, lp = [r["Ns"] for r in rows_per[no]], [r["Loop"] for r in rows_per[no]]
                alone = [want[k + r["visit"]] - last + 1 for r in rows_per[no]]
                got = get_cycle_index(ns, rf, loop_list=lp)
                obs.require(list(got) == alone, lambda: f"{shape(prog)}: get_cycle_index gives {got[:20]}, expected {alone[:20]}")
                if not loops[no]:
                    got = get_cycle_index(ns, rf)
                    obs.require(list(got) == alone, lambda: f"{shape(prog)}: get_cycle_index without loop numbers gives {got[:20]}, expected {alone[:20]}")
                last = want[k + len(visits[no]) - 1]
                df = pd.read_csv(o, sep=";")
                obs.require(len(df) == len(rows_per[no]) and all(df[c].tolist() == [r[c] for r in rows_per[no]] for c in ("Ns", "Loop", "Ecell/V", "visit")),
                            "records changed while adding the cycle index")
                for r, ci in zip(rows_per[no], df["cycle_index"]):
                    obs.require(ci == want[k + r["visit"]], lambda: f"{shape(prog)}: record of technique {no} sequence {r['Ns']} (visit {r['visit']}) has cycle {ci}, the procedure is in cycle {want[k + r['visit']]}")
                    nrow += 1
                k += len(visits[no])
            obs.count("records", nrow)
            obs.count("visits", len(want))
            obs.saw("cycles", shape(prog), stop is None, wander)
            obs.describe(f"{shape(prog)}: {len(want)} visits, {want[-1]} cycles")
        elif kind == "refuse":
            prog = program(rng, 0.2)
            while impossible(prog):
                prog = program(rng, 0.2)
            steps, techs = listing(prog)
            ms = [st for st in steps if st["s"] is not None]
            s = rng.choice(ms)["s"]
            why = rng.choice(["ends", "reports", "mode", "type", "endtype", "timeop", "reporttype", "back", "back", "back", "out", "out"])
            if why == "ends":
                s["ends"] = [{"type": "StepTime", "op": "=", "text": f"00:00:{i:02d}", "value": i, "to": "next"} for i in range(1, rng.choice([5, 6]))]
            elif why == "reports":
                s["reports"] = [{"type": "Voltage", "text": "0.1", "value": 0.1}] * 4
            elif why == "mode":
                s["type"], s["mode"], s["value"], s["limit"] = "Charge", rng.choice(["Power", "Resistance"]), "1.0", None
            elif why == "type":
                s["type"], s["mode"], s["value"], s["limit"] = rng.choice(["FastWave", "Pause", "Sub 1"]), "Current", "1.0", None
            elif why == "endtype":
                s["ends"] = [{"type": rng.choice(["Capacity", "Energy"]), "op": ">=", "text": "1.0", "value": 1, "to": "next"}]
            elif why == "timeop":
                s["ends"] = [{"type": "StepTime", "op": ">=", "text": "00:00:10", "value": 10, "to": "next"}]
            elif why == "reporttype":
                s["reports"] = [{"type": "Capacity", "text": "1.0", "value": 1}]
            elif why == "out":
                # from within a loop to a step ahead of it
                spans, opened = [], []
                for i, st in enumerate(steps):
                    if st["type"].startswith("Do"):
                        opened.append(i)
                    elif st["type"].startswith("Loop"):
                        spans.append((opened.pop(), i))
                pairs = [(j, i) for a, b in spans for i in range(a, b) for j in range(a) if steps[i]["s"] is not None and steps[j]["s"] is not None]
                if not pairs:
                    obs.saw("refuse", "none")
                    return
                j, i = rng.choice(pairs)
                s = steps[i]["s"]
                s["ends"] = [{"type": "StepTime", "op": "=", "text": "00:00:10", "value": 10, "to": j + 1}]
            else:
                loops = [i for i, st in enumerate(steps) if st["type"].startswith("Loop")]
                after = [i for i, st in enumerate(steps) if st["s"] is not None and loops and i > loops[0]]
                if not after:
                    obs.saw("refuse", "none")
                    return
                i = rng.choice(after)
                close = max(x for x in loops if x < i)
                before = [j for j in range(close) if steps[j]["s"] is not None]
                if rng.random() < 0.6:
                    # into the loop behind
                    before = [j for j in before if all(steps[x]["s"] is not None or steps[x]["type"] == "AdvCycle" for x in range(j, close))] or before
                s = steps[i]["s"]
                s["ends"] = [{"type": "StepTime", "op": "=", "text": "00:00:10", "value": 10, "to": rng.choice(before) + 1}]
            for st in steps:
                if st["s"] is s:
                    st["type"] = s["type"]
            try:
                convert(rng, d, steps)
            except Exception:
                obs.require(not any(f.endswith(".mps") for f in os.listdir(os.path.join(d, "out"))), "a refused procedure leaves a settings file")
            else:
                obs.require(False, f"a procedure that cannot be represented is converted ({why})")
            obs.saw("refuse", why, shape(prog)[:3])
            obs.describe(f"{why} in {shape(prog)} refused")
        else:
            prog = program(rng, 0.2)
            while impossible(prog):
                prog = program(rng, 0.2)
            steps, techs = listing(prog)
            calls, seen = [], {}

            def setup(c):
                for k in range(ns):
                    def m(tech, seq, i, k=k):
                        seq = copy.deepcopy(seq)
                        calls.append((tech, i, k))
                        seq["I Range"] = (seq["I Range"] if k else "") + "m%d" % k
                        return seq
                    c.seq_mappers.append(m)
                for k in range(nm):
                    def f(step, no, k=k):
                        step = copy.deepcopy(step)
                        if step["StepType"] == "Rest":
                            got = int(step["Ends"]["EndEntry"]["Value"][-2:]) if k else no % 50
                            step["Ends"] = {"EndEntry": {"EndType": "StepTime", "SpecialType": None, "Oper": "=", "Step": "%03d" % (no + 1), "Value": "00:00:%02d" % (got + 1)}}
                        elif step["StepType"] in ("Charge", "Dischrge") and isinstance(step["Ends"], dict):
                            es = step["Ends"].get("EndEntry")
                            seen.setdefault(no, []).append([(e["EndType"], float(e["Value"])) for e in (es if isinstance(es, list) else [es] if es else []) if e["EndType"] != "StepTime"])
                        return step
                    c.step_mappers.append(f)

            ns, nm = rng.randrange(0, 4), rng.randrange(0, 3)
            fp, _ = convert(rng, d, steps, None, setup)
            _, found = parse_mps(fp)
            for (no, k, seqs), t in zip([f for f in found if f[1] != "Loop"], techs):
                lay, _ = layout(t["items"])
                for i, (q, (kk, step, s, part, _b)) in enumerate(zip(seqs, lay)):
                    obs.require(q["I Range"] == ("".join("m%d" % x for x in range(ns)) or "1 mA"), lambda: f"sequence mappers gave {q['I Range']!r} for {ns} mappers")
                    obs.require([c[2] for c in calls if c[:2] == (no, i)] == list(range(ns)), f"mappers called {calls} for sequence {i}")
                    if nm and kk == "M" and s["type"] == "Rest":
                        obs.require(float(q["lim1_value"]) == step % 50 + nm and q["lim1_value_unit"] == "s", lambda: f"step mappers gave {q['lim1_value']} {q['lim1_value_unit']}")
            for no, got in seen.items():
                ends = [(e["type"], e["value"]) for e in steps[no - 1]["s"]["ends"] if e["type"] != "StepTime" and kept(e, DEFAULT)]
                obs.require(all(g == ends for g in got), lambda: f"step mappers get the ends {got}, left after the configured bounds are {ends}")
            obs.saw("mappers", ns, nm, shape(prog)[:4])
            obs.describe(f"{ns} sequence and {nm} step mappers on {shape(prog)}")
