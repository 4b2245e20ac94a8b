"""C13 - Arbin schedules survive reading and writing; labelled edits touch only the intended fields."""
import copy
import os
import warnings
from collections import OrderedDict

from monitors.c04 import scratch
from monitors.c10 import flat

ID = "C13"
RULE = (
    "Schedule files rendered from a random model (sections, steps and limits in any number, line ends, encodings, values with "
    "'=', brackets, spaces, empty and non-ASCII text) and the shipped template are read, edited by label, parameterised and "
    "written; every field of the result is compared with the model, every file with the model's own rendering. Non-trivial: a "
    "file of at least three sections; distinct by (operation, features of the schedule)."
)
KINDS = {"roundtrip": (640, 6000), "steps": (640, 6000), "limits": (1200, 9600), "fastcharge": (400, 3200)}
MIN_SIGNATURES = 40
LABELS = ["CC1", "CC2", "CV", "rest 1", "Übergang", "a=b", "", "CC1 "]
VARS = ["PV_CHAN_Charge_Capacity", "PV_CHAN_Charge_Energy", "PV_CHAN_Charge_Cap", "PV_CHAN_Voltage", "PV_CHAN_Step_Time", "PV_CHAN_Current", "DV_Time"]
TEXTS = ["", "0", "-5.000000^10.000000", "x = y = z", "Use [T] sensor", "trailing  ", "  leading", "[Schedule]", "µ°Ü", "a;b#c", "{107D-62}", "1.50", "wait\x85done", "a\x0bb\x0cc", "tab\tbed", "5 "]


def value(rng):
    return rng.choice(TEXTS + [str(rng.randrange(1000)), f"{rng.uniform(-5, 5):.6f}"])


def model(rng, unique_vars=False):
    """OrderedDict of heading tuple -> OrderedDict of fields, in file order."""
    secs = OrderedDict()
    secs[("Version Section",)] = OrderedDict(Current_Version="Schedule Version 7.00.13")
    secs[("Signature Section",)] = OrderedDict(Signature="{107D0951-627E}")
    n = rng.choice([1, 2, 3, 5, 12])
    top = OrderedDict((k, value(rng)) for k in ("m_uMUID", "m_szCreator", "m_szComments", "m_AuxSafetyEnabled"))
    top["m_uStepNum"] = str(n)
    secs[("Schedule",)] = top
    pool = rng.sample(LABELS, rng.randrange(1, len(LABELS)))
    for s in range(n):
        st = OrderedDict()
        nl = rng.choice([0, 1, 2, 4, 11])
        st["m_uLimitNum"] = str(nl)
        st["m_szLabel"] = rng.choice(pool)
        for k in ("m_szStepCtrlType", "m_szCtrlValue", "m_szExtCtrlValue1", "m_szMaxCurrent"):
            st[k] = value(rng)
        secs[("Schedule", f"Step{s}")] = st
        left = VARS[:]
        rng.shuffle(left)
        for l in range(nl):
            lim = OrderedDict()
            lim["m_bStepLimit"] = rng.choice(["0", "1"])
            lim["m_bLogDataLimit"] = rng.choice(["0", "1"])
            if unique_vars:
                v = left.pop() if left else "PV_CHAN_other%d" % l
            else:
                v = rng.choice(VARS)
            lim["Equation0_szLeft"] = v
            lim["Equation0_szCompareSign"] = rng.choice([">", "<", ">=", "<=", "="])
            lim["Equation0_szRight"] = value(rng)
            lim["m_szGotoStep"] = rng.choice(["Next Step", "End Test"])
            secs[("Schedule", f"Step{s}", f"Limit{l}")] = lim
    for u in rng.choice([[], [0], [0, 1, 2], [1, 3], [0, 10]]):
        secs[("Schedule", f"UserDefineSafety{u}")] = OrderedDict(m_szName=value(rng), m_bEnabled="0")
    return secs


def render(secs, sep):
    return sep.join(["[%s]" % "_".join(h) + sep + sep.join(f"{k}={v}" for k, v in b.items()) for h, b in secs.items()]) + sep


def tree(secs):
    out = {}
    for h, b in secs.items():
        for k, v in b.items():
            out[h + (k,)] = v
    return out


def diff(obs, got, want, what):
    g = flat(got)
    for k in set(g) | set(want):
        obs.require(k in g, lambda: f"{what}: {'_'.join(k)} is lost (was {want[k]!r})")
        obs.require(k in want, lambda: f"{what}: {'_'.join(map(str, k))}={g[k]!r} appeared")
        obs.require(g[k] == want[k] or str(g[k]) == str(want[k]), lambda: f"{what}: {'_'.join(k)} is {g[k]!r}, expected {want[k]!r}")
    obs.count("fields", len(want))


def template():
    import beep.protocol as p
    d = p.SCHEDULE_TEMPLATE_DIR
    return os.path.join(d, sorted(f for f in os.listdir(d) if f.endswith(".sdu"))[0])


def parse_own(text):
    secs, cur = OrderedDict(), None
    for line in text.replace("\r\n", "\n").split("\n"):
        if line.startswith("[") and line.rstrip().endswith("]"):
            cur = secs.setdefault(tuple(line.rstrip()[1:-1].split("_")), OrderedDict())
        elif line.strip():
            k, v = line.split("=", 1)
            cur[k] = v
    return secs


def start(rng, obs, d, unique_vars=False):
    """(schedule read by the code, its model)"""
    from beep.protocol.arbin import Schedule
    if rng.random() < 0.1:
        path = template()
        return Schedule.from_file(path), parse_own(open(path, encoding="latin-1", newline="").read()), "template"
    m = model(rng, unique_vars)
    path = os.path.join(d, "in.sdu")
    sep = rng.choice(["\r\n", "\n"])
    enc = rng.choice(["latin-1", "utf-8"])
    open(path, "wb").write(render(m, sep).encode(enc))
    s = Schedule.from_file(path) if enc == "latin-1" and rng.random() < 0.7 else Schedule.from_file(path, encoding=enc)
    return s, m, f"{enc}{len(sep)}"


def finish(rng, obs, d, s, m, what):
    """Written file is exactly the model's rendering and reads back."""
    from beep.protocol.arbin import Schedule
    diff(obs, s, tree(m), what)
    path = os.path.join(d, "out.sdu")
    kw = {}
    if rng.random() < 0.4:
        kw["linesep"] = rng.choice(["\n", "\r\n"])
    if rng.random() < 0.4:
        kw["encoding"] = rng.choice(["utf-8", "latin-1"])
    keep = flat(copy.deepcopy(s))
    s.to_file(path, **kw)
    obs.require(flat(s) == keep, "writing changed the schedule")
    raw = open(path, "rb").read().decode(kw.get("encoding", "latin-1"))
    want = render(m, kw.get("linesep", "\r\n"))
    obs.require(raw == want, lambda: f"{what}: the written file differs from the schedule: {[(a, b) for a, b in zip(raw.splitlines(), want.splitlines()) if a != b][:2]}")
    back = Schedule.from_file(path, **({"encoding": kw["encoding"]} if "encoding" in kw else {}))
    diff(obs, back, tree(m), what + " written and read")
    return kw


def run_case(kind, rng, obs):
    from beep.protocol.arbin import Schedule
    with scratch() as d:
        if kind == "roundtrip":
            s, m, src = start(rng, obs, d)
            kw = finish(rng, obs, d, s, m, "roundtrip")
            sig = (sorted(kw),)
        elif kind == "steps":
            s, m, src = start(rng, obs, d)
            n = 0
            for _ in range(rng.randrange(1, 4)):
                labels = [b["m_szLabel"] for h, b in m.items() if len(h) == 2 and h[1].startswith("Step")]
                label = rng.choice(labels + ["nowhere"])
                key = rng.choice(["m_szCtrlValue", "m_szStepCtrlType", "m_szExtra", "m_szLabel"])
                val = rng.choice(["7.5", 3, 0.125, "CC2", "new text"])
                mode = rng.choice(["first", "all", None])
                obs.require([x for x in s.get_labelled_steps(label)] ==
                            [h[1] for h, b in m.items() if len(h) == 2 and b.get("m_szLabel") == label], "wrong steps found by label")
                r = s.set_labelled_steps(label, key, val, **({"mode": mode} if mode else {}))
                obs.require(r is s, "the edited schedule is not returned")
                for h, b in m.items():
                    if len(h) == 2 and b.get("m_szLabel") == label:
                        b[key] = val
                        n += 1
                        if mode != "all":
                            break
                diff(obs, s, tree(m), f"set_labelled_steps({label!r}, {key!r}, mode={mode})")
            finish(rng, obs, d, s, m, "set_labelled_steps")
            sig = (min(n, 3), mode)
        elif kind == "limits":
            s, m, src = start(rng, obs, d, unique_vars=True)
            steps = [(h, b["m_szLabel"]) for h, b in m.items() if len(h) == 2 and h[1].startswith("Step")]
            once = [l for _, l in steps if sum(l == x for _, x in steps) == 1]
            label = rng.choice(once + ["nowhere"])
            var = rng.choice(VARS)
            comp, val = rng.choice([">", "<", ">="]), rng.choice(["0.55", 3, 2.25, "-1"])
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                r = s.set_labelled_limits(label, var, comparator=comp, value=val)
            obs.require(r is s, "the edited schedule is not returned")
            hits = others = 0
            for h, b in m.items():
                if len(h) == 3 and dict(steps).get(h[:2]) == label and b["m_bStepLimit"] == "1":
                    if b["Equation0_szLeft"] == var:
                        b["Equation0_szCompareSign"], b["Equation0_szRight"] = comp, val
                        hits += 1
                    else:
                        others += 1
            if src != "template":
                obs.require(len([x for x in w if "Additional step limit" in str(x.message)]) == others, "wrong number of warnings about further step limits")
            finish(rng, obs, d, s, m, f"set_labelled_limits({label!r}, {var})")
            sig = (hits, min(others, 2))
        else:
            cc1, cap, cc2 = [rng.choice([rng.uniform(0.001, top), rng.uniform(0.001, top), 4.0, 10, 0.5, 20, 1, 100.0, 0.25]) for top in (12, 5, 12)]
            path = template()
            if rng.random() < 0.5:
                # a template of one's own, the labels anywhere
                m = parse_own(open(path, encoding="latin-1", newline="").read())
                own = model(rng, unique_vars=True)
                for h in [h for h in own if len(h) == 2 and h[1].startswith("Step") and own[h]["m_szLabel"] in ("CC1", "CC2")]:
                    own[h]["m_szLabel"] = "other"
                last = max(int(h[1][4:]) for h in own if len(h) == 2 and h[1].startswith("Step"))
                for i, lab in enumerate(rng.sample(["CC1", "CC2"], 2)):
                    src = [h for h in m if len(h) == 2 and m[h].get("m_szLabel") == lab][0]
                    for h in m:
                        if h[:2] == src:
                            own[("Schedule", f"Step{last + 1 + i}") + h[2:]] = m[h]
                path = os.path.join(d, "template.sdu")
                open(path, "wb").write(render(own, "\r\n").encode("latin-1"))
            before = open(path, "rb").read()
            s = Schedule.from_file(path)
            g = Schedule.from_fast_charge(cc1, cap, cc2, path)
            obs.require(open(path, "rb").read() == before, "the template was changed")
            a, b = flat(s), flat(g)
            obs.require(list(a) == list(b), "fields appeared, vanished or moved")
            want = {}
            for lab, num in (("CC1", cc1), ("CC2", cc2)):
                st = [k for k in a if len(k) == 3 and k[2] == "m_szLabel" and a[k] == lab][0]
                want[st[:2] + ("m_szCtrlValue",)] = num
                if lab == "CC1":
                    for k in a:
                        if k[:2] == st[:2] and k[-1] == "Equation0_szLeft" and a[k] == "PV_CHAN_Charge_Capacity" \
                                and a[k[:-1] + ("m_bStepLimit",)] == "1":
                            want[k[:-1] + ("Equation0_szRight",)] = cap
                            want[k[:-1] + ("Equation0_szCompareSign",)] = ">"
            for k in a:
                w = want.get(k, a[k])
                if isinstance(w, (int, float)):
                    obs.require(abs(float(b[k]) - w) <= 5.1e-4, lambda: f"{k} is {b[k]!r}, requested {w!r}")
                else:
                    obs.require(b[k] == w, lambda: f"{k} is {b[k]!r}, expected {w!r}")
            obs.require(len(want) == 4, f"template fields: {want}")
            out = os.path.join(d, "o.sdu")
            g.to_file(out)
            obs.require(flat(Schedule.from_file(out)) == b, "the generated schedule does not survive writing")
            obs.count("fields", len(a))
            src, sig = "template", (round(cc1), round(cap), round(cc2))
            m = a
    obs.describe(f"{kind} {src} sections={len(m)}")
    obs.saw(kind, src, sig, len(m))
