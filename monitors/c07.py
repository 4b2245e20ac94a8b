"""C07 - Maccor files: records conserved, step-wise counters become per-cycle cumulative charge and energy."""
import datetime as dt
import math
import os
import time

import numpy as np

from monitors.c04 import frame_equal, scratch
from vlib.cells import same

ID = "C07"
RULE = (
    "Maccor text files are synthesised step by step (charge, discharge, rest, waveform steps with repeated end codes, "
    "one-record steps, any cycle numbering, test cut anywhere including inside the first step of a cycle, local times "
    "around midnight and daylight-saving switches, every project prefix) and ingested by the real code; every record is "
    "compared with an independent running integral and clock. EIS files are generated, discovered, loaded and "
    "round-tripped. Non-trivial: at least two steps or one spectrum compared; distinct by file features."
)
KINDS = {"run": (640, 3000), "waveform": (240, 1000), "clock": (240, 800), "eis": (120, 300)}
MIN_SIGNATURES = 40
COLS = ["Rec#", "Cyc#", "Step", "Test (Sec)", "Step (Sec)", "Amp-hr", "Watt-hr", "Amps", "Volts", "State", "ES",
        "DPt Time", "Loop1", "ACImp/Ohms", "DCIR/Ohms", "WF Chg Cap", "WF Dis Cap", "WF Chg E", "WF Dis E", "Range"] + \
       [f"VAR{i}" for i in range(1, 16)]


def nth_sunday(year, month, n):
    d = dt.date(year, month, 1)
    d += dt.timedelta(days=(6 - d.weekday()) % 7)
    return d + dt.timedelta(days=7 * (n - 1))


def pacific_to_utc(t):
    """Independent US/Pacific rule (since 2007); None inside the nonexistent hour. The hour which comes twice is daylight
    saving time, as the code has it ("daylight savings aware")."""
    a = dt.datetime.combine(nth_sunday(t.year, 3, 2), dt.time(2))
    b = dt.datetime.combine(nth_sunday(t.year, 11, 1), dt.time(2))
    if a <= t < a + dt.timedelta(hours=1):
        return None
    off = 7 if a <= t < b else 8
    return t + dt.timedelta(hours=off)


def synth(rng, waveform, clock):
    """Rows plus truth (charge, discharge, e_charge, e_discharge per record)."""
    rows, truth, times = [], [], []
    cyc = rng.choice([0, 0, 1, 1, 12])
    start = dt.datetime(2020, 1, 1) + dt.timedelta(seconds=rng.randrange(86400 * 365))
    if clock:
        start = rng.choice([dt.datetime(2020, 3, 8, 1, 30), dt.datetime(2020, 11, 1, 0, 10), dt.datetime(2019, 10, 21, 23, 58),
                            dt.datetime(2020, 12, 31, 23, 57), dt.datetime(2019, 3, 10, 0, 30), dt.datetime(2019, 7, 1)])
    t = 0.0
    ncyc = rng.choice([1, 2, 3, 5])
    layout = []
    for c in range(ncyc):
        kinds = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            kinds.append(rng.choice(["C", "C", "D", "D", "R"] + (["W", "W"] if waveform else [])))
        if c == 0 and rng.random() < 0.4:
            kinds = ["R"]
        layout.append(kinds)
    # only a test that is still running ends inside a step
    cut = rng.random() < 0.5
    oneway = rng.choice([0, 0, -1, 1])  # waveforms that only discharge or only charge
    stepno = 0
    total = [0.0] * 4
    nrec = repeats = 0
    for ci, kinds in enumerate(layout):
        total = [0.0] * 4
        for si, k in enumerate(kinds):
            prev = stepno
            stepno = rng.choice([x for x in range(1, 40) if x != prev]) if rng.random() < 0.3 else (prev % 39) + 1
            n = rng.choice([1, 2, 3, 8, 20])
            # a loop over one step: the same step number again, with its counters started again
            if rows and rng.random() < 0.15 and (si == 0 or (st > 0 and kinds[si - 1] != "W")):
                stepno = prev
                repeats += 1
            final = ci == len(layout) - 1 and si == len(kinds) - 1
            junk = rng.choice([0.0, 1.0, 0.5])
            ah = wh = wc = wd = wec = wed = 0.0
            st = 0.0
            for r in range(n):
                if k == "W":
                    amp = rng.uniform(-5, 5)
                    if oneway:
                        amp = oneway * abs(amp)
                    elif r == 0:
                        amp = -1.0
                else:
                    amp = {"C": rng.uniform(0.5, 4), "D": -rng.uniform(0.5, 4), "R": 0.0}[k]
                volt = rng.uniform(2.8, 4.2)
                d = rng.choice([0.01, 1.0, 10.0, 300.0]) if not clock else rng.choice([1.0, 60.0, 600.0])
                if r:
                    st += d
                    t += d
                    q, e = abs(amp) * d / 3600, abs(amp) * volt * d / 3600
                    if k == "W":
                        if amp > 0:
                            wc += q
                            wec += e
                        else:
                            wd += q
                            wed += e
                        ah += q
                        wh += e
                    elif k != "R":
                        ah += q
                        wh += e
                else:
                    t += 0.01
                last = r == n - 1
                ended = last and not (final and cut)
                es = rng.choice([128, 129, 132, 133, 255]) if ended else (0 if r == 0 else rng.choice([1, 5, 1, 127]))
                if k == "W" and not last and rng.random() < 0.3:
                    es = 132  # maccor repeats end codes inside waveforms
                state = k if k != "W" else ("C" if amp > 0 else "D")
                # inside a waveform the plain counters are not the step's own
                fah, fwh = (ah * junk, wh * junk) if k == "W" else (ah, wh)
                now = start + dt.timedelta(seconds=t)
                now = now.replace(microsecond=0)
                stamp = now.strftime("%m/%d/%Y %H:%M:%S")
                if now.time() == dt.time(0, 0, 0) and rng.random() < 0.7:
                    stamp = now.strftime("%m/%d/%Y")
                nrec += 1
                wf = ["N/A"] * 4 if k != "W" else ["%.9f" % x for x in (wc, wd, wec, wed)]
                rows.append([nrec, cyc, stepno, "%.4f" % t, "%.4f" % st, "%.10f" % fah, "%.10f" % fwh, "%.10f" % amp,
                             "%.8f" % volt, state, es, stamp, 0, "0.00000", "%.5f" % (0.02 + 0.001 * nrec % 0.01)] + wf + [1]
                            + ["0.00000"] * 15)
                times.append(now)
                add = [0.0] * 4
                if k == "W":
                    add = [wc, wd, wec, wed]
                elif k == "C":
                    add = [ah, 0, wh, 0]
                elif k == "D":
                    add = [0, ah, 0, wh]
                truth.append([a + b for a, b in zip(total, add)])
                if last:
                    total = [a + b for a, b in zip(total, add)]
        cyc += 1
    if clock and rng.random() < 0.5:
        # put one record exactly on midnight, where the cycler drops the time of day
        k = rng.randrange(len(times))
        shift = dt.datetime.combine(times[k].date() + dt.timedelta(days=1), dt.time(0)) - times[k]
        times = [x + shift for x in times]
        for r, x in zip(rows, times):
            midnight = x.time() == dt.time(0) and rng.random() < 0.7
            r[11] = x.strftime("%m/%d/%Y" if midnight else "%m/%d/%Y %H:%M:%S")
    return rows, truth, times, cut, layout, repeats


def run_case(kind, rng, obs):
    if kind == "eis":
        return eis(rng, obs)
    from beep.structure.maccor import MaccorDatapath
    rows, truth, times, cut, layout, repeats = synth(rng, kind == "waveform", kind == "clock")
    prefix = rng.choice(["PreDiag", "PredictionDiagnostics", "Talos", "xTESLADIAG", "FastCharge", "Foo"])
    ch = rng.choice([1, 22, 91, 5, 128])
    ext = f"{ch:03d}" if rng.random() < 0.9 else "abc"
    barcode = rng.choice(["00008F", "", "cell 12 (A)"])
    proc = rng.choice(["PreDiag_000412.000", "x y.000"])
    head = (f"Today's Date 12/20/2020  Date of Test:\t12/19/2020\t Filename:\tE:\\Backup\\{prefix}_000412_00008F.{ext} "
            f"Procedure: {proc}\tComment/Barcode: {barcode}\n")
    cols = list(COLS)
    case = rng.choice(["as is", "lower", "upper"])
    hdr = [c if case == "as is" else getattr(c, case)() for c in cols]
    with scratch() as d:
        path = os.path.join(d, f"{prefix}_000412_00008F.{ext}")
        with open(path, "w") as f:
            f.write(head + "\t".join(hdr) + "\n")
            for r in rows:
                f.write("\t".join(map(str, r)) + "\n")
        tz = rng.choice([None, None, "Asia/Tokyo", "America/New_York"]) if kind == "clock" else None
        old = os.environ.get("TZ")
        try:
            if tz:
                os.environ["TZ"] = tz
                time.tzset()
            dp = MaccorDatapath.from_file(path)
        finally:
            if tz:
                os.environ.pop("TZ", None)
                if old is not None:
                    os.environ["TZ"] = old
                time.tzset()
        obs.describe(f"{prefix} steps per cycle {layout} cut={cut} records={len(rows)} start={times[0]}")
        raw = dp.raw_data
        obs.require(len(raw) == len(rows), lambda: f"{len(rows)} records in the file, {len(raw)} ingested")
        names = {"Rec#": "data_point", "Cyc#": "cycle_index", "Step": "step_index", "Test (Sec)": "test_time",
                 "Step (Sec)": "step_time", "Amps": "current", "Volts": "voltage", "DCIR/Ohms": "internal_resistance"}
        for src, dst in names.items():
            k = COLS.index(src)
            got = raw[dst].to_numpy()
            bad = [i for i, r in enumerate(rows) if not same(got[i], r[k], 1e-6, 1e-7)]
            obs.require(not bad, lambda: f"record {bad[0]}: {dst} is {got[bad[0]]!r}, the file says {rows[bad[0]][k]}")
        wf = kind == "waveform"
        tol = 2e-5 if wf else 1e-7
        for j, col in enumerate(("charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy")):
            got = raw[col].to_numpy()
            bad = [i for i in range(len(rows)) if not same(got[i], truth[i][j], tol, 1e-6 if wf else 1e-8)]
            obs.require(not bad, lambda: f"record {bad[0]} (cycle {rows[bad[0]][1]}, step {rows[bad[0]][2]}): {col} is "
                                         f"{got[bad[0]]!r}, the steps of that cycle add up to {truth[bad[0]][j]!r}")
        n = 0
        for i, tm in enumerate(times):
            want = pacific_to_utc(tm)
            if want is None:
                continue
            got = raw["date_time_iso"].iloc[i]
            obs.require(got == want.isoformat() + "+00:00", lambda: f"record {i}: {rows[i][11]} became {got}, not {want}Z")
            n += 1
        m = dp.metadata
        obs.require(m.barcode == barcode.strip() and m.protocol == proc.strip(),
                    lambda: f"metadata {m.raw} does not carry barcode {barcode!r} / protocol {proc!r}")
        obs.require(m.channel_id == (ch if ext != "abc" else None), lambda: f"channel {m.channel_id}, file extension {ext}")
        want_schema = {"PreDiag": "schema-maccor-2170.yaml", "PredictionDiagnostics": "schema-maccor-2170.yaml",
                       "Talos": "schema-maccor-2170.yaml"}.get(prefix, "schema-maccor-2170.yaml")
        obs.require(os.path.basename(dp.schema) == want_schema, lambda: f"schema {dp.schema} for project {prefix}")
        obs.require(dp.paths["raw"] == path, "raw path lost")
        # per-cycle totals survive into the summary
        if not wf and rng.random() < 0.4:
            s = dp.summarize_cycles()
            for c in s.cycle_index:
                idx = [i for i, r in enumerate(rows) if r[1] == c]
                for j, col in enumerate(("charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy")):
                    want = max(truth[i][j] for i in idx)
                    obs.require(same(s.loc[c, col], want, 1e-6, 1e-8), f"cycle {c}: summary {col} {s.loc[c, col]} != {want}")
        obs.count("records", len(rows))
        obs.count("timestamps", n)
        obs.count("repeated_steps", repeats)
        obs.saw(kind, len(layout), tuple(sorted({k for ks in layout for k in ks})), cut,
                len(layout[-1]) == 1 and cut and len(layout) > 1, prefix, rows[0][1], min(repeats, 2))


def eis(rng, obs):
    from beep.structure.maccor import MaccorDatapath
    rows, *_ = synth(rng, False, False)
    with scratch() as d:
        d = os.path.join(d, rng.choice(["data", "run [2] 25C", "run.d", "what?", "a*b"]))
        os.makedirs(d)
        stem, ch = rng.choice([("PreDiag_000412_00008F", "041"), ("maccor_4267-66-6519", "007"), ("cell [A] 12", "099")])
        path = os.path.join(d, f"{stem}.{ch}")
        # files of other runs and channels which are not this run's spectra
        for decoy in (f"{stem}.EDA0001.{int(ch) + 1:03d}", f"{stem}9.EDA0001.{ch}", f"{stem}.txt", f"x{stem}.EDA0001.{ch}"):
            if rng.random() < 0.3:
                open(os.path.join(d, decoy), "w").write("nothing\n")
        with open(path, "w") as f:
            f.write("Today's Date 12/20/2020  Date of Test:\t12/19/2020\t Filename:\tf Procedure: p\tComment/Barcode: b\n")
            f.write("\t".join(COLS) + "\n")
            for r in rows:
                f.write("\t".join(map(str, r)) + "\n")
        dp = MaccorDatapath.from_file(path)
        specs, paths = [], []
        for k in range(rng.choice([1, 2, 3])):
            p = os.path.join(d, f"{stem}.EDA{k:04d}.{ch}")
            when = dt.datetime(2016, 1, 1) + dt.timedelta(minutes=rng.randrange(525600))
            data = [[10 ** rng.uniform(-2, 6), rng.uniform(0, 1e6), rng.uniform(0, 100), rng.uniform(0, 1), rng.uniform(-1, 0)]
                    for _ in range(rng.choice([1, 4, 20]))]
            with open(p, "w") as f:
                f.write("MACCOR, INC.    AC Impedance Test\nFrequency Sweep:   Open Circut Voltage\nEIS 1.000FRA default\n"
                        f"HOST_{k}\nLine 4\nLine 5\n"
                        f"Start Date:  {when.strftime('%A, %B %d, %Y')} Start Time:   {when.strftime('%H:%M')}\nLine 7\n"
                        "0.0005  2  0  0\n\nFreq(Hz)\tPolar(V)\ttime(sec)\tZ'(a)\tZ''(b)\n\n")
                for r in data:
                    f.write("\t".join("%.6f" % x for x in r) + "\n")
            specs.append((when.replace(second=0), data))
            paths.append(p)
        if rng.random() < 0.3:
            dp.load_eis(paths=paths[:1])  # loading again replaces what was loaded
        if rng.random() < 0.5:
            order = list(range(len(paths)))
            rng.shuffle(order)
            dp.load_eis(paths=[paths[i] for i in order])
            specs = [specs[i] for i in order]
        else:
            dp.load_eis()
            obs.require(sorted(dp.paths["eis"]) == sorted(paths), lambda: f"found {dp.paths['eis']}, present {paths}")
            specs = [specs[paths.index(p)] for p in dp.paths["eis"]]
        obs.require(len(dp.eis) == len(specs), "number of spectra differs")
        for e, (when, data) in zip(dp.eis, specs):
            obs.require(len(e.data) == len(data), lambda: f"{len(data)} frequencies in the file, {len(e.data)} loaded")
            for j, c in enumerate(["Freq(Hz)", "Polar(V)", "time(sec)", "Z'(a)", "Z''(b)"]):
                obs.require(all(same(x, r[j], 1e-6, 1e-5) for x, r in zip(e.data[c], data)), f"EIS column {c} changed")
            obs.require(e.metadata["start"] == when.isoformat(), lambda: f"start {e.metadata['start']} != {when}")
            obs.require(e.metadata["frequency_sweep"] == "Open Circuit Voltage", "frequency sweep lost")
            back = type(e).from_dict(e.as_dict())
            frame_equal(e.data, back.data, "EIS data", obs)
            obs.require(back.metadata == e.metadata, "EIS metadata changed in a round trip")
            obs.count("spectra")
        out = os.path.join(d, "o.json")
        dp.to_json_file(out, omit_raw=False)
        dp2 = MaccorDatapath.from_json_file(out)
        obs.require(list(dp2.paths["eis"]) == list(dp.paths["eis"]), "EIS paths lost in a round trip")
        obs.describe(f"{len(specs)} spectra")
        obs.saw("eis", len(specs), len(rows) > 5, tuple(len(s[1]) for s in specs))
