"""C08 - every other vendor's file: records conserved, units and clocks converted, right loader chosen."""
import datetime as dt
import json
import math
import os
import time

import h5py
import numpy as np

from monitors.c04 import scratch
from monitors.c07 import pacific_to_utc
from vlib.cells import same

ID = "C08"
RULE = (
    "Files of each supported cycler (Arbin, Battery Archive, Neware, Indigo, BioLogic csv/txt, Novonix) are synthesised "
    "with known per-record values, in the vendor's own units and clock, and ingested directly or through automatic "
    "dispatch under several host time zones; every record and derived quantity is compared. Unknown names must be refused. "
    "Non-trivial: every record of a file compared; distinct by (vendor, file features)."
)
KINDS = {"arbin": (540, 6480),
         "battery_archive": (540, 6480),
         "neware": (540, 6480),
         "indigo": (360, 4320),
         "biologic": (540, 6480),
         "novonix": (540, 6480),
         "unknown": (180, 2160)}
MIN_SIGNATURES = 60


def series(rng, n_cycles, rests=True):
    """Neutral ground truth: list of dict records, cycle by cycle, with per-cycle counters."""
    out = []
    t = 0.0
    cyc = rng.choice([0, 1, 1, 5])
    for c in range(n_cycles):
        steps = [("C", rng.randrange(1, 7))]
        if rests and rng.random() < 0.5:
            steps.append(("R", rng.randrange(1, 4)))
        steps.append(("D", rng.randrange(1, 7)))
        qc = qd = ec = ed = 0.0
        for si, (k, n) in enumerate(steps):
            st = 0.0
            for r in range(n):
                d = 0.0 if r == 0 else round(rng.uniform(0.5, 400), 2)
                st = round(st + d, 2)
                t = round(t + d, 2)
                i = {"C": 1, "R": 0, "D": -1}[k] * rng.uniform(0.3, 3)
                v = rng.uniform(2.5, 4.2)
                q = abs(i) * d / 3600
                if k == "C":
                    qc, ec = qc + q, ec + q * v
                elif k == "D":
                    qd, ed = qd + q, ed + q * v
                out.append(dict(cycle=cyc + c, step=si + 1, kind=k, t=t, st=st, i=i, v=v, qc=qc, qd=qd, ec=ec, ed=ed,
                                T=rng.uniform(20, 40), ir=rng.uniform(0.01, 0.05), first=r == 0))
    return out


def check(obs, raw, recs, cols, rel=2e-6, ab=2e-7):
    obs.require(len(raw) == len(recs), lambda: f"{len(recs)} records in the file, {len(raw)} ingested")
    for dst, want in cols.items():
        obs.require(dst in raw.columns, f"column {dst} missing after ingestion")
        got = raw[dst].to_numpy()
        bad = [k for k, r in enumerate(recs) if not same(got[k], want(r), rel, ab)]
        obs.require(not bad, lambda: f"record {bad[0]}: {dst} is {got[bad[0]]!r}, the file says {want(recs[bad[0]])!r}")
    obs.count("records", len(recs))


def load(rng, cls, path, dispatch=True):
    from beep.structure.cli import auto_load
    if dispatch and rng.random() < 0.5:
        dp = auto_load(path)
        return dp, "auto"
    return cls.from_file(path), "direct"


def run_case(kind, rng, obs):
    tz = rng.choice([None, None, "Asia/Tokyo", "America/New_York"])
    old = os.environ.get("TZ")
    try:
        if tz:
            os.environ["TZ"] = tz
            time.tzset()
        with scratch() as d:
            # what the folders are called does not matter
            sub = rng.choice([None, None, "CH2_export", "neware_run", "PreDiag_000287_000128", "FastCharge", "a_C.txt", "x timeseries"])
            if sub:
                d = os.path.join(d, sub)
                os.mkdir(d)
            globals()["_" + kind](rng, obs, d, tz)
    finally:
        if tz:
            os.environ.pop("TZ", None)
            if old is not None:
                os.environ["TZ"] = old
            time.tzset()


def iso_ok(got, want_utc):
    g = dt.datetime.fromisoformat(got)
    return g.utcoffset() == dt.timedelta(0) and abs((g.replace(tzinfo=None) - want_utc).total_seconds()) < 2e-3


def _arbin(rng, obs, d, tz):
    from beep.structure.arbin import ArbinDatapath
    recs = series(rng, rng.choice([1, 2, 4]))
    t0 = rng.uniform(1.4e9, 1.65e9)
    prefix = rng.choice(["2017-05-09_test", "Iris", "PreDiag", "Talos", "PriorLAMVal", "FastCharge", "LAMVal", "nope"])
    path = os.path.join(d, f"{prefix}_a_CH{rng.randrange(1, 99)}.csv")
    hdr = ["Data_Point", "Test_Time", "DateTime", "Step_Time", "Step_Index", "Cycle_Index", "Current", "Voltage",
           "Charge_Capacity", "Discharge_Capacity", "Charge_Energy", "Discharge_Energy", "dV/dt", "Internal_Resistance",
           "Temperature"]
    if rng.random() < 0.3:
        hdr = [h.lower() for h in hdr]
    gap = rng.randrange(len(recs)) if rng.random() < 0.3 else None
    with open(path, "w") as f:
        f.write("," + ",".join(hdr) + "\n")
        for k, r in enumerate(recs):
            temp = "" if gap == k else repr(r["T"])
            f.write(",".join(map(str, [k, k, r["t"], repr(t0 + r["t"]), r["st"], r["step"], r["cycle"], repr(r["i"]), repr(r["v"]),
                                       repr(r["qc"]), repr(r["qd"]), repr(r["ec"]), repr(r["ed"]), 0.1, repr(r["ir"]), temp])) + "\n")
    meta = rng.random() < 0.7
    elsewhere = meta and rng.random() < 0.3
    mpath = os.path.join(d, "about.csv") if elsewhere else path.replace(".csv", "_Metadata.csv")
    if meta:
        with open(mpath, "w") as f:
            f.write(",Test_ID,Device_ID,IV_Ch_ID,First_Start_DateTime,Schedule_File_Name,Item_ID\n"
                    "0,144,60369369,32,1494377253,20170509-6C.sdu,EL150800460659\n")
            if rng.random() < 0.3:
                f.write("1,145,60369369,33,1494999999,other.sdu,EL2\n")
    if elsewhere:
        if rng.random() < 0.5:
            with open(path.replace(".csv", "_Metadata.csv"), "w") as f:
                f.write(",Test_ID,IV_Ch_ID,Schedule_File_Name,Item_ID\n0,1,1,wrong.sdu,WRONG\n")
        dp, how = ArbinDatapath.from_file(path, metadata_path=mpath), "elsewhere"
        obs.require(dp.paths["metadata"] == mpath, lambda: f"metadata path {dp.paths}")
    else:
        dp, how = load(rng, ArbinDatapath, path)
    obs.require(type(dp) is ArbinDatapath, lambda: f"loaded as {type(dp).__name__}")
    check(obs, dp.raw_data, recs, {
        "data_point": lambda r: recs.index(r), "test_time": lambda r: r["t"], "step_time": lambda r: r["st"],
        "step_index": lambda r: r["step"], "cycle_index": lambda r: r["cycle"], "current": lambda r: r["i"],
        "voltage": lambda r: r["v"], "charge_capacity": lambda r: r["qc"], "discharge_capacity": lambda r: r["qd"],
        "charge_energy": lambda r: r["ec"], "discharge_energy": lambda r: r["ed"], "internal_resistance": lambda r: r["ir"],
        "temperature": lambda r: math.nan if gap is not None and r is recs[gap] else r["T"]})
    for k, r in enumerate(recs):
        got = dp.raw_data["date_time_iso"].iloc[k]
        want = dt.datetime(1970, 1, 1) + dt.timedelta(seconds=t0 + r["t"])
        obs.require(iso_ok(got, want), lambda: f"record {k}: timestamp {got}, the file says {want}Z")
    m = dp.metadata
    if meta:
        obs.require((m.barcode, m.protocol, m.channel_id) == ("EL150800460659", "20170509-6C.sdu", 32),
                    lambda: f"metadata {m.raw}")
        obs.require(m.raw.get("start_datetime") == 1494377253 and m.raw.get("test_id") == 144, "metadata fields lost")
    else:
        obs.require(m.barcode is None and dp.paths.get("metadata") is None, "metadata invented")
    want = {"Iris": "schema-arbin-nmc-phev.yaml", "Talos": "schema-arbin-18650-2170.yaml",
            "PriorLAMVal": "schema-arbin-18650-2170.yaml", "LAMVal": "schema-arbin-18650-2170.yaml"}.get(
                prefix, "schema-arbin-lfp.yaml")
    obs.require(os.path.basename(dp.schema) == want, lambda: f"project {prefix} validated against {dp.schema}")
    obs.describe(f"arbin {prefix} {len(recs)} records tz={tz}")
    obs.saw("arbin", prefix, meta, how, tz, gap is None)


def _battery_archive(rng, obs, d, tz):
    from beep.structure.battery_archive import BatteryArchiveDatapath
    recs = series(rng, rng.choice([1, 2, 4]))
    if rng.random() < 0.3:
        recs = recs[:rng.randrange(1, len(recs) + 1)]
    start = dt.datetime(2019, 3, 9, 20) + dt.timedelta(seconds=rng.randrange(86400 * 300))
    path = os.path.join(d, rng.choice(["UL_NCA_a_timeseries.csv", "SNL_18650_LFP_15C_0-100_0.5-1C_a_timeseries.csv",
                                       "CALCE_CX2-16_prism_LCO_25C_0-100_0.5-0.5C_a_timeseries.csv"]))
    env = rng.random() < 0.5
    with open(path, "w") as f:
        f.write("Date_Time,Test_Time (s),Cycle_Index,Current (A),Voltage (V),Charge_Capacity (Ah),Discharge_Capacity (Ah),"
                "Charge_Energy (Wh),Discharge_Energy (Wh)," + ("Environment_Temperature (C)," if env else "") +
                "Cell_Temperature (C)\n")
        for r in recs:
            now = start + dt.timedelta(seconds=r["t"])
            f.write(",".join(map(str, [now.strftime("%Y-%m-%d %H:%M:%S.%f"), r["t"], r["cycle"], repr(r["i"]), repr(r["v"]),
                                       repr(r["qc"]), repr(r["qd"]), repr(r["ec"]), repr(r["ed"])] + ([22] if env else [])
                                 + [repr(r["T"])])) + "\n")
    # time since the current last changed direction
    since, prev = {}, None
    for r in recs:
        if r["kind"] != prev:
            t_start, prev = r["t"], r["kind"]
        since[id(r)] = r["t"] - t_start
    dp, how = load(rng, BatteryArchiveDatapath, path)
    obs.require(type(dp) is BatteryArchiveDatapath, lambda: f"loaded as {type(dp).__name__}")
    check(obs, dp.raw_data, recs, {
        "test_time": lambda r: r["t"], "cycle_index": lambda r: r["cycle"], "current": lambda r: r["i"],
        "voltage": lambda r: r["v"], "charge_capacity": lambda r: r["qc"], "discharge_capacity": lambda r: r["qd"],
        "charge_energy": lambda r: r["ec"], "discharge_energy": lambda r: r["ed"], "temperature": lambda r: r["T"],
        "step_index": lambda r: {"R": 1, "C": 2, "D": 3}[r["kind"]], "step_time": lambda r: since[id(r)]}, ab=1e-6)
    for k, r in enumerate(recs):
        got = dp.raw_data["date_time_iso"].iloc[k]
        obs.require(iso_ok(got, start + dt.timedelta(seconds=r["t"])), lambda: f"record {k}: timestamp {got}")
        got = dp.raw_data["date_time"].iloc[k]
        want = (start + dt.timedelta(seconds=r["t"]) - dt.datetime(1970, 1, 1)).total_seconds()
        obs.require(abs(got - want) < 1e-2, lambda: f"record {k}: date_time {got!r}, the file says {want!r} seconds since the epoch")
    obs.describe(f"battery archive {len(recs)} records tz={tz}")
    obs.saw("battery_archive", len(recs) == 1, recs[-1]["first"], how, tz, env, {r["kind"] for r in recs})


def hms(s):
    h, rest = divmod(s, 3600)
    m, sec = divmod(rest, 60)
    return f"{int(h)}:{int(m):02d}:{sec:06.3f}"


def _neware(rng, obs, d, tz):
    from beep.structure.neware import NewareDatapath
    recs = series(rng, rng.choice([1, 2, 3]))
    scale = rng.choice([1, 1, 300])
    if scale > 1:
        for r in recs:
            r["st"] *= scale
    start = dt.datetime(2019, 11, 3, 0, 40) if rng.random() < 0.2 else dt.datetime(2019, 1, 5) + dt.timedelta(seconds=rng.randrange(86400 * 50))
    path = os.path.join(d, "cell_neware_a.csv")
    rec_cols = ["Record ID", "Time(h:min:s.ms)", "Voltage(V)", "Current(mA)", "Temperature(C)", "Capacity(mAh)",
                "Capacity Density(mAh/g)", "Energy(mWh)", "CmpEng(mWh/g)", "Capacitance_Chg(mAh)", "Capacitance_DChg(mAh)",
                "Engy_Chg(mWh)", "Engy_DChg(mWh)", "Realtime", "Min-T(C)", "Max-T(C)", "Avg-T(C)", "Power(mW)", "dQ/dV(mAh/V)",
                "dQm/dV(mAh/V.g)"]
    # test time adds up the durations of the steps
    total, prev_end, tt = 0.0, 0.0, []
    for r in recs:
        if r["first"]:
            total += prev_end
        prev_end = r["st"]
        tt.append(total + r["st"])
    irs = []
    with open(path, "w", encoding="ISO-8859-1") as f:
        f.write('"Cycle ID","Cap_Chg(mAh)","Cap_DChg(mAh)",\n')
        f.write(',"Step ID","Step Name","DCIR(O)",\n')
        f.write(',,' + ",".join(f'"{c}"' for c in rec_cols) + ',"",\n')
        cyc, n = None, 0
        for k, r in enumerate(recs):
            if r["cycle"] != cyc:
                cyc = r["cycle"]
                f.write(f'"{cyc}","0","0",\n')
            if r["first"]:
                ir = None if rng.random() < 0.3 else round(r["ir"] * rng.choice([1, 1000, 1e5]), 3)
                f.write(f',"{r["step"]}","CC","' + ("\t-" if ir is None else str(ir)) + '",\n')
            irs.append(ir)
            n += 1
            now = (start + dt.timedelta(seconds=tt[k])).replace(microsecond=0)
            r["now"] = now
            vals = [n, hms(r["st"]), repr(r["v"]), repr(r["i"] * 1000), repr(r["T"]), 0, 0, 0, 0, repr(r["qc"] * 1000),
                    repr(r["qd"] * 1000), repr(r["ec"] * 1000), repr(r["ed"] * 1000), "\t" + now.strftime("%m/%d/%Y %H:%M:%S"),
                    0, 0, 0, 0, 0, 0]
            f.write(',,' + ",".join(f'"{v}"' for v in vals) + ',"",\n')
    # a missing resistance takes the last known one (or the first known one)
    known = [x for x in irs if x is not None]
    fill, last = [], None
    for x in irs:
        last = x if x is not None else last
        fill.append(last)
    fill = [x if x is not None else (known[0] if known else math.nan) for x in fill]
    where = os.getcwd()
    dp, how = load(rng, NewareDatapath, path)
    obs.require(os.getcwd() == where, "loading changed the working directory")
    obs.require(type(dp) is NewareDatapath, lambda: f"loaded as {type(dp).__name__}")
    pos = {id(r): k for k, r in enumerate(recs)}
    check(obs, dp.raw_data, recs, {
        "data_point": lambda r: pos[id(r)] + 1, "cycle_index": lambda r: r["cycle"], "step_index": lambda r: r["step"],
        "step_time": lambda r: r["st"], "test_time": lambda r: tt[pos[id(r)]], "current": lambda r: r["i"],
        "voltage": lambda r: r["v"], "temperature": lambda r: r["T"], "charge_capacity": lambda r: r["qc"],
        "discharge_capacity": lambda r: r["qd"], "charge_energy": lambda r: r["ec"], "discharge_energy": lambda r: r["ed"],
        "internal_resistance": lambda r: fill[pos[id(r)]]}, ab=1e-6)
    for k, r in enumerate(recs):
        want = pacific_to_utc(r["now"])
        if want is not None:
            got = dp.raw_data["date_time_iso"].iloc[k]
            obs.require(iso_ok(got, want), lambda: f"record {k}: {r['now']} became {got}")
    obs.describe(f"neware {len(recs)} records, resistances {irs[:4]}")
    obs.saw("neware", how, tz, None in irs, scale, len({r["cycle"] for r in recs}))


def _indigo(rng, obs, d, tz):
    from beep.structure.indigo import IndigoDatapath
    recs = series(rng, rng.choice([1, 2, 4]), rests=False)
    t0 = rng.randrange(1_500_000_000_000_000, 1_700_000_000_000_000)
    path = os.path.join(d, "indigo_a.h5")
    half, prev, h = [], None, 0
    for r in recs:
        if r["kind"] != prev:
            prev = r["kind"]
            h += 1 if half else (1 if r["kind"] == "C" else 2)
        half.append(h)
    ints = ["cell_id", "experiment_count", "cycle_count", "half_cycle_count", "experiment_type"]
    longs = ["system_time_us"]
    floats = ["time_s", "cell_coulomb_count_c", "cell_current_a", "cell_temperature_c", "cell_power_w", "cell_energy_j",
              "cell_voltage_v"]
    for lst in (ints, floats):
        if rng.random() < 0.5:
            rng.shuffle(lst)
    axis0 = ints + longs + floats
    mixed = rng.random() < 0.5
    if mixed:
        rng.shuffle(axis0)
    down = rng.choice([-1, -1, 1])  # counters of discharges may be counted either way
    sgn = lambda r: 1 if r["kind"] == "C" else down  # noqa: E731
    val = {
        "cell_id": lambda k, r: 7, "experiment_count": lambda k, r: 1, "cycle_count": lambda k, r: r["cycle"],
        "half_cycle_count": lambda k, r: half[k], "experiment_type": lambda k, r: 2,
        "system_time_us": lambda k, r: t0 + int(r["t"] * 1e6), "time_s": lambda k, r: r["t"],
        "cell_coulomb_count_c": lambda k, r: sgn(r) * 3600 * (r["qc"] if r["kind"] == "C" else r["qd"]),
        "cell_current_a": lambda k, r: r["i"], "cell_temperature_c": lambda k, r: r["T"], "cell_power_w": lambda k, r: 1.0,
        "cell_energy_j": lambda k, r: sgn(r) * 3600 * (r["ec"] if r["kind"] == "C" else r["ed"]),
        "cell_voltage_v": lambda k, r: r["v"],
    }
    with h5py.File(path, "w") as f:
        g = f.create_group("time_series_data")
        g["axis0"] = np.array([x.encode() for x in axis0])
        g["axis1"] = np.arange(len(recs)) + rng.choice([0, 500])
        for b, (names, typ) in enumerate(((ints, "i4"), (longs, "i8"), (floats, "f8"))):
            g[f"block{b}_items"] = np.array([x.encode() for x in names])
            g[f"block{b}_values"] = np.array([[val[c](k, r) for c in names] for k, r in enumerate(recs)], dtype=typ)
    dp, how = load(rng, IndigoDatapath, path)
    obs.require(type(dp) is IndigoDatapath, lambda: f"loaded as {type(dp).__name__}")
    pos = {id(r): k for k, r in enumerate(recs)}
    on = lambda r, k, key: r[key] if r["kind"] == k else 0  # noqa: E731
    check(obs, dp.raw_data, recs, {
        "cycle_index": lambda r: r["cycle"], "step_index": lambda r: half[pos[id(r)]], "current": lambda r: r["i"],
        "voltage": lambda r: r["v"], "temperature": lambda r: r["T"], "charge_capacity": lambda r: on(r, "C", "qc"),
        "discharge_capacity": lambda r: on(r, "D", "qd"), "charge_energy": lambda r: on(r, "C", "ec"),
        "discharge_energy": lambda r: on(r, "D", "ed"), "data_point": lambda r: pos[id(r)]})
    for k, r in enumerate(recs):
        got = dp.raw_data["date_time_iso"].iloc[k]
        obs.require(iso_ok(got, dt.datetime(1970, 1, 1) + dt.timedelta(microseconds=t0 + int(r["t"] * 1e6))),
                    lambda: f"record {k}: timestamp {got}")
        ir = dp.raw_data["internal_resistance"].iloc[k]
        obs.require(same(ir, r["v"] / r["i"], 1e-6, 0), lambda: f"record {k}: internal resistance {ir}, {r['v']} V at {r['i']} A")
    obs.require(dp.metadata.raw["indigo_cell_id"] == 7, "cell id lost")
    first = min(range(len(recs)), key=lambda k: recs[k]["t"])
    obs.require(dp.metadata.raw["start_datetime"] == dp.raw_data["date_time_iso"].iloc[first], lambda: f"start {dp.metadata.raw}")
    if len(recs) > 1 and rng.random() < 0.2:
        with h5py.File(path, "a") as f:
            f["time_series_data"]["block0_values"][rng.randrange(len(recs)), ints.index("cell_id")] = 8
        try:
            IndigoDatapath.from_file(path)
        except ValueError:
            pass
        else:
            obs.require(False, "a file with records of two cells was loaded")
    obs.describe(f"indigo {len(recs)} records, column order mixed={mixed}")
    obs.saw("indigo", how, tz, mixed, len({r["cycle"] for r in recs}))


def _biologic(rng, obs, d, tz):
    from beep.structure.biologic import BiologicDatapath
    recs = series(rng, rng.choice([1, 2, 4]))
    txt = rng.random() < 0.4
    sep, enc, ext = ("\t", "iso-8859-1", ".txt") if txt else (";", "utf-8", ".csv")
    start = dt.datetime(2021, 11, 7, 0, 40) if rng.random() < 0.2 else dt.datetime(2021, 3, 12) + dt.timedelta(seconds=rng.randrange(86400 * 250))
    path = os.path.join(d, "loops_MB_CE1" + ext)
    letter, num = rng.choice("ABEG"), rng.randrange(1, 9)
    meta = (f"BT-Lab LOG FILE\r\n\r\nModulo Bat\r\n\r\nRun on channel : {letter}{num} (SN 0600)\r\nUser : \r\n"
            "Comments : CELL_77\r\nCycle Definition : Charge/Discharge alternance\r\nctrl_type  CC\r\n\r\n")
    cols = ["", "mode", "time/s", "Ecell/V", "I/mA", "cycle number", "Q charge/mA.h", "Q discharge/mA.h", "Energy charge/W.h",
            "Energy discharge/W.h", "Ns", "T/°C", "Capacity/mA.h"]
    body = cols[1:-1]
    # cycles as the cycler counts them, as told by the file, or by the rules of the converted procedure
    counting = rng.choice(["cycler"] * 4 + ["column", "rules", "rules with loops"])
    rules = None
    if counting == "column":
        body.append("cycle_index")
    if counting.startswith("rules"):
        seqs = sorted({r["step"] for r in recs})
        moves = {(a, b): rng.choice([0, 1, 1, 2]) for a in seqs for b in seqs if a != b and rng.random() < 0.5}
        rules = {"tech_num": rng.randrange(1, 5), "tech_does_loop": True, "adv_cycle_on_start": rng.choice([0, 1]),
                 "adv_cycle_on_tech_loop": rng.choice([0, 1, 2]),
                 "adv_cycle_seq_transitions": [{"source": a, "target": b, "adv_cycle_count": n} for (a, b), n in moves.items()],
                 "debug_adv_cycle_on_step_transitions": []}
        if counting == "rules with loops":
            body.append("Loop")
    rng.shuffle(body)
    cols = [cols[0]] + body + [cols[-1]]
    lines = []
    loop, cyc = rng.choice([0, 3]), 1 + (rules["adv_cycle_on_start"] if rules else 0)
    offset = rng.choice([0, 5, 120])
    for k, r in enumerate(recs):
        if k:
            prev = recs[k - 1]
            if counting == "rules with loops" and (rng.random() < 0.1 or r["step"] < prev["step"] and rng.random() < 0.5):
                loop += 1
                cyc += rules["adv_cycle_on_tech_loop"]
            elif rules and prev["step"] != r["step"]:
                cyc += moves.get((prev["step"], r["step"]), 0)
        r["counted"] = r["cycle"] if counting == "cycler" else r["cycle"] + offset if counting == "column" else cyc
        r["now"] = start + dt.timedelta(seconds=r["t"])
        v = {"": k, "mode": 1, "time/s": r["now"].strftime("%m/%d/%Y %H:%M:%S.%f"), "Ecell/V": repr(r["v"]),
             "I/mA": repr(r["i"] * 1000), "cycle number": repr(float(r["cycle"])), "Q charge/mA.h": repr(r["qc"] * 1000),
             "Q discharge/mA.h": repr(r["qd"] * 1000), "Energy charge/W.h": repr(r["ec"]),
             "Energy discharge/W.h": repr(r["ed"]), "Ns": r["step"], "T/°C": 25.0, "Capacity/mA.h": 0.5,
             "cycle_index": r["counted"], "Loop": loop}
        lines.append(sep.join(str(v[c]) for c in cols))
    with open(path, "wb") as f:
        if txt:
            f.write(meta.encode(enc))
        f.write((sep.join(cols) + "\r\n").encode(enc))
        f.write(("\r\n".join(lines) + rng.choice(["", "\r\n"])).encode(enc))
    if not txt:
        with open(path.replace(".csv", ".mpl"), "wb") as f:
            f.write(meta.encode(enc))
    if rules:
        rf = os.path.join(d, "rules.json")
        with open(rf, "w") as f:
            json.dump(rules, f)
        dp, how = BiologicDatapath.from_file(path, mapping_file=rf), counting
    else:
        dp, how = load(rng, BiologicDatapath, path)
    obs.require(type(dp) is BiologicDatapath, lambda: f"loaded as {type(dp).__name__}")
    pos = {id(r): k for k, r in enumerate(recs)}
    check(obs, dp.raw_data, recs, {
        "cycle_index": lambda r: r["counted"], "step_index": lambda r: r["step"], "voltage": lambda r: r["v"],
        "current": lambda r: r["i"], "charge_capacity": lambda r: r["qc"], "discharge_capacity": lambda r: r["qd"],
        "charge_energy": lambda r: r["ec"], "discharge_energy": lambda r: r["ed"], "data_point": lambda r: pos[id(r)] + 1},
        ab=1e-12)
    check(obs, dp.raw_data, recs, {"test_time": lambda r: r["t"] - recs[0]["t"]}, ab=2e-6)
    for k, r in enumerate(recs):
        want = pacific_to_utc(r["now"])
        if want is not None:
            got = dp.raw_data["date_time_iso"].iloc[k]
            obs.require(iso_ok(got, want), lambda: f"record {k}: {r['now']} became {got}")
    m = dp.metadata
    obs.require(m.barcode == "CELL_77" and m.channel_id == int(f"{ord(letter) - 64}{num}"), lambda: f"metadata {m.raw}")
    obs.require(m.protocol is not None, "protocol lost")
    out = os.path.join(d, "saved.json")
    dp.to_json_file(out, omit_raw=False)
    back = BiologicDatapath.from_json_file(out)
    obs.require(back.metadata.protocol == m.protocol and len(back.raw_data) == len(recs), "a saved run differs")
    obs.describe(f"biologic {ext} {len(recs)} records")
    obs.saw("biologic", ext, how, counting, tz, len({r["cycle"] for r in recs}), letter)


def _novonix(rng, obs, d, tz):
    from beep.structure.novonix import NovonixDatapath
    fmt = rng.choice(["%Y-%m-%d %I:%M:%S %p", "%m/%d/%Y %I:%M:%S %p"])
    start = dt.datetime(2022, 4, 11, 9) + dt.timedelta(seconds=rng.randrange(86400 * 200))
    recs, t = [], 0.0
    cyc0 = rng.choice([0, 1])
    for c in range(rng.choice([1, 2, 4])):
        style = rng.choice(["full", "full", "nocharge", "chargeonly"])
        q, e = (0.0, 0.0) if style != "nocharge" else (0.25, 0.9)
        steps = []
        if rng.random() < 0.5:
            steps.append(0)
        if style != "nocharge":
            steps += rng.choice([[1], [7], [7, 8], [1, 8]])
        if style != "chargeonly":
            if steps and rng.random() < 0.4:
                steps.append(0)
            steps += rng.choice([[2], [9], [2, 10]])
        if rng.random() < 0.3:
            steps.append(0)
        for s in steps:
            for r in range(rng.randrange(1, 6)):
                dtm = rng.uniform(10, 900)
                t += dtm
                i = {0: 0.0, 1: 0.1, 7: 0.1, 8: 0.05}.get(s, -0.1)
                v = rng.uniform(2.5, 4.2)
                q += i * dtm / 3600
                e += i * v * dtm / 3600
                recs.append(dict(cycle=cyc0 + c, step=s, t=t / 3600, st=r * 0.01, i=i, v=v, q=q, e=e, T=rng.uniform(20, 40),
                                 now=(start + dt.timedelta(seconds=t)).replace(microsecond=0)))
    path = os.path.join(d, "nova.csv")
    barcode = rng.choice(["", "SN0042"])
    with open(path, "w", encoding="utf-8") as f:
        f.write("[Summary]\nNovonix HPC data file\nNovonix\nChannel: 07\nCell: a.csv\n"
                f"Serial Number: {barcode}\nDescription: d\nProtocol: XC.pro1\nMass (g): 1.000\nCapacity (Ah): 0.24\n"
                "Area (cm2): 1.000\nDC Offset Voltage (V): 0.00000\nVersion: 2.2.1.6\n[End Summary]\n[Protocol]\nProtocol: zzz\n"
                + "".join(f"[Step]\n1.{k} : CC\n[End Step]\n" for k in range(rng.choice([0, 3, 60]))) + "[End Protocol]\n[Data]\n")
        f.write("Date and Time,Cycle Number,Step Type,Run Time (h),Step Time (h),Current (A),Potential (V),Capacity (Ah),"
                "Temperature (°C),Energy (Wh),Circuit Temperature (°C),Step Number,Step position\n")
        for r in recs:
            f.write(",".join(map(str, [r["now"].strftime(fmt), r["cycle"], r["step"], repr(r["t"]), r["st"], r["i"], repr(r["v"]),
                                       repr(r["q"]), repr(r["T"]), repr(r["e"]), 30.0, 1, 1])) + "\n")
    spath = table = None
    if rng.random() < 0.5:
        spath = os.path.join(d, "nova_summary.csv")
        if rng.random() < 0.7:
            table = {k: [round(rng.uniform(0, 5), 4) for _ in range(3)] for k in ("Discharge Capacity", "AverageDischargeVoltage")}
            with open(spath, "w") as f:
                f.write("," + ",".join(table) + "\n")
                for k in range(3):
                    f.write(f"{k}," + ",".join(str(table[c][k]) for c in table) + "\n")
    dp = NovonixDatapath.from_file(path, summary_path=spath) if spath else NovonixDatapath.from_file(path)
    obs.require(dp.external_summary == table, lambda: f"external summary {dp.external_summary}, the file says {table}")
    obs.require(dp.paths.get("summary") == (spath if table else None), lambda: f"summary path {dp.paths}")
    obs.require(NovonixDatapath.external_summary is None, "a summary was attached to all Novonix runs")
    raw = dp.raw_data
    check(obs, raw, recs, {
        "cycle_index": lambda r: r["cycle"], "step_index": lambda r: r["step"], "test_time": lambda r: 3600 * r["t"],
        "step_time": lambda r: 3600 * r["st"], "current": lambda r: r["i"], "voltage": lambda r: r["v"],
        "temperature": lambda r: r["T"]})
    chg = (1, 7, 8)
    for k, r in enumerate(recs):
        mates = [x for x in recs if x["cycle"] == r["cycle"]]
        row = raw.iloc[k]
        if r["step"] in chg:
            for col, key in (("charge_capacity", "q"), ("charge_energy", "e")):
                obs.require(same(row[col], r[key], 1e-6, 1e-9), lambda: f"record {k}: {col} {row[col]} != {r[key]}")
            obs.require(math.isnan(row["discharge_capacity"]), "a charging record carries discharge capacity")
        elif r["step"] != 0:
            for col, key in (("discharge_capacity", "q"), ("discharge_energy", "e")):
                top = [x[key] for x in mates if x["step"] in chg] or [x[key] for x in mates]
                want = max(top) - r[key]
                obs.require(same(row[col], want, 1e-6, 1e-9),
                            lambda: f"record {k} cycle {r['cycle']}: {col} is {row[col]}, withdrawn so far {want}")
            obs.require(math.isnan(row["charge_capacity"]), "a discharging record carries charge capacity")
        else:
            # at rest: what the cycle has withdrawn so far
            for col, key in (("discharge_capacity", "q"), ("discharge_energy", "e")):
                before = [x for x in recs[:k] if x["cycle"] == r["cycle"] and x["step"] not in chg and x["step"] != 0]
                top = [x[key] for x in mates if x["step"] in chg] or [x[key] for x in mates]
                want = max(top) - before[-1][key] if before else 0.0
                obs.require(same(row[col], want, 1e-6, 1e-9),
                            lambda: f"record {k} cycle {r['cycle']}, at rest: {col} is {row[col]}, withdrawn so far {want}")
        obs.require(row["step_type"] == ("charge" if r["step"] in chg else "discharge"), f"record {k}: wrong step type")
        obs.require(row["date_time_iso"] == r["now"].isoformat(), lambda: f"record {k}: {r['now']} became {row['date_time_iso']}")
    m = dp.metadata
    obs.require(m.barcode == (barcode or None) and m.protocol == "XC.pro1", lambda: f"metadata {m.raw}")
    if rng.random() < 0.15:
        # a step kind nobody knows is neither charge nor discharge
        with open(path, encoding="utf-8") as f:
            lines = f.read().split("\n")
        k = len(lines) - 2
        parts = lines[k].split(",")
        parts[2] = str(rng.choice([3, 5, 42]))
        lines[k] = ",".join(parts)
        with open(path, "w", encoding="utf-8") as f:
            f.write("\n".join(lines))
        try:
            NovonixDatapath.from_file(path)
        except ValueError:
            pass
        else:
            obs.require(False, "a record of an unknown step kind was loaded")
    obs.describe(f"novonix {len(recs)} records")
    obs.saw("novonix", fmt, tz, tuple(sorted({r["step"] for r in recs}))[:4], barcode)


def _unknown(rng, obs, d, tz):
    from beep.structure.cli import auto_load
    name = rng.choice(["readme.txt", "data.xlsx", "run.json", "abc.dat", "notes", "cell.mpr", "results.parquet"])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write("x\n")
    try:
        got = auto_load(path)
    except ValueError:
        obs.require(True, "")
    else:
        obs.require(False, f"{name} was loaded as {type(got).__name__}")
    obs.saw("unknown", name)
