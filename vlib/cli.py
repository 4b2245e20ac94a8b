"""Runs the command line of the working tree in this process, and writes raw files it can structure."""
import hashlib
import json
import os
import random
import time

FRAMES = ("structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary", "raw_data")


class Outcome:
    pass


def invoke(cwd, args):
    from beep import logger
    from beep.cmd import cli
    from click.testing import CliRunner
    handlers = list(logger.handlers)
    os.chdir(cwd)
    o = Outcome()
    started = time.monotonic()
    try:
        r = CliRunner().invoke(cli, [str(a) for a in args], catch_exceptions=True)
        o.code, o.error, o.output = r.exit_code, r.exception, r.output
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # what beep derives from BaseException ends the program like any other error
        o.code, o.error, o.output = 1, e, ""
    finally:
        o.elapsed = time.monotonic() - started
        for h in list(logger.handlers):
            if h not in handlers:
                logger.removeHandler(h)
                h.close()
    return o


def md5(path):
    return hashlib.md5(open(path, "rb").read()).hexdigest()


def tree(*roots):
    """every file below the folders with its digest"""
    out = {}
    for root in roots:
        for base, _, files in os.walk(root):
            for f in files:
                p = os.path.join(base, f)
                out[p] = md5(p)
    return out


def log_messages(path, skip=0):
    return [json.loads(line)["msg"] for line in open(path).read().splitlines()[skip:]]


def reported(messages, title):
    """the files listed below each heading of the report at the end of a log"""
    start = max((i for i, m in enumerate(messages) if title in m and m.strip().endswith("report:")), default=None)
    if start is None:
        return None
    out, heading = {}, None
    for m in messages[start + 1:]:
        if m.strip().startswith("- "):
            out[heading].append(m.strip()[2:])
        else:
            heading = m.strip()
            out[heading] = []
    return out


def status(path):
    return json.load(open(path))


def records(rng, cycles=None):
    out, t = [], 0.0
    for c in range(1, (cycles or rng.choice([2, 3, 5])) + 1):
        q = rng.uniform(0.7, 1.1)
        for k in ("C", "D"):
            n = rng.randrange(4, 9)
            st = 0.0
            for i in range(n):
                d = 0.0 if i == 0 else rng.choice([60.0, 300.0, 431.25])
                st, t = st + d, t + d
                f = i / (n - 1)
                out.append(dict(cycle=c, step=1 if k == "C" else 2, t=t, st=st, i=1.1 if k == "C" else -1.0,
                                v=2.0 + 1.55 * f if k == "C" else 3.5 - 1.5 * f, qc=q * f if k == "C" else q, qd=0.0 if k == "C" else q * 0.98 * f,
                                T=rng.uniform(25, 35), ir=0.0165))
            t += 10.0
    return out


def write_arbin(path, rng, recs, meta=True):
    hdr = ["Data_Point", "Test_Time", "DateTime", "Step_Time", "Step_Index", "Cycle_Index", "Current", "Voltage", "Charge_Capacity",
           "Discharge_Capacity", "Charge_Energy", "Discharge_Energy", "dV/dt", "Internal_Resistance", "Temperature"]
    with open(path, "w") as f:
        f.write("," + ",".join(hdr) + "\n")
        for k, r in enumerate(recs):
            f.write(",".join(map(str, [k, k, r["t"], 1.5e9 + r["t"], r["st"], r["step"], r["cycle"], r["i"], r["v"], r["qc"], r["qd"],
                                       r["qc"] * 3.2, r["qd"] * 3.1, 0.0, r["ir"], r["T"]])) + "\n")
    if meta:
        with open(path.replace(".csv", "_Metadata.csv"), "w") as f:
            f.write(",Test_ID,Device_ID,IV_Ch_ID,First_Start_DateTime,Schedule_File_Name,Item_ID\n"
                    f"0,144,60369369,32,1494377253,{rng.choice(['20170509-6C.sdu', 'PreDiag_000001.sdu'])},EL{rng.randrange(10 ** 6)}\n")


def write_archive(path, rng, recs):
    import datetime as dt
    start = dt.datetime(2019, 5, 1)
    with open(path, "w") as f:
        f.write("Date_Time,Test_Time (s),Cycle_Index,Current (A),Voltage (V),Charge_Capacity (Ah),Discharge_Capacity (Ah),"
                "Charge_Energy (Wh),Discharge_Energy (Wh),Environment_Temperature (C),Cell_Temperature (C)\n")
        for r in recs:
            now = start + dt.timedelta(seconds=r["t"])
            f.write(",".join(map(str, [now.strftime("%Y-%m-%d %H:%M:%S.%f"), r["t"], r["cycle"], r["i"], r["v"], r["qc"], r["qd"],
                                       r["qc"] * 3.2, r["qd"] * 3.1, 25.0, r["T"]])) + "\n")


class Raw:
    def __init__(self, path, state):
        self.path, self.state = path, state


def raw_file(rng, folder, stem, state=None):
    """a raw file in some state: good, invalid (breaks its schema), broken (not parsable), unknown (no such name), poor (cannot be structured)"""
    state = state or rng.choice(["good", "good", "good", "invalid", "broken", "unknown"])
    recs = records(rng)
    if rng.random() < 0.06:
        # a file larger than any buffer
        last = recs[-1]
        for i in range(rng.choice([900, 1500])):
            recs.append(dict(last, t=last["t"] + (i + 1) * 5.0, st=last["st"] + (i + 1) * 5.0, qd=last["qd"] + 1e-5 * i, v=last["v"] - 1e-6 * i))
    if state == "invalid":
        r = rng.choice(recs)
        r["T"] = rng.choice([-40.0, 400.0])
        r["v"] = 17.0
    if state == "unknown":
        path = os.path.join(folder, stem + ".xyz")
        open(path, "w").write("x\n")
        return Raw(path, state)
    if state == "broken":
        path = os.path.join(folder, stem + "_CH7.csv")
        open(path, "w").write(rng.choice(["", "no,such\n1,2\n", "Data_Point;Test_Time\n1;2\n"]))
        return Raw(path, state)
    if rng.random() < 0.6:
        path = os.path.join(folder, stem + "_CH%d.csv" % rng.randrange(1, 60))
        write_arbin(path, rng, recs, rng.random() < 0.7)
    else:
        path = os.path.join(folder, stem + "_timeseries.csv")
        write_archive(path, rng, recs)
    return Raw(path, state)


def stem(rng):
    return rng.choice(["2017-05-09_test", "FastCharge_000025", "SNL_18650_LFP_15C_0-100_0.5-1C_a", "cell a", "PreDiag_000240_000227", "run.v2"])
