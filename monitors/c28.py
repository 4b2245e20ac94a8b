"""C28 - Project parameters, diagnostic ranges and structuring parameters are those of the run's own project and row."""
import os
import types

import pandas as pd

from monitors.c04 import scratch

ID = "C28"
RULE = (
    "Directories of project tables (projects with names that start alike, permuted rows, gaps, missing projects and rows, two tables "
    "for one project) and raw runs with initial, regular, repeated and final diagnostics are given to the real look-ups; the "
    "result is compared with the generated tables and the generated positions of the diagnostics. Non-trivial: a look-up which "
    "found its row, or one which must not; distinct by (what is there, layout of the run)."
)
KINDS = {"row": (720, 7680), "diag": (480, 5120), "structuring": (720, 7680)}
MIN_SIGNATURES = 40
NAMES = ["Q[D]", "PreDiag", "Pre", "PreDiagX", "PreDiag2", "Talos", "TalosB", "Form", "FormDegrade"]
WEIRD = ["params", "my params", "a.b", "runs [2020]", "x*y"]


def table(rng, name, seqs, diag=True):
    rows = []
    for s in seqs:
        r = {"project_name": name, "seq_num": s, "template": rng.choice(["diagnosticV2.000", "diagnosticV4.000"]),
             "charge_constant_current_1": rng.choice([0.5, 1, 2, 3.6]), "charge_cutoff_voltage": round(rng.uniform(3.6, 4.4), 3),
             "discharge_cutoff_voltage": round(rng.uniform(2.0, 3.3), 3), "capacity_nominal": round(rng.uniform(0.5, 30), 3)}
        if diag:
            r.update({"diagnostic_type": rng.choice(["HPPC+RPT"] * 6 + ["HPPC", "HPPC+RPT2", "RPT"]), "diagnostic_parameter_set": rng.choice(["Tesla21700", "PHEVNMC", "BJ"]),
                      "diagnostic_start_cycle": rng.choice([3, 5, 8]), "diagnostic_interval": rng.choice([4, 6, 9])})
        rows.append(r)
    return pd.DataFrame(rows)


def project_name(name, rng):
    seq = rng.choice([5, 42, 100, 287, 12345, 123456, 1234567])
    return seq, f"{name}_{seq:06d}" + rng.choice(["", "_00008A", "_0001B2.023", ".092", "_000128.092", "_extra_bits"])


def setup(rng, d, diag=True):
    """tables of some projects in a directory; -> (directory, {project: frame})"""
    path = os.path.join(d, rng.choice(WEIRD))
    os.makedirs(path)
    tables = {}
    for name in rng.sample(NAMES, rng.choice([1, 3, 5])):
        seqs = rng.sample(list(range(1, 400)) + [123456, 1234567, 1234568] * 20, rng.choice([1, 4, 12]))
        seqs = list(dict.fromkeys(seqs))
        tables[name] = table(rng, name, seqs, diag=diag)
        tables[name].to_csv(os.path.join(path, name + rng.choice(["_parameters - GP.csv", "_parameters.csv", ".csv", " - GP.csv"])), index=False)
    with open(os.path.join(path, "README.md"), "w") as f:
        f.write("not a table")
    return path, tables


def same_row(obs, got, want, what):
    for k, v in want.items():
        g = got[k]
        ok = g == v if isinstance(v, str) else abs(float(g) - float(v)) <= 1e-9 * max(1.0, abs(float(v)))
        obs.require(ok, lambda: f"{what}: {k} is {g!r}, the table says {v!r}")


def row(rng, obs):
    from beep.deprecated.parameters_lookup import get_project_sequence, get_protocol_parameters
    with scratch() as d:
        path, tables = setup(rng, d)
        name = rng.choice(list(tables) + rng.sample(NAMES, 2))
        seq, stem = project_name(name, rng)
        have = name in tables
        if have and rng.random() < 0.7:
            seq = int(rng.choice(list(tables[name].seq_num)))
            stem = f"{name}_{seq:06d}" + stem[len(name) + 7:] if seq < 10 ** 6 else stem
            stem = f"{name}_{seq:06d}" + rng.choice(["", "_00008A", ".092", "_000128.092", "_a_b.c.d"])
        full = os.path.join(rng.choice(["", "/data_1/raw.files", d, "Talos_000100"]), stem)
        parts = get_project_sequence(full)
        obs.require(parts == stem.split(".")[0].split("_"), lambda: f"parts of {full!r}: {parts}")
        twice = have and rng.random() < 0.1
        if twice:
            table(rng, name, [seq]).to_csv(os.path.join(path, name + "_second.csv"), index=False)
        try:
            got, every = get_protocol_parameters(full, path)
        except AssertionError as e:
            obs.require(twice, lambda: f"tables {sorted(os.listdir(path))}, {name}: {e}")
            obs.saw("row", "ambiguous")
            obs.count("ambiguous")
            return
        obs.require(not twice, "two tables for one project were not noticed")
        known = have and seq in set(tables[name].seq_num)
        if not known:
            obs.require(got is None and every is None, lambda: f"{name} {seq} is not in {sorted(tables)}, got {got}")
        else:
            obs.require(len(got) == 1, lambda: f"{len(got)} rows for {name} {seq}")
            want = tables[name][tables[name].seq_num == seq].iloc[0].to_dict()
            same_row(obs, got.iloc[0].to_dict(), want, f"{name} {seq}")
            obs.require(len(every) == len(tables[name]), lambda: f"the table of {name} has {len(every)} rows")
            for i in range(len(every)):
                same_row(obs, every.iloc[i].to_dict(), tables[name].iloc[i].to_dict(), f"{name} row {i}")
        obs.count("rows found" if known else "rows absent")
        obs.saw("row", have, known, sum(t.startswith(name) for t in tables), len(parts))
        obs.describe(f"{full}: tables {sorted(tables)}, found {known}")


def diag(rng, obs):
    from beep.deprecated.parameters_lookup import get_diagnostic_parameters
    with scratch() as d:
        path = os.path.join(d, rng.choice(WEIRD))
        os.makedirs(path)
        tables = {}
        for name in rng.sample(NAMES, rng.choice([1, 3, 5])):
            sets = rng.sample(["Tesla21700", "Tesla", "PHEVNMC", "BJ", "BJ_B", "A123", "A12"] if rng.random() < 0.7 else [1, 2, 11, 12, 21], rng.choice([1, 2, 4]))
            tables[name] = {s: (round(rng.uniform(2, 3), 3), round(rng.uniform(3.6, 4.4), 3)) for s in sets}
            pd.DataFrame([{"project_name": name, "diagnostic_parameter_set": s, "diagnostic_charge_cutoff_voltage": v[1],
                           "diagnostic_charge_constant_current": 0.5, "diagnostic_discharge_cutoff_voltage": v[0]} for s, v in tables[name].items()]
                         ).to_csv(os.path.join(path, name + rng.choice(["_diagnostic_parameters.csv", ".csv", " - DP.csv"])), index=False)
        name = rng.choice(list(tables) + rng.sample(NAMES, 1))
        if name in tables:
            pset = rng.choice(list(tables[name]))
            want = list(tables[name][pset])
        else:
            pset, want = "Tesla21700", [2.7, 4.2]
        got = get_diagnostic_parameters({"parameter_set": pset, "length": 5}, path, name)
        obs.require([float(x) for x in got] == want, lambda: f"{name} {pset}: range {got}, expected {want} of {tables}")
        obs.saw("diag", name in tables, len(tables), sum(t.startswith(name) for t in tables))
        obs.count("ranges")


def run(rng, start, interval, final):
    """raw records of a run; -> (frame, cycles at which a diagnostic starts, layout, final)"""
    cycles, starts = [], []
    first = {"reset": [1, 2, 3, 4], "hppc": list(range(5, 5 + rng.choice([6, 9]))), "r1": [21, 22, 23], "r2": [24, 25, 26, 27], "r3": [28, 29]}
    shift = lambda by: {k: [x + by for x in v] for k, v in first.items()}
    second = shift(50)
    if rng.random() < 0.5:  # the initial diagnostic has a step of its own
        first["reset"] = first["reset"] + [98]
    last = {k: [x + 100 for x in v] for k, v in rng.choice([first, second]).items()}

    def diagnostic(steps):
        starts.append(len(cycles) + 1)
        cycles.extend(steps[k] for k in ("reset", "hppc", "r1", "r2", "r3"))

    def regular(n, alike=False):
        if alike and n >= 5 and rng.random() < 0.4:
            # as many steps as in a diagnostic, but in the middle of the run
            cycles.extend([200 + 20 * i + j for j in range(len(first[k]))] for i, k in enumerate(("reset", "hppc", "r1", "r2", "r3")))
            n -= 5
        for _ in range(n):
            cycles.append(rng.choice([[40, 41, 42, 43, 44], first["reset"] + [60], second["reset"] + [60, 61], [40, 41, 42, 43, 44], [40, 41, 42, 44], [41, 43]]))
    diagnostic(first)
    layout = rng.choice(["short", "one", "two", "three"])
    if layout == "short":
        regular(rng.randrange(0, start + 1))
        final = False  # a final diagnostic before the first scheduled one is not part of the schedule
    else:
        regular(start, True)
        diagnostic(second)
        for _ in range({"one": 0, "two": 1, "three": 2}[layout]):
            regular(interval, True)
            diagnostic(rng.choice([second, second, first]))
        regular(rng.randrange(0, interval))
    if final:
        diagnostic(last)
        for _ in range(rng.choice([0, 0, 1, 2])):
            cycles.append([300])
    rows = []
    lead = rng.random() < 0.3
    for i, steps in enumerate(([[99]] if lead else []) + cycles):
        c = i if lead else i + 1
        for s in steps:
            rows.extend({"cycle_index": c, "step_index": s, "voltage": 3.5, "current": 1.0} for _ in range(rng.choice([1, 2, 5])))
    return pd.DataFrame(rows), starts, layout, final


def structuring(rng, obs):
    from beep.deprecated.parameters_lookup import determine_structuring_parameters
    with scratch() as d:
        with_diag = rng.random() < 0.8
        path, tables = setup(rng, d, diag=with_diag)
        name = rng.choice(list(tables))
        if not with_diag and rng.random() < 0.5:
            f = [x for x in os.listdir(path) if x.startswith(name) and not x[len(name)].isalnum()][0]
            tables[name] = tables[name].drop(columns=rng.choice([["capacity_nominal"], ["discharge_cutoff_voltage"], ["charge_cutoff_voltage", "capacity_nominal"]]))
            tables[name].to_csv(os.path.join(path, f), index=False)
        known = rng.random() < 0.85
        seq = int(rng.choice(list(tables[name].seq_num))) if known else 999
        mine = tables[name][tables[name].seq_num == seq].iloc[0] if known else None
        start, interval = (int(mine.diagnostic_start_cycle), int(mine.diagnostic_interval)) if known and with_diag else (5, 6)
        final = rng.random() < 0.4
        raw, starts, layout, final = run(rng, start, interval, final)
        before = raw.copy()
        dp = types.SimpleNamespace(paths={"raw": os.path.join(d, f"{name}_{seq:06d}_00012A.047")}, raw_data=raw)
        given = {"v_range": rng.choice([None, [2.5, 4.0]]), "resolution": rng.choice([100, 1000]), "nominal_capacity": rng.choice([1.1, 4.84]),
                 "full_fast_charge": rng.choice([0.8, 0.7])}
        if rng.random() < 0.3:
            given = {"v_range": None, "resolution": 1000, "nominal_capacity": 1.1, "full_fast_charge": 0.8}
            got = determine_structuring_parameters(dp, parameters_path=path)
        else:
            got = determine_structuring_parameters(dp, parameters_path=path, **given)
        v_range, resolution, nominal, fast, available = got
        obs.require(resolution == given["resolution"] and fast == given["full_fast_charge"], lambda: f"{got} from {given}")
        if not known:
            obs.require(v_range == given["v_range"] and nominal == given["nominal_capacity"] and available is False, lambda: f"{got} from {given} without parameters")
        else:
            t = tables[name]
            both = {"discharge_cutoff_voltage", "charge_cutoff_voltage"} <= set(t.columns)
            want = [min(t.discharge_cutoff_voltage), max(t.charge_cutoff_voltage)] if both else given["v_range"]
            obs.require(v_range == want or [float(x) for x in v_range] == want, lambda: f"range {v_range}, of the project {want}")
            want = float(mine.capacity_nominal) if "capacity_nominal" in t.columns else given["nominal_capacity"]
            obs.require(float(nominal) == want, lambda: f"nominal capacity {nominal}, of the row {want}")
            if not with_diag or mine.diagnostic_type != "HPPC+RPT":
                obs.require(available is False, lambda: f"diagnostics {available} of a project without")
            else:
                obs.require(available["parameter_set"] == mine.diagnostic_parameter_set, lambda: f"{available}, set {mine.diagnostic_parameter_set}")
                obs.require(available["length"] == 5 and available["cycle_type"] == ["reset", "hppc", "rpt_0.2C", "rpt_1C", "rpt_2C"], lambda: f"{available}")
                have = [int(x) for x in available["diagnostic_starts_at"]]
                obs.require(have == starts, lambda: f"diagnostics found at {have}, run ({layout}, start {start}, interval {interval}, final {final}) has them at {starts}")
        obs.require(raw.equals(before), "the raw data were changed")
        obs.saw("structuring", known, with_diag, layout, final, len(starts), start, interval)
        obs.count("diagnostics", len(starts))
        obs.describe(f"{name} {seq}: {layout}, final {final}: {starts}")
        if rng.random() < 0.1:
            try:
                determine_structuring_parameters(dp, parameters_path=rng.choice([os.path.join(d, "absent"), None, ""]))
            except FileNotFoundError:
                obs.count("missing directory refused")
            else:
                obs.require(False, "a missing parameters directory was not refused")


def run_case(kind, rng, obs):
    {"row": row, "diag": diag, "structuring": structuring}[kind](rng, obs)
