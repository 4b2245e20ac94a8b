"""C26 - Featurizing, training, predicting and generating protocols from the command line equals doing so through the library."""
import copy
import json
import math
import os

import numpy as np
import pandas as pd

from monitors import c11, c20
from monitors.c04 import scratch
from monitors.c18 import eq
from monitors.c19 import Table
from monitors.c25 import base, check_common, report_of
from vlib import cli
from vlib.core import Skip

ID = "C26"
RULE = (
    "The real 'beep featurize', 'train', 'predict' and 'protocol' commands run on structured files, feature matrices, models and "
    "parameter tables, with random options, failing featurizers, unreadable files, the same featurizer with several hyperparameters "
    "and interrupts; the files written are compared with what the library computes from the same inputs, the status file with what is "
    "on disk and with each failure, and exit codes with what is due. Non-trivial: a command has completed or a refusal is due; "
    "distinct by (command, options, outcome of each part)."
)
KINDS = {"featurize": (60, 600), "unknown": (20, 100), "incomplete": (24, 150), "train": (70, 700), "predict": (40, 500), "protocol": (14, 150)}
MIN_SIGNATURES = 50

FEATURIZERS = ["vlib.featurizers.Throughput", "vlib.featurizers.Picky", "vlib.featurizers.Fragile", "CycleSummaryStats", "DeltaQFastCharge",
               "TrajectoryFastCharge", "DiagnosticSummaryStats"]


def run_case(kind, rng, obs):
    with scratch() as d:
        d = os.path.realpath(d)
        for sub in ("cwd", "in", "out", "ref"):
            os.mkdir(os.path.join(d, sub))
        globals()["case_" + kind](rng, obs, d)


def structured(rng, d, i):
    """a structured file, or something that cannot be loaded"""
    from beep.structure.cli import auto_load
    folder = os.path.join(d, "in", rng.choice(["", "a", "b"]))
    os.makedirs(folder, exist_ok=True)
    name = "run" if rng.random() < 0.3 else f"run{i}"
    path = os.path.join(folder, name + "_structured.json" + rng.choice(["", ".gz"]))
    if os.path.exists(path):
        raise Skip("the same file twice")
    if rng.random() < 0.15:
        open(path, "w").write(rng.choice(["", "{", "[1, 2]"]))
        return path
    raw = os.path.join(d, "ref", f"raw{i}_CH1.csv")
    cli.write_arbin(raw, rng, cli.records(rng, rng.choice([2, 3, 4, 5])), rng.random() < 0.5)
    dp = auto_load(raw)
    dp.structure(resolution=rng.choice([5, 8]), v_range=[2.0, 3.5])
    dp.to_json_file(path, omit_raw=True)
    return path


def requested(rng):
    """(command line, [(class name, hyperparameters or None)])"""
    o, want = [], []
    r = rng.random()
    plain = rng.sample(FEATURIZERS, rng.choice([1, 2, 3]))
    if r < 0.1:
        # among others, or by default
        for n in rng.choice([["all_features"], [], [plain[0], "all_features"], ["all_features", plain[0]], ["all_targets", "all_features"]]):
            o += ["-f", n]
        want = [(n, None) for n in ("HPPCResistanceVoltageFeatures", "DeltaQFastCharge", "DiagnosticSummaryStats", "CycleSummaryStats")]
    elif r < 0.2:
        for n in rng.choice([["all_targets"], ["all_targets"], ["all_targets", plain[0]], [plain[0], "all_targets"]]):
            o += [rng.choice(["-f", "--featurize-with"]), n]
        want = [(n, None) for n in ("TrajectoryFastCharge", "DiagnosticProperties")]
    else:
        for n in plain:
            o += [rng.choice(["-f", "--featurize-with"]), n]
            want.append((n, None))
    for _ in range(rng.choice([0, 1, 2, 3])):
        h = rng.choice([("vlib.featurizers.Throughput", {"factor": rng.choice([2.0, 0.5, 3])}),
                        ("vlib.featurizers.Throughput", {"columns": rng.choice([["charge_capacity"], ["charge_capacity", "discharge_capacity"]])}),
                        ("vlib.featurizers.Picky", {"cycles": rng.choice([2, 4, 5])}),
                        ("vlib.featurizers.Fragile", {"odd": 0}),
                        ("CycleSummaryStats", {"cycle_comp_num": [1, 2]}), ("CycleSummaryStats", {"cycle_comp_num": [2, 3], "statistics": ["var", "min"]}),
                        ("TrajectoryFastCharge", {"thresh_max_cap": 0.97}),
                        ("vlib.featurizers.Throughput", {"no_such": 1})])
        h = copy.deepcopy(h)
        o += [rng.choice(["-h", "--featurize-with-hyperparams"]), repr({h[0]: h[1]}) if rng.random() < 0.5 else json.dumps({h[0]: h[1]})]
        want.append(h)
    return o, want


def featurizer(name):
    import importlib
    if "." in name:
        m, c = name.rsplit(".", 1)
        return getattr(importlib.import_module(m), c)
    return getattr(importlib.import_module("beep.features.core"), name)


def frame_alike(a, b):
    return list(a.columns) == list(b.columns) and list(map(str, a.index)) == list(map(str, b.index)) and all(eq(x, y) for c in a for x, y in zip(a[c], b[c]))


class Part:
    def __init__(self, path, name, h):
        from beep.structure.cli import auto_load_processed
        self.valid = self.featurized = False
        self.error = self.f = None
        cls = featurizer(name)
        self.name = cls.__name__
        self.h = copy.deepcopy(cls.DEFAULT_HYPERPARAMETERS)
        self.h.update(copy.deepcopy(h) or {})
        try:
            f = cls(auto_load_processed(path), copy.deepcopy(self.h))
            self.valid = bool(f.validate()[0])
            if not self.valid:
                self.error = "BEEPFeaturizationError"
                return
            f.create_features()
            self.featurized, self.f = True, f
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            self.error = type(e).__name__


def case_featurize(rng, obs, d):
    from beep.features.base import BEEPFeatureMatrix
    from beep.structure.cli import auto_load_processed
    from monty.serialization import loadfn
    files = [structured(rng, d, i) for i in range(rng.choice([0] + 4 * [1, 2, 3]))]
    fo, want = requested(rng)
    halt = rng.random() < 0.2
    cwd, out = os.path.join(d, "cwd"), os.path.join(d, "out")
    loads, parts = {}, {}
    for f in files:
        try:
            auto_load_processed(f)
            loads[f] = None
        except BaseException as e:
            loads[f] = type(e).__name__
        parts[f] = [Part(f, n, h) for n, h in want] if loads[f] is None else []
    bfs = [p.f for f in files for p in parts[f] if p.featurized]
    first = next((e for f in files for e in ([loads[f]] if loads[f] else [p.error for p in parts[f]]) if e), None)
    try:
        ref = BEEPFeatureMatrix(bfs)
        bad = None if ref.matrix is not None else "BEEPFeatureMatrixError"
        first = first or bad
    except BaseException as e:
        ref, bad = None, type(e).__name__
        first = first or bad
    mode = rng.choice(["cwd", "dir", "name", "both"])
    oo, where = [], cwd
    if mode in ("dir", "both"):
        oo += [rng.choice(["-d", "--output-dir"]), out]
        where = out
    name = None
    if mode in ("name", "both"):
        name = os.path.join(d, "matrix.json" + rng.choice(["", ".gz"]))
        oo += [rng.choice(["-o", "--output-filename"]), name if rng.random() < 0.5 else os.path.relpath(name, cwd)]
    inter = rng.random() < 0.5
    if inter:
        oo.append("--save-intermediates")
    pre, run, tags, log, st = base(rng, d)
    if halt:
        pre.append("--halt-on-error")
    if name and rng.random() < 0.2:
        open(name, "w").write("old")
    earlier = bool(log) and os.path.exists(log)
    before = cli.tree(os.path.join(d, "in"))
    given = [f if rng.random() < 0.6 else os.path.relpath(f, cwd) for f in files]
    args = fo + oo
    r = cli.invoke(cwd, pre + ["featurize"] + args + given)
    obs.saw("featurize", mode, inter, halt, bad, tuple((loads[f] is None, tuple((p.name, p.valid, p.featurized) for p in parts[f])) for f in files))
    obs.describe(f"{len(files)} files, {want}, {mode}")
    obs.require(cli.tree(os.path.join(d, "in")) == before, "the structured files were changed")
    if halt and first:
        obs.require(r.code != 0 and type(r.error).__name__ == first, lambda: f"halt on error: exit code {r.code}, {r.error!r}, first failure {first}")
        return
    obs.require(r.code == 0, lambda: f"exit code {r.code}: {r.error!r}")
    s = check_common(obs, st, run, tags, log, "featurize", earlier)
    obs.require(sorted(s["files"]) == sorted(files), lambda: f"files {list(s['files'])}, given {files}")
    written = set(cli.tree(cwd, out)) | ({name} if name and os.path.exists(name) else set())
    due = set()
    for f in files:
        res = s["files"][f]
        obs.require(res["processed_md5_chksum"] == cli.md5(f), f"digest of {f} is wrong")
        if loads[f]:
            obs.require(loads[f] in "".join(res.get("traceback") or []) and not res["featurizers"], lambda: f"{f} cannot be loaded ({loads[f]}), reported {res}")
            continue
        obs.require(len(res["featurizers"]) == len(want), lambda: f"{len(res['featurizers'])} featurizers reported, {len(want)} requested")
        for p, sub in zip(parts[f], res["featurizers"]):
            what = f"{p.name} {p.h} on {os.path.basename(f)}"
            obs.require(sub["featurizer_name"] == p.name and json.loads(json.dumps(sub["hyperparameters"])) == json.loads(json.dumps(p.h)),
                        lambda: f"{what}: reported as {sub['featurizer_name']} {sub['hyperparameters']}")
            obs.require(sub["valid"] is p.valid and sub["featurized"] is p.featurized, lambda: f"{what}: valid={sub['valid']}, featurized={sub['featurized']}, expected {p.valid}, {p.featurized}")
            obs.require((sub["traceback"] is None) == (p.error is None) and (p.error is None or p.error in "".join(sub["traceback"])),
                        lambda: f"{what}: {p.error}, reported {sub['traceback']}")
            if inter and p.featurized:
                o = sub["output"]
                obs.require(o is not None and os.path.dirname(o) == where and os.path.exists(o), lambda: f"{what}: intermediate {o}, expected in {where}")
                obs.require(o not in due, lambda: f"{what}: {o} is written twice")
                due.add(o)
                got = loadfn(o)
                obs.require(type(got) is type(p.f) and got.hyperparameters == p.f.hyperparameters and frame_alike(got.features, p.f.features),
                            lambda: f"{what}: the intermediate {o} holds {got.hyperparameters} {got.features}")
                obs.require(sub["subop_md5_chksum"] == cli.md5(o), lambda: f"{what}: digest of {o} is wrong")
                obs.count("intermediates")
            else:
                obs.require(sub["output"] is None and sub["subop_md5_chksum"] is None, lambda: f"{what}: output {sub['output']}")
    obs.require(sum(x["walltime"] for x in s["files"].values()) <= r.elapsed + 1.0, lambda: f"walltimes {[x['walltime'] for x in s['files'].values()]}, the command took {r.elapsed} s")
    for x in s["files"].values():
        obs.require(min([y["walltime"] for y in x["featurizers"]], default=0) >= -1 and sum(y["walltime"] for y in x["featurizers"]) <= x["walltime"] + 0.5,
                    lambda: f"walltimes {[y['walltime'] for y in x['featurizers']]} of {x['walltime']}")
    if log:
        check_report(obs, report_of(log, "Featurization report"), files, parts, len(want))
    m = s["feature_matrix"]
    obs.require(m["created"] is (bad is None) and (m["traceback"] is None) == (bad is None), lambda: f"matrix: {m}, expected {bad}")
    if bad is not None:
        obs.require(m["output"] is None, lambda: f"no matrix, yet {m['output']} is reported")
        if name and os.path.exists(name):
            due.add(name)  # of an earlier run
    if bad is None:
        o = m["output"]
        obs.require(os.path.exists(o) and (o == name if name else os.path.dirname(o) == where), lambda: f"matrix written to {o}, expected {name or where}")
        due.add(o)
        got = BEEPFeatureMatrix.from_json_file(o)
        if ref.matrix is None:
            obs.require(got.matrix is None or got.matrix.empty, lambda: f"matrix {got.matrix}")
        else:
            obs.require(sorted(got.matrix.columns) == sorted(ref.matrix.columns) and sorted(got.matrix.index) == sorted(ref.matrix.index),
                        lambda: f"matrix of {list(got.matrix.columns)} x {list(got.matrix.index)}, expected {list(ref.matrix.columns)} x {list(ref.matrix.index)}")
            for i in ref.matrix.index:
                for c in ref.matrix.columns:
                    obs.require(eq(ref.matrix.loc[i, c], got.matrix.loc[i, c]), lambda: f"{c} of {i} is {got.matrix.loc[i, c]}, expected {ref.matrix.loc[i, c]}")
            obs.count("cells", ref.matrix.size)
        obs.count("matrices")
    obs.require(written == due, lambda: f"files written {sorted(written)}, expected {sorted(due)}")


def check_report(obs, rep, files, parts, n):
    """each file is listed once, under the heading which says how many featurizers succeeded"""
    obs.require(rep is not None, "the log has no report")
    listed = {}
    for h, v in rep.items():
        if v:
            obs.require(f"{len(v)}/{len(files)}" in h, lambda: f"'{h}' lists {v}")
        for f in v:
            f = f.rsplit(": ", 1)[0]
            obs.require(f in parts and f not in listed, lambda: f"the report lists {rep}")
            listed[f] = h.split()[0]
    for f in files:
        k = sum(p.featurized for p in parts[f])
        word = "All" if k == n else "No" if k == 0 else "Some"
        obs.require(listed.get(f) == word, lambda: f"{k} of {n} featurizers succeeded on {f}, the report lists {rep}")
    obs.count("reports")


def case_incomplete(rng, obs, d):
    """requests which lack something, or name files which do not exist, are refused"""
    t, fm, tm = matrices(rng, d)
    cwd, out, st = (os.path.join(d, x) for x in ("cwd", "out", "status.json"))
    csvf = os.path.join(d, "in", "p.csv")
    open(csvf, "w").write("project_name,seq_num\n")
    full = {"-fm": fm, "-tm": tm, "-t": "t1::FeatB", "-m": "ridge"}
    what = rng.choice(["lack", "lack", "lack", "missing", "no model", "protocol csv", "protocol dir", "model name"])
    if what in ("lack", "missing", "model name"):
        k = rng.choice(list(full) if what == "lack" else ["-fm", "-tm"])
        if what == "lack":
            del full[k]
        elif what == "missing":
            full[k] = os.path.join(d, "in", "none.json")
        else:
            full["-m"], k = rng.choice(["Ridge!", "", "linear"]), "-m"
        args = ["train", "-o", os.path.join(out, "m.json")] + [x for p in full.items() for x in p]
    elif what == "no model":
        k = rng.choice(["model", "-fm", "both"])
        args = ["predict", "-o", os.path.join(out, "p.json")] + (["-fm", fm] if k != "-fm" else []) + ([] if k != "-fm" else [fm])
        if k == "both":
            args += [os.path.join(d, "in", "none.json")]
    elif what == "protocol csv":
        k, args = "", ["protocol", "-d", out, os.path.join(d, "in", "none.csv")]
    else:
        k, args = "", ["protocol", "-d", os.path.join(d, "none"), csvf]
    halt = rng.random() < 0.5 or what == "model name"
    r = cli.invoke(cwd, (["--halt-on-error"] if halt else []) + ["-s", st] + args)
    obs.saw("incomplete", what, k, halt)
    obs.describe(f"{what} {k}")
    obs.require(r.code != 0, lambda: f"{what} {k}: accepted: {r.output[-200:]}")
    obs.require(not cli.tree(cwd, out) and not os.path.exists(os.path.join(d, "none")), lambda: f"{what} {k}: {list(cli.tree(cwd, out))} written")
    obs.require(what != "lack" or isinstance(r.error, SystemExit), lambda: f"{what} {k}: {r.error!r}")


def case_unknown(rng, obs, d):
    """unknown featurizers and malformed requests are refused"""
    from beep.structure.cli import auto_load
    raw = os.path.join(d, "ref", "raw_CH1.csv")
    cli.write_arbin(raw, rng, cli.records(rng, 2))
    dp = auto_load(raw)
    dp.structure(resolution=5, v_range=[2.0, 3.5])
    f = os.path.join(d, "in", "x_structured.json")
    dp.to_json_file(f)
    o = rng.choice([["-f", "NoSuchFeaturizer"], ["-f", "vlib.featurizers.NotOne"], ["-f", "vlib.featurizers.Missing"], ["-f", "no.such.Module"],
                    ["-h", "{'NoSuchFeaturizer': {}}"], ["-h", "['CycleSummaryStats']"], ["-h", "{'CycleSummaryStats': {}, 'DeltaQFastCharge': {}}"]])
    good = ["-f", "vlib.featurizers.Throughput"]
    r = cli.invoke(os.path.join(d, "cwd"), ["featurize"] + rng.choice([good + o, o, o + good]) + [f])
    obs.saw("unknown", tuple(o))
    obs.describe(f"{o}")
    obs.require(r.code != 0, lambda: f"{o} accepted")
    obs.require(not isinstance(r.error, TypeError) or "could not parse" in str(r.error).lower(), lambda: f"{o}: {r.error!r}")
    obs.require(not cli.tree(os.path.join(d, "cwd")), lambda: f"{o}: {list(cli.tree(os.path.join(d, 'cwd')))} written")


def train_options(rng):
    """(command line, arguments of the library)"""
    name = rng.choice(["ridge", "lasso", "elasticnet"])
    o, lib = [rng.choice(["-m", "--model-name"]), name], {"model_name": name, "drop_nan_training_targets": True}
    if name != "ridge" or rng.random() < 0.5:
        lo, hi, n = rng.choice([(0.01, 1.0, 5), (0.1, 3.0, 3), (0.5, 0.5, 1), (0.0, 1.0, 4) if name == "ridge" else (0.02, 0.2, 4)])
        if lo == 0:
            lo = 1e-3
        o += ["-al", lo, "--alpha-upper", hi, rng.choice(["-an", "--n-alphas"]), n]
        lib["alphas"] = np.linspace(lo, hi, n)
    for flag, k, vals in (("--train-feature-nan-thresh", "train_feature_drop_nan_thresh", [0.0, 0.5, 0.9]),
                          ("--train-sample-nan-thresh", "train_sample_drop_nan_thresh", [0.0, 0.4, 0.85]),
                          ("--predict-sample-nan-thresh", "predict_sample_nan_thresh", [0.0, 0.5, 1.0]),
                          ("--impute-strategy", "impute_strategy", ["median", "mean"]), ("--kfold", "kfold", [2, 3, 4]),
                          ("--max-iter", "max_iter", [5000, 100000]), ("--tol", "tol", [1e-3, 1e-6])):
        if rng.random() < 0.45:
            v = rng.choice(vals)
            o += [flag, v]
            lib[k] = v
    if name == "elasticnet" and rng.random() < 0.7:
        l1 = rng.choice([[0.1, 0.5, 0.9], [0.5], [0.7, 1.0]])
        o += ["--l1-ratios", rng.choice([",", ", "]).join(map(str, l1))]
        lib["l1_ratio"] = l1
    return o, lib


def same_model(obs, a, b, what):
    obs.require(list(a.targets) == list(b.targets) and a.model_name == b.model_name, lambda: f"{what}: targets {a.targets} of {a.model_name}")
    obs.require(sorted(a.feature_labels) == sorted(b.feature_labels), lambda: f"{what}: features {a.feature_labels}, expected {b.feature_labels}")
    for k in ("train_feature_drop_thresh", "train_sample_drop_thresh", "predict_sample_nan_thresh", "impute_strategy", "kfold", "max_iter", "tol", "homogenize_features"):
        obs.require(getattr(a, k) == getattr(b, k), lambda: f"{what}: {k} is {getattr(a, k)}, expected {getattr(b, k)}")
    for k in ("alphas", "l1_ratio"):
        x, y = getattr(a, k), getattr(b, k)
        obs.require((x is None) == (y is None) and (x is None or np.array_equal(np.asarray(x, float), np.asarray(y, float))), lambda: f"{what}: {k} is {x}, expected {y}")
    ca, cb = np.atleast_2d(a.model.coef_), np.atleast_2d(b.model.coef_)
    order = [list(a.feature_labels).index(f) for f in b.feature_labels]
    obs.require(ca.shape == cb.shape and np.allclose(ca[:, order], cb, rtol=1e-7, atol=1e-10), lambda: f"{what}: coefficients {ca}, expected {cb}")
    obs.require(np.allclose(a.model.intercept_, b.model.intercept_, rtol=1e-7, atol=1e-10), lambda: f"{what}: intercept {a.model.intercept_}, expected {b.model.intercept_}")
    obs.require({k: float(v) for k, v in a.optimal_hyperparameters.items()} == {k: float(v) for k, v in b.optimal_hyperparameters.items()},
                lambda: f"{what}: hyperparameters {a.optimal_hyperparameters}, expected {b.optimal_hyperparameters}")
    obs.count("models")


def same_errors(a, b):
    """errors read from a status file and errors of the library, of one or (by name) of several targets"""
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same_errors(a[k], b[k]) for k in b)
    if b is None or a is None:
        return a is b
    return bool(np.allclose(float(a), float(b), rtol=1e-7, atol=1e-12, equal_nan=True))


def matrices(rng, d):
    from monty.serialization import dumpfn
    t, feats = c20.setup(rng)
    fm, tm = os.path.join(d, "in", "fm.json.gz"), os.path.join(d, "in", "tm.json")
    X = t.matrix([featurizer_class for featurizer_class in (c20.FeatA, c20.FeatAB)])
    y = t.matrix([c20.FeatB])
    dumpfn(X, fm)
    dumpfn(y, tm)
    return t, fm, tm


def library_model(fm, tm, targets, lib, frac=None, seed=0):
    from beep.features.base import BEEPFeatureMatrix
    from beep.model import BEEPLinearModelExperiment
    m = BEEPLinearModelExperiment(BEEPFeatureMatrix.from_json_file(fm), BEEPFeatureMatrix.from_json_file(tm), targets, **copy.deepcopy(lib))
    if frac is None:
        return m, m.train()[1], None
    np.random.seed(seed)
    _, e, te = m.train_and_score(frac)
    return m, e, te


def case_train(rng, obs, d):
    from beep.model import BEEPLinearModelExperiment
    t, fm, tm = matrices(rng, d)
    o, lib = train_options(rng)
    targets = rng.choice([["t1::FeatB"], ["t2::FeatB"], ["t2::FeatB", "t1::FeatB"], ["t1::FeatA"]])
    frac = rng.choice([None, None, None, 0.7, 0.5, 0.6, 0.0])
    if frac is not None:
        o += [rng.choice(["-s", "--train-on-frac-and-score"]), frac]
    u = rng.random()
    if u < 0.2:
        o += ["--homogenize-features", "True"]
        lib["homogenize_features"] = True
    elif u < 0.4:
        # the names of columns are the full ones
        from beep.features.base import BEEPFeatureMatrix
        o += ["--homogenize-features", "False"]
        lib["homogenize_features"] = False
        cols = BEEPFeatureMatrix.from_json_file(tm).matrix.columns
        targets = [c for y in targets for c in cols if c.startswith(y)] or targets
    partial = rng.random() < 0.1
    seed = rng.randrange(1000)
    try:
        ref, errors, test = library_model(fm, tm, targets, lib, frac, seed)
        bad = None
    except BaseException as e:
        ref, bad = None, type(e).__name__
    cwd = os.path.join(d, "cwd")
    halt = rng.random() < 0.15
    pre, run, tags, log, st = base(rng, d)
    if halt:
        pre.append("--halt-on-error")
    name = os.path.join(d, "out", "model.json" + rng.choice(["", ".gz"])) if rng.random() < 0.7 else None
    args = ["-fm", fm, rng.choice(["-tm", "--target-matrix-file"]), tm] + o + [x for y in targets for x in (rng.choice(["-t", "--targets"]), y)]
    if name:
        args += [rng.choice(["-o", "--output-filename"]), name]
    if name and rng.random() < 0.2 and not partial:
        open(name, "w").write("old")
    earlier = bool(log) and os.path.exists(log)
    before = cli.tree(os.path.join(d, "in"))
    old = list(cli.tree(os.path.join(d, "out")))
    if partial and "-al" in args:
        i = args.index("-al")
        args = args[:i] + args[i + 2:]
        r = cli.invoke(cwd, pre + ["train"] + args)
        obs.saw("train partial alphas", lib["model_name"])
        obs.require(r.code != 0 and not cli.tree(cwd, os.path.join(d, "out")), lambda: f"an incomplete range of alphas is accepted: {args}")
        return
    np.random.seed(seed)
    r = cli.invoke(cwd, pre + ["train"] + args)
    obs.saw("train", lib["model_name"], len(targets), frac, bad, tuple(sorted(k for k in lib)), name is None)
    obs.describe(f"{lib} {targets} frac {frac}: {bad or 'trained'}")
    obs.require(cli.tree(os.path.join(d, "in")) == before, "the matrices were changed")
    written = list(cli.tree(cwd, os.path.join(d, "out")))
    if bad and halt:
        obs.require(r.code != 0 and type(r.error).__name__ == bad and written == old, lambda: f"halt on error: {r.code} {r.error!r}, expected {bad}")
        return
    obs.require(r.code == 0, lambda: f"exit code {r.code}: {r.error!r}")
    s = check_common(obs, st, run, tags, log, "train", earlier)
    obs.require(-1 <= s["walltime"] <= r.elapsed + 1, lambda: f"walltime {s['walltime']}, the command took {r.elapsed} s")
    f = s["files"]
    obs.require((f["features"], f["targets"], f["features_md5_chksum"], f["targets_md5_chksum"]) == (fm, tm, cli.md5(fm), cli.md5(tm)), lambda: f"files {f}")
    obs.require(s["trained_model"]["created"] is (bad is None) and (s["traceback"] is None) == (bad is None) and (bad is None or bad in "".join(s["traceback"])),
                lambda: f"model: {s['trained_model']} {s['traceback']}, expected {bad}")
    if bad:
        obs.require(written == old and s["trained_model"]["output"] is None, lambda: f"not trained, yet {written} written")
        return
    out = s["trained_model"]["output"]
    obs.require(written == [out] and (out == name if name else os.path.dirname(out) == cwd), lambda: f"files written {written}, reported {out}, asked for {name}")
    got = BEEPLinearModelExperiment.from_json_file(out)
    same_model(obs, got, ref, "trained model")
    if frac is not None:
        mr = s["model_results"]
        obs.require(mr["test_fraction"] == frac and same_errors(mr["training_error"], errors) and same_errors(mr["test_error"], test),
                    lambda: f"results {mr}, expected {errors} and {test}")
        obs.require({k: float(v) for k, v in mr["optimal_hyperparameters"].items()} == {k: float(v) for k, v in ref.optimal_hyperparameters.items()},
                    lambda: f"hyperparameters {mr['optimal_hyperparameters']}, of the model {ref.optimal_hyperparameters}")


def case_predict(rng, obs, d):
    from monty.serialization import dumpfn
    from beep.features.base import BEEPFeatureMatrix
    from beep.model import BEEPLinearModelExperiment
    t, fm, tm = matrices(rng, d)
    _, lib = train_options(rng)
    lib.setdefault("train_feature_drop_nan_thresh", 0.5)
    targets = rng.choice([["t1::FeatB"], ["t2::FeatB", "t1::FeatB"] if lib["model_name"] == "elasticnet" else ["t2::FeatB"]])
    try:
        ref, _, _ = library_model(fm, tm, targets, lib)
    except BaseException:
        raise Skip("cannot be trained")
    model = os.path.join(d, "in", "model.json" + rng.choice(["", ".gz"]))
    dumpfn(ref, model)
    p = Table(rng, n=rng.choice([1, 3, 8]), variants=t.variants)
    for k, v in list(p.cells.items()):
        if isinstance(v, float) and math.isinf(v):
            p.cells[k] = float("nan")
    for x in p.samples:
        if rng.random() < 0.25:
            # a sample of which little is known
            keys = [k for k in p.cells if k[0] == x]
            for k in rng.sample(keys, rng.randrange(len(keys) // 2, len(keys))):
                p.cells[k] = float("nan")
    lacking = rng.random() < 0.15
    pm = os.path.join(d, "in", "pm.json.gz")
    dumpfn(p.matrix([c20.FeatA] if lacking else [c20.FeatA, c20.FeatAB]), pm)
    th = rng.choice([None, 0.0, 0.0, 0.4, 1.0])
    mine = BEEPLinearModelExperiment.from_json_file(model)
    if th is not None:
        mine.predict_sample_nan_thresh = th
    try:
        y, _ = mine.predict(BEEPFeatureMatrix.from_json_file(pm))
        bad = None
    except BaseException as e:
        y, bad = None, type(e).__name__
    cwd = os.path.join(d, "cwd")
    pre, run, tags, log, st = base(rng, d)
    halt = rng.random() < 0.15
    if halt:
        pre.append("--halt-on-error")
    name = os.path.join(d, "out", "p.json") if rng.random() < 0.7 else None
    wrong = rng.random() < 0.1
    args = ["-fm", pm] + (["--predict-sample-nan-thresh", th] if th is not None else [])
    if name:
        args += ["-o", name]
    if wrong:
        args += ["-o", os.path.join(d, "out", rng.choice(["p.csv", "p.json.gz"]))]
    before = cli.tree(os.path.join(d, "in"))
    r = cli.invoke(cwd, pre + ["predict"] + args + [model])
    obs.saw("predict", lib["model_name"], len(targets), th, bad, halt, name is None, wrong, None if y is None else len(y))
    obs.describe(f"{lib['model_name']} {targets} threshold {th}: {bad or len(y)}")
    obs.require(cli.tree(os.path.join(d, "in")) == before, "the inputs were changed")
    written = list(cli.tree(cwd, os.path.join(d, "out")))
    if wrong or (bad and halt):
        obs.require(r.code != 0 and not written, lambda: f"exit code {r.code}, written {written}")
        return
    obs.require(r.code == 0, lambda: f"exit code {r.code}: {r.error!r}")
    s = check_common(obs, st, run, tags, log, "predict")
    f = s["files"]
    obs.require((f["model"], f["predict_on_features"], f["model_md5_chksum"], f["predict_on_features_md5_chksum"]) == (model, pm, cli.md5(model), cli.md5(pm)),
                lambda: f"files {f}")
    obs.require(s["predictions"]["created"] is (bad is None) and (s["traceback"] is None) == (bad is None) and (bad is None or bad in "".join(s["traceback"])),
                lambda: f"{s['predictions']} {s['traceback']}, expected {bad}")
    if bad:
        obs.require(not written, lambda: f"failed, yet {written} written")
        return
    out = s["predictions"]["output"]
    obs.require(written == [out] and (out == name if name else os.path.dirname(out) == cwd), lambda: f"files written {written}, reported {out}, asked for {name}")
    got = pd.read_json(out)
    obs.require(sorted(got.columns) == sorted(targets) and sorted(got.index) == sorted(y.index), lambda: f"predictions of {list(got.index)}, expected {list(y.index)}")
    for i in y.index:
        for c in targets:
            a, b = float(got.loc[i, c]), float(y.loc[i, c])
            obs.require(abs(a - b) <= 1e-9 * max(1, abs(b)), lambda: f"{c} of {i} is {a}, expected {b}")
    obs.count("predictions", y.size)


def case_protocol(rng, obs, d):
    import csv
    from beep.protocol.generate_protocol import generate_protocol_files_from_csv
    rows = c11.rows_for(rng.choice(["exp", "exp", "form", "diag"]), rng, rng.choice([1, 2]))
    bad = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        r = dict(rows[0])
        r["template"] = rng.choice(["nothing.000", "x.mps", "a.sdu", "notes.txt"])
        r["seq_num"] = rng.randrange(100000, 200000)
        bad.append(r)
    allrows = rows + bad
    rng.shuffle(allrows)
    csvf = os.path.join(d, "in", "Exp_parameters.csv")
    with open(csvf, "w", newline="") as f:
        w = csv.DictWriter(f, list({k: None for r in allrows for k in r}))
        w.writeheader()
        w.writerows(allrows)
    refdir, cwd, out = os.path.join(d, "ref"), os.path.join(d, "cwd"), os.path.join(d, "out")
    made, failures, result, message = generate_protocol_files_from_csv(csvf, output_directory=refdir)
    pre, run, tags, log, st = base(rng, d)
    todir = rng.random() < 0.5
    r = cli.invoke(cwd, pre + ["protocol"] + (["-d", out] if todir else []) + [csvf])
    where = out if todir else cwd
    obs.saw("protocol", rows[0]["project_name"], len(rows), len(bad), todir)
    obs.describe(f"{len(rows)} rows and {len(bad)} unsupported")
    obs.require(r.code == 0, lambda: f"exit code {r.code}: {r.error!r}")
    s = check_common(obs, st, run, tags, log, "protocol")
    want = {os.path.join(where, os.path.relpath(f, refdir)): cli.md5(f) for f in made}
    obs.require(s["protocol"] == {f: {"generated": True} for f in want}, lambda: f"reported {s['protocol']}, expected {list(want)}")
    have = cli.tree(where)
    for f, h in want.items():
        obs.require(have.get(f) == h, lambda: f"{f} differs from the one generated through the library")
    obs.require(set(have) - set(want) == {f for f in have if os.sep + "names" + os.sep in f}, lambda: f"unexpected files {sorted(set(have) - set(want))}")
    obs.require(not cli.tree(out if not todir else cwd), "files written elsewhere")
    obs.require(s["files"] == {"csv": csvf, "csv_md5_chksum": cli.md5(csvf)}, lambda: f"{s['files']}")
    obs.require((s["traceback"] is None) == (not bad), lambda: f"{len(bad)} rows cannot be generated, reported {s['traceback']}")
    if bad:
        obs.require(f"Failed to generate {len(bad)} of {len(allrows)}" in "".join(s["traceback"]), lambda: f"{s['traceback']}")
        told = json.dumps(s)
        obs.require(all(json.dumps(x["comment"]) in told for x in failures), lambda: f"failures {failures} are not reported")
    obs.count("protocols", len(want))
