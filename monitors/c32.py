"""C32 - Inspecting a file shows the object it holds."""
import gzip
import json
import os
import re

import numpy as np
import pandas as pd

from monitors import c20
from monitors.c04 import metadata, scratch
from vlib import cells, cli
from vlib.core import Skip

ID = "C32"
RULE = (
    "The real 'beep inspect' command runs on raw files, structured runs (plain, gzipped, with and without raw data, with and without "
    "diagnostics, legacy dictionaries), featurizers, feature matrices, trained models, other serialized objects and unreadable files. "
    "What is printed below each heading is compared with the object that was written: identity, paths, metadata, parameters, the columns, "
    "counts of known values and types of each frame, and its first and last values. Non-trivial: something was shown or a refusal is due; "
    "distinct by (kind of object, form, parts shown)."
)
KINDS = {"run": (80, 500), "raw": (48, 250), "featurizer": (48, 250), "matrix": (48, 250), "model": (40, 250), "other": (40, 160)}
MIN_SIGNATURES = 50

FRAMES = ("structured_summary", "structured_data", "diagnostic_data", "diagnostic_summary", "raw_data")


def run_case(kind, rng, obs):
    with scratch() as d:
        d = os.path.realpath(d)
        os.mkdir(os.path.join(d, "cwd"))
        globals()["case_" + kind](rng, obs, d)


def show(rng, obs, d, path):
    before = cli.tree(d)
    cwd = os.path.join(d, "cwd")
    given = path if rng.random() < 0.6 else os.path.relpath(path, cwd)
    r = cli.invoke(cwd, ["inspect", given])
    obs.require(cli.tree(d) == before, "inspecting changed files")
    return r


def flat(s):
    return re.sub(r"\s+", " ", str(s)).strip()


class Shown:
    """the text printed, read from front to back"""

    def __init__(self, obs, r, path):
        obs.require(r.code == 0, lambda: f"exit code {r.code}: {r.error!r}")
        self.obs, self.text, self.path = obs, r.output, path
        self.at = 0

    def heading(self, word):
        m = re.compile(r"^[ \t]*" + re.escape(word), re.M | re.I).search(self.text, self.at)
        self.obs.require(m is not None, lambda: f"no heading {word!r} after {self.text[max(0, self.at - 80):self.at]!r}")
        self.at = m.end()

    def rest(self, *until):
        """the text up to the next of the headings"""
        ends = [m.start() for u in until for m in [re.compile(r"^[ \t]*" + re.escape(u), re.M | re.I).search(self.text, self.at)] if m]
        return self.text[self.at:min(ends, default=len(self.text))]

    def title(self, what):
        self.heading(f"BEEP {what}")
        line = self.text[self.at:].split("\n", 1)[0]
        self.obs.require(self.path in line, lambda: f"the {what.lower()} is titled {line!r}, the file is {self.path}")

    def value(self, word, want, *until):
        self.heading(word)
        got = self.rest(*until)
        self.obs.require(alike(got, want), lambda: f"{word} shows {got.strip()[:300]!r}, should be {want!r}")

    def frame(self, word, want, *until):
        if word:
            self.heading(word)
        check_frame(self.obs, word, self.rest(*until), want)
        self.obs.count("frames")


def literal(text):
    try:
        return eval(text, {"__builtins__": {}}, {"nan": float("nan"), "inf": float("inf"), "OrderedDict": dict, "array": list, "NaN": float("nan")})
    except Exception:
        return None


def deep(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(map(str, a)) == set(map(str, b)) and all(deep({str(k): v for k, v in a.items()}[str(k)], v) for k, v in b.items())
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(map(deep, a, b))
    if isinstance(b, bool) or b is None or isinstance(b, str) or isinstance(a, (str, bool)) or a is None:
        return type(a) is type(b) and a == b
    try:
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * abs(b)
    except TypeError:
        return False


def alike(text, want):
    """a printed value, whatever the layout"""
    t = text.strip().lstrip(":").strip()
    if isinstance(want, str):
        return t.strip("'\"") == want.strip()
    return deep(literal(t), want)


def check_frame(obs, what, text, f):
    if f is None:
        obs.require("No object" in text, lambda: f"{what}: shows {text[:200]!r}, there is none")
        return
    lines = text.split("\n")
    obs.require("No object" not in text, lambda: f"{what}: not shown")
    m = re.search(r"(\d+) entries", text)
    obs.require(m and int(m.group(1)) == len(f), lambda: f"{what}: {m and m.group(0)}, the frame has {len(f)} rows")
    if f.shape[1] == 0:
        obs.require("Empty" in text, lambda: f"{what}: an empty frame is shown as {text[:200]!r}")
        return
    m = re.search(r"(?:total (\d+) columns|Columns: (\d+) entries)", text)
    obs.require(m and int(m.group(1) or m.group(2)) == f.shape[1], lambda: f"{what}: {m and m.group(0)}, the frame has {f.shape[1]} columns")
    if f.shape[1] <= 60:
        got = [re.match(r"\s*\d+\s+(.*?)\s+(\d+) non-null\s+(\S+)", x) for x in lines]
        got = sorted((g.group(1), int(g.group(2))) for g in got if g)
        want = sorted((str(c).strip(), int(f[c].notna().sum())) for c in f.columns)
        obs.require(got == want, lambda: f"{what}: columns and known values are {got}, expected {want}")
    # the first and last records
    rows = {}
    for x in lines:
        p = x.split()
        if p and p[0] not in rows and "non-null" not in x:
            rows[p[0]] = p
    for i in (0, len(f) - 1):
        if len(f) == 0:
            break
        label = str(f.index[i]).split()[0]
        p = rows.get(label)
        obs.require(p is not None, lambda: f"{what}: no row {f.index[i]}")
        c = f.columns[0]
        v = f.iloc[i, 0]
        if isinstance(v, (float, np.floating, int, np.integer)) and len(str(f.index[i]).split()) == 1 and not str(c).count("::"):
            try:
                g = float(p[1])
            except (ValueError, IndexError):
                continue
            obs.require((g != g and v != v) or abs(g - v) <= 2e-3 * abs(v) + 1e-3, lambda: f"{what}: {c} of row {f.index[i]} shown as {g}, is {v}")
            obs.count("cells")


def structured_run(rng, d):
    diag = None
    n = rng.randrange(1, 6)
    if rng.random() < 0.4:
        n = rng.choice([4, 6])
        diag = {k: rng.choice(["rpt_0.2C", "hppc", "reset"]) for k in rng.sample(range(n), rng.choice([1, 2, 3]))}
    run = cells.make_run(rng, n_cycles=n, diag=diag)
    cls = cells.datapath_class(rng.choice(["arbin", "maccor", "battery_archive", "neware", "indigo", "biologic", "novonix"]))
    paths = rng.choice([None, {"raw": os.path.join(d, "raw file.csv")}, {"raw": os.path.join(d, "r.csv"), "metadata": os.path.join(d, "m.csv")}])
    schema = rng.choice([None, "schema-arbin-lfp.yaml", "schema-maccor-2170.yaml"])
    dp = cls(raw_data=run.frame(), metadata=metadata(rng), paths=dict(paths) if paths else None, schema=schema)
    if diag:
        from beep.structure.diagnostic import DiagnosticConfig
        dp.diagnostic = DiagnosticConfig(run.diag)
    if rng.random() < 0.85:
        dp.structure(exclude_cycles=list(run.order) if rng.random() < 0.08 else None, resolution=rng.choice([2, 7, 30]), nominal_capacity=rng.choice([1.1, 4.7]), v_range=rng.choice([None, [2.0, 3.5], [2.8, 3.5]]),
                     charge_axis=rng.choice(["charge_capacity", "voltage"]), discharge_axis=rng.choice(["voltage", "test_time"]))
    return dp


def unpathed(dp):
    """the run as it says itself, not knowing where it has been saved"""
    import copy
    if dp is None:
        return None
    dp = copy.copy(dp)
    dp.paths = {k: v for k, v in dp.paths.items() if k != "structured"}
    return dp


def check_datapath(rng, obs, s, dp, path, raw, structured, loaded=None):
    s.title("Datapath")
    s.heading("Semiunique id:")
    text = s.rest("File paths").strip().strip("'")
    due = {str(x.semiunique_id) for x in (dp, loaded, unpathed(loaded)) if x is not None}
    obs.require(text in due, lambda: f"the run is identified as {text!r}, should be one of {due}")
    s.heading("File paths")
    text = s.rest("File metadata")
    got = literal(text.strip().lstrip(":"))
    obs.require(isinstance(got, dict), lambda: f"paths shown as {text[:200]!r}")
    obs.require(all(deep(got.get(k), v) for k, v in dp.paths.items() if k != "structured"), lambda: f"paths shown as {got}, are {dp.paths}")
    obs.require(set(got) - set(dp.paths) <= {"structured"} and got.get("structured", path) in (path, dp.paths.get("structured")),
                lambda: f"paths shown as {got}, are {dp.paths}")
    s.value("File metadata", dp.metadata.raw, "Validation schema")
    s.value("Validation schema", str(dp.schema), "Structuring parameters")
    s.value("Structuring parameters", dp.structuring_parameters, "Structured attributes")
    s.heading("Structured attributes")
    for i, f in enumerate(FRAMES):
        want = getattr(dp, f)
        if f == "raw_data" and not raw:
            want = None
        if loaded is not None and want is not None:
            got = getattr(loaded, f)
            obs.require(got is not None and got.shape == want.shape, lambda: f"{f} lost in the file")
            want = got
        s.frame(f + ":", want, *[g + ":" for g in FRAMES[i + 1:]])
    obs.count("runs")


def case_run(rng, obs, d):
    from beep.structure.cli import auto_load_processed
    dp = structured_run(rng, d)
    omit, gz = rng.random() < 0.4, rng.random() < 0.4
    old = rng.random() < 0.15
    path = os.path.join(d, rng.choice(["a run-structured", "x", "PreDiag_000240_000227"]) + ".json" + (".gz" if gz else ""))
    if omit and not dp.is_structured:
        omit = False
    dp.to_json_file(path, omit_raw=omit)
    ref = dp
    if old:
        # written before files named their class
        with (gzip.open(path, "rt") if gz else open(path)) as f:
            j = json.load(f)
        j.pop("@module"), j.pop("@class")
        with (gzip.open(path, "wt") if gz else open(path, "w")) as f:
            json.dump(j, f)
        try:
            ref = auto_load_processed(path)
        except Exception as e:
            raise Skip(f"a legacy file which cannot be loaded: {e!r}")
    r = show(rng, obs, d, path)
    obs.describe(f"{type(dp).__name__} diag={dp.diagnostic is not None} omit={omit} gz={gz} legacy={old}")
    s = Shown(obs, r, path)
    loaded = auto_load_processed(path)
    if omit or old:
        ref = loaded if old else ref
    check_datapath(rng, obs, s, ref, path, not omit, dp.is_structured, loaded)
    obs.saw("run", type(dp).__name__, omit, gz, old, tuple(getattr(dp, f) is not None for f in FRAMES), sorted(dp.paths))


def case_raw(rng, obs, d):
    from beep.structure.cli import auto_load
    raw = cli.raw_file(rng, d, cli.stem(rng))
    r = show(rng, obs, d, raw.path)
    try:
        ref = auto_load(raw.path)
    except BaseException:
        ref = None
    obs.describe(f"{raw.state} {os.path.basename(raw.path)}")
    obs.saw("raw", raw.state, type(ref).__name__, os.path.basename(raw.path))
    if ref is None:
        obs.require(r.code != 0 and raw.path in str(r.error), lambda: f"{raw.path} cannot be loaded: exit code {r.code}, {r.error!r}")
        return
    obs.require(raw.state in ("good", "invalid"), f"a file which is {raw.state} was loaded")
    check_datapath(rng, obs, Shown(obs, r, raw.path), ref, raw.path, True, False, ref)


def case_featurizer(rng, obs, d):
    from monitors.c26 import FEATURIZERS, featurizer, structured
    from beep.structure.cli import auto_load_processed
    from monty.serialization import dumpfn
    f = structured(rng, d_in(d), 0)
    try:
        dp = auto_load_processed(f)
    except BaseException:
        raise Skip("unreadable")
    cls = featurizer(rng.choice(FEATURIZERS[:1] * 3 + FEATURIZERS[3:4] * 2 + FEATURIZERS[5:6]))
    h = dict(cls.DEFAULT_HYPERPARAMETERS)
    if rng.random() < 0.6:
        h.update({"Throughput": {"factor": rng.choice([2.0, 0.5])}, "CycleSummaryStats": {"cycle_comp_num": [1, 2], "statistics": ["var", "min"]},
                  "TrajectoryFastCharge": {"thresh_max_cap": 0.97}}.get(cls.__name__, {}))
    fz = cls(dp, h) if rng.random() < 0.7 else cls(dp)
    if not fz.validate()[0]:
        raise Skip("not valid")
    fz.create_features()
    done = True
    path = os.path.join(d, "featurizer.json" + rng.choice(["", ".gz"]))
    if rng.random() < 0.5:
        fz.to_json_file(path)
    else:
        dumpfn(fz, path)
    r = show(rng, obs, d, path)
    obs.describe(f"{cls.__name__} featurized={done}")
    s = Shown(obs, r, path)
    s.title("Featurizer")
    s.value("File paths:", fz.paths, "Linked datapath")
    s.value("Linked datapath semiunique id:", str(fz.linked_semiunique_id), "Hyperparameters")
    s.value("Hyperparameters:", json.loads(json.dumps(fz.hyperparameters)), "Metadata:")
    s.value("Metadata:", json.loads(json.dumps(fz.metadata)), "Features:")
    s.heading("Features:")
    text = s.rest()
    if done and fz.features.shape[1] <= 4:
        for c in fz.features.columns:
            obs.require(str(c) in text, lambda: f"feature {c} is not shown: {text!r}")
    obs.count("featurizers")
    obs.saw("featurizer", cls.__name__, done, path[-3:], fz.features.shape if done else None, len(dp.metadata.raw))


def d_in(d):
    for sub in ("in", "ref"):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
    return d


def case_matrix(rng, obs, d):
    from monty.serialization import dumpfn
    t, feats = c20.setup(rng)
    classes = rng.choice([(c20.FeatA,), (c20.FeatA, c20.FeatAB), (c20.FeatB,), (c20.FeatAB, c20.FeatB)])
    X = t.matrix(list(classes))
    path = os.path.join(d, "m.json" + rng.choice(["", ".gz"]))
    dumpfn(X, path) if rng.random() < 0.5 else X.to_json_file(path)
    r = show(rng, obs, d, path)
    obs.describe(f"{[c.__name__ for c in classes]} {X.matrix.shape}")
    s = Shown(obs, r, path)
    s.title("Feature Matrix")
    s.heading("Featurizers")
    text = s.rest("Matrix:")
    for c in classes:
        n = len([f for f in X.featurizers if type(f) is c])
        got = len(re.findall(r"^\s*Featurizer \S*" + re.escape(c.__module__) + r" " + c.__name__ + r"\s*$", text, re.M))
        obs.require(got == n, lambda: f"{got} featurizers {c.__name__} are shown, there are {n}")
    for f in X.featurizers:
        obs.require(repr(f.linked_semiunique_id) in text or str(f.linked_semiunique_id) in text, lambda: f"the featurizer of {f.linked_semiunique_id} is not shown")
    s.heading("Matrix:")
    check_frame(obs, "Matrix", s.rest(), X.matrix)
    obs.count("matrices")
    obs.saw("matrix", tuple(c.__name__ for c in classes), X.matrix.shape, path[-3:])


def case_model(rng, obs, d):
    import warnings
    from monitors.c26 import library_model, matrices, train_options
    os.makedirs(os.path.join(d, "in"), exist_ok=True)
    t, fm, tm = matrices(rng, d)
    o, lib = train_options(rng)
    targets = rng.choice([["t1::FeatB"], ["t2::FeatB"], ["t2::FeatB", "t1::FeatB"]])
    if rng.random() < 0.4:
        from beep.features.base import BEEPFeatureMatrix
        lib["homogenize_features"] = False
        cols = BEEPFeatureMatrix.from_json_file(tm).matrix.columns
        targets = [c for y in targets for c in cols if c.startswith(y)] or targets
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m, _, _ = library_model(fm, tm, targets, lib)
    except BaseException as e:  # what beep derives from BaseException too
        raise Skip(f"cannot be trained: {e!r}")
    path = os.path.join(d, "model.json" + rng.choice(["", ".gz"]))
    m.to_json_file(path)
    r = show(rng, obs, d, path)
    obs.describe(f"{lib} {targets}")
    s = Shown(obs, r, path)
    s.title("Linear Model Experiment")
    s.value("Targets:", list(m.targets), "Model name")
    s.value("Model name:", m.model_name, "Impute")
    s.value("Impute strategy:", m.impute_strategy, "Homogenize")
    s.value("Homogenize features:", m.homogenize_features, "NaN")
    s.heading("NaN Thresholds")
    text = s.rest("Model parameters")
    for k, v in (("train_feature_drop_nan_thresh", m.train_feature_drop_thresh), ("train_sample_drop_nan_thresh", m.train_sample_drop_thresh),
                 ("predict_sample_nan_thresh", m.predict_sample_nan_thresh)):
        g = re.search(k + r":\s*(\S+)", text)
        obs.require(g and float(g.group(1)) == float(v), lambda: f"{k} shown as {g and g.group(1)}, is {v}")
    s.heading("Model parameters")
    text = s.rest("Matrices")
    g = re.search(r"^\s*- coef_:\s*(.*)$", text, re.M)
    got = literal(g.group(1)) if g else None
    obs.require(got is not None and np.allclose(np.asarray(got, float).ravel(), np.asarray(m.model.coef_, float).ravel(), rtol=1e-6, atol=1e-9),
                lambda: f"coefficients shown as {got}, are {m.model.coef_}")
    s.heading("Matrices")
    s.frame("feature_matrix", m.feature_matrix.matrix, "target_matrix")
    s.frame("target_matrix", m.target_matrix.matrix)
    obs.count("models")
    obs.saw("model", m.model_name, len(targets), tuple(sorted(lib)), path[-3:])


def case_other(rng, obs, d):
    """other objects are shown as they are; what is none is refused"""
    from beep.structure.diagnostic import DiagnosticConfig
    from monty.serialization import dumpfn
    kind = rng.choice(["config", "list", "text", "truncated", "missing", "folder", "empty"])
    path = os.path.join(d, "thing.json" + (".gz" if kind == "truncated" else ""))
    if kind == "config":
        o = DiagnosticConfig({"reset": [1, rng.randrange(2, 9)], "hppc": [rng.randrange(10, 20)]}, note=rng.choice(["a", 3, 2.5]))
        dumpfn(o, path)
    elif kind == "list":
        open(path, "w").write(rng.choice(["[1, 2]", "3", '"x"', "null"]))
    elif kind == "text":
        open(path, "w").write("no json")
    elif kind == "truncated":
        dumpfn({"a": list(range(300))}, path)
        b = open(path, "rb").read()
        open(path, "wb").write(b[:len(b) // 2])
    elif kind == "folder":
        os.mkdir(path)
    elif kind == "empty":
        open(path, "w").close()
    r = show(rng, obs, d, path)
    obs.describe(kind)
    obs.saw("other", kind, o.params if kind == "config" else r.code)
    if kind == "config":
        obs.require(r.code == 0, lambda: f"exit code {r.code}: {r.error!r}")
        flatout = flat(r.output)
        for k, v in o.params.items():
            obs.require(repr(k) in flatout and flat(repr(v)) in flatout, lambda: f"{k}={v} is not shown: {r.output!r}")
    else:
        obs.require(r.code != 0, lambda: f"a file which holds no object ({kind}) is shown: {r.output[:300]!r}")
