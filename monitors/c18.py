"""C18 - The feature matrix holds each featurizer's values, unmixed, and both survive saving and loading."""
import copy
import json
import math
import os
import subprocess
import sys
from types import SimpleNamespace

import numpy as np
import pandas as pd

from monitors.c04 import scratch
from vlib.core import Skip

ID = "C18"
RULE = (
    "Featurizers of several classes with random hyperparameters and values (numbers, missing, infinite, text) over random sets "
    "of cell files are joined in random orders, twice, and saved and loaded; every cell of the matrix is compared with the value "
    "its own featurizer reports, and everything not produced by a featurizer has to be missing. Non-trivial: at least one "
    "featurizer; distinct by (operation, files, classes, hyperparameter variants, features)."
)
KINDS = {"matrix": (300, 4000), "roundtrip": (120, 1500), "featurizer": (160, 2000), "refuse": (160, 2000), "process": (4, 16)}
MIN_SIGNATURES = 60

from beep.features.base import BEEPFeaturizer, BEEPFeatureMatrix, BEEPFeaturizationError, BEEPFeatureMatrixError  # noqa: E402

REFUSALS = (BEEPFeaturizationError, BEEPFeatureMatrixError, ValueError, TypeError, KeyError)


class _F(BEEPFeaturizer):
    def validate(self):
        return True, None

    def create_features(self):
        self.features = self.datapath.make(self)


class FeatA(_F):
    DEFAULT_HYPERPARAMETERS = {"alpha": 1, "beta": 2}


class FeatB(_F):
    DEFAULT_HYPERPARAMETERS = {"quantity": "discharge_capacity", "window": [0, 1], "nested": {"n": 30, "cut": 0.5}}


class FeatC(_F):
    DEFAULT_HYPERPARAMETERS = {}


class FeatAB(_F):
    DEFAULT_HYPERPARAMETERS = {"alpha": 1, "beta": 2}


class FeatMany(_F):
    DEFAULT_HYPERPARAMETERS = {"p%02d" % i: i for i in range(12)}


CLASSES = [FeatA, FeatB, FeatC, FeatAB, FeatMany]
DEFAULTS = {c: copy.deepcopy(c.DEFAULT_HYPERPARAMETERS) for c in CLASSES}
VALUE = [1, 2, 0.8, 1e-3, -7, None, True, "rpt_1C", "a b", [1, 2], [0, 1], [], 10, 12, 21, "1-2"]
NAMES = ["f1", "f2", "capacity_0.92", "var_charging", "a b", "f1_", "x", "zz", "F1", "0.8", "RPT::capacity"]


def hypers(rng, cls):
    h = copy.deepcopy(DEFAULTS[cls])
    for k in h:
        if rng.random() < 0.6:
            h[k] = rng.choice(VALUE) if not isinstance(h[k], dict) else {"n": rng.choice([30, 31]), "cut": rng.choice([0.5, 0.25])}
    if rng.random() < 0.3:
        h["extra"] = rng.choice(VALUE)
    return h


def sibling(rng, cls, h):
    """hyperparameters which look much like the given ones: swapped, shifted or renamed"""
    h = copy.deepcopy(h)
    ks = sorted(DEFAULTS[cls])
    what = rng.choice(["swap", "shift", "rename", "last"])
    if what == "swap" and len(ks) > 1:
        a, b = rng.sample(ks, 2)
        h[a], h[b] = h[b], h[a]
    elif what == "shift" and len(ks) > 1:
        i = rng.randrange(len(ks) - 1)
        h[ks[i]], h[ks[i + 1]] = (1, 12) if h[ks[i]] == 11 else (11, 2)
    elif what == "rename":
        v = h.pop("extra", 5)
        h[rng.choice(["extra2", "zeta", "a"])] = v
    elif ks:
        h[ks[-1]] = rng.choice([77, "x"])
    return h


def value(rng):
    r = rng.random()
    if r < 0.6:
        return rng.choice([rng.uniform(-5, 5), rng.uniform(-1e9, 1e9), rng.uniform(0, 1e-9), 0.1 + 0.2])
    if r < 0.75:
        return rng.randrange(-5, 100)
    return rng.choice([float("nan"), float("inf"), -float("inf"), "text", "2PC-0.5", True, 0, None, np.float64(1 / 3), np.int64(7)])


def datapath(rng, path, make):
    paths = {}
    if path is not None:
        paths["structured"] = path
    if rng.random() < 0.5:
        paths["raw"] = "raw/" + str(rng.randrange(99)) + ".csv"
    raw = {"barcode": "00%d" % rng.randrange(1000), "channel_id": rng.randrange(96), "start": rng.choice([None, "2020-01-01", 3.5])}
    return SimpleNamespace(is_structured=True, paths=paths, metadata=SimpleNamespace(raw=raw),
                           semiunique_id="id-%d" % rng.randrange(10 ** 6), make=make)


def frame(rng, n=1):
    names = rng.sample(NAMES, rng.choice([1, 1, 2, 3, 5]))
    return pd.DataFrame({c: [value(rng) for _ in range(n)] for c in names}, index=[rng.choice([0, 0, 5, "r"])] * n)


def eq(a, b):
    if a is None or (isinstance(a, (float, np.floating)) and math.isnan(a)):
        return b is None or (isinstance(b, (float, np.floating)) and math.isnan(b))
    if b is None:
        return False
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return float(a) == float(b)


def key(h):
    return json.dumps(h, sort_keys=True)


def shuffled(rng, d):
    ks = list(d)
    rng.shuffle(ks)
    return {k: d[k] for k in ks}


def population(rng, one=False):
    """featurizers with at most one per (file, class, hyperparameters); also returns the truth"""
    nf = rng.choice([1, 2, 3, 6])
    files = ["/data/%s_structured.json" % x for x in rng.sample(["a", "b", "c", "A", "ab", "b_b", "x::y"], nf)]
    variants = {}
    pops, truth = [], {}
    for c in CLASSES:
        vs = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            h = hypers(rng, c) if not vs or rng.random() < 0.5 else sibling(rng, c, rng.choice(list(vs.values())))
            printed = {str(sorted((k, str(v)) for k, v in x.items())) for x in vs.values()}
            if str(sorted((k, str(v)) for k, v in h.items())) not in printed:
                vs[key(h)] = h
        variants[c] = list(vs.values())
    for f in files:
        for c in CLASSES:
            for h in variants[c]:
                if rng.random() < 0.6:
                    df = frame(rng)
                    bf = c(datapath(rng, f, lambda self, df=df: df.copy()), shuffled(rng, h) or None)
                    bf.create_features()
                    pops.append(bf)
                    truth[(f, c.__name__, key(h))] = {k: df[k].iloc[0] for k in df}
    if not pops:
        raise Skip("no featurizers")
    rng.shuffle(pops)
    return pops, truth


def check_matrix(obs, m, truth, what):
    """returns {(feature, class, hyperparameters): column}"""
    files = {f for f, _, _ in truth}
    obs.require(m is not None and sorted(m.index) == sorted(files), lambda: f"{what}: rows {sorted(m.index)} for files {sorted(files)}")
    wanted = {(feat, c, h) for (f, c, h), d in truth.items() for feat in d}
    obs.require(len(set(m.columns)) == len(m.columns), lambda: f"{what}: repeated columns")
    obs.require(len(m.columns) == len(wanted), lambda: f"{what}: {len(m.columns)} columns for {len(wanted)} features")
    groups = {}
    for col in m.columns:
        feat, cls, token = col.rsplit("::", 2)
        groups.setdefault((cls, token), set()).add(feat)
    for col in m.columns:
        obs.require(len(token) > 0, f"{what}: column {col} carries no hyperparameter token")
    # a token stands for one set of hyperparameters: find the assignment through the values
    by_op = {}
    for (f, c, h), d in truth.items():
        by_op.setdefault((c, h), {})[f] = d
    cols = {}
    for (c, h), per_file in by_op.items():
        feats = {x for d in per_file.values() for x in d}
        fits = []
        for (cls, token), have in groups.items():
            if cls == c and have == feats and all(
                    eq(per_file.get(f, {}).get(x, float("nan")), m.loc[f, "::".join((x, cls, token))]) for f in files for x in feats):
                fits.append(token)
        obs.require(bool(fits), lambda: f"{what}: no group of columns of {c} holds the values of the featurizer with {h}: {per_file}")
        obs.count("operations")
        for x in feats:
            cols[(x, c, h)] = fits
    obs.count("cells", m.shape[0] * m.shape[1])
    return cols


def snapshot(pops):
    return [(b.features.copy(), copy.deepcopy(b.hyperparameters), dict(b.paths), copy.deepcopy(b.metadata)) for b in pops]


def same_frame(a, b):
    return list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and all(
        eq(x, y) for c in a for x, y in zip(a[c], b[c]))


def run_case(kind, rng, obs):
    globals()["case_" + kind](rng, obs)
    for c in CLASSES:
        obs.require(c.DEFAULT_HYPERPARAMETERS == DEFAULTS[c], f"the default hyperparameters of {c.__name__} changed")


def case_matrix(rng, obs):
    pops, truth = population(rng)
    before = snapshot(pops)
    given = list(pops)
    bm = BEEPFeatureMatrix(pops)
    check_matrix(obs, bm.matrix, truth, "matrix")
    obs.require(list(bm.featurizers) == given, "the matrix does not keep its featurizers")
    for b, (df, h, p, md) in zip(given, before):
        obs.require(same_frame(b.features, df) and b.hyperparameters == h and dict(b.paths) == p and b.metadata == md,
                    lambda: f"joining the matrix changed featurizer {type(b).__name__}")
    # another order, hyperparameters given in another order
    again = list(given)
    rng.shuffle(again)
    for b in again:
        b.hyperparameters = shuffled(rng, b.hyperparameters)
    m2 = BEEPFeatureMatrix(again).matrix
    obs.require(sorted(m2.columns) == sorted(bm.matrix.columns), "column names depend on the order of featurizers or hyperparameters")
    for f in bm.matrix.index:
        for c in bm.matrix.columns:
            obs.require(eq(bm.matrix.loc[f, c], m2.loc[f, c]), lambda: f"cell ({f}, {c}) depends on the order of featurizers")
    # names do not depend on which files and featurizers are present
    part = [b for b in again if rng.random() < 0.5]
    if part:
        m3 = BEEPFeatureMatrix(part).matrix
        obs.require(set(m3.columns) <= set(bm.matrix.columns), "column names depend on the other featurizers")
        for b in part:
            f = b.paths["structured"]
            for c in m3.columns:
                if c in bm.matrix.columns and not eq(m3.loc[f, c], bm.matrix.loc[f, c]):
                    obs.require(eq(m3.loc[f, c], None), lambda: f"cell ({f}, {c}) depends on the other featurizers")
    # the matrix is a copy
    b = rng.choice(given)
    f = b.paths["structured"]
    keep = bm.matrix.copy()
    b.features.iloc[0, 0] = 123456.0
    obs.require(same_frame(keep, bm.matrix), "changing a featurizer changed the matrix")
    obs.saw("matrix", len(set(x[0] for x in truth)), len(set(x[1] for x in truth)), min(len(truth), 9), len(part) > 0)
    obs.describe(f"{len(given)} featurizers over {bm.matrix.shape[0]} files -> {bm.matrix.shape[1]} columns")


def case_roundtrip(rng, obs):
    pops, truth = population(rng)
    bm = BEEPFeatureMatrix(pops)
    with scratch() as d:
        path = os.path.join(d, "m" + rng.choice([".json", ".json.gz"]))
        bm.to_json_file(path)
        back = BEEPFeatureMatrix.from_json_file(path)
        obs.require(isinstance(back, BEEPFeatureMatrix), lambda: f"loading a saved matrix gives {type(back)}")
        obs.require(sorted(back.matrix.columns) == sorted(bm.matrix.columns), lambda: "the loaded matrix has other columns: "
                    f"{sorted(set(back.matrix.columns) ^ set(bm.matrix.columns))[:3]}")
        check_matrix(obs, back.matrix, truth, "loaded matrix")
        for f in bm.matrix.index:
            for c in bm.matrix.columns:
                obs.require(eq(bm.matrix.loc[f, c], back.matrix.loc[f, c]), lambda: f"cell ({f}, {c}) changed on saving: "
                            f"{bm.matrix.loc[f, c]!r} -> {back.matrix.loc[f, c]!r}")
        obs.require(len(back.featurizers) == len(pops), "featurizers lost on saving a matrix")
        for a, b in zip(pops, back.featurizers):
            compare(obs, a, b, "featurizer of a loaded matrix")
        if rng.random() < 0.3:
            back.to_json_file(path)
            third = BEEPFeatureMatrix.from_json_file(path)
            obs.require(same_frame(third.matrix, back.matrix), "a second save changes the matrix")
    # loaded and fresh featurizers join
    mixed = [x if rng.random() < 0.5 else y for x, y in zip(pops, back.featurizers)]
    m = BEEPFeatureMatrix(mixed).matrix
    obs.require(sorted(m.columns) == sorted(bm.matrix.columns), "fresh and loaded featurizers do not share columns")
    obs.saw("roundtrip", path.endswith("gz"), len(set(x[0] for x in truth)), len(set(x[1] for x in truth)), min(len(truth), 9))
    obs.describe(f"matrix {bm.matrix.shape} saved and loaded")


def case_process(rng, obs):
    """a matrix saved by one process is the same in another"""
    pops, truth = population(rng)
    bm = BEEPFeatureMatrix(pops)
    with scratch() as d:
        path = os.path.join(d, "m.json")
        bm.to_json_file(path)
        r = subprocess.run([sys.executable, "-c", OTHER, path], capture_output=True, text=True, timeout=300,
                           env=dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 1000)),
                                    PYTHONPATH=os.pathsep.join([p for p in sys.path if p])))
        obs.require(r.returncode == 0, lambda: f"another process cannot load the matrix: {r.stderr[-400:]}")
        got = json.loads(r.stdout.splitlines()[-1])
    obs.require(sorted(got["columns"]) == sorted(bm.matrix.columns), "the columns of a saved matrix are others in another process")
    for f, row in zip(got["index"], got["rows"]):
        for c, v in zip(got["columns"], row):
            obs.require(eq(bm.matrix.loc[f, c], v), lambda: f"cell ({f}, {c}) is {v!r} in another process, was {bm.matrix.loc[f, c]!r}")
    obs.saw("process", len(truth), bm.matrix.shape[0])
    obs.describe(f"matrix {bm.matrix.shape} loaded in another process")


OTHER = """
import json, sys
import monitors.c18
from beep.features.base import BEEPFeatureMatrix
m = BEEPFeatureMatrix.from_json_file(sys.argv[1]).matrix
print(json.dumps({"columns": list(m.columns), "index": list(m.index), "rows": [[v.item() if hasattr(v, "item") else v for v in r] for r in m.values.tolist()]}))
"""


def compare(obs, a, b, what):
    obs.require(type(a) is type(b), lambda: f"{what}: class {type(b).__name__} instead of {type(a).__name__}")
    obs.require(list(a.features.columns) == list(b.features.columns) and all(
        len(a.features) == len(b.features) and eq(x, y) for c in a.features for x, y in zip(a.features[c], b.features[c])),
        lambda: f"{what}: features {a.features.to_dict('list')} became {b.features.to_dict('list')}")
    obs.require(a.hyperparameters == b.hyperparameters, lambda: f"{what}: hyperparameters {a.hyperparameters} became {b.hyperparameters}")
    obs.require({k: v for k, v in b.paths.items() if k != "features"} == {k: v for k, v in a.paths.items() if k != "features"},
                lambda: f"{what}: paths {a.paths} became {b.paths}")
    obs.require(a.metadata == b.metadata, lambda: f"{what}: metadata {a.metadata} became {b.metadata}")
    obs.require(a.linked_semiunique_id == b.linked_semiunique_id, lambda: f"{what}: linked id {a.linked_semiunique_id} became {b.linked_semiunique_id}")
    obs.count("featurizers compared")


def case_featurizer(rng, obs):
    cls = rng.choice(CLASSES)
    h = hypers(rng, cls)
    mode = rng.choice(["default", "given", "incomplete"])
    df = frame(rng, rng.choice([1, 1, 1, 2, 4]))
    dp = datapath(rng, rng.choice(["/d/a.json", None]), lambda self: df.copy())
    if mode == "incomplete":
        if not DEFAULTS[cls]:
            raise Skip("no hyperparameters to leave out")
        gone = rng.sample(list(DEFAULTS[cls]), 1)
        part = {k: v for k, v in h.items() if k not in gone}
        if not part:
            raise Skip("nothing given")
        try:
            cls(dp, part)
        except REFUSALS:
            obs.saw("featurizer", "incomplete", cls.__name__)
        else:
            obs.require(False, f"{cls.__name__} accepts hyperparameters {sorted(part)}")
        return
    h = None if mode == "default" else h
    mine = copy.deepcopy(h)
    bf = cls(dp, h)
    want = DEFAULTS[cls] if not h else mine
    obs.require(bf.hyperparameters == want, lambda: f"{cls.__name__} uses {bf.hyperparameters} instead of {want}")
    obs.require(bf.linked_semiunique_id == dp.semiunique_id and dict(bf.paths) == dp.paths and bf.metadata == dp.metadata.raw,
                "the featurizer does not carry the run's paths, metadata and id")
    try:
        bf.as_dict()
    except REFUSALS:
        pass
    else:
        obs.require(False, "a featurizer without features is serialized")
    bf.create_features()
    with scratch() as d:
        path = os.path.join(d, "f" + rng.choice([".json", ".json.gz"]))
        bf.to_json_file(path)
        before = dict(bf.paths)
        back = cls.from_json_file(path)
        compare(obs, bf, back, "loaded featurizer")
        obs.require(os.path.abspath(path) == back.paths.get("features"), "a loaded featurizer does not know its file")
        obs.require(before == dict(bf.paths), "loading a featurizer changed the saved one")
        second = os.path.join(d, "g.json")
        back.to_json_file(second)
        third = cls.from_json_file(second)
        compare(obs, bf, third, "featurizer loaded twice")
    # featurizers do not share their hyperparameters
    other = cls(dp, h)
    for k in list(bf.hyperparameters):
        v = bf.hyperparameters[k]
        if isinstance(v, list):
            v.append("changed")
        elif isinstance(v, dict):
            v["changed"] = 1
        bf.hyperparameters[k] = "changed"
    bf.hyperparameters["new"] = 1
    obs.require(other.hyperparameters == want and h == mine, lambda: f"changing the hyperparameters of one {cls.__name__} changed "
                f"another's: {other.hyperparameters}")
    fresh = cls(dp, None)
    obs.require(fresh.hyperparameters == DEFAULTS[cls], lambda: f"a new {cls.__name__} starts with {fresh.hyperparameters}")
    obs.saw("featurizer", mode, cls.__name__, len(df), len(df.columns), path.endswith("gz"))
    obs.describe(f"{cls.__name__} with {mode} hyperparameters, {df.shape} features")


def case_refuse(rng, obs):
    what = rng.choice(["empty", "nofeatures", "rows", "unlinked", "duplicate", "overlap", "unstructured"])
    pops, truth = population(rng)
    b = rng.choice(pops)
    if what == "empty":
        bm = BEEPFeatureMatrix([])
        obs.require(bm.matrix is None, "a matrix of no featurizers is not None")
        with scratch() as d:
            bm.to_json_file(os.path.join(d, "e.json"))
            back = BEEPFeatureMatrix.from_json_file(os.path.join(d, "e.json"))
        obs.require(back.matrix is None and not back.featurizers, "an empty matrix does not survive saving")
        obs.saw("refuse", what)
        return
    if what == "unstructured":
        dp = datapath(rng, "/d/x.json", None)
        dp.is_structured = False
        try:
            FeatA(dp)
        except REFUSALS:
            obs.saw("refuse", what)
            return
        obs.require(False, "a featurizer accepts a run which is not structured")
    if what == "nofeatures":
        b.features = None
    elif what == "rows":
        b.features = frame(rng, rng.choice([2, 3])) if rng.random() < 0.7 else b.features.iloc[:0]
    elif what == "unlinked":
        b.paths = rng.choice([{}, {"raw": "x"}, {"structured": None}, {"structured": ""}])
    elif what in ("duplicate", "overlap"):
        cls = type(b)
        df = b.features.copy() if what == "duplicate" else pd.DataFrame({list(b.features)[-1]: [1.0], "new": [2.0]})
        h = {k: b.hyperparameters[k] for k in reversed(list(b.hyperparameters))}
        c = cls(datapath(rng, b.paths["structured"], lambda self: df), copy.deepcopy(h))
        c.create_features()
        pops.insert(rng.randrange(len(pops) + 1), c)
    try:
        m = BEEPFeatureMatrix(pops).matrix
    except REFUSALS:
        obs.saw("refuse", what, min(len(pops), 5))
        obs.describe(f"{what}: refused among {len(pops)} featurizers")
    else:
        obs.require(False, lambda: f"{what}: a matrix of shape {m.shape} instead of a refusal")
