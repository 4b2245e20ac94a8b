"""C19 - The data splitter makes aligned, disjoint and exhaustive folds of exactly the samples that qualify."""
import math
import os
from types import SimpleNamespace

import numpy as np
import pandas as pd

from monitors.c04 import scratch
from monitors.c18 import FeatA, FeatAB, FeatB
from vlib.core import Skip

ID = "C19"
RULE = (
    "Feature matrices are built from featurizers over a random table of samples with missing and infinite values, several "
    "hyperparameter variants, grouping and boolean exclusion columns; the splitter runs with random settings, is saved and "
    "loaded, and its folds are compared with an independent computation over the table. Non-trivial: at least one feature and "
    "two samples; distinct by (mode, settings in force, samples and features dropped)."
)
KINDS = {"plain": (160, 2000), "grouped": (200, 2500), "excluded": (200, 2500), "homogenize": (100, 1200), "saved": (100, 1200)}
MIN_SIGNATURES = 60

from beep.features.base import BEEPFeatureMatrix, BEEPFeatureMatrixError  # noqa: E402
from beep.prediction.beep_data_splitter import BEEPDataSplitter, BEEPDataSplitterError  # noqa: E402

REFUSALS = (BEEPDataSplitterError, ValueError, KeyError)
NAN = float("nan")


def miss(v):
    return v is None or (isinstance(v, float) and (math.isnan(v) or math.isinf(v)))


class Table:
    """samples x (feature, class, variant); self.cells[(sample, feature, class)] = (value, variant)"""

    def __init__(self, rng, n=None, variants=1):
        self.rng = rng
        self.n = n or rng.choice([3, 5, 6, 8, 12, 20])
        self.samples = ["/d/cell_%d_structured.json" % i for i in rng.sample(range(1000), self.n)]
        self.variants = variants
        self.by_class = {}
        self.cells = {}
        self.variant = {}
        self.order = None
        nan = rng.choice([0.0, 0.05, 0.3])
        for cls, feats in ((FeatA, ["f1", "f2", "f3"]), (FeatAB, ["f1", "g 2", "h_0.92"]), (FeatB, ["t1", "t2"])):
            self.by_class[cls] = feats
            for f in feats:
                p = nan if cls is not FeatB else rng.choice([0.0, 0.0, 0.2])
                if cls is not FeatB and rng.random() < 0.1:
                    p = 0.8
                for s in self.samples:
                    v = rng.choice([rng.uniform(-3, 3), rng.uniform(-3, 3), float(rng.randrange(4))])
                    if rng.random() < p:
                        v = rng.choice([NAN, NAN, float("inf"), -float("inf")])
                    self.cells[(s, f, cls)] = v
        for cls in self.by_class:
            for s in self.samples:
                self.variant[(s, cls)] = rng.randrange(variants)

    def add(self, feat, cls, values):
        self.by_class[cls] = self.by_class[cls] + [feat]
        for s, v in zip(self.samples, values):
            self.cells[(s, feat, cls)] = v

    def matrix(self, classes=None, samples=None):
        bfs = []
        for s in samples or self.samples:
            for cls, feats in self.by_class.items():
                if classes is not None and cls not in classes:
                    continue
                h = dict(cls.DEFAULT_HYPERPARAMETERS)
                k = sorted(h)[0]
                if self.variant[(s, cls)]:
                    h[k] = "variant%d" % self.variant[(s, cls)]
                df = pd.DataFrame({f: [self.cells[(s, f, cls)]] for f in feats})
                dp = SimpleNamespace(is_structured=True, paths={"structured": s}, metadata=SimpleNamespace(raw={}), semiunique_id=s,
                                     make=lambda self, df=df: df)
                bf = cls(dp, h)
                bf.create_features()
                bfs.append(bf)
        if classes is not None:
            self.rng.shuffle(bfs)
            return BEEPFeatureMatrix(bfs)
        if self.order is None:
            self.order = self.rng.sample(range(len(bfs)), len(bfs))
        return BEEPFeatureMatrix([bfs[i] for i in self.order])

    def value(self, s, col):
        f, c = col.split("::")[:2]
        cls = {"FeatA": FeatA, "FeatB": FeatB, "FeatAB": FeatAB}[c]
        return self.cells[(s, f, cls)]


def expected(t, feats, targets, o, splits, excl):
    """(kept features, kept samples, X values) or None when a threshold is too close to call"""
    cols = list(dict.fromkeys(feats + splits + excl))

    def enough(have, of, frac):
        need = frac * of
        if abs(have - need) < 1e-9:
            return True
        return have > need

    keep = [c for c in cols if enough(sum(not miss(t.value(s, c)) for s in t.samples), t.n, o["train_feature_drop_nan_thresh"])]
    if any(c not in keep for c in splits + excl):
        return "refuse"
    rows = [s for s in t.samples if enough(sum(not miss(t.value(s, c)) for c in keep), len(keep), o["train_sample_drop_nan_thresh"])]
    X = {}
    for c in keep:
        have = [t.value(s, c) for s in rows if not miss(t.value(s, c))]
        if c in excl:
            fill = False
        elif o["impute_strategy"] == "none" or not have:
            fill = NAN
        else:
            fill = float(np.median(have)) if o["impute_strategy"] == "median" else math.fsum(have) / len(have)
        for s in rows:
            v = t.value(s, c)
            X[(s, c)] = fill if miss(v) else v
    group = {s: tuple(X[(s, c)] for c in splits) for s in rows}
    incl = [s for s in rows if all(bool(X[(s, c)]) for c in excl)]
    if splits and excl:
        for g in set(group.values()):
            have = sum(group[s] == g for s in incl)
            of = sum(group[s] == g for s in rows)
            if not enough(have, of, o["drop_split_threshold"]):
                incl = [s for s in incl if group[s] != g]
    if len(incl) < 2 or not keep:
        return "refuse"
    bad = [s for s in incl if any(miss(t.value(s, y)) for y in targets)]
    if bad and not o["drop_nan_training_targets"]:
        return "refuse"
    samples = [s for s in incl if s not in bad]
    if len(samples) < 2:
        return "refuse"
    if not any(c in feats for c in keep):
        return "nofeature"
    if splits:
        if len({group[s] for s in samples}) < o["n_splits"]:
            return "nosplit"
    elif len(samples) < o["n_splits"]:
        return "nosplit"
    return [c for c in keep if c in feats], samples, X, group


def near(a, b):
    if miss(a) or miss(b):
        return miss(a) and miss(b)
    return abs(float(a) - float(b)) <= 1e-12 + 1e-9 * abs(float(b))


def check_folds(obs, t, datasets, exp, targets, o, splits, names, what):
    feats, samples, X, group = exp
    obs.require(len(datasets) == o["n_splits"], lambda: f"{what}: {len(datasets)} folds for n_splits={o['n_splits']}")
    seen = []
    for i, d in enumerate(datasets):
        tr, te = list(d.train_X.index), list(d.test_X.index)
        obs.require(list(d.train_y.index) == tr and list(d.test_y.index) == te, lambda: f"{what}: fold {i}: features and targets are not of "
                    f"the same samples: {tr} / {list(d.train_y.index)}")
        obs.require(len(set(tr)) == len(tr) and len(set(te)) == len(te) and not set(tr) & set(te),
                    lambda: f"{what}: fold {i}: samples {sorted(set(tr) & set(te))} are in both parts")
        obs.require(sorted(tr + te) == sorted(samples), lambda: f"{what}: fold {i} holds {len(tr)}+{len(te)} samples, expected {len(samples)}: "
                    f"{sorted(set(tr + te) ^ set(samples))}")
        obs.require(len(te) > 0 and len(tr) > 0, f"{what}: fold {i} has an empty part")
        if splits:
            obs.require(not {group[s] for s in tr} & {group[s] for s in te}, lambda: f"{what}: fold {i}: groups "
                        f"{ {group[s] for s in tr} & {group[s] for s in te} } are on both sides")
        for part, y in ((d.train_X, d.train_y), (d.test_X, d.test_y)):
            obs.require(sorted(part.columns) == sorted(names(c) for c in feats), lambda: f"{what}: fold {i} has features "
                        f"{sorted(set(part.columns) ^ {names(c) for c in feats})} too many or too few ({len(part.columns)})")
            obs.require(list(y.columns) == [names(c) for c in targets], lambda: f"{what}: fold {i} has targets {list(y.columns)}")
            for s in part.index:
                for c in feats:
                    obs.require(near(part.loc[s, names(c)], X[(s, c)]), lambda: f"{what}: {c} of {s} is {part.loc[s, names(c)]!r}, "
                                f"expected {X[(s, c)]!r} (recorded {t.value(s, c)!r})")
                for c in targets:
                    obs.require(near(y.loc[s, names(c)], t.value(s, c)), lambda: f"{what}: target {c} of {s} is {y.loc[s, names(c)]!r}, "
                                f"expected {t.value(s, c)!r}")
            obs.count("values", part.shape[0] * (part.shape[1] + y.shape[1]))
        seen += te
        obs.count("folds")
    obs.require(sorted(seen) == sorted(samples), lambda: f"{what}: not every sample is tested exactly once")
    if not splits:
        sizes = [len(d.test_X) for d in datasets]
        obs.require(max(sizes) - min(sizes) <= 1, lambda: f"{what}: uneven test parts {sizes}")
    else:
        sizes = [len({group[s] for s in d.test_X.index}) for d in datasets]
        obs.require(max(sizes) - min(sizes) <= 1, lambda: f"{what}: uneven numbers of test groups {sizes}")


DEFAULTS = {"train_feature_drop_nan_thresh": 0.75, "train_sample_drop_nan_thresh": 0.5, "drop_nan_training_targets": True,
            "impute_strategy": "median", "n_splits": 5, "random_state": 10, "drop_split_threshold": 0.5}


def settings(rng):
    o = {"train_feature_drop_nan_thresh": rng.choice([0.75, 0.95, 0.5, 0.0, 1.0]),
         "train_sample_drop_nan_thresh": rng.choice([0.5, 0.0, 0.8, 1.0]),
         "drop_nan_training_targets": rng.random() < 0.8,
         "impute_strategy": rng.choice(["median", "median", "mean", "none"]),
         "n_splits": rng.choice([2, 3, 5, 2, 3, 7, 10]),
         "random_state": rng.randrange(1000),
         "drop_split_threshold": rng.choice([0.5, 0.25, 0.75, 1.0, 0.0])}
    for k in rng.sample(list(DEFAULTS), rng.choice([0, 0, 2, 7])):
        o[k] = DEFAULTS[k]
    return o


def run_case(kind, rng, obs):
    variants = rng.choice([2, 3]) if kind == "homogenize" or (kind == "saved" and rng.random() < 0.3) else 1
    t = Table(rng, variants=variants)
    o = settings(rng)
    splits, excl = [], []
    if kind == "grouped" or (kind == "saved" and rng.random() < 0.6) or (kind in ("excluded", "homogenize") and rng.random() < 0.5):
        alike = rng.random() < 0.2   # values which read the same when put one after another
        for k in range(rng.choice([2, 3]) if alike else rng.choice([1, 1, 2, 3])):
            levels = rng.choice([[0.0, 1.0, 2.0], [1.0, 10.0, 11.0, 0.1], [0.5, 1.5, 2.5, 3.5, 4.5], [0.2, 0.4, 0.6, 1.2, 1.4], [1.5, -1.5]])
            if alike:
                levels = [[1.0, 1.01], [10.0, 0.0], [0.0, 1.0]][k]
            t.add("split%d" % k, FeatB, [rng.choice(levels) for _ in t.samples])
            splits.append("split%d::FeatB" % k)
    if kind == "excluded" or (kind == "saved" and rng.random() < 0.5):
        for k in range(rng.choice([1, 2, 3])):
            p = rng.choice([0.1, 0.3])
            gone = rng.choice([0, 0, 0.15])
            t.add("ok%d" % k, FeatB, [rng.choice([NAN, None]) if rng.random() < gone else rng.random() > p for _ in t.samples])
            excl.append("ok%d::FeatB" % k)
    feats = [f + "::FeatA" for f in t.by_class[FeatA]] + [f + "::FeatAB" for f in t.by_class[FeatAB]]
    feats = rng.sample(feats, rng.choice([1, 3, 5, 6]))
    if splits and rng.random() < 0.4:
        feats.insert(rng.randrange(len(feats) + 1), rng.choice(splits))   # a grouping column is a feature as well
    targets = rng.choice([["t1::FeatB"], ["t2::FeatB"], ["t1::FeatB", "t2::FeatB"]])
    exp = expected(t, feats, targets, o, splits, excl)
    if exp == "nofeature":
        raise Skip("no feature survives")
    matrix = t.matrix()
    homogenize = variants > 1 or rng.random() < 0.6
    full = {c.rsplit("::", 1)[0]: c for c in matrix.matrix.columns}

    def names(c):
        return c if homogenize else full[c]

    def go(m, **over):
        kw = dict({k: v for k, v in o.items() if v != DEFAULTS[k]}, homogenize_features=homogenize, **over)
        return BEEPDataSplitter(m, [names(c) for c in feats], [names(c) for c in targets], split_columns=[names(c) for c in splits] or None,
                                exclusion_columns=[names(c) for c in excl] or None, **kw)

    if exp in ("refuse", "nosplit"):
        try:
            ds = go(matrix)
            obs.require(exp == "nosplit", lambda: f"data that cannot be split is accepted: {len(ds.X)} samples, settings {o}")
            ds.split()
        except REFUSALS:
            obs.saw(kind, exp, o["train_feature_drop_nan_thresh"], o["drop_nan_training_targets"])
            return
        obs.require(False, lambda: f"{len(ds.X)} samples are split into {o['n_splits']} folds")
    try:
        ds = go(matrix)
        got = ds.split()
    except REFUSALS as e:
        obs.require(False, lambda: f"refuses {len(exp[1])} samples of {len(exp[0])} features with settings {o}: {type(e).__name__}: {e}")
    check_folds(obs, t, got, exp, targets, o, splits, names, "split")
    obs.require(len(exp[1]) == len(ds.X) and list(ds.X.index) == list(ds.y.index), "the cleaned features and targets are not of the same samples")
    # a matrix serves more than one splitter
    other = go(t.matrix() if rng.random() < 0.5 else matrix)
    again = other.split()
    check_folds(obs, t, again, exp, targets, o, splits, names, "second splitter")
    for a, b in zip(got, again):
        obs.require(sorted(a.test_X.index) == sorted(b.test_X.index), "the folds of the same data and seed differ")
    units = {exp[3][s] for s in exp[1]} if splits else set(exp[1])
    if len(units) >= 6 and o["n_splits"] < len(units):
        differ = False
        for k in range(1, 7):
            o2 = dict(o, random_state=o["random_state"] + k)
            kw = dict(o2, homogenize_features=homogenize)
            x = BEEPDataSplitter(t.matrix(), [names(c) for c in feats], [names(c) for c in targets], split_columns=[names(c) for c in splits] or None,
                                 exclusion_columns=[names(c) for c in excl] or None, **kw).split()
            if {tuple(sorted(a.test_X.index)) for a in x} != {tuple(sorted(a.test_X.index)) for a in got}:
                differ = True
                break
        obs.require(differ, "the folds do not depend on random_state")
    if kind == "saved":
        with scratch() as d:
            path = os.path.join(d, "s" + rng.choice([".json", ".json.gz"]))
            if rng.random() < 0.5:
                ds = go(t.matrix())       # saving splits when nobody did
            ds.to_json_file(path)
            back = BEEPDataSplitter.from_json_file(path)
        obs.require(isinstance(back, BEEPDataSplitter), lambda: f"loading a saved splitter gives {type(back)}")
        obs.require(back.datasets is not None, "the loaded splitter has no folds")
        check_folds(obs, t, back.datasets, exp, targets, o, splits, names, "loaded splitter")
        for a, b in zip(got, back.datasets):
            obs.require(sorted(a.test_X.index) == sorted(b.test_X.index), "the loaded splitter has other folds")
        obs.require(sorted(back.X.index) == sorted(exp[1]) and sorted(back.y.index) == sorted(exp[1]),
                    lambda: f"the loaded splitter's data has {len(back.X)} samples, saved {len(exp[1])}")
        check_folds(obs, t, back.split(), exp, targets, o, splits, names, "loaded splitter, split again")
        for a, b in zip(got, back.datasets):
            obs.require(sorted(a.test_X.index) == sorted(b.test_X.index), "splitting the loaded splitter again gives other folds")
    obs.saw(kind, o["n_splits"], len(splits), len(excl), len(targets), len(exp[0]) < len(set(feats)), len(exp[1]) < t.n, o["impute_strategy"],
            homogenize, bool(set(splits) & set(feats)))
    obs.describe(f"{len(exp[1])} of {t.n} samples, {len(exp[0])} of {len(feats)} features, {o['n_splits']} folds by {splits or 'sample'}")
