"""C20 - A linear model is the one its data and settings define, and predicts accordingly, also after saving and loading."""
import itertools
import math
import os

import numpy as np
import pandas as pd

from monitors.c04 import scratch
from monitors.c18 import FeatA, FeatAB, FeatB
from monitors.c19 import Table, expected, miss
from vlib.core import Skip

ID = "C20"
RULE = (
    "Models are trained on random feature and target matrices with missing values, constant features and several hyperparameter "
    "variants; the coefficients are compared with an independent solution of the documented optimisation problem on independently "
    "cleaned and standardised data, the chosen hyperparameters with an independent cross validation, the errors with independent "
    "metrics, and predictions on other matrices with the affine map of the model. Non-trivial: a model is trained; distinct by "
    "(mode, model, targets, settings, features and samples dropped)."
)
KINDS = {"train": (240, 1200), "predict": (240, 1200), "saved": (120, 600), "score": (120, 500), "refuse": (120, 600)}
MIN_SIGNATURES = 40

from beep.features.base import BEEPFeatureMatrix  # noqa: E402
from beep.model import BEEPLinearModelExperiment, BEEPMLExperimentError  # noqa: E402

REFUSALS = (BEEPMLExperimentError, ValueError, KeyError, NotImplementedError)


def setup(rng, n=None):
    t = Table(rng, n=n or rng.choice([10, 12, 16, 24]), variants=rng.choice([1, 1, 2]))
    feats = [f + "::FeatA" for f in t.by_class[FeatA]] + [f + "::FeatAB" for f in t.by_class[FeatAB]]
    if rng.random() < 0.3:
        c = rng.choice(feats)
        v = rng.choice([0.0, 3.5])
        for s in t.samples:
            if not miss(t.value(s, c)):
                put(t, s, c, v)
    # targets depend on the features
    scale = rng.choice([1.0, 100.0, 1e-2])
    for k, y in enumerate(["t1::FeatB", "t2::FeatB"]):
        w = [rng.choice([0.0, 1.0, -2.0]) for _ in feats]
        for s in t.samples:
            if not miss(t.value(s, y)):
                put(t, s, y, scale * (5 + k + sum(a * (0 if miss(t.value(s, f)) else t.value(s, f)) for a, f in zip(w, feats)) + rng.gauss(0, 0.5)))
    return t, feats


def put(t, s, col, v):
    f, c = col.split("::")[:2]
    t.cells[(s, f, {"FeatA": FeatA, "FeatB": FeatB, "FeatAB": FeatAB}[c])] = v


def options(rng):
    name = rng.choice(["ridge", "ridge", "lasso", "elasticnet"])
    o = {"model_name": name,
         "alphas": rng.choice([[0.001, 0.01, 0.1, 1.0], (0.03, 0.3, 3.0), np.logspace(-3, 0, 5), [0.05]] + ([None] if name != "elasticnet" or rng.random() < 0.3 else [])),
         "train_feature_drop_nan_thresh": rng.choice([0.95, 0.5, 0.6, 0.0]),
         "train_sample_drop_nan_thresh": rng.choice([0.5, 0.0, 0.85]),
         "predict_sample_nan_thresh": rng.choice([0.75, 0.0, 0.5, 1.0]),
         "drop_nan_training_targets": rng.random() < 0.8,
         "impute_strategy": rng.choice(["median", "median", "mean"]),
         "kfold": rng.choice([2, 3, 5, 2, 3, 5, 7])}
    if name == "elasticnet":
        o["l1_ratio"] = rng.choice([[0.1, 0.5, 0.9], (0.5,), [0.7, 1.0]])
    return o


def targets_for(rng, o):
    if o["model_name"] == "elasticnet":
        return rng.choice([["t1::FeatB"], ["t2::FeatB"], ["t2::FeatB", "t1::FeatB"]])
    return [rng.choice(["t1::FeatB", "t2::FeatB"])]


def cleaned(t, feats, targets, o):
    exp = expected(t, feats, targets, dict(o, drop_split_threshold=0, n_splits=2), [], [])
    if exp in ("nofeature", "nosplit"):
        return "refuse"
    return exp


def zscore(X):
    m = X.mean(axis=0)
    s = np.sqrt(((X - m) ** 2).mean(axis=0))
    s = np.where(s < 1e-12 * np.maximum(1, np.abs(m)), 1.0, s)
    return (X - m) / s, m, s


def objective(Z, Y, W, name, alpha, l1):
    r = Y - Y.mean(axis=0) - Z @ W
    if name == "ridge":
        return 0.5 * (r ** 2).sum() + 0.5 * alpha * (W ** 2).sum()
    n = len(Z)
    pen = np.sqrt((W ** 2).sum(axis=1)).sum()
    return (r ** 2).sum() / (2 * n) + alpha * l1 * pen + 0.5 * alpha * (1 - l1) * (W ** 2).sum()


def solve(Z, Y, name, alpha, l1, eps=1e-13):
    """W (features x targets) minimising the objective"""
    Yc = Y - Y.mean(axis=0)
    n, p = Z.shape
    if name == "ridge":
        return np.linalg.solve(Z.T @ Z + alpha * np.eye(p), Z.T @ Yc)
    G, c = Z.T @ Z / n, Z.T @ Yc / n
    W = np.zeros((p, Y.shape[1]))
    for _ in range(20000):
        old = W.copy()
        for j in range(p):
            rho = c[j] - G[j] @ W + G[j, j] * W[j]
            nrm = math.sqrt((rho ** 2).sum())
            W[j] = 0 if nrm <= alpha * l1 or nrm == 0 else rho * (1 - alpha * l1 / nrm) / (G[j, j] + alpha * (1 - l1))
        if np.abs(W - old).max() <= eps * max(1e-300, np.abs(W).max()):
            break
    return W


def cv_error(X, Y, name, alpha, l1, k):
    n = len(X)
    sizes = [n // k + (i < n % k) for i in range(k)]
    mse, r2, start = [], [], 0
    for s in sizes:
        test = np.arange(start, start + s)
        start += s
        tr = np.setdiff1d(np.arange(n), test)
        m = X[tr].mean(axis=0)
        W = solve(X[tr] - m, Y[tr], name, alpha, l1, eps=1e-9)
        e = Y[test] - (Y[tr].mean(axis=0) + (X[test] - m) @ W)
        mse.append((e ** 2).mean())
        den = ((Y[test] - Y[test].mean(axis=0)) ** 2).sum()
        r2.append(1 - (e ** 2).sum() / den if den > 0 else float("nan"))
    return np.mean(mse), np.mean(r2)


def metrics(y, p):
    e = y - p
    den = ((y - y.mean()) ** 2).sum()
    return {"rmse": math.sqrt((e ** 2).mean()), "mae": np.abs(e).mean(), "max_error": np.abs(e).max(),
            "r2": (1 - (e ** 2).sum() / den) if len(y) > 1 and den > 0 else None}


def check_errors(obs, got, Y, P, targets, what, rel=1e-6):
    obs.require(set(got) == {"rmse", "mae", "r2", "max_error"}, lambda: f"{what}: metrics {sorted(got)}")
    for k, t in enumerate(targets):
        want = metrics(Y[:, k], P[:, k])
        for m, w in want.items():
            if w is None:
                continue
            v = got[m][t] if len(targets) > 1 else got[m]
            tol = rel * max(abs(w), 1) if m == "r2" else rel * max(np.abs(Y[:, k]).max(), abs(w))
            obs.require(abs(v - w) <= tol, lambda: f"{what}: {m} of {t} is {v}, expected {w}")
    obs.count("metrics", 4 * len(targets))


def arrays(exp, t, feats, targets, samples=None):
    samples = samples or exp[1]
    X = np.array([[float(exp[2][(s, c)]) for c in feats] for s in samples])
    Y = np.array([[float(t.value(s, c)) for c in targets] for s in samples])
    return X, Y


def affine(model, feats, targets, t):
    """the model's map, observed through its predictions on a designed matrix (raw feature units)"""
    rows = [np.zeros(len(feats))] + [np.eye(len(feats))[i] for i in range(len(feats))]
    df = pd.DataFrame(rows, columns=list(feats), index=["r%d" % i for i in range(len(rows))])
    y, dropped = model.predict(df, homogenize_features=False)
    P = y[list(targets)].values
    return P[0], P[1:] - P[0]


def check_model(obs, o, m, X, Y, feats, targets, t, alpha, l1, what):
    """the affine map is the minimiser of the documented problem on this data"""
    b, A = affine(m, feats, targets, t)
    Z, mean, scale = zscore(X)
    W = A * scale[:, None]
    name = o["model_name"]
    best = solve(Z, Y, name, alpha, l1)
    spread = ((Y - Y.mean(axis=0)) ** 2).sum()
    gap = objective(Z, Y, W, name, alpha, l1) - objective(Z, Y, best, name, alpha, l1)
    tol = (1e-9 if name == "ridge" else 1.2e-4 / len(Y)) * spread + 1e-12 * (Y ** 2).sum()
    obs.require(gap <= tol, lambda: f"{what}: the coefficients of the {name} model with alpha={alpha}, l1_ratio={l1} are not the minimiser: "
                f"objective exceeds the minimum by {gap} (allowed {tol}); {dict(zip(feats, W.tolist()))} instead of {best.tolist()}")
    off = b + mean @ A - Y.mean(axis=0)
    obs.require(np.abs(off).max() <= 1e-6 * (np.abs(Y).max() + np.abs(mean @ A).max()), lambda: f"{what}: the intercept is off by {off}")
    obs.count("coefficients", A.size)
    return b, A


def trained(rng, obs, score=False):
    t, feats = setup(rng, n=rng.choice([8, 9, 10]) if score else None)
    o = options(rng)
    if score:
        o["kfold"] = 2
        if o["alphas"] is None:
            o["alphas"] = [0.01, 0.1, 1.0]
    targets = targets_for(rng, o)
    exp = cleaned(t, feats, targets, o)
    if exp == "refuse" or len(exp[1]) < 2 * o["kfold"]:
        raise Skip("no usable training data")
    if any(miss(exp[2][(s, c)]) for s in exp[1] for c in exp[0]):
        raise Skip("a feature nobody has cannot be imputed")
    ys = np.array([[t.value(s, c) for c in targets] for s in exp[1]])
    if (ys.std(axis=0) < 1e-9).any():
        raise Skip("constant target")
    fm = t.matrix([FeatA, FeatAB])
    tm = t.matrix([FeatB])
    homogenize = t.variants > 1 or rng.random() < 0.7
    full = {c.rsplit("::", 1)[0]: c for c in list(fm.matrix.columns) + list(tm.matrix.columns)}
    name = (lambda c: c) if homogenize else (lambda c: full[c])
    keep = fm.matrix.copy(), tm.matrix.copy()
    m = BEEPLinearModelExperiment(fm, tm, [name(c) for c in targets], homogenize_features=homogenize, **o)
    for a, b in zip(keep, (fm.matrix, tm.matrix)):
        obs.require(list(a.columns) == list(b.columns), "making a model renames the columns of the caller's matrix")
    return t, feats, o, targets, exp, m, name, homogenize


def check_training(obs, t, o, targets, exp, m, name, errors, what="training"):
    feats = sorted(exp[0])
    X, Y = arrays(exp, t, feats, targets)
    nm, nt = [name(c) for c in feats], [name(c) for c in targets]
    h = m.optimal_hyperparameters
    alpha = float(h["alpha"])
    l1 = float(h.get("l1_ratio", 1.0))
    if o["alphas"] is not None:
        obs.require(any(abs(alpha - a) <= 1e-12 * a for a in o["alphas"]), lambda: f"{what}: alpha {alpha} is not one of {list(o['alphas'])}")
    if o["model_name"] == "elasticnet":
        obs.require("l1_ratio" in h and any(abs(l1 - a) < 1e-12 for a in o["l1_ratio"]), lambda: f"{what}: l1_ratio {h} is not one of {o['l1_ratio']}")
    b, A = check_model(obs, o, m, X, Y, nm, nt, t, alpha, l1, what)
    check_errors(obs, errors, Y, b + X @ A, nt, what)
    # only where the folds determine the coefficients (elsewhere slow convergence decides)
    determined = o["model_name"] == "ridge" or len(exp[1]) - math.ceil(len(exp[1]) / o["kfold"]) >= 2 * len(feats)
    if o["alphas"] is not None and len(o["alphas"]) * len(o.get("l1_ratio", [1])) > 1 and determined:
        # cross validation over contiguous folds of the cleaned samples, in the matrix's order
        idx = [s for s in t.matrix_order if s in exp[1]]
        Xo, Yo = arrays(exp, t, feats, targets, idx)
        Z, _, _ = zscore(Xo)
        grid = {(a, l): cv_error(Z, Yo, o["model_name"], float(a), float(l), o["kfold"]) for a in o["alphas"] for l in (o.get("l1_ratio") or [1.0])}
        mine = min(grid, key=lambda g: (abs(g[0] - alpha), abs(g[1] - l1)))
        spread = ((Yo - Yo.mean(axis=0)) ** 2).mean()
        ok = grid[mine][0] <= min(v[0] for v in grid.values()) + 2e-3 * spread or \
            grid[mine][1] >= max(v[1] for v in grid.values()) - 2e-3
        obs.require(ok, lambda: f"{what}: (alpha, l1_ratio)={mine} is not the best in {o['kfold']}-fold cross validation: {grid}")
        obs.count("cross validations")
    return feats, b, A


def run_case(kind, rng, obs):
    globals()["case_" + kind](rng, obs)


def frame_order(m, t):
    t.matrix_order = list(m.feature_matrix.matrix.index)


def sig(kind, o, targets, exp, feats, t):
    return (kind, o["model_name"], len(targets), o["alphas"] is None, len(exp[0]) < len(feats), len(exp[1]) < t.n, o["kfold"], o["impute_strategy"])


def case_train(rng, obs):
    t, feats, o, targets, exp, m, name, homogenize = trained(rng, obs)
    frame_order(m, t)
    model, errors = m.train()
    check_training(obs, t, o, targets, exp, m, name, errors)
    obs.saw(*sig("train", o, targets, exp, feats, t))
    obs.describe(f"{o['model_name']} on {len(exp[1])} of {t.n} samples, {len(exp[0])} features, alpha {m.optimal_hyperparameters['alpha']}")


def prediction_set(rng, exp, feats_kept, t):
    """another table with the model's features, perhaps more"""
    p = Table(rng, n=rng.choice([1, 2, 4, 9, 4, 9, 70]), variants=t.variants)
    for (s, f, c) in list(p.cells):
        v = p.cells[(s, f, c)]
        if miss(v) and rng.random() < 0.3:
            p.cells[(s, f, c)] = float("nan") if rng.random() < 0.8 else v
        if isinstance(v, float) and math.isinf(v):
            p.cells[(s, f, c)] = float("nan")
    return p


def judge_prediction(obs, m, o, feats, names, targets, b, A, p, samples, y, dropped, exp, t, what):
    of = len(feats)
    kept, gone = [], []
    for s in samples:
        have = sum(not miss(p.value(s, c)) for c in feats)
        need = o["predict_sample_nan_thresh"] * of
        (kept if have >= need - 1e-9 else gone).append(s)
    obs.require(sorted(y.index) == sorted(kept), lambda: f"{what}: predicts {sorted(y.index)}, expected {sorted(kept)} (threshold "
                f"{o['predict_sample_nan_thresh']} of {of} features)")
    obs.require(sorted(dropped) == sorted(gone), lambda: f"{what}: reports {sorted(dropped)} as dropped, expected {sorted(gone)}")
    obs.require(list(y.columns) == list(targets), lambda: f"{what}: columns {list(y.columns)} for targets {targets}")
    fills = []
    f = np.median if o["impute_strategy"] == "median" else np.mean
    for source in (lambda c: [p.value(s, c) for s in kept if not miss(p.value(s, c))],
                   lambda c: [float(exp[2][(s, c)]) for s in exp[1]]):
        fills.append([float(f(source(c))) if len(source(c)) else float("nan") for c in feats])
    for s in kept:
        got = y.loc[s].values.astype(float)
        ok = False
        want = None
        for fl in fills:
            x = np.array([fl[i] if miss(p.value(s, c)) else float(p.value(s, c)) for i, c in enumerate(feats)])
            want = b + x @ A
            if np.isnan(want).any() or np.abs(got - want).max() <= 1e-6 * (np.abs(want).max() + np.abs(x[:, None] * A).max() + np.abs(b).max()):
                ok = True
                break
        obs.require(ok, lambda: f"{what}: prediction of {s} is {got}, expected {want}")
        obs.count("predictions")


def case_predict(rng, obs):
    t, feats, o, targets, exp, m, name, homogenize = trained(rng, obs)
    m.train()
    kf = sorted(exp[0])
    nt = [name(c) for c in targets]
    b, A = affine(m, [name(c) for c in kf], nt, t)
    p = prediction_set(rng, exp, kf, t)
    if not homogenize:
        p.variant = {k: 0 for k in p.variant}
    usable = [s for s in p.samples if sum(not miss(p.value(s, c)) for c in kf) >= o["predict_sample_nan_thresh"] * len(kf) - 1e-9]
    if not usable or any(all(miss(p.value(s, c)) for s in usable) for c in kf):
        raise Skip("nothing to impute from")
    mode = rng.choice(["matrix", "matrix", "frame"])
    pm = p.matrix([FeatA, FeatAB] + ([FeatB] if rng.random() < 0.5 else []))
    given = pm
    if mode == "frame":
        cols = list(pm.matrix.columns)
        rng.shuffle(cols)
        given = pm.matrix[cols].sample(frac=1, random_state=rng.randrange(99))
    keep = pm.matrix.copy()
    y, dropped = m.predict(given)
    judge_prediction(obs, m, o, kf, None, nt, b, A, p, p.samples, y, dropped, exp, t, "prediction")
    now = pm.matrix
    obs.require(list(now.columns) == list(keep.columns) and now.equals(keep), "predicting changes the caller's matrix")
    y2, d2 = m.predict(given)
    obs.require(sorted(y2.index) == sorted(y.index) and np.array_equal(y2.loc[y.index].values, y.values) and sorted(d2) == sorted(dropped),
                "a second prediction differs")
    # one cell at a time, without missing values: a prediction depends on its own sample only
    whole = [s for s in usable if not any(miss(p.value(s, c)) for c in kf)]
    if whole:
        s = rng.choice(whole)
        y3, d3 = m.predict(p.matrix([FeatA, FeatAB], samples=[s]))
        obs.require(list(y3.index) == [s] and np.allclose(y3.values, y.loc[[s]].values, rtol=1e-9, atol=1e-12), lambda: f"the prediction of {s} "
                    f"depends on the other samples: {y3.values} / {y.loc[[s]].values}")
    obs.saw("predict", o["model_name"], len(targets), mode, len(dropped) > 0, len(usable) > len(whole), homogenize, t.variants)
    obs.describe(f"{len(y)} predictions, {len(dropped)} dropped, {o['model_name']}")


def case_saved(rng, obs):
    t, feats, o, targets, exp, m, name, homogenize = trained(rng, obs)
    frame_order(m, t)
    if rng.random() < 0.5:
        m.train()
    else:
        if len(exp[1]) < 3 * o["kfold"]:
            raise Skip("too few samples to score")
        m.train_and_score(0.7)
    kf = sorted(exp[0])
    nm, nt = [name(c) for c in kf], [name(c) for c in targets]
    b, A = affine(m, nm, nt, t)
    with scratch() as d:
        path = os.path.join(d, "model" + rng.choice([".json", ".json.gz"]))
        m.to_json_file(path)
        back = BEEPLinearModelExperiment.from_json_file(path)
    obs.require(isinstance(back, BEEPLinearModelExperiment), lambda: f"loading a model gives {type(back)}")
    b2, A2 = affine(back, nm, nt, t)
    obs.require(np.allclose(b, b2, rtol=1e-9, atol=1e-12) and np.allclose(A, A2, rtol=1e-7, atol=1e-9 * (1e-300 + np.abs(A).max())),
                lambda: f"the loaded model predicts differently: {b2}, {A2.tolist()} instead of {b}, {A.tolist()}")
    obs.require(dict(back.optimal_hyperparameters) == dict(m.optimal_hyperparameters), "the loaded model has other hyperparameters")
    obs.require(list(back.targets) == nt and sorted(back.feature_labels) == sorted(m.feature_labels), "the loaded model has other features or targets")
    p = prediction_set(rng, exp, kf, t)
    if not homogenize:
        p.variant = {k: 0 for k in p.variant}
    usable = [s for s in p.samples if sum(not miss(p.value(s, c)) for c in kf) >= o["predict_sample_nan_thresh"] * len(kf) - 1e-9]
    if usable and not any(all(miss(p.value(s, c)) for s in usable) for c in kf):
        y, dropped = back.predict(p.matrix([FeatA, FeatAB]))
        judge_prediction(obs, back, o, kf, None, nt, b, A, p, p.samples, y, dropped, exp, t, "prediction of a loaded model")
    model, errors = back.train()
    t.matrix_order = list(back.feature_matrix.matrix.index)
    check_training(obs, t, o, targets, exp, back, name, errors, "training a loaded model")
    obs.saw(*sig("saved", o, targets, exp, feats, t))
    obs.describe(f"{o['model_name']} of {len(targets)} targets saved and loaded")


def case_score(rng, obs):
    t, feats, o, targets, exp, m, name, homogenize = trained(rng, obs, score=True)
    frac = rng.choice([0.8, 0.6, 0.7])
    n = len(exp[1])
    if round(frac * n) < 4 or n - math.floor(frac * n) < 2:
        raise Skip("too few samples")
    np.random.seed(rng.randrange(2 ** 31))
    model, train_errors, test_errors = m.train_and_score(train_and_val_frac=frac)
    kf = sorted(exp[0])
    nm, nt = [name(c) for c in kf], [name(c) for c in targets]
    X, Y = arrays(exp, t, kf, targets)
    b, A = affine(m, nm, nt, t)
    P = b + X @ A
    alpha = float(m.optimal_hyperparameters["alpha"])
    l1 = float(m.optimal_hyperparameters.get("l1_ratio", 1.0))
    obs.require(any(abs(alpha - a) <= 1e-12 * a for a in o["alphas"]), f"alpha {alpha} is not one of {list(o['alphas'])}")
    fits, agree = 0, False
    reasons = []
    for k in {math.floor(frac * n), math.ceil(frac * n)}:
        for part in itertools.combinations(range(n), k):
            part = list(part)
            rest = [i for i in range(n) if i not in part]
            # cheap rejection: the mean prediction on the training samples equals their mean target
            if np.abs(P[part].mean(axis=0) - Y[part].mean(axis=0)).max() > 1e-6 * np.abs(Y).max():
                continue
            Z, mean, scale = zscore(X[part])
            W = A * scale[:, None]
            best = solve(Z, Y[part], o["model_name"], alpha, l1)
            spread = ((Y[part] - Y[part].mean(axis=0)) ** 2).sum()
            gap = objective(Z, Y[part], W, o["model_name"], alpha, l1) - objective(Z, Y[part], best, o["model_name"], alpha, l1)
            if gap > (1e-8 if o["model_name"] == "ridge" else 1.2e-4 / k) * spread + 1e-12 * (Y ** 2).sum():
                continue
            fits += 1
            try:
                check_errors(obs, train_errors, Y[part], P[part], nt, "training part")
                check_errors(obs, test_errors, Y[rest], P[rest], nt, "test part")
                agree = True
            except Exception as e:
                reasons.append(str(e))
    obs.require(fits > 0, lambda: f"the model is not the {o['model_name']} model of any {frac} part of the data")
    obs.require(agree, lambda: f"the errors are not those of the model's training and test samples: {reasons[:2]}")
    obs.saw("score", o["model_name"], len(targets), frac, n)
    obs.describe(f"{o['model_name']} trained on {frac} of {n} samples and scored on the rest")


def case_refuse(rng, obs):
    what = rng.choice(["untrained", "missing feature", "missing target", "nan target", "multi", "name", "rows", "save untrained", "no targets"])
    t, feats = setup(rng)
    o = options(rng)
    targets = ["t1::FeatB"]
    o["drop_nan_training_targets"] = what != "nan target"
    fm, tm = t.matrix([FeatA, FeatAB]), t.matrix([FeatB])
    if what == "missing target":
        targets = rng.choice([["t1::FeatA"], ["t1"], ["t1::FeatB", "t3::FeatB"]])
        o["model_name"] = "elasticnet"
    elif what == "nan target":
        for s in t.samples:
            put(t, s, "t1::FeatB", float("nan"))
        tm = t.matrix([FeatB])
    elif what == "multi":
        targets = ["t1::FeatB", "t2::FeatB"]
        o["model_name"] = rng.choice(["ridge", "lasso"])
        o.pop("l1_ratio", None)
    elif what == "name":
        o["model_name"] = rng.choice(["", "Ridge", "svm"])
    elif what == "rows":
        tm = t.matrix([FeatB], samples=t.samples[:-1])
    elif what == "no targets":
        targets = []
    else:
        if cleaned(t, feats, targets, o) == "refuse" or len(cleaned(t, feats, targets, o)[1]) < 2 * o["kfold"]:
            raise Skip("no usable training data")
    try:
        m = BEEPLinearModelExperiment(fm, tm, targets, **o)
        if what == "untrained":
            m.predict(fm)
        elif what == "save untrained":
            m.as_dict()
        elif what == "missing feature":
            m.train()
            c = rng.choice(m.feature_labels)
            df = t.matrix([FeatA, FeatAB]).matrix
            df.columns = ["::".join(x.split("::")[:2]) for x in df.columns]
            df = df.loc[:, ~df.columns.duplicated()].fillna(1.0).replace([np.inf, -np.inf], 1.0)
            m.predict(df.drop(columns=[c]), homogenize_features=False)
    except REFUSALS as e:
        obs.saw("refuse", what, o["model_name"])
        obs.describe(f"{what}: {type(e).__name__}")
        return
    obs.require(False, f"{what}: not refused")
