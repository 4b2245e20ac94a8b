"""C29 - Principal components: the matrix is the runs' own curves, and embeddings, reconstructions and outlier flags follow from it."""
import json
import os
from types import SimpleNamespace
from unittest import mock

import numpy as np
import pandas as pd

from monitors.c04 import scratch
from vlib import cells
from vlib.core import Skip

ID = "C29"
RULE = (
    "Matrices with known spectra (constant columns, few components, data without noise) and batches of saved structured runs are "
    "decomposed by the real code; the matrix is compared cell by cell with the runs' tables, the decomposition with an "
    "eigendecomposition of the correlation matrix computed here, and the outlier flags with the rules in their docstrings on data "
    "which are partly far away. Non-trivial: a decomposition or a matrix was produced; distinct by (shape, components, flags)."
)
KINDS = {"pivot": (24, 150), "decompose": (120, 1500), "files": (16, 64), "other": (16, 100)}
MIN_SIGNATURES = 30


def close(a, b, rel=1e-6, ab=0.0):
    return bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= ab + rel * np.abs(np.asarray(b, float))))


def matrix(rng, n, p):
    """n rows of p values made of a few well separated patterns"""
    r = np.random.default_rng(rng.randrange(2 ** 31))
    k = min(rng.choice([2, 3, 5]), n - 1, p)
    x = r.normal(size=(n, k)) @ (np.diag([4.0 / 2 ** i for i in range(k)]) @ r.normal(size=(k, p)))
    if rng.random() < 0.7:
        x = x + rng.choice([1e-3, 0.05, 0.3]) * r.normal(size=(n, p))
    x = x * np.exp(r.normal(size=p) * rng.choice([0, 2])) + r.normal(size=p) * 10
    if rng.random() < 0.2:
        x[:, rng.randrange(p)] = 7.0
    return x


def own(x, k):
    """mean, scale, ratio of variance, projector on the k leading directions, and the projections"""
    mu, sd = x.mean(axis=0), x.std(axis=0)
    sd = np.where(sd <= 1e-12 * np.maximum(1, np.abs(mu)), 1.0, sd)
    z = (x - mu) / sd
    u, s, vt = np.linalg.svd(z - z.mean(axis=0), full_matrices=False)
    return mu, sd, z, s, vt[:k]


def check_pca(pc, x, k, threshold, rng, obs, what, exact=True):
    data = pd.DataFrame(x)
    mu, sd, z, s, v = own(x, k)
    share = s ** 2 / (s ** 2).sum()
    got = np.asarray(pc.embeddings)
    obs.require(got.shape == (len(x), k), lambda: f"{what}: embeddings {got.shape}")
    big = s[0] * np.sqrt(len(x))
    tol = 1e-7 if exact else 2e-3
    for i in range(k):
        nxt = s[i + 1] if i + 1 < len(s) else 0.0
        prv = s[i - 1] if i else np.inf
        if s[i] < 1e-6 * s[0] or s[i] - nxt < 1e-3 * s[0] or prv - s[i] < 1e-3 * s[0]:
            continue
        mine = z @ v[i]
        d = min(np.abs(got[:, i] - mine).max(), np.abs(got[:, i] + mine).max())
        obs.require(d <= tol * big, lambda: f"{what}: component {i} of the embeddings differs by {d}")
        obs.count("components")
    total = np.cumsum(share[:k])
    if exact and np.abs(total - threshold).min() > 1e-9:
        want = int(np.argmax(total > threshold)) + 1
        obs.require(int(pc.min_components) == want, lambda: f"{what}: {pc.min_components} components for {threshold}, cumulative {total}")
    # consistency of the methods, with the training data and with new ones
    again = pc.get_pca_embeddings(data)
    obs.require(close(again, got, tol, tol * big), lambda: f"{what}: embeddings of the training data differ when asked again")
    rec = pc.get_pca_reconstruction(got)
    proj = mu + sd * ((z @ v.T) @ v)
    gap = len(s) == k or s[k - 1] - s[k] > 1e-3 * s[0] or s[k - 1] < 1e-6 * s[0]
    if exact and gap:
        obs.require(np.all(np.abs(rec - proj) <= 1e-6 * sd * big), lambda: f"{what}: reconstruction differs by {np.abs((rec - proj) / sd).max()}")
    err = np.abs(rec - x).mean(axis=1)
    obs.require(close(pc.reconstruction_errors, err, 1e-7, 1e-9 * np.abs(x).max()), lambda: f"{what}: reconstruction errors {np.asarray(pc.reconstruction_errors)[:3]}, expected {err[:3]}")
    doc = pc.as_dict()
    obs.require(np.array_equal(doc["embeddings"], got) and np.array_equal(doc["reconstruction_errors"], pc.reconstruction_errors)
                and doc["@class"] == "PrincipalComponents" and doc["@module"] == "beep.features.principal_components"
                and np.array_equal(doc["pca"]["components_"], pc.pca.components_) and np.array_equal(doc["scaler"]["mean_"], pc.scaler.mean_), f"{what}: dictionary")
    # new data, partly far away
    r = np.random.default_rng(rng.randrange(2 ** 31))
    m = rng.choice([1, 4, 9, 9, 40])
    new = x[r.integers(0, len(x), m)] * 1.0 + sd * r.normal(size=(m, x.shape[1])) * np.array([rng.choice([0, 0.01, 1, 5, 30]) for _ in range(m)])[:, None]
    hi, lo = rng.choice([(95, 5), (95, 5), (100, 0), (75, 25), (99, 10)])
    mean, std = got.mean(axis=0), got.std(axis=0)
    if std.min() > 1e-6 * std.max():
        # rows just inside and outside the quantiles
        white = (got - mean) / std
        near = []
        for _ in range(4):
            w = np.median(white, axis=0)
            i, side = rng.randrange(k), rng.choice([hi, lo])
            w[i] = np.percentile(white[:, i], side) + rng.choice([-1, 1]) * 0.003
            near.append(mean + std * w)
        new = np.vstack([new, pc.get_pca_reconstruction(np.array(near))])
        m += 4
    nd = pd.DataFrame(new, index=range(100, 100 + m) if rng.random() < 0.3 else None)
    emb = np.asarray(pc.get_pca_embeddings(nd))
    obs.require(emb.shape == (m, k), f"{what}: shape of new embeddings")
    if exact and gap and s[k - 1] > 1e-6 * s[0]:
        zn = (new - mu) / sd
        obs.require(close(np.linalg.norm(emb, axis=1), np.linalg.norm(zn @ v.T, axis=1), 1e-5, 1e-7 * big), lambda: f"{what}: length of new embeddings")
    obs.require(close(pc.get_pca_embeddings(pd.DataFrame((x[0] + 2 * (x[-1] - x[0]))[None])), got[0] + 2 * (got[-1] - got[0]), 1e-6, 1e-7 * big), f"{what}: embedding is not linear")
    dist, flags = pc.get_pca_decomposition_outliers(nd, **({} if (hi, lo) == (95, 5) else {"upper_quantile": hi, "lower_quantile": lo}))
    if std.min() > 1e-9 * std.max():
        white, wnew = (got - mean) / std, (emb - mean) / std
        center = np.median(white, axis=0)
        want = np.sqrt(((wnew - center) ** 2).sum(axis=1))
        obs.require(close(dist, want, 1e-6, 1e-6), lambda: f"{what}: distances {dist}, expected {want}")
        up, down = np.percentile(white, hi, axis=0), np.percentile(white, lo, axis=0)
        for j in range(m):
            over = np.maximum(wnew[j] - up, down - wnew[j])
            if np.abs(over).min() > 1e-6 or over.max() > 1e-6:
                obs.require(bool(np.asarray(flags)[j]) == bool(over.max() > 0), lambda: f"{what}: row {j} flagged {flags[j]}, beyond the quantiles {hi}, {lo} by {over.max()}")
                obs.count("outliers" if over.max() > 0 else "inliers")
    limit = rng.choice([1.5, 1.5, 0.5, 3.0])
    e, out = pc.get_reconstruction_error_outliers(nd, **({} if limit == 1.5 else {"threshold": limit}))
    rnew = np.asarray(pc.get_pca_reconstruction(emb))
    want = np.abs(rnew - new).mean(axis=1)
    scale = np.abs(new).max()
    obs.require(close(e, want, 1e-6, 1e-9 * scale), lambda: f"{what}: errors {np.asarray(e)}, expected {want}")
    bar = limit * err.max()
    for j in range(m):
        if abs(want[j] - bar) > 1e-6 * max(bar, 1e-6 * scale):
            obs.require(bool(np.asarray(out)[j]) == bool(want[j] > bar), lambda: f"{what}: row {j} with error {want[j]} flagged {np.asarray(out)[j]}, bar {bar}")
            obs.count("bad reconstructions" if want[j] > bar else "good reconstructions")


def decompose(rng, obs):
    from beep.features.principal_components import PrincipalComponents
    n, p = rng.choice([3, 4, 8, 20, 40]), rng.choice([3, 10, 60, 200])
    x = matrix(rng, n, p)
    k = rng.randrange(1, min(n, p) + 1)
    threshold = rng.choice([0.9, 0.9, 0.5, 0.99])
    data = pd.DataFrame(x)
    _, _, _, s, _ = own(x, k)
    reach = np.cumsum(s ** 2 / (s ** 2).sum())[k - 1]
    if reach <= threshold + 1e-9:
        k = min(n, p)
    pc = PrincipalComponents(data, name="x", n_components=k, **({} if threshold == 0.9 else {"explained_variance_threshold": threshold}))
    check_pca(pc, x, k, threshold, rng, obs, f"{n}x{p}, {k} components")
    obs.require(np.array_equal(data.to_numpy(), x), "the data were changed")
    obs.require(pc.name == "x" and pc.n_components == k and pc.explained_variance_threshold == threshold, "settings of the object")
    obs.saw("decompose", n, p, k, threshold)
    obs.describe(f"{n} rows, {p} columns, {k} components, threshold {threshold}")


def runs(rng, d, n_files, n_cycles, window=None, labels=None, axis="voltage"):
    """saved structured runs; -> ([path], [datapath])"""
    v_range, res = [2.8, 3.5], 20 if window else rng.choice([5, 12, 25])
    paths, dps = [], []
    v_range = window or v_range
    for i in range(n_files):
        while True:
            run = cells.make_run(rng, n_cycles=n_cycles, incomplete_last="full", cv_only=0, short_steps=False)
            raw = run.frame()
            if labels is not None:
                have = sorted(set(raw.cycle_index))
                raw["cycle_index"] = raw.cycle_index.map(dict(zip(have, sorted(rng.sample(labels, len(have)))))).astype(raw.cycle_index.dtype)
            dp = cells.datapath_class(rng.choice(["arbin", "neware", "indigo"]))(raw_data=raw, metadata={}, paths={"raw": f"/r{i}.csv"})
            dp.structure(resolution=res, v_range=v_range, discharge_axis=axis)
            g = dp.structured_data[dp.structured_data.step_type == "discharge"]
            if window and (g.discharge_capacity.isna().any() or g.cycle_index.nunique() < n_cycles):
                continue
            if len(g) and not g.duplicated(["cycle_index", axis]).any():
                break
        p = os.path.join(d, f"run_{i}-structured.json")
        dp.to_json_file(p)
        paths.append(p)
        dps.append(dp)
    return paths, dps


def expected(dps, quantity, cycles, axis="voltage"):
    rows = []
    for dp in dps:
        sd = dp.structured_data[dp.structured_data.step_type == "discharge"]
        for c in sorted(set(sd.cycle_index)):
            if c in cycles:
                one = sd[sd.cycle_index == c].sort_values(axis)
                rows.append((list(one[axis]), list(one[quantity])))
    return rows


def listing(rng, d, paths):
    doc = {"file_list": paths, "run_list": list(range(len(paths)))}
    if rng.random() < 0.5:
        return json.dumps(doc)
    p = os.path.join(d, "list.json")
    with open(p, "w") as f:
        json.dump(doc, f)
    return p


def pivot(rng, obs):
    from beep.features.principal_components import pivot_data
    with scratch() as d:
        default = rng.random() < 0.3
        axis = "voltage" if default or rng.random() < 0.6 else rng.choice(["discharge_capacity", "test_time"])
        paths, dps = runs(rng, d, rng.choice([1, 2, 3]), rng.choice([3, 5]), axis=axis, labels=[9, 10, 11, 20, 30, 50, 51, 90, 99, 100, 101, 110] if default else None)
        order = rng.sample(range(len(paths)), len(paths))
        if rng.random() < 0.2:
            order.append(order[0])
        every = sorted({int(c) for dp in dps for c in dp.structured_data.cycle_index})
        cycles = rng.sample(every, rng.randrange(1, len(every) + 1)) + [10 ** 6]
        quantity = rng.choice(["discharge_capacity", "discharge_energy", "charge_capacity", "temperature"])
        if any(quantity not in dp.structured_data.columns for dp in dps):
            quantity = "discharge_capacity"
        if quantity == axis:
            quantity = "voltage"
        given = rng.choice([cycles, np.array(cycles)])
        if default:
            quantity, cycles = "discharge_capacity", [10 * i for i in range(1, 11)]
            got = pivot_data(listing(rng, d, [paths[i] for i in order]))
        else:
            got = pivot_data(listing(rng, d, [paths[i] for i in order]), quantity, axis, given)
        want = expected([dps[i] for i in order], quantity, set(cycles), axis)
        obs.require(len(got) == len(want), lambda: f"{len(got)} rows, the files have {len(want)} of the cycles {cycles}")
        obs.require(list(got.index) == list(range(len(want))), lambda: f"rows labelled {list(got.index)}")
        if not want:
            raise Skip("no cycle selected")
        grid = sorted({v for w in want for v in w[0]})
        obs.require(sorted(got.columns) == grid, lambda: f"columns {list(got.columns)[:4]}, grid {grid[:4]}")
        for i, (vs, qs) in enumerate(want):
            r = got.iloc[i]
            for v, q in zip(vs, qs):
                g = r[v]
                obs.require((pd.isna(g) and pd.isna(q)) or g == q, lambda: f"row {i}: {quantity} at {v} is {g}, of the run {q}")
        obs.count("rows", len(want))
        obs.saw("pivot", axis, len(paths), len(want), quantity, len(grid))
        obs.describe(f"{len(paths)} files, cycles {cycles}, {quantity}")


def files(rng, obs):
    from beep.features.principal_components import PrincipalComponents
    with scratch() as d:
        chosen = [int(20 + 480 * i / 19) for i in range(20)]
        default = rng.random() < 0.5
        paths, dps = runs(rng, d, 4, 5, window=[3.1, 3.3], labels=chosen + [19, 21, 499, 501] if default else None)
        every = sorted({int(c) for dp in dps for c in dp.structured_data.cycle_index})
        want = expected(dps, "discharge_capacity", set(chosen if default else every))
        x = np.array([w[1] for w in want], float)
        if np.isnan(x).any() or x.shape[0] < 15 or x.shape[1] < 15 or len({tuple(w[0]) for w in want}) > 1:
            raise Skip("too few rows")
        if default:
            pc = PrincipalComponents.from_interpolated_data(listing(rng, d, paths))
            obs.require(pc.name == "FastCharge", "name")
        else:
            again = rng.random() < 0.5
            if again:
                # the same file may be listed twice
                paths, dps = paths + paths[:1], dps + dps[:1]
                want = expected(dps, "discharge_capacity", set(every))
                x = np.array([w[1] for w in want], float)
            pc = PrincipalComponents.from_interpolated_data(listing(rng, d, paths), "mine", cycles_to_pca=np.array(every))
            obs.require(pc.name == "mine", "name")
        check_pca(pc, x, 15, 0.9, rng, obs, f"{len(paths)} files", exact=pc.embeddings.dtype == np.float64)
        obs.saw("files", x.shape)
        obs.describe(f"{len(paths)} files, matrix {x.shape}")


def other(rng, obs):
    """the arguments reach the matrix, whatever they are"""
    from beep.features.principal_components import PrincipalComponents
    with scratch() as d:
        quantity, axis = rng.choice([("discharge_energy", "test_time"), ("voltage", "test_time"), ("discharge_energy", "voltage"), ("test_time", "voltage")])
        paths, dps = runs(rng, d, rng.choice([1, 2]), 3, axis=axis)
        every = sorted({int(c) for dp in dps for c in dp.structured_data.cycle_index})
        cycles = rng.sample(every, rng.randrange(1, len(every) + 1))
        if any(dp.structured_data[axis][dp.structured_data.step_type == "discharge"].isna().any() for dp in dps):
            raise Skip("a grid with gaps")
        seen = SimpleNamespace(data=None)
        with mock.patch.object(PrincipalComponents, "fit", lambda self: setattr(seen, "data", self.data)), \
                mock.patch.object(PrincipalComponents, "get_reconstruction_errors", lambda self: None):
            PrincipalComponents.from_interpolated_data(listing(rng, d, paths), "t", quantity, axis, np.array(cycles))
        want = expected(dps, quantity, set(cycles), axis)
        have = [sorted((t, q) for t, q in r.items() if q == q) for _, r in seen.data.iterrows()]
        obs.require(have == [sorted((t, q) for t, q in zip(*r) if q == q) for r in want], lambda: f"the matrix of {quantity} over {axis} is not the runs' own")
        obs.saw("other", quantity, axis, len(paths), len(cycles))
        obs.describe(f"{quantity} over {axis}")


def run_case(kind, rng, obs):
    {"pivot": pivot, "decompose": decompose, "files": files, "other": other}[kind](rng, obs)
