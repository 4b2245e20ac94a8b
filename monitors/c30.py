"""C30 - Half-cell analysis: the emulated cell is the one its electrodes make up, and results belong to the cycles they name."""
import os
import warnings
from types import SimpleNamespace
from unittest import mock

import numpy as np
import pandas as pd

from monitors.c04 import scratch
from vlib.core import Skip

ID = "C30"
RULE = (
    "Random electrode curves (phase-change plateaus, blends with a second material) and random capacities, offsets and losses go "
    "through the real forward models; every returned half-cell point is compared with the electrode's own curve at that capacity, the "
    "full cell with the difference of the curves, errors with distances computed here, and the metrics of the voltages with a search "
    "over the curves. Whole featurizers run on synthetic diagnostics with the optimiser replaced by a search over given candidates that "
    "include the truth. Non-trivial: a model was evaluated; distinct by (kind, parameters rounded, blend)."
)
KINDS = {"scale": (48, 500),
         "error": (19, 160),
         "info": (19, 160),
         "loss": (120, 900),
         "initial": (32, 300),
         "extract": (76, 400),
         "cycles1": (12, 60),
         "features1": (16, 80),
         "cycles2": (8, 50),
         "features2": (12, 60),
         "verdict": (640, 3000),
         "wrapper": (12, 80),
         "halfcell": (16, 120)}
MIN_SIGNATURES = 60
N = 1001
SOC = np.linspace(0, 100, N)


def pe_curve(rng):
    s = SOC / 100
    v = rng.uniform(3.45, 3.6) + rng.uniform(0.55, 0.7) * s - rng.uniform(0.5, 0.7) * np.exp(-s / rng.uniform(0.015, 0.04))
    for _ in range(rng.choice([0, 1, 3])):
        v = v + rng.uniform(0.01, 0.05) * np.tanh((s - rng.uniform(0.1, 0.9)) / rng.uniform(0.02, 0.1))
    v = v + rng.uniform(4.32, 4.42) - v[-1]
    return pd.DataFrame({"SOC_aligned": SOC, "Voltage_aligned": v})


def ne_curve(rng):
    s = SOC / 100
    v = 0.06 + rng.uniform(0.02, 0.1) * (1 - s) + rng.uniform(1.2, 1.4) * np.exp(-s / rng.uniform(0.02, 0.05))
    for _ in range(rng.choice([0, 1, 2])):
        v = v - rng.uniform(0.005, 0.02) * np.tanh((s - rng.uniform(0.2, 0.8)) / rng.uniform(0.01, 0.05))
    return pd.DataFrame({"SOC_aligned": SOC, "Voltage_aligned": v})


def si_curve(rng):
    s = SOC / 100
    v = rng.uniform(0.02, 0.08) + rng.uniform(0.3, 0.5) * (1 - s) ** rng.uniform(0.8, 1.5) + rng.uniform(0.6, 0.9) * np.exp(-s / 0.05)
    return pd.DataFrame({"SOC_aligned": SOC, "Voltage_aligned": v})


def write(d, name, df, index=True):
    p = os.path.join(d, name)
    df.to_csv(p, index=index, float_format="%.17g")
    return p


def analysis(rng, d, version, blend=None, **kw):
    pe, ne = pe_curve(rng), ne_curve(rng)
    a = {}
    pos = neg = pd.DataFrame()
    if blend is None:
        blend = rng.random() < 0.3
    if blend:
        pos, neg = si_curve(rng), si_curve(rng)
        a = {"ne_2pos_file": write(d, "pos.csv", pos, False), "ne_2neg_file": write(d, "neg.csv", neg, False)}
    files = write(d, "pe.csv", pe.assign(dVdQ=0.0)), write(d, "ne.csv", ne.assign(dVdQ=0.0))
    if version == 1:
        from beep.features.intracell_analysis import IntracellAnalysis as cls
    else:
        from beep.features.intracell_analysis_v2 import IntracellAnalysisV2 as cls
    ia = cls(*files, **a, **kw)
    return SimpleNamespace(ia=ia, pe=pe, ne=ne, pos=pos, neg=neg, blend=blend, params=(ia.pe_pristine, ia.ne_1_pristine, ia.ne_2_pristine_pos, ia.ne_2_pristine_neg), files=files)


def extrapolate(x, y, at):
    """piecewise linear y(x), x ascending, continued with the first and last slope"""
    out = np.interp(at, x, y)
    lo, hi = at < x[0], at > x[-1]
    out[lo] = y[0] + (at[lo] - x[0]) * (y[1] - y[0]) / (x[1] - x[0])
    out[hi] = y[-1] + (at[hi] - x[-1]) * (y[-1] - y[-2]) / (x[-1] - x[-2])
    return out


def mixed(a, x2):
    """the anode by definition: at every voltage, the capacities of its materials in their proportion; (soc, voltage, error in voltage)"""
    if not a.blend:
        return SOC, a.ne["Voltage_aligned"].values, 0.0
    second = (a.pos if x2 > 0 else a.neg)["Voltage_aligned"].values
    first = a.ne["Voltage_aligned"].values
    x2 = abs(x2)
    v = np.linspace(min(first.min(), second.min()), max(first.max(), second.max()), 20001)
    m = (1 - x2) * extrapolate(first[::-1], SOC[::-1], v) + x2 * extrapolate(second[::-1], SOC[::-1], v)
    m, v = m[::-1], v[::-1]
    keep = (m >= 0) & (m <= 100)
    m, v = m[keep], v[keep]
    return m, v, (v.max() - v.min()) / 300


def at(x, y, p):
    return np.interp(p, x, y, left=np.nan, right=np.nan)


def near(obs, got, want, what, tol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    ok = obs.require(got.shape == want.shape, lambda: f"{what}: {got.shape} values, expected {want.shape}")
    both = np.isnan(got) & np.isnan(want)
    bad = ~both & ~(np.abs(got - want) <= tol)
    i = int(np.argmax(bad)) if bad.any() else 0
    obs.require(not bad.any(), lambda: f"{what}: {got[i]} at {i}, expected {want[i]} ({bad.sum()} of {bad.size} differ)")
    obs.count("points", int(got.size))


def even(obs, x, lo, hi, what, scale=None):
    x = np.asarray(x, float)
    tol = 1e-9 * max(abs(lo), abs(hi), 1)
    obs.require(len(x) >= 500, lambda: f"{what}: {len(x)} points")
    near(obs, x, np.linspace(lo, hi, len(x)), what + " axis", tol)


def electrode(obs, got, column, axis_shift, cap, volt, tol, what):
    """each point of an electrode is on its curve; points beyond it are empty"""
    q = got[column].values + axis_shift
    v = got["Voltage_aligned"].values
    edge = (cap.max() - cap.min()) * (1e-7 if tol == 0 else 0.004)
    inside, outside = (q > cap.min() + edge) & (q < cap.max() - edge), (q < cap.min() - edge) | (q > cap.max() + edge)
    obs.require(np.isnan(v[outside]).all(), lambda: f"{what}: voltages {v[outside][~np.isnan(v[outside])][:3]} where the electrode has no capacity")
    if tol > 0:
        # blended: the returned curve is sampled on its own
        step = 100 * (cap.max() - cap.min()) / 100000
        lo, hi = np.interp(q - step, cap, volt), np.interp(q + step, cap, volt)
        bad = inside & ~((v <= np.maximum(lo, hi) + tol) & (v >= np.minimum(lo, hi) - tol))
        margin = (q > cap.min() + 3 * step) & (q < cap.max() - 3 * step)
        bad &= margin
        i = int(np.argmax(bad)) if bad.any() else 0
        obs.require(not bad.any(), lambda: f"{what}: {v[i]} V at {q[i]}, the blend has {np.interp(q[i], cap, volt)}")
        obs.count("points", len(v))
    else:
        near(obs, v[inside], np.interp(q[inside], cap, volt), what, 1e-8)


def parameters(rng):
    return [rng.choice([0.0, rng.uniform(0, 1.0), rng.uniform(0, 0.4), rng.uniform(-0.5, 0)]), rng.uniform(3.5, 6.4), rng.uniform(4.0, 6.4)]


def envelope(obs, got, x, y, at_, what, tol=1e-8):
    """got are values of a resampling of (x, y), monotone"""
    got = np.asarray(got, float)
    i = np.clip(np.searchsorted(x, at_) - 1, 0, len(x) - 1)
    lo = y[np.clip(i - 1, 0, len(x) - 1)]
    hi = y[np.clip(i + 2, 0, len(x) - 1)]
    inside = (at_ >= x[0] - 1e-9) & (at_ <= x[-1] + 1e-9)
    sure = (at_ >= x[0] + 1e-9) & (at_ <= x[-1] - 1e-9)
    nan = np.isnan(got)
    obs.require(not nan[sure].any(), lambda: f"{what}: {nan[sure].sum()} points without a value within [{x[0]}, {x[-1]}]")
    obs.require(nan[~inside].all(), lambda: f"{what}: values beyond [{x[0]}, {x[-1]}], at {at_[~inside & ~nan][:3]}")
    bad = inside & ~nan & ~((got >= np.minimum(lo, hi) - tol) & (got <= np.maximum(lo, hi) + tol))
    k = int(np.argmax(bad)) if bad.any() else 0
    obs.require(not bad.any(), lambda: f"{what}: {got[k]} at {at_[k]}, the curve is between {lo[k]} and {hi[k]} there")
    obs.count("points", len(got))


def full_cell(obs, a, x, pe, ne, column="Q_aligned"):
    """checks the electrodes; returns the cell's curve within the window, zero at its lowest voltage"""
    lli, q_pe, q_ne, x2 = x
    m, mv, tol = mixed(a, x2)
    cap_p, cap_n = SOC / 100 * q_pe, m / 100 * q_ne + lli
    lo, hi = min(0.0, lli), max(q_pe, lli + q_ne)
    qp, qn = pe[column].values, ne[column].values
    near(obs, qp, qn, "the electrodes' axes")
    if not a.blend:
        even(obs, qp, lo - (lo - qp[0]), hi - (lo - qp[0]), "electrodes")
    z = lo - qp[0]
    if a.blend:
        obs.require(abs((qp[-1] - qp[0]) - (hi - lo)) < 0.02 * q_ne, lambda: f"axis of {qp[-1] - qp[0]} Ah, expected {hi - lo}")
    electrode(obs, pe, column, z, cap_p, a.pe["Voltage_aligned"].values, 0, "cathode")
    electrode(obs, ne, column, z, cap_n, mv, tol, "anode")
    full = pe["Voltage_aligned"].values - ne["Voltage_aligned"].values
    w = np.where((full >= 2.7) & (full <= 4.2))[0]
    if len(w) < 30:
        raise Skip("hardly any capacity within the window")
    if not a.blend:
        # the blend need not be monotone to the last digit
        obs.require((np.diff(full[w]) > -1e-9).all(), "the cell's voltage falls")
    first = w[np.argmin(full[w])]
    obs.require(abs(qp[first]) < 1e-9, lambda: f"zero capacity is {-qp[first]} Ah from the lowest voltage {full[first]}")
    return qp[w], full[w]


def case_scale(rng, obs):
    with scratch() as d:
        a = analysis(rng, d, 2)
        x = parameters(rng) + [rng.choice([1, 0.2, 0.05, -0.3, 0.6]) if a.blend else rng.choice([1, 0])]
        if a.blend:   # where a blend begins is known only roughly
            x[0] = abs(x[0])
        obs.saw("scale", tuple(round(v, 2) for v in x), a.blend)
        obs.describe(f"capacities and offset {x}, blend {a.blend}")
        keep = [p.copy() for p in a.params]
        pe, ne, em = a.ia.halfcell_degradation_matching_ah_no_real(x, *a.params)
        q, v = full_cell(obs, a, x, pe, ne)
        if not a.blend:
            even(obs, em["Q_aligned"], q[0], q[-1], "emulated cell")
            envelope(obs, em["Voltage_aligned"].values, q, v, em["Q_aligned"].values, "emulated cell")
        pe2, ne2, em2 = a.ia.get_v_over_q_from_degradation_matching_ah_no_real(x, *a.params)
        near(obs, pe2["Voltage_aligned"], pe["Voltage_aligned"], "cathode of the second call")
        near(obs, em2["Q_aligned"], em["Q_aligned"], "capacities of V(Q)", 1e-9)
        near(obs, em2["Voltage_aligned"], em["Voltage_aligned"], "V(Q)", 1e-6)
        # a measured cell, of other capacity
        qr = np.linspace(0, q[-1] * rng.choice([1.0, 0.9, 1.05]), rng.choice([400, 1001]))
        vr = 2.7 + 1.4 * (qr / qr[-1]) ** rng.uniform(0.5, 1.5)
        real = pd.DataFrame({"Q_aligned": qr, "Voltage_aligned": vr})
        real0 = real.copy()
        pe3, ne3, ra, ea = a.ia.halfcell_degradation_matching_ah(x, *a.params, real)
        full_cell(obs, a, x, pe3, ne3)
        near(obs, pe3["Voltage_aligned"], pe["Voltage_aligned"], "cathode next to a measurement")
        for name, f in (("measured", ra), ("emulated", ea)):
            even(obs, f["Q_aligned"], 0, qr[-1], name)
        near(obs, ra["Voltage_aligned"], np.interp(ra["Q_aligned"], qr, vr), "measured cell", 1e-6)
        if not a.blend:
            envelope(obs, ea["Voltage_aligned"].values, q, v, ea["Q_aligned"].values, "emulated next to the measurement")
        _, _, ra2, ea2 = a.ia.get_v_over_q_from_degradation_matching_ah(x, *a.params, real)
        near(obs, ra2["Voltage_aligned"], ra["Voltage_aligned"], "measured V(Q)", 1e-6)
        near(obs, ea2["Q_aligned"], ea["Q_aligned"], "axis of V(Q)", 1e-9)
        for k, p in zip(keep, a.params):
            obs.require(k.equals(p), "an evaluation changed the electrodes")
        obs.require(real.equals(real0), "an evaluation changed the measurement")
        derivative(obs, rng, a, x, real, ra, ea)


def derivative(obs, rng, a, x, real, ra, ea):
    """dV/dQ over Q and dQ/dV over V are of the aligned curves"""
    com = 0.1
    out = a.ia.get_dvdq_over_q_from_degradation_matching_ah(x, *a.params, real)
    for name, f, c in (("measured", out[2], ra), ("emulated", out[3], ea)):
        want = pd.Series(np.gradient(c["Voltage_aligned"].values, c["Q_aligned"].values)).ewm(com).mean()
        near(obs, f["dVdQ"], want, f"dV/dQ, {name}", 1e-6)
        near(obs, f["Q_aligned"], c["Q_aligned"], f"axis of dV/dQ, {name}")
        near(obs, f["Voltage_aligned"], c["Voltage_aligned"], f"voltage with dV/dQ, {name}")
    out = a.ia.get_dqdv_over_v_from_degradation_matching_ah(x, *a.params, real)
    for name, f, c in (("measured", out[2], ra), ("emulated", out[3], ea)):
        even(obs, f["Voltage_aligned"], 2.7, 4.2, f"dQ/dV, {name}")
        c = c.dropna()
        v, q = c["Voltage_aligned"].values, c["Q_aligned"].values
        if (np.diff(v) <= 1e-12).any():
            continue
        g = pd.Series(np.gradient(ra["Q_aligned"].values, ra["Voltage_aligned"].values) if name == "measured" else
                      np.gradient(ea["Q_aligned"].values, ea["Voltage_aligned"].values)).ewm(com).mean().values[c.index]
        ok = ~np.isnan(g)
        grid = f["Voltage_aligned"].values
        inner = (grid > v[ok][1]) & (grid < v[ok][-2])
        want = np.interp(grid, v, np.where(ok, g, 0.0))
        clear = np.interp(grid, v, ok.astype(float)) > 0.999
        near(obs, f["dQdV"].values[inner & clear], want[inner & clear], f"dQ/dV, {name}", 1e-6 * max(1, np.nanmax(np.abs(g))))
        near(obs, f["Q_aligned"].values[inner], np.interp(grid, v, q)[inner], f"capacity over voltage, {name}", 1e-7)
        outside = (grid < v[0] - 1e-9) | (grid > v[-1] + 1e-9)
        near(obs, f["dQdV"].values[outside], np.zeros(outside.sum()), f"dQ/dV beyond the curve, {name}")
        if name == "measured":
            near(obs, f["Q_aligned"].values[outside], np.where(grid[outside] < v[0], 0.0, real["Q_aligned"].max()), "capacity beyond the curve", 1e-9)


def distance(xa, xb):
    """mean over the measured points of the standardised distance to the nearest emulated point"""
    xa, xb = np.asarray(xa, float), np.asarray(xb, float)
    s = np.vstack([xa, xb]).std(axis=0, ddof=1)
    u, w = xa / s, xb / s
    return np.mean([np.sqrt(((w - p) ** 2).sum(axis=1)).min() for p in u])


def own_error(a, kind, x, real):
    if kind == "dVdQ":
        out = a.ia.get_dvdq_over_q_from_degradation_matching_ah(x, *a.params, real)
        xa, xb = (f[["Q_aligned", "dVdQ"]].dropna() for f in out[2:4])
        return distance(xa[xa.Q_aligned > 0.5], xb[xb.Q_aligned > 0.5])
    if kind == "dQdV":
        out = a.ia.get_dqdv_over_v_from_degradation_matching_ah(x, *a.params, real)
        return distance(*(f[["Voltage_aligned", "dQdV"]].dropna() for f in out[2:4]))
    out = a.ia.get_v_over_q_from_degradation_matching_ah(x, *a.params, real)
    return distance(*(f[["Q_aligned", "Voltage_aligned"]].dropna() for f in out[2:4]))


def truthful(rng, a, x2):
    """parameters of a cell which reaches both limits, and its curve"""
    for _ in range(30):
        x = parameters(rng) + [x2]
        try:
            return x, truth(a, x)
        except Skip:
            pass
    raise Skip("no cell reaches its limits")


def truth(a, x):
    """the charge curve of a cell of these electrodes, made here"""
    lli, q_pe, q_ne, x2 = x
    m, mv, _ = mixed(a, x2)
    q = np.linspace(min(0, lli), max(q_pe, lli + q_ne), 60001)
    full = at(SOC / 100 * q_pe, a.pe["Voltage_aligned"].values, q) - at(m / 100 * q_ne + lli, mv, q)
    keep = (full >= 2.7) & (full <= 4.2)
    if keep.sum() < 5000:
        raise Skip("hardly any capacity within the window")
    q, full = q[keep] - q[keep][0], full[keep]
    if full[0] > 2.75 or full[-1] < 4.15:
        raise Skip("the cell does not reach its limits")
    return q, full


def aligned(q, v, n=N):
    x = np.linspace(0, q[-1], n)
    return pd.DataFrame({"Voltage_aligned": np.interp(x, q, v), "Q_aligned": x})


def case_error(rng, obs):
    with scratch() as d:
        kind = rng.choice(["V-Q", "dVdQ", "dQdV"])
        a = analysis(rng, d, 2, blend=rng.random() < 0.15, error_type=kind)
        x, curve = truthful(rng, a, rng.choice([0.3, -0.2]) if a.blend else 1)
        real = aligned(*curve)
        obs.saw("error", kind, tuple(round(v, 2) for v in x))
        obs.describe(f"{kind} of {x}")
        e0 = a.ia._get_error_from_degradation_matching_ah(x, *a.params, real)
        obs.require(0 <= e0 < 0.05, lambda: f"{kind}: error {e0} of the parameters the cell was made with")
        for _ in range(2):
            y = [x[0] + rng.choice([0.0, rng.choice([-1, 1]) * rng.uniform(0.1, 0.3)]), x[1] * rng.uniform(0.85, 1.15), x[2] * rng.uniform(0.85, 1.15), x[3]]
            e = a.ia._get_error_from_degradation_matching_ah(y, *a.params, real)
            obs.require(abs(e - own_error(a, kind, y, real)) <= 1e-7 * max(1, e), lambda: f"{kind}: error {e}, the distance of the curves is {own_error(a, kind, y, real)}")
            s = a.ia._get_error_from_synthetic_fitting_ah(y, *a.params, real)
            obs.require(s == e, lambda: f"{kind}: error {s} for synthetic data, {e} otherwise")
            if kind == "V-Q" and abs(y[1] - x[1]) > 0.1:
                obs.require(e > e0, lambda: f"{kind}: error {e} of {y} is not above {e0} of the truth {x}")
        far = [x[1] + 1.0, x[1], x[2], x[3]]
        e = a.ia._get_error_from_degradation_matching_ah(far, *a.params, real)
        obs.require(e == 100, lambda: f"electrodes without common capacity: error {e}")


VOLTS = [round(4.2 - 0.1 * i, 1) for i in range(16)]
INFO = [f"{e}_{w}_FC{str(v).replace('.', 'p')}V" for e in ("pe", "ne") for w in ("voltage", "soc") for v in VOLTS] + ["Q_fc", "Q_pe", "Q_ne", "Q_li"]
COLUMNS_2 = ["rmse_error", "LLI_opt", "Q_pe_opt", "Q_ne_opt", "x_NE_2"] + INFO
COLUMNS_1 = ["LLI", "LAM_PE", "LAM_NE", "x_NE_2", "alpha_real", "alpha_emulated", "PE_upper_voltage", "PE_lower_voltage", "PE_upper_SOC", "PE_lower_SOC",
             "PE_mass", "NE_upper_voltage", "NE_lower_voltage", "NE_upper_SOC", "NE_lower_SOC", "NE_mass", "Li_mass"]


def info(pe, ne):
    """metrics by name"""
    q, p, n = pe["Q_aligned"].values, pe["Voltage_aligned"].values, ne["Voltage_aligned"].values
    full = p - n
    out = {}
    span = {}
    for e, v in (("pe", p), ("ne", n)):
        own = q[~np.isnan(v)]
        span[e] = own.min(), own.max()
        for u in VOLTS:
            i = int(np.nanargmin(np.abs(full - u)))
            tag = f"FC{str(u).replace('.', 'p')}V"
            out[f"{e}_voltage_{tag}"] = v[i]
            out[f"{e}_soc_{tag}"] = (q[i] - own.min()) / (own.max() - own.min())
    out["Q_fc"] = q[int(np.nanargmin(np.abs(full - 4.2)))]
    out["Q_pe"], out["Q_ne"] = span["pe"][1] - span["pe"][0], span["ne"][1] - span["ne"][0]
    both = q[~np.isnan(full)]
    out["Q_li"] = both.max() - both.min()
    return out


def check_info(obs, row, pe, ne, what):
    want = info(pe, ne)
    for k, v in want.items():
        obs.require(k in row and abs(row[k] - v) <= 1e-9, lambda: f"{what}: {k} is {row.get(k)}, the curves give {v}")
    obs.count("metrics", len(want))


def case_info(rng, obs):
    from beep.features.intracell_analysis_v2 import get_electrode_info_ah
    with scratch() as d:
        a = analysis(rng, d, 2)
        x, (q, v) = truthful(rng, a, rng.choice([0.2, -0.3]) if a.blend else 1)
        obs.saw("info", tuple(round(u, 2) for u in x))
        obs.describe(f"metrics of {x}")
        pe, ne, _ = a.ia.halfcell_degradation_matching_ah_no_real(x, *a.params)
        keep = pe.copy(), ne.copy()
        df = get_electrode_info_ah(pe, ne)
        obs.require(len(df) == 1 and list(df.columns) == INFO, lambda: f"metrics {list(df.columns)}")
        row = df.iloc[-1].to_dict()
        check_info(obs, row, pe, ne, f"{x}")
        obs.require(pe.equals(keep[0]) and ne.equals(keep[1]), "the curves were changed")
        # against the cell made here
        step = (max(x[1], x[0] + x[2]) - min(0, x[0])) / 1000
        obs.require(abs(row["Q_pe"] - x[1]) <= 2 * step and abs(row["Q_ne"] - x[2]) <= 2 * step + 0.005 * x[2] * a.blend,
                    lambda: f"capacities {row['Q_pe']}, {row['Q_ne']} of electrodes with {x[1]}, {x[2]}")
        obs.require(abs(row["Q_fc"] - q[-1]) <= 3 * step + 0.02 * a.blend, lambda: f"capacity {row['Q_fc']} of a cell with {q[-1]}")
        obs.require(abs(row["Q_li"] - (min(x[1], x[0] + x[2]) - max(0, x[0]))) <= 3 * step + 0.01 * a.blend * x[2], lambda: f"overlap {row['Q_li']} of {x}")


# the first version: state of charge, losses in percent

def slopes(obs, a, where, x, params, ra, ea, cases):
    """first version: derivatives of the aligned curves over their axis or over voltage, and the distances of these"""
    for y, over, smooth, axis in cases:
        out = getattr(a.ia, f"get_{y}_over_{over}_from_{where}_matching")(x, *params)
        for name, f, c, alpha, back in (("measured", out[2], ra, x[-2], out[4]), ("emulated", out[3], ea, x[-1], out[5])):
            what = f"{y} over {over} ({where}), {name}"
            near(obs, back["Voltage_aligned"], c["Voltage_aligned"], "curve with " + what, 1e-9)
            soc, v = c["SOC_aligned"].values, c["Voltage_aligned"].values
            with np.errstate(all="ignore"):
                g = np.gradient(soc, v) if y == "dQdV" else np.gradient(v, soc)
            if smooth:
                g = pd.Series(g).ewm(alpha=alpha).mean().values
            if over != "V":
                near(obs, f[y], g, what, 1e-7 * max(1, np.nanmax(np.abs(g))))
                near(obs, f["SOC_aligned"], soc, "axis of " + what, 1e-9)
                near(obs, f["Voltage_aligned"], v, "voltage with " + what, 1e-9)
                continue
            grid = f["Voltage" + axis].values
            even(obs, grid, 2.7, 4.2, what)
            on = ~np.isnan(v)
            if not np.isfinite(g[on]).all() or (np.diff(v[on]) <= 1e-12).any():
                continue
            inner = (grid > v[on][0] + 1e-9) & (grid < v[on][-1] - 1e-9)
            near(obs, f[y].values[inner], np.interp(grid, v[on], g[on])[inner], what, 1e-7 * max(1, np.abs(g[on]).max()))
            near(obs, f["SOC" + axis].values[inner], np.interp(grid, v[on], soc[on])[inner], "SOC with " + what, 1e-7)
            off = (grid < v[on][0] - 1e-9) | (grid > v[on][-1] + 1e-9)
            near(obs, f[y].values[off], np.zeros(off.sum()), what + " beyond the curve")
            near(obs, f["SOC" + axis].values[off], np.where(grid[off] < v[on][0], 0.0, 100.0), "SOC beyond the curve, " + what)
        e = getattr(a.ia, f"get_error_{y}_over_{over}_from_{where}_matching")(x, *params)
        u, w = out[2][y].values, out[3][y].values
        if np.isfinite(u).all() and np.isfinite(w).all():
            want = np.sqrt(((u - w) ** 2).sum())
            obs.require(abs(e - want) <= 1e-9 * max(1, want), lambda: f"error of {y} over {over} ({where}) is {e}, the distance is {want}")
        obs.count("derivatives")


def matched(rng, a):
    """electrodes of an aged-to-be cell on a common axis: 0 at 2.7 V and 100 at 4.2 V"""
    q, _ = truth(a, x := [rng.uniform(0.05, 0.4), rng.uniform(4.6, 5.4), rng.uniform(4.9, 5.8), 1])
    m = SOC
    shift = None
    lo, hi = min(0, x[0]), max(x[1], x[0] + x[2])
    g = np.linspace(lo, hi, N)
    full = at(SOC / 100 * x[1], a.pe["Voltage_aligned"].values, g) - at(m / 100 * x[2] + x[0], a.ne["Voltage_aligned"].values, g)
    i0 = int(np.nanargmin(np.abs(full - 2.7)))
    i1 = int(np.nanargmin(np.abs(full - 4.2)))
    s = (g - g[i0]) / (g[i1] - g[i0]) * 100
    pe = pd.DataFrame({"SOC_aligned": s, "Voltage_aligned": at(SOC / 100 * x[1], a.pe["Voltage_aligned"].values, g)})
    ne = pd.DataFrame({"SOC_aligned": s, "Voltage_aligned": at(m / 100 * x[2] + x[0], a.ne["Voltage_aligned"].values, g)})
    return pe, ne, s[i1], s[i0]


def degraded(pe, ne, up, low, lli, lam_pe, lam_ne):
    s = pe["SOC_aligned"].values
    sp = s * (1 - lam_pe / 100) + lam_pe * up / 100
    sn = s * (1 - lam_ne / 100) + lli + lam_ne * low / 100
    return sp, sn


def case_loss(rng, obs):
    with scratch() as d:
        a = analysis(rng, d, 1, blend=False)
        pe, ne, up, low = matched(rng, a)
        if rng.random() < 0.4:   # percent counted from elsewhere
            shift = rng.uniform(-8, 8)
            pe["SOC_aligned"] += shift
            ne["SOC_aligned"] += shift
            up, low = up + shift, low + shift
        mode = rng.choice(["none", "lli", "pe", "ne", "all", "all", "all", "all"])
        top = rng.choice([25, 25, 50])
        lli = rng.uniform(-10, top) if mode in ("lli", "all") else 0.0
        lam_pe = rng.uniform(-10, top) if mode in ("pe", "all") else 0.0
        lam_ne = rng.uniform(-10, top) if mode in ("ne", "all") else 0.0
        # without a second material its share does not matter
        x = [lli, lam_pe, lam_ne, rng.choice([1, 1, 0.4, 0, -0.3]), rng.choice([0.1, 0.3]), rng.choice([0.1, 0.05, 0.6])]
        sp, sn = degraded(pe, ne, up, low, lli, lam_pe, lam_ne)
        vp, vn = pe["Voltage_aligned"].values, ne["Voltage_aligned"].values
        lo, hi = min(sp.min(), sn.min()), max(sp.max(), sn.max())
        obs.saw("loss", mode, round(lli), round(lam_pe), round(lam_ne))
        obs.describe(f"losses {x[:3]}")
        sr = np.linspace(0, rng.uniform(60, 100), 700)
        real = pd.DataFrame({"SOC_aligned": sr, "Voltage_aligned": 2.75 + 1.4 * (sr / sr[-1]) ** 0.7})
        keep = pe.copy(), ne.copy(), real.copy()
        params = (pe, ne, a.ia.ne_2_pristine_pos, a.ia.ne_2_pristine_neg, real)
        p2, n2, ra, ea = a.ia.halfcell_degradation_matching_v3(x, *params)
        obs.require(pe.equals(keep[0]) and ne.equals(keep[1]) and real.equals(keep[2]), "an evaluation changed its input")
        z = lo - p2["SOC_aligned"].values[0]
        even(obs, p2["SOC_aligned"], lo - z, hi - z, "electrodes")
        near(obs, p2["SOC_aligned"], n2["SOC_aligned"], "the electrodes' axes")
        for name, got, s, v in (("cathode", p2, sp, vp), ("anode", n2, sn, vn)):
            on = ~np.isnan(v)
            g = got["SOC_aligned"].values + z
            w = got["Voltage_aligned"].values
            # where the neighbours on the curve are known
            want = np.interp(g, s[on], v[on], left=np.nan, right=np.nan)
            inner = (g > s[on][0] + 1e-6) & (g < s[on][-1] - 1e-6)
            near(obs, w[inner], want[inner], name, 1e-7)
            off = (g < s[on][0] - (s[1] - s[0])) | (g > s[on][-1] + (s[1] - s[0]))
            obs.require(np.isnan(w[off]).all(), lambda: f"{name}: voltages where it has no capacity")
        full = p2["Voltage_aligned"].values - n2["Voltage_aligned"].values
        known = ~np.isnan(full)
        if hasattr(a.ia, "halfcell_degradation_matching_v2"):
            p3, n3 = a.ia.halfcell_degradation_matching_v2(x[:3], pe, ne, real)[:2]
            near(obs, p3["Voltage_aligned"], p2["Voltage_aligned"], "cathode of the second version", 1e-7)
            near(obs, n3["Voltage_aligned"], n2["Voltage_aligned"], "anode of the second version", 1e-7)
        obs.require(abs(p2["SOC_aligned"].values[known].min()) < 1e-9, "zero is not where the cell begins")
        for name, f in (("measured", ra), ("emulated", ea)):
            even(obs, f["SOC_aligned"], sr[0], sr[-1], name)
        near(obs, ra["Voltage_aligned"], np.interp(ra["SOC_aligned"], sr, real["Voltage_aligned"]), "measured", 1e-6)
        envelope(obs, ea["Voltage_aligned"].values, p2["SOC_aligned"].values[known], full[known], ea["SOC_aligned"].values, "emulated")
        out = a.ia.get_V_over_SOC_from_degradation_matching(x, *params)
        near(obs, out[2]["Voltage_aligned"], ra["Voltage_aligned"], "measured over SOC", 1e-6)
        e = a.ia._get_error_from_degradation_matching(x, *params)
        r, m = out[2], out[3]
        ok = ~m["Voltage_aligned"].isna()
        want = np.sqrt(((r[ok].values - m[ok].values) ** 2).sum()) + 0.001 * (~ok).sum()
        obs.require(abs(e - want) <= 1e-7 * max(1, want), lambda: f"error {e}, the distance is {want}")
        own = pd.DataFrame({"SOC_aligned": p2["SOC_aligned"][known], "Voltage_aligned": full[known]})
        e = a.ia._get_error_from_degradation_matching(x, *params[:4], own)
        obs.require(0 <= e < 0.05, lambda: f"error {e} of the cell's own curve")
        slopes(obs, a, "degradation", x, params, ra, ea, [("dVdQ", "SOC", True, ""), ("dQdV", "V", True, "_aligned")])


def case_initial(rng, obs):
    with scratch() as d:
        a = analysis(rng, d, 1, blend=rng.random() < 0.2)
        ratio, offset = rng.uniform(0.8, 1.05), rng.uniform(-12, 3)
        x2 = rng.choice([0.2, -0.3]) if a.blend else 1
        m, mv, tol = mixed(a, x2)
        lo, hi = min(offset, 0), max(100 * ratio + offset, 100)
        g = np.linspace(lo, hi, 40001)
        fine = at(SOC * ratio + offset, a.pe["Voltage_aligned"].values, g) - at(m, mv, g)
        ok = ~np.isnan(fine)
        if fine[ok].min() > 2.65 or fine[ok].max() < 4.22:
            raise Skip("the cell does not reach its limits")
        sr = np.linspace(0, 100, 1001)
        real = pd.DataFrame({"SOC_aligned": sr, "Voltage_aligned": 2.7 + 1.5 * (sr / 100) ** rng.uniform(0.4, 1)})
        obs.saw("initial", round(ratio, 1), round(offset), a.blend)
        obs.describe(f"ratio {ratio}, offset {offset}, blend {a.blend}")
        params = (real, *a.params)
        pe, ne, rr, em = a.ia.halfcell_initial_matching_v2([ratio, offset, x2, 0.1, 0.1], *params)
        s = pe["SOC_aligned"].values
        near(obs, s, ne["SOC_aligned"], "the electrodes' axes")
        even(obs, s, s[0], s[-1], "electrodes")
        k = (hi - lo) / (s[-1] - s[0])          # percent of the anode per percent of the cell
        orig = lo + (s - s[0]) * k
        tp = pd.DataFrame({"o": orig, "Voltage_aligned": pe["Voltage_aligned"]})
        tn = pd.DataFrame({"o": orig, "Voltage_aligned": ne["Voltage_aligned"]})
        electrode(obs, tp, "o", 0, SOC * ratio + offset, a.pe["Voltage_aligned"].values, 0, "cathode")
        electrode(obs, tn, "o", 0, m, mv, tol, "anode")
        full = pe["Voltage_aligned"].values - ne["Voltage_aligned"].values
        zero = int(np.nanargmin(np.abs(full - 2.7)))
        obs.require(abs(s[zero]) < 1e-6, lambda: f"2.7 V is at {s[zero]} percent")
        inside = (full >= 2.7) & (full <= 4.2)
        obs.require(abs(s[inside].max() - 100) < 1e-6, lambda: f"the cell is full at {s[inside].max()} percent")
        for name, f in (("measured", rr), ("emulated", em)):
            even(obs, f["SOC_aligned"], 0, 100, name)
        near(obs, rr["Voltage_aligned"], np.interp(rr["SOC_aligned"], sr, real["Voltage_aligned"]), "measured", 1e-7)
        si, fi = s[inside], full[inside]
        e = em["SOC_aligned"].values
        mid = (e > si[2]) & (e < si[-3])
        err = np.abs(em["Voltage_aligned"].values[mid] - np.interp(e[mid], si, fi))
        obs.require(err.max() < 0.05 and np.median(err) < 1e-3, lambda: f"emulated cell differs by {err.max()} V from its electrodes")
        err = a.ia._get_error_from_halfcell_initial_matching([ratio, offset, x2, 0.1, 0.1], *params)
        want = np.sqrt(((rr["Voltage_aligned"] - em["Voltage_aligned"]) ** 2).sum())
        obs.require(abs(err - want) < 1e-7 * max(1, want), lambda: f"error {err}, the distance is {want}")
        own = pd.DataFrame({"SOC_aligned": sr, "Voltage_aligned": em["Voltage_aligned"].values})
        err = a.ia._get_error_from_halfcell_initial_matching([ratio, offset, x2, 0.1, 0.1], own, *a.params)
        obs.require(err < 1e-6, lambda: f"error {err} of the cell's own curve")
        y = [ratio, offset, x2, rng.choice([0.1, 0.4]), rng.choice([0.1, 0.7])]
        slopes(obs, a, "halfcell_initial", y, params, rr, em,
               [("dQdV", "Q", False, ""), ("dQdV", "V", True, ""), ("dVdQ", "Q", False, ""), ("dVdQ", "V", False, "")])


def case_halfcell(rng, obs):
    from beep.features.intracell_analysis import get_halfcell_voltages
    with scratch() as d:
        a = analysis(rng, d, 1, blend=False)
        pe, ne, up, low = matched(rng, a)
        obs.saw("halfcell", round(pe["SOC_aligned"].min(), 1), round(pe["SOC_aligned"].max(), 1))
        got = get_halfcell_voltages(pe, ne)
        s, p, n = pe["SOC_aligned"].values, pe["Voltage_aligned"].values, ne["Voltage_aligned"].values
        full = p - n
        i1, i0 = int(np.nanargmin(np.abs(full - 4.2))), int(np.nanargmin(np.abs(full - 2.7)))
        want = []
        for v in (p, n):
            own = s[~np.isnan(v)]
            want += [v[i1], v[i0], (s[i1] - own.min()) / np.ptp(own) * 100, (s[i0] - own.min()) / np.ptp(own) * 100, np.ptp(own)]
        want += [s[i1], s[i0], np.ptp(s[~np.isnan(full)])]
        obs.require(len(got) == len(want), lambda: f"{len(got)} values")
        for name, g, w in zip(["PE upper V", "PE lower V", "PE upper SOC", "PE lower SOC", "PE capacity", "NE upper V", "NE lower V", "NE upper SOC",
                               "NE lower SOC", "NE capacity", "SOC upper", "SOC lower", "common capacity"], got, want):
            obs.require(abs(g - w) < 1e-8, lambda: f"{name} {g}, the curves give {w}")


# structured runs

class Cell:
    """what the analysis reads from a structured run: diagnostic cycles of several types, charge and discharge"""
    is_structured = True
    semiunique_id = "x"

    def __init__(self, rng, a, xs, kind, cycles=None, other=True):
        self.paths = {}
        self.metadata = SimpleNamespace(raw={"protocol": "p"})
        n = len(xs)
        c, rows, frames = rng.choice([1, 3]), [], []
        self.curves = {}
        types = [kind] + rng.sample([t for t in ("rpt_0.2C", "rpt_1C", "rpt_2C", "reset") if t != kind], rng.choice([1, 2]) if other else 0)
        for x in xs:
            rng.shuffle(types)
            for t in types:
                y = x if t == kind else [x[0], x[1] * 0.9, x[2] * 0.95, x[3]]
                q, v = truth(a, y)
                if t == kind:
                    self.curves[c] = (q, v, y)
                points = rng.choice([500, 1000])
                vg = np.linspace(2.7, 4.2, points)
                ch = at(v, q, vg) if (np.diff(v) > 0).all() else np.interp(vg, *zip(*sorted(zip(v, q))), left=np.nan, right=np.nan)
                for st in (0, 1):
                    cap = ch if st == 0 else np.nanmax(ch) - ch
                    frames.append(pd.DataFrame({"voltage": vg, "charge_capacity": cap if st == 0 else np.nanmax(ch), "discharge_capacity": 0.0 if st == 0 else cap,
                                                "cycle_index": c, "cycle_type": t, "step_type": st}))
                rows.append({"cycle_index": c, "cycle_type": t, "discharge_capacity": q[-1], "charge_capacity": q[-1]})
                c += 1
            c += rng.choice([0, 20])
        if rng.random() < 0.5:
            frames = frames[::-1] if rng.random() < 0.5 else frames
        self.diagnostic_data = pd.concat(frames, ignore_index=True)
        self.diagnostic_summary = pd.DataFrame(rows)
        self.kind = kind


def states(rng, n):
    grow = rng.random() < 0.2
    x = [rng.uniform(0.05, 0.2), rng.uniform(4.7, 5.3), rng.uniform(5.0, 5.8), 1]
    out = []
    for _ in range(n):
        out.append(list(x))
        if grow:
            x = [x[0], x[1] * rng.uniform(1.0, 1.04), x[2] * rng.uniform(1.0, 1.04), 1]
            continue
        x = [x[0] + rng.uniform(0.02, 0.15), x[1] * rng.uniform(0.95, 0.995), x[2] * rng.uniform(0.95, 0.995), 1]
    return out


def case_extract(rng, obs):
    with scratch() as d:
        version = rng.choice([1, 2])
        kind = rng.choice(["rpt_0.2C", "rpt_1C"])
        a = analysis(rng, d, version, blend=False, cycle_type=kind)
        cell = Cell(rng, a, states(rng, rng.choice([2, 3])), kind)
        cyc = rng.choice(list(cell.curves))
        rows = cell.diagnostic_data
        mine = rows[(rows.cycle_index == cyc) & (rows.step_type == 0) & (rows.voltage < 4.2) & (rows.charge_capacity > 0)].sort_values("charge_capacity")
        cap, volt = mine.charge_capacity.values, mine.voltage.values
        before = rows.copy()
        obs.saw("extract", version, kind, cyc)
        obs.describe(f"version {version}, cycle {cyc} of type {kind}")
        if version == 2:
            f = a.ia.process_beep_cycle_data_for_candidate_halfcell_analysis_ah(cell, cyc)
            even(obs, f["Q_aligned"], 0, cap.max(), "capacity")
            near(obs, f["Voltage_aligned"], np.where(f["Q_aligned"] < cap[0], 2.7, np.interp(f["Q_aligned"], cap, volt)), "voltage of the cycle", 1e-9)
            b = type(a.ia)(*a.files, cycle_type=kind, step_type=1)
            try:
                g = b.process_beep_cycle_data_for_candidate_halfcell_analysis_ah(cell, cyc)
                ok = abs(g["Q_aligned"].max() - rows[(rows.cycle_index == cyc) & (rows.step_type == 1)].discharge_capacity.max()) < 0.05
            except ValueError:
                ok = False
        else:
            first = min(cell.curves)
            ini = rows[(rows.cycle_index == first) & (rows.step_type == 0) & (rows.voltage < 4.2) & (rows.voltage > 2.7)].dropna().sort_values("charge_capacity")
            ic, iv = ini.charge_capacity.values, ini.voltage.values
            al, pr = a.ia.process_beep_cycle_data_for_initial_halfcell_analysis(cell)
            even(obs, al["SOC_aligned"], 0, 100, "SOC")
            scale = ic.max() - ic.min()
            g = al["SOC_aligned"].values / 100 * scale + ic.min()
            inner = (g > ic.min() + 1e-9) & (g < ic.max() - 1e-9)
            near(obs, al["Voltage_aligned"].values[inner], np.interp(g, ic, iv)[inner], "voltage of the first cycle", 1e-7)
            f = a.ia.process_beep_cycle_data_for_candidate_halfcell_analysis(cell, al, pr, cyc)
            s = (cap - ic.min()) / scale * 100
            even(obs, f["SOC_aligned"], 0, s.max() * 100 / al["SOC_aligned"][~al["Voltage_aligned"].isna()].max(), "SOC of the cycle")
            q = np.linspace(0, s.max(), len(f))
            near(obs, f["Voltage_aligned"], np.where(q < s[0], 2.7, np.interp(q, s, volt)), "voltage of the cycle", 1e-7)
            ok = True
            # the discharge of the first cycle, when asked for
            b = type(a.ia)(*a.files, cycle_type=kind)
            al, pr = b.process_beep_cycle_data_for_initial_halfcell_analysis(cell, step_type=1)
            ini = rows[(rows.cycle_index == first) & (rows.step_type == 1) & (rows.voltage < 4.2) & (rows.voltage > 2.7)].dropna().sort_values("discharge_capacity")
            ic, iv = ini.discharge_capacity.values, ini.voltage.values
            g = al["SOC_aligned"].values / 100 * (ic.max() - ic.min()) + ic.min()
            inner = (g > ic.min() + 1e-9) & (g < ic.max() - 1e-9)
            near(obs, al["Voltage_aligned"].values[inner], np.interp(g, ic, iv)[inner], "voltage of the first discharge", 1e-7)
            near(obs, pr["discharge_capacity"].dropna().sort_values(), ic, "capacities of the first discharge")
        obs.require(rows.equals(before), "the run was changed")
        obs.require(ok, "step_type=1 (discharge) does not give the discharge of the cycle", key="discharge-not-analysed")


class Candidates:
    """stands in for the optimiser: the best of given candidates and random ones"""

    def __init__(self, rng, given):
        self.rng, self.given, self.calls, self.found = rng, given, 0, {}

    def __call__(self, func, bounds, args=(), **kw):
        from scipy.optimize import OptimizeResult
        self.calls += 1
        lo, hi = np.array([b[0] for b in bounds], float), np.array([b[1] for b in bounds], float)
        best = None
        pool = [np.array(g, float) for g in self.given(len(bounds), args)] + [lo + (hi - lo) * np.array([self.rng.random() for _ in lo]) for _ in range(2)]
        for x in pool:
            if (x < lo - 1e-12).any() or (x > hi + 1e-12).any():
                continue
            f = func(x, *args)
            if best is None or f < best.fun:
                best = OptimizeResult(x=x, fun=f, success=True, message="")
        self.found[len(bounds)] = list(best.x)
        return best


def classes(version, first_two):
    if version == 1:
        import beep.features.intracell_analysis as module
        from beep.features.intracell_losses import IntracellCycles as cycles, IntracellFeatures as features
    else:
        import beep.features.intracell_analysis_v2 as module
        from beep.features.intracell_losses_v2 import IntracellCyclesV2 as cycles, IntracellFeaturesV2 as features
    return module, features if first_two else cycles


def case_verdict(rng, obs):
    """which runs can be featurized, from their summary alone"""
    version, first_two = rng.choice([1, 2]), rng.random() < 0.5
    module, cls = classes(version, first_two)
    floor = 4.84 * 0.7 if version == 1 else 0.0
    kind = rng.choice(["rpt_0.2C", "rpt_0.2C", "rpt_1C", "reset"])
    rows = [{"cycle_index": c, "cycle_type": rng.choice([kind, kind, "reset", "hppc", "rpt_2C"]),
             "discharge_capacity": rng.choice([floor, np.nextafter(floor, 9), np.nextafter(floor, -1), floor + 1, 0.0, floor * 0.9])}
            for c in sorted(rng.sample(range(300), rng.choice([0, 1, 1, 2, 3, 5])))]
    if rng.random() < 0.2:
        rows = [dict(r, cycle_type="reset") for r in rows]
    summary = pd.DataFrame(rows) if rows else pd.DataFrame(columns=["cycle_index", "cycle_type", "discharge_capacity"])
    cell = SimpleNamespace(is_structured=True, semiunique_id="x", paths={}, metadata=SimpleNamespace(raw={}),
                           diagnostic_summary=summary if rows or rng.random() < 0.5 else None, diagnostic_data=pd.DataFrame())
    given = {} if kind == "rpt_0.2C" and rng.random() < 0.5 else {"diagnostic_cycle_type": kind, "step_type": 0, "anode_file": "/n", "cathode_file": "/p"}
    obs.describe(f"version {version}, {cls.__name__}, {given}, {rows}")
    ok, why = cls(cell, dict(given)).validate()
    due = sum(r["cycle_type"] == kind and r["discharge_capacity"] > floor for r in rows)
    want = due >= (2 if first_two else 1) and any("rpt" in r["cycle_type"] for r in rows)
    obs.require(ok == want, lambda: f"{cls.__name__}({kind}) of {rows}: validated {ok} ({why}), expected {want}")
    obs.require((why is None) == ok, lambda: f"validation {ok}, reason {why}")
    obs.saw("verdict", version, first_two, kind, due, ok, len(rows))


def case_features(rng, obs, version, first_two):
    module, cls = classes(version, first_two)
    with scratch() as d:
        kind = rng.choice(["rpt_0.2C", "rpt_0.2C", "rpt_1C"])
        a = analysis(rng, d, version, blend=False, cycle_type=kind)
        n = rng.choice([1, 2, 3]) if rng.random() < 0.2 else 3
        cell = Cell(rng, a, states(rng, n), kind)
        summary = cell.diagnostic_summary
        mode = rng.choice(["all", "all", "some"])
        own = list(cell.curves)
        dead = {"all": [], "some": own[-1:], "none": own, "absent": []}[mode]
        floor = a.ia.THRESHOLD
        summary.loc[summary.cycle_index.isin(dead), "discharge_capacity"] = 0.0 if version == 2 else floor * 0.9
        if mode == "absent":
            summary.loc[summary.cycle_index.isin(own), "cycle_type"] = "other"
        due = [c for c in own if c not in dead and mode != "absent" and summary.set_index("cycle_index").discharge_capacity[c] > floor]
        obs.saw("features", version, first_two, n, mode)
        obs.describe(f"version {version}, {cls.__name__}, {n} diagnostics, {mode}")
        f = cls(cell, {"diagnostic_cycle_type": kind, "step_type": 0, "anode_file": a.files[1], "cathode_file": a.files[0]})
        ok, why = f.validate()
        possible = len(due) >= (2 if first_two else 1)
        obs.require(ok == possible, lambda: f"{len(due)} cycles with capacity: validated {ok} ({why})")
        obs.require((why is None) == ok, lambda: f"validation {ok}, {why}")
        if not possible:
            return
        xs = {c: cell.curves[c][2] for c in own}

        def given(k, args):
            if version == 2:
                return [x for x in xs.values()]
            if k == 5:   # initial matching: cathode over anode, where the cathode begins
                x = xs[own[0]]
                return [[x[1] / x[2], -x[0] / x[2] * 100, 1, 0.1, 0.1]]
            return [[100 * (xs[c][0] - xs[own[0]][0]) / 5, 5, 5, 1, 0.1, 0.1] for c in own] + [[0, 0, 0, 1, 0.1, 0.1]]
        stand_in = Candidates(rng, given)
        import scipy.optimize
        with mock.patch.object(scipy.optimize, "differential_evolution", stand_in), mock.patch.object(module, "differential_evolution", stand_in, create=True):
            f.create_features()
        if not stand_in.calls:
            raise Skip("another optimiser")
        X = f.features
        names = COLUMNS_2 if version == 2 else COLUMNS_1
        if first_two:
            obs.require(list(X.columns) == ["diag_0_" + c for c in names] + ["diag_1_" + c for c in names] and len(X) == 1, lambda: f"{X.shape}, columns {list(X.columns)[:5]}")
            rows = {c: {k: X.iloc[0][f"diag_{i}_{k}"] for k in names} for i, c in enumerate(due[:2])}
        else:
            obs.require(list(X.columns) == names and list(X.index) == due, lambda: f"rows {list(X.index)}, expected {due}; columns {list(X.columns)[:5]}")
            rows = {c: X.loc[c].to_dict() for c in due}
        if version == 2:
            ia = a.ia
            for c, row in rows.items():
                real = ia.process_beep_cycle_data_for_candidate_halfcell_analysis_ah(cell, c)
                x = [row["LLI_opt"], row["Q_pe_opt"], row["Q_ne_opt"], row["x_NE_2"]]
                e = ia._get_error_from_degradation_matching_ah(x, *a.params, real)
                obs.require(abs(e - row["rmse_error"]) < 1e-12, lambda: f"cycle {c}: error {row['rmse_error']} of {x}, it is {e}")
                for other in xs.values():
                    o = ia._get_error_from_degradation_matching_ah(other, *a.params, real)
                    obs.require(e <= o + 1e-12, lambda: f"cycle {c}: {x} with error {e} reported, {other} has {o}")
                pe, ne = ia.halfcell_degradation_matching_ah_no_real(x, *a.params)[:2]
                check_info(obs, row, pe, ne, f"cycle {c}")
        else:
            from beep.features.intracell_analysis import get_halfcell_voltages
            ia = a.ia
            al, pr = ia.process_beep_cycle_data_for_initial_halfcell_analysis(cell)
            x0 = stand_in.found[5]
            errors = [ia._get_error_from_halfcell_initial_matching(u, al, *a.params) for u in (x0, given(5, ())[0])]
            obs.require(errors[0] <= errors[1] + 1e-12, lambda: f"the first cycle is matched with errors {errors}")
            pe0, ne0 = ia.halfcell_initial_matching_v2(x0, al, *a.params)[:2]
            for c, row in rows.items():
                cand = ia.process_beep_cycle_data_for_candidate_halfcell_analysis(cell, al, pr, c)
                x = [row[k] for k in names[:6]]
                params = (pe0, ne0, a.params[2], a.params[3], cand)
                e = ia._get_error_from_degradation_matching(x, *params)
                for other in given(6, ()):
                    o = ia._get_error_from_degradation_matching(other, *params)
                    obs.require(e <= o + 1e-12, lambda: f"cycle {c}: {x} with error {e} reported, {other} has {o}")
                pe, ne = ia.halfcell_degradation_matching_v3(x, *params)[:2]
                v = get_halfcell_voltages(pe, ne)
                near(obs, [row[k] for k in names[6:]], list(v[:10]) + [v[12]], f"cycle {c}: electrode values", 1e-9)


def case_wrapper(rng, obs):
    """one cycle at a time: losses and curves are filed under that cycle and are those of the best parameters"""
    import scipy.optimize
    with scratch() as d:
        version = rng.choice([1, 2])
        module, _ = classes(version, True)
        kind = rng.choice(["rpt_0.2C", "rpt_1C"])
        a = analysis(rng, d, version, blend=False, cycle_type=kind)
        ia = a.ia
        cell = Cell(rng, a, states(rng, 3), kind)
        own = list(cell.curves)
        c = rng.choice(own)
        x = list(cell.curves[c][2])
        obs.saw("wrapper", version, kind, c)
        obs.describe(f"version {version}, cycle {c} of {own}")
        x0 = cell.curves[own[0]][2]

        def given(k, args):
            if k == 5:
                return [[x0[1] / x0[2], -x0[0] / x0[2] * 100, 1, 0.1, 0.1]]
            return [cell.curves[o][2] for o in own] if version == 2 else [[0, 0, 0, 1, 0.1, 0.1], [4, 2, 3, 1, 0.1, 0.1]]
        stand_in = Candidates(rng, given)
        with mock.patch.object(scipy.optimize, "differential_evolution", stand_in), mock.patch.object(module, "differential_evolution", stand_in, create=True):
            if version == 2:
                loss, curves = ia.intracell_values_wrapper_ah(c, cell)
            else:
                al, pr, pe0, ne0 = ia.intracell_wrapper_init(cell)
                loss, curves = ia.intracell_values_wrapper(c, cell, al, pr, pe0, ne0)
            if not stand_in.calls:
                raise Skip("another optimiser")
            obs.require(list(loss) == [c] and list(curves) == [c], lambda: f"cycle {c}: losses of {list(loss)}, curves of {list(curves)}")
            got = curves[c]
            if version == 1:
                want = ia.process_beep_cycle_data_for_candidate_halfcell_analysis(cell, al, pr, c)
                near(obs, got["SOC_aligned"], want["SOC_aligned"], "SOC of the cycle's curve")
                near(obs, got["Voltage_aligned"], want["Voltage_aligned"], "voltage of the cycle's curve")
                return
            real = ia.process_beep_cycle_data_for_candidate_halfcell_analysis_ah(cell, c)
            row = loss[c]
            for other in given(4, ()):
                o = ia._get_error_from_degradation_matching_ah(other, *a.params, real)
                obs.require(row[0] <= o + 1e-12, lambda: f"cycle {c}: {row[1:5]} with error {row[0]} reported, {other} has {o}")
            x = list(row[1:5])
            e = ia._get_error_from_degradation_matching_ah(x, *a.params, real)
            obs.require(abs(e - row[0]) < 1e-12, lambda: f"cycle {c}: error {row[0]} of {x}, it is {e}")
            want = ia.get_dqdv_over_v_from_degradation_matching_ah(x, *a.params, real)
            frames = dict(zip(["PE_zeroed", "NE_zeroed", "dQdV_over_v_real", "dQdV_over_v_emulated", "df_real_interped", "emulated_full_cell_interped"], want))
            frames["real_cell_candidate_charge_profile_aligned"] = real
            obs.require(set(got) == set(frames), lambda: f"curves {sorted(got)}")
            for name, f in frames.items():
                obs.require(set(got[name].columns) == set(f.columns), lambda: f"{name}: {list(got[name].columns)}")
                for col in f.columns:
                    near(obs, got[name][col], f[col], f"{name}, {col}", 1e-9)
            near(obs, row[5:], list(info(*want[:2]).values()) if list(info(*want[:2])) == INFO else [info(*want[:2])[k] for k in INFO], "metrics", 1e-9)
            # a cell emulated with known parameters
            q, v, _ = cell.curves[c]
            made = aligned(q, v)
            solved = ia.solve_emulated_degradation(made)
            e = ia._get_error_from_synthetic_fitting_ah(solved.x, *a.params, made)
            for other in given(4, ()):
                o = ia._get_error_from_synthetic_fitting_ah(other, *a.params, made)
                obs.require(e <= o + 1e-12, lambda: f"{solved.x} with error {e} found, {other} has {o}")


def run_case(kind, rng, obs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind[-1] in "12":
            case_features(rng, obs, int(kind[-1]), kind.startswith("features"))
        else:
            globals()["case_" + kind](rng, obs)
