"""C06 - a validation verdict is positive exactly when every record obeys every rule of the schema."""
import glob
import os
import re

import numpy as np
import pandas as pd

from monitors.c04 import frame_equal, scratch
from vlib import cells

ID = "C06"
RULE = (
    "Tables obeying a schema (every shipped one, or a generated one mixing all rule types) are validated by the real code, "
    "then mutated in 0..2 places (first/last/any row; just inside, exactly on and just outside each bound; wrong dtype; "
    "non-integers and gaps; decreasing pairs; unreached thresholds; missing column; capitalised names). The verdict must "
    "equal an independent row-by-row evaluation and the reason must name a rule, record and value that really violate. "
    "Non-trivial: verdict compared; distinct by (schema, mutation, dtype)."
)
KINDS = {"shipped": (700, 6000), "custom": (1500, 15000), "datapath": (150, 1500)}
MIN_SIGNATURES = 60
SHIPPED = ["schema-arbin-18650-2170", "schema-arbin-cerberus", "schema-arbin-lfp", "schema-arbin-nmc-phev",
           "schema-maccor-2170", "schema-maccor-eis", "schema-maccor-lfp", "schema-novonix"]


def obeying(rng, col, n, rules):
    """A series of length n which satisfies the rules."""
    t = rules.get("type")
    if t == "string":
        return pd.Series([rng.choice(["C", "D", "12/01/2019 10:00:00", ""]) for _ in range(n)], dtype=object)
    lo = rules.get("min", -50 if rules.get("max") is None else rules["max"] - 20)
    hi = rules.get("max", lo + 40)
    if rules.get("max_at_least") is not None:
        hi = max(hi, rules["max_at_least"] + 3)
        if "max" in rules:
            hi = rules["max"]
    if rules.get("min_is_below") is not None:
        lo = min(lo, rules["min_is_below"] - 3)
        if "min" in rules:
            lo = rules["min"]
    vals = [rng.uniform(lo, hi) for _ in range(n)]
    if t == "integer":
        vals = [float(np.clip(round(v), np.ceil(lo), np.floor(hi))) for v in vals]
    if rng.random() < 0.4:
        vals[rng.randrange(n)] = float(lo)
        vals[rng.randrange(n)] = float(hi)
    if rules.get("max_at_least") is not None and max(vals) < rules["max_at_least"]:
        vals[rng.randrange(n)] = float(rules["max_at_least"])
    if rules.get("min_is_below") is not None and min(vals) > rules["min_is_below"]:
        vals[rng.randrange(n)] = float(rules["min_is_below"])
    if rules.get("max_at_least") is not None and max(vals) < rules["max_at_least"]:
        return None
    if rules.get("monotonic"):
        vals.sort()
    s = pd.Series(vals, dtype=float)
    if t == "integer":
        if (s != s.round()).any():
            return None
        if rng.random() < 0.6:
            s = s.astype(int)
    return s


def problems(df, schema):
    """All violated rules: list of (column, rule, set of positions or None, bound)."""
    out = []
    names = {str(c).lower(): c for c in df.columns}
    for col, v in schema.items():
        r = v["schema"]
        if col not in names:
            if r:
                out.append((col, "missing", None, None))
            continue
        s = df[names[col]]
        numeric = s.dtype.kind in "iuf"
        t = r.get("type")
        if t == "integer":
            if not numeric:
                out.append((col, "integer", None, None))
                continue
            bad = {i for i, x in enumerate(s) if not (x == np.round(x))}
            if bad:
                out.append((col, "integer", bad, None))
        elif t == "float" and s.dtype.kind != "f":
            out.append((col, "float", None, None))
        elif t == "numeric" and not numeric:
            out.append((col, "numeric", None, None))
        elif t == "string" and s.dtype.kind not in "OU":
            out.append((col, "string", None, None))
        if not numeric:
            continue
        xs = list(s)
        if r.get("max") is not None:
            bad = {i for i, x in enumerate(xs) if x > r["max"]}
            if bad:
                out.append((col, "max", bad, r["max"]))
        if r.get("min") is not None:
            bad = {i for i, x in enumerate(xs) if x < r["min"]}
            if bad:
                out.append((col, "min", bad, r["min"]))
        fin = [x for x in xs if x == x]
        if r.get("max_at_least") is not None and fin and max(fin) < r["max_at_least"]:
            out.append((col, "max_at_least", None, r["max_at_least"]))
        if r.get("min_is_below") is not None and fin and min(fin) > r["min_is_below"]:
            out.append((col, "min_is_below", None, r["min_is_below"]))
        if r.get("monotonic") == "increasing":
            if any(b < a for a, b in zip(xs, xs[1:])):
                out.append((col, "monotonic", None, None))
    return out


def judge(obs, df, schema, verdict, reason, what):
    bad = problems(df, schema)
    if any(r in ("missing", "integer") and pos is None for _, r, pos, _ in bad):
        obs.require(verdict is not True, lambda: f"{what}: accepted although {bad}")
        return
    obs.require(bool(verdict) == (not bad), lambda: f"{what}: verdict {verdict} ({reason!r}), but violated rules are {bad}")
    if not bad:
        obs.require(reason == "", lambda: f"{what}: valid, yet a reason is given: {reason!r}")
        return
    cand = [b for b in bad if re.search(rf"(^|[^\w]){re.escape(b[0])}([^\w]|$)", reason)]
    obs.require(cand, lambda: f"{what}: reason {reason!r} names none of the offending columns {bad}")
    m = re.search(r"type is (.+)$", reason)
    if m:
        names = {str(c).lower(): c for c in df.columns}
        obs.require(any(b[1] in ("float", "numeric", "string") and m.group(1) == str(df[names[b[0]]].dtype) for b in cand),
                    lambda: f"{what}: reason {reason!r} does not describe {cand}")
    m = re.search(r"at index (\d+)", reason)
    if m:
        pos = int(m.group(1))
        cand = [b for b in cand if b[2] and pos in b[2]]
        obs.require(cand, lambda: f"{what}: reason {reason!r} points at a record which is fine ({bad})")
        m = re.search(r"value[= ](\S+)$", reason)
        if m:
            names = {str(c).lower(): c for c in df.columns}
            x = df[names[cand[0][0]]].iloc[pos]
            obs.require(abs(float(m.group(1)) - x) <= 1e-6 * max(1, abs(x)) or x != x,
                        lambda: f"{what}: reason {reason!r} quotes a value which is not that of the record ({x})")
    elif "instead found" in reason:
        cand = [b for b in cand if b[1] in ("max_at_least", "min_is_below")]
        obs.require(cand, lambda: f"{what}: reason {reason!r} but {bad}")
        ok = []
        for col, rule, _, bound in cand:
            names = {str(c).lower(): c for c in df.columns}
            ext = df[names[col]].max() if rule == "max_at_least" else df[names[col]].min()
            m = re.search(r"(?:at least|under) (\S+) .*value=(\S+)$", reason)
            ok.append(m and float(m.group(1)) == float(bound) and abs(float(m.group(2)) - ext) <= 1e-6 * max(1, abs(ext)))
        obs.require(any(ok), lambda: f"{what}: reason {reason!r} does not describe {cand}")


def mutate(rng, df, schema):
    """Changes df in place; returns a tag."""
    cols = list(schema)
    col = rng.choice(cols)
    r = schema[col]["schema"]
    n = len(df)
    pos = rng.choice([0, n - 1, rng.randrange(n)])
    options = ["none"]
    num = r.get("type") != "string"
    if num:
        for b in ("max", "min"):
            if r.get(b) is not None:
                options += [b + "_over", b + "_on", b + "_inside"]
        if r.get("type") == "integer":
            options += ["half", "nan"]
        if r.get("monotonic"):
            options += ["decrease", "plateau"]
        if r.get("max_at_least") is not None:
            options += ["unreached_max"]
        if r.get("min_is_below") is not None:
            options += ["unreached_min"]
        if r.get("type") == "float":
            options += ["as_int", "as_object", "nan"]
        if r.get("type") == "numeric":
            options += ["as_int", "as_object", "as_bool", "as_float32"]
    else:
        options += ["as_float"]
    options += ["drop", "upper"]
    op = rng.choice(options)
    eps = 1 if r.get("type") == "integer" else 10.0 ** -rng.choice([0, 2, 5])

    def put(v):
        s = df[col].copy()
        if s.dtype.kind == "i" and v != int(v):
            s = s.astype(float)
        s.iloc[pos] = v
        df[col] = s

    if op in ("max_over", "max_on", "max_inside"):
        put(r["max"] + {"max_over": eps, "max_on": 0, "max_inside": -eps}[op])
    elif op in ("min_over", "min_on", "min_inside"):
        put(r["min"] + {"min_over": -eps, "min_on": 0, "min_inside": eps}[op])
    elif op == "half":
        put(float(df[col].iloc[pos]) + rng.choice([0.5, 1e-4, -0.25]))
    elif op == "nan":
        df[col] = df[col].astype(float)
        if r.get("monotonic"):
            pos = 0
        s = df[col].copy()
        s.iloc[pos] = np.nan
        df[col] = s
    elif op == "decrease":
        s = df[col].copy()
        if n > 1:
            k = rng.randrange(1, n)
            how = rng.choice(["swap", "again", "little"])
            if how == "swap":
                s.iloc[k], s.iloc[k - 1] = s.iloc[k - 1], s.iloc[k]
            elif how == "again":  # falls back to a value seen before
                s.iloc[n - 1] = s.iloc[rng.randrange(n)]
            elif s.dtype.kind == "f" and r.get("type") != "integer":
                s.iloc[k] = s.iloc[k - 1] - rng.choice([1e-3, 1e-7, 1e-9])
        df[col] = s
    elif op == "plateau":
        s = df[col].copy()
        if n > 1:
            k = rng.randrange(1, n)
            s.iloc[k] = s.iloc[k - 1]
        df[col] = s
    elif op == "unreached_max":
        df[col] = df[col].clip(upper=r["max_at_least"] - eps)
    elif op == "unreached_min":
        df[col] = df[col].clip(lower=r["min_is_below"] + eps)
    elif op == "as_int":
        df[col] = df[col].fillna(0).round().astype(int)
    elif op == "as_object":
        df[col] = df[col].astype(object)
    elif op == "as_bool":
        df[col] = df[col] > df[col].mean()
    elif op == "as_float32":
        df[col] = df[col].astype("float32")
    elif op == "as_float":
        df[col] = np.arange(n, dtype=float)
    elif op == "drop":
        df.drop(columns=[col], inplace=True)
    elif op == "upper":
        df.rename(columns={col: col.upper() if rng.random() < 0.5 else col.title()}, inplace=True)
    return f"{col}:{op}"


def run_case(kind, rng, obs):
    from beep.structure.validate import SimpleValidator
    from monty.serialization import dumpfn, loadfn
    from beep import VALIDATION_SCHEMA_DIR
    with scratch() as d:
        if kind == "custom":
            schema = {}
            for k in range(rng.randrange(1, 6)):
                r = {"type": rng.choice(["integer", "float", "numeric", "string", "float", None])}
                if r["type"] is None:
                    del r["type"]
                if r.get("type") != "string":
                    lo = rng.choice([None, 0, -3.5, 1])
                    hi = rng.choice([None, 5, 7.25, 100, 0])
                    if lo is not None and hi is not None and lo > hi:
                        lo = -3.5
                    if lo is not None:
                        r["min"] = lo
                    if hi is not None:
                        r["max"] = hi
                    if rng.random() < 0.4:
                        r["max_at_least"] = rng.choice([0, 1, 2.5])
                    if rng.random() < 0.4:
                        r["min_is_below"] = rng.choice([2, 1.5, 3, 0])
                    if rng.random() < 0.3:
                        r["monotonic"] = "increasing"
                schema[f"col_{k}"] = {"schema": r, "type": "list"}
            path = os.path.join(d, "schema.yaml")
            dumpfn(schema, path)
            if rng.random() < 0.05:
                name, v = rng.choice(list(schema.items()))
                dumpfn(dict(schema, **{name: {"schema": dict(v["schema"], type=rng.choice(["int", "number", "str", "Float"])), "type": "list"}}), path)
                try:
                    got = SimpleValidator(schema_filename=path).validate(pd.DataFrame({c: [1.0, 2.0] for c in schema}))
                    obs.require(got[0] is False, lambda: f"an unknown type rule gives {got}")
                except ValueError:
                    pass
                obs.count("unknown type rules")
                return
        else:
            name = rng.choice(SHIPPED if kind == "shipped" else [s for s in SHIPPED if "arbin" in s or "2170" in s])
            path = os.path.join(VALIDATION_SCHEMA_DIR, name + ".yaml")
            schema = loadfn(path)
        n = rng.choice([1, 2, 5, 30])
        cols = {}
        for c, v in schema.items():
            s = obeying(rng, c, n, v["schema"])
            if s is None:
                from vlib.core import Skip
                raise Skip("unsatisfiable schema drawn")
            cols[c] = s
        order = list(cols)
        rng.shuffle(order)
        df = pd.DataFrame({c: cols[c] for c in order})
        df["unrelated"] = [rng.choice([-1e9, 1e9, np.nan]) for _ in range(n)]
        if rng.random() < 0.4:
            df.index = rng.sample(range(1000), n)
        tags = [mutate(rng, df, {k: v for k, v in schema.items() if k in df.columns} or schema)
                for _ in range(rng.choice([0, 1, 1, 1, 2]))
                if any(k in df.columns for k in schema)]
        keep = df.copy(deep=True)
        if kind == "datapath":
            cls = cells.datapath_class(rng.choice(["arbin", "maccor", "neware"]))
            base = os.path.basename(path)
            try:
                cls(raw_data=df, metadata={}, schema=rng.choice(["absent-" + base, "/nonexistent/absent-" + base]), impute_missing=False)
            except FileNotFoundError:
                obs.count("absent_schema_refused")
            else:
                obs.require(False, "a schema which does not exist was accepted")
            # a path recorded on another machine stands for the shipped schema of that name
            place = rng.choice([path, base, "/nonexistent/place/" + base])
            if base == "schema-arbin-lfp.yaml" and rng.random() < 0.7:
                place = None    # what is validated against when no schema is named
            dp = cls(raw_data=df, metadata={}, schema=place, impute_missing=False)
            call = dp.validate
        else:
            v = SimpleValidator() if kind == "shipped" and "arbin-lfp" in path and rng.random() < 0.5 else SimpleValidator(schema_filename=path)
            call = lambda: v.validate(df)  # noqa: E731
        obs.describe(f"{kind} {os.path.basename(path)} rows={n} mutations={tags}")
        bad = problems(df, schema)
        may_raise = any(r in ("missing", "integer") and pos is None for _, r, pos, _ in bad)
        try:
            verdict, reason = call()
        except Exception:
            if not may_raise:
                raise
            verdict, reason = None, "error"
        judge(obs, df, schema, verdict, reason, f"{os.path.basename(path)} {tags}")
        if not may_raise:
            obs.require((verdict, reason) == tuple(call()), "verdict is not repeatable")
        frame_equal(keep, df, "validated table", obs)
        obs.count("valid" if verdict else "invalid")
        for b in bad:
            obs.count("violated_" + b[1])
        obs.saw(kind, os.path.basename(path), tuple(t.split(":")[-1] for t in tags), bool(verdict), n > 1)
