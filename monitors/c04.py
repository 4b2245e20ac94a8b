"""C04 - saving and loading a datapath loses and changes nothing."""
import contextlib
import os
import random
import shutil
import tempfile

import numpy as np
import pandas as pd

from vlib import cells

ID = "C04"
RULE = (
    "Seeded runs of every vendor class, structured (with and without diagnostics, waveform and imputed columns) or not, "
    "are written to .json/.json.gz with and without raw data, or passed through dictionaries, and loaded through every "
    "loader; tables, dtypes, parameters, metadata, paths and operability are compared with the original, and a second "
    "generation is compared with the first. Non-trivial: a loaded object was compared; distinct by (vendor, form, state)."
)
KINDS = {"structured": (110, 1800), "diagnostic": (40, 700), "unstructured": (40, 500), "gen2": (30, 400), "legacy": (20, 300)}
MIN_SIGNATURES = 40
FRAMES = ("structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary")


@contextlib.contextmanager
def scratch():
    # letters only: some loaders look at digits anywhere in a path
    while True:
        d = os.path.join(tempfile.gettempdir(), "vp" + "".join(random.SystemRandom().choices("abdfgijklmopqrstuvwxyz", k=12)))
        try:
            os.mkdir(d)
            break
        except FileExistsError:
            continue
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def metadata(rng):
    m = {
        "barcode": rng.choice(["EL150800460514", "000287", "", None, "Zelle-ü µ"]),
        "protocol": rng.choice(["2017-05-09_tests\\20170509.sdu", "p.000", {"a": [1, 2.5]}, None]),
        "channel_id": rng.choice([0, 3, 33, None]),
    }
    if rng.random() < 0.8:
        m["item_id"] = rng.randrange(1000)
        m["comments"] = rng.choice(["line1\nline2", "tab\there", ""])
        m["start"] = 12.5e-3
        m["nested"] = {"k": [1, 2, {"z": None}], "flag": True}
    if rng.random() < 0.2:
        del m["channel_id"]
    return m


def frame_equal(a, b, name, obs, dtypes=True):
    obs.require((a is None) == (b is None), lambda: f"{name}: {'absent' if a is None else 'present'} before, not after")
    if a is None:
        return
    obs.require(list(a.columns) == list(b.columns),
                lambda: f"{name}: columns {sorted(map(str, set(a.columns) ^ set(b.columns)))} differ (or their order)")
    obs.require(len(a) == len(b), lambda: f"{name}: {len(a)} rows before, {len(b)} after")
    for c in a.columns:
        x, y = a[c], b[c]
        if dtypes and len(a):
            obs.require(str(x.dtype) == str(y.dtype) or (x.dtype.kind == "O" and y.isna().all()),
                        lambda: f"{name}.{c}: dtype {x.dtype} became {y.dtype}")
        x, y = x.to_numpy(), y.to_numpy()
        na, nb = pd.isna(x), pd.isna(y)
        obs.require((na == nb).all(), lambda: f"{name}.{c}: missing values moved")
        diff = [i for i in range(len(x)) if not na[i] and x[i] != y[i]]
        obs.require(not diff, lambda: f"{name}.{c}: row {diff[0]} was {x[diff[0]]!r}, is {y[diff[0]]!r}")


def legacy(rng, obs):
    """A file of the former ProcessedCyclerRun: tables and three metadata values at top level, no raw data, no paths."""
    import json
    vendor = rng.choice(["arbin", "maccor", "neware"])
    cls = cells.datapath_class(vendor)
    run = cells.make_run(rng, n_cycles=rng.choice([1, 3, 5]))
    dp = cls(raw_data=run.frame(), metadata={})
    dp.structure(resolution=rng.choice([3, 12]))
    want = {"structured_data": dp.structured_data.copy(), "structured_summary": dp.structured_summary.copy()}
    d = {"@module": "beep.structure.base", "@class": cls.__name__,
         "summary": json.loads(json.dumps(dp.structured_summary.to_dict("list"))),
         "cycles_interpolated": json.loads(json.dumps(dp.structured_data.to_dict("list")))}
    md = {"barcode": rng.choice(["EL1", None, "", "000287"]), "protocol": rng.choice(["p.000", None, {"a": 1}]),
          "channel_id": rng.choice([0, 4, None])}
    for k, v in md.items():
        if v is not None or rng.random() < 0.5:
            d[k] = v
    obs.describe(f"legacy {vendor} {md}")
    got = cls.from_dict(d)
    for f, w in want.items():
        frame_equal(w, getattr(got, f), f + " (legacy file)", obs)
    obs.require((got.metadata.barcode, got.metadata.protocol, got.metadata.channel_id)
                == (md["barcode"], md["protocol"], md["channel_id"]),
                lambda: f"metadata of a legacy file is {got.metadata.raw}, was {md}")
    obs.require(got.is_structured and got.raw_data is None and got.diagnostic is None, "state of a legacy file is wrong")
    for op in ("structure", "validate", "as_dict", "unstructure"):
        try:
            getattr(got, op)()
        except ValueError:
            continue
        obs.require(False, f"{op} accepted a legacy object without raw data")
    obs.count("legacy_loads")
    obs.saw("legacy", vendor, tuple(k for k in md if d.get(k) is not None), len(run.order))


def run_case(kind, rng, obs):
    if kind == "legacy":
        return legacy(rng, obs)
    diag = None
    n = rng.choice([1, 2, 4, 6])
    if kind == "diagnostic":
        n = rng.choice([4, 6])
        diag = {k: rng.choice(["rpt_0.2C", "hppc", "reset"]) for k in rng.sample(range(n), rng.choice([1, 2, 3]))}
    wf = kind == "structured" and rng.random() < 0.2
    run = cells.make_run(rng, n_cycles=n, diag=diag, waveform=wf)
    raw = run.frame()
    vendor = "maccor" if wf else rng.choice(["arbin", "maccor", "battery_archive", "neware", "indigo", "biologic", "novonix"])
    cls = cells.datapath_class(vendor)
    md = metadata(rng)
    with scratch() as d:
        rawpath = os.path.join(d, "raw file.csv")
        paths = rng.choice([None, {"raw": rawpath}, {"raw": rawpath, "metadata": None},
                            {"raw": [rawpath, rawpath + ".2"], "log": rawpath + ".log"}])
        schema = rng.choice([None, None, "schema-arbin-lfp.yaml", "schema-maccor-2170.yaml", "own"])
        if schema == "own":
            # a schema file of the user's, wherever it lies
            from beep import VALIDATION_SCHEMA_DIR
            os.mkdir(os.path.join(d, "schemas"))
            schema = os.path.join(d, "schemas", "lab.yaml")
            shutil.copy(os.path.join(VALIDATION_SCHEMA_DIR, "schema-arbin-lfp.yaml"), schema)
        if rng.random() < 0.1:
            ref = rng.choice(["raw", "metadata", "structured", "log"])
            bad = rng.choice(["data/run.csv", "./x", "x", [rawpath, "x"]])
            try:
                cls(raw_data=raw.copy(), metadata=md, paths={"raw": rawpath, ref: bad})
                obs.require(False, f"a run accepted the relative path {ref}: {bad}")
            except ValueError:
                obs.count("relative_paths_refused")
        impute = True
        if rng.random() < 0.25:
            # whoever declines imputed columns does without, after loading too
            impute = False
            raw["internal_resistance"] = raw.get("internal_resistance", 0.017)
            if rng.random() < 0.6:
                raw = raw.drop(columns=[c for c in ("temperature",) if c in raw])
        opts = {} if impute and rng.random() < 0.7 else {"impute_missing": impute}
        dp = cls(raw_data=raw.copy(), metadata=md, paths=dict(paths) if paths else None, schema=schema, **opts)
        if rng.random() < 0.2:
            dp.indeterminate_step_default_charge = rng.random() < 0.3
        if diag or (kind == "unstructured" and rng.random() < 0.4):
            from beep.structure.diagnostic import DiagnosticConfig
            extra = {k: rng.choice([0, 1, -3, 0.0, 2.5, "", "text", False, True]) for k in ("alpha", "beta", "gamma")[:rng.randrange(4)]}
            dp.diagnostic = DiagnosticConfig(run.diag or {"reset": rng.sample(run.order, 1)}, **extra)
        structured = kind != "unstructured"
        if structured:
            dp.structure(resolution=rng.choice([2, 7, 30]), diagnostic_resolution=rng.choice([3, 9]),
                         nominal_capacity=rng.choice([1.1, 4.7]), v_range=rng.choice([None, [2.0, 3.5], [2.8, 3.5]]),
                         charge_axis=rng.choice(["charge_capacity", "voltage"]),
                         discharge_axis=rng.choice(["voltage", "discharge_capacity"]))
        before = {f: (getattr(dp, f).copy() if getattr(dp, f) is not None else None) for f in FRAMES}
        raw_before = dp.raw_data.copy()
        params, want_paths = dict(dp.structuring_parameters), dict(dp.paths)

        def trip(o, form, tag):
            """One save/load generation; returns (object, whether raw data was kept, saved path)."""
            from beep.structure.cli import auto_load_processed
            from monty.serialization import loadfn
            if form == "dict":
                dd = o.as_dict()
                return type(o).from_dict(dd), True, None
            omit = "omit" in form
            path = os.path.join(d, f"{tag}-structured.json" + (".gz" if "gz" in form else ""))
            o.to_json_file(path, omit_raw=omit)
            obs.require(os.path.getsize(path) > 0, "nothing was written")
            how = rng.choice(["class", "auto", "monty"])
            if how == "class":
                return type(o).from_json_file(path), not omit, path
            if how == "auto":
                return auto_load_processed(path), not omit, path
            return loadfn(path), not omit, None

        form = rng.choice(["dict", "json", "json-gz", "json-omit", "json-gz-omit", "json-omit"])
        if kind in ("gen2", "unstructured") and "omit" in form:
            form = "json-gz" if "gz" in form else "json"
        obs.describe(f"{vendor} {kind} form={form} cycles={run.order} diag={run.diag} metadata={md} schema={schema}")

        def compare(got, kept_raw, path):
            obs.require(type(got) is cls, lambda: f"loaded as {type(got).__name__}, was {cls.__name__}")
            obs.require(got.is_structured == structured,
                        lambda: f"is_structured was {structured} before saving and {got.is_structured} after loading")
            for f in FRAMES:
                frame_equal(before[f], getattr(got, f), f, obs)
            obs.require(got.metadata.raw == md, lambda: f"metadata {got.metadata.raw!r} != {md!r}")
            obs.require((got.metadata.barcode, got.metadata.protocol, got.metadata.channel_id)
                        == (md.get("barcode"), md.get("protocol"), md.get("channel_id")), "metadata attributes changed")
            obs.require(got.structuring_parameters == params,
                        lambda: f"structuring parameters {got.structuring_parameters} != {params}")
            a, b = dp.diagnostic, got.diagnostic
            obs.require((a is None) == (b is None), "diagnostic configuration lost or invented")
            obs.require(dp.indeterminate_step_default_charge == got.indeterminate_step_default_charge,
                        "the choice made for indeterminate steps is lost")
            if a is not None:
                obs.require({k: set(v) for k, v in a.cycles.items()}
                            == {k: set(v) for k, v in b.cycles.items()}, "diagnostic configuration changed")
                obs.require(a.params == b.params and [type(v) for v in a.params.values()] == [type(v) for v in b.params.values()],
                            lambda: f"diagnostic parameters were {a.params}, are {b.params}")
                for at in ("hppc_ix", "rpt_ix", "reset_ix", "all_ix", "type_by_ix"):
                    obs.require(getattr(a, at) == getattr(b, at), lambda: f"diagnostic {at} changed")
            obs.require((dp.schema or None) == (got.schema or None), f"schema {got.schema} != {dp.schema}")
            p = dict(got.paths)
            if path:
                obs.require(p.get("structured") == path, lambda: f"paths do not name the loaded file: {p}")
            p.pop("structured", None)
            obs.require(p == want_paths, lambda: f"paths {p} != {want_paths}")
            if kept_raw:
                frame_equal(raw_before, got.raw_data, "raw_data", obs)
            else:
                obs.require(got.raw_data is None, "raw data reappeared")
                for op in ("structure", "validate", "as_dict", "unstructure"):
                    try:
                        getattr(got, op)()
                    except ValueError:
                        continue
                    obs.require(False, f"{op} accepted an object loaded without raw data")
            obs.count("loads")

        got, kept, path = trip(dp, form, "a")
        # the saved object itself is untouched
        for f in FRAMES:
            frame_equal(before[f], getattr(dp, f), f + " (saved object)", obs)
        obs.require(dp.structuring_parameters == params and dp.metadata.raw == md, "saving changed the saved object")
        compare(got, kept, path)
        if kind == "gen2":
            form2 = rng.choice(["dict", "json", "json-gz"])
            got2, kept2, path2 = trip(got, form2, "b")
            compare(got2, kept2, path2)
            # a loaded object structures to the same result as the original
            got2.unstructure()
            obs.require(not got2.is_structured, "unstructure left structured data")
            got2.structure(**{k: v for k, v in params.items()})
            for f in ("structured_data", "structured_summary"):
                frame_equal(before[f], getattr(got2, f), f + " (restructured after loading)", obs)
        if kind == "unstructured":
            ref = cls(raw_data=raw.copy(), metadata=md, **opts)
            ref.diagnostic = dp.diagnostic
            ref.indeterminate_step_default_charge = dp.indeterminate_step_default_charge
            ref.structure(resolution=5)
            got.structure(resolution=5)
            for f in FRAMES:
                frame_equal(getattr(ref, f), getattr(got, f), f + " (structured after loading)", obs)
        obs.saw(kind, vendor, form, bool(dp.diagnostic), wf, schema and os.path.basename(schema), paths is None, impute)
