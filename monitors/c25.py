"""C25 - Batch structuring from the command line does to each file what the library does to it alone, and reports it truthfully."""
import contextlib
import datetime
import json
import os

from monitors.c04 import frame_equal, scratch
from vlib import cli
from vlib.core import Skip

ID = "C25"
RULE = (
    "The real 'beep structure' command runs over batches of good, invalid, unreadable and unknown files of several cyclers, with "
    "random options, output names, folders of the same file names, failing or interrupted files, local and stand-in s3 files. Every "
    "output is compared with structuring that file alone through the library, the status file with what is on disk, exit codes and "
    "the set of files written with what is due. Non-trivial: at least one file processed or a refusal due; distinct by (mode, states "
    "of the files, options)."
)
KINDS = {"batch": (80, 900), "names": (30, 400), "halt": (24, 300), "s3": (32, 400), "interrupt": (8, 100)}
MIN_SIGNATURES = 40


def run_case(kind, rng, obs):
    with scratch() as d:
        d = os.path.realpath(d)
        for sub in ("cwd", "in", "out", "ref"):
            os.mkdir(os.path.join(d, sub))
        globals()["case_" + kind](rng, obs, d)


def options(rng, d):
    """(command line, arguments of the library, keep raw data)"""
    o, lib, auto = [], {"v_range": None, "resolution": 1000, "nominal_capacity": 1.1, "full_fast_charge": 0.8,
                        "charge_axis": "charge_capacity", "discharge_axis": "voltage"}, None
    lib["resolution"] = rng.choice([5, 12, 30])
    o += [rng.choice(["-r", "--resolution"]), lib["resolution"]]
    if rng.random() < 0.4:
        lib["v_range"] = rng.choice([(2.2, 3.4), (2.0, 3.5)])
        o += [rng.choice(["-v", "--v-range"]), *lib["v_range"]]
    if rng.random() < 0.4:
        lib["nominal_capacity"] = rng.choice([0.9, 1.2])
        o += [rng.choice(["-n", "--nominal-capacity"]), lib["nominal_capacity"]]
    if rng.random() < 0.4:
        lib["full_fast_charge"] = rng.choice([0.5, 0.7])
        o += [rng.choice(["-f", "--full-fast-charge"]), lib["full_fast_charge"]]
    if rng.random() < 0.3:
        lib["charge_axis"] = rng.choice(["voltage", "test_time"])
        o += [rng.choice(["-c", "--charge-axis"]), lib["charge_axis"]]
    if rng.random() < 0.3:
        lib["discharge_axis"] = rng.choice(["discharge_capacity", "test_time"])
        o += [rng.choice(["-x", "--discharge-axis"]), lib["discharge_axis"]]
    if rng.random() < 0.08:
        auto = {"charge_axis": lib["charge_axis"], "discharge_axis": lib["discharge_axis"], "parameters_path": None}
        o.append("--automatic")
        if rng.random() < 0.5:
            from beep import PROTOCOL_PARAMETERS_DIR
            auto["parameters_path"] = PROTOCOL_PARAMETERS_DIR
            o += [rng.choice(["-p", "--protocol-parameters-dir"]), PROTOCOL_PARAMETERS_DIR]
    no_raw = rng.random() < 0.3
    if no_raw:
        o.append("--no-raw")
    validation_only = rng.random() < 0.15
    if validation_only:
        o.append("--validation-only")
    return o, lib, auto, no_raw, validation_only


class Alone:
    """the file through the library, on its own"""

    def __init__(self, path, opts, ref):
        from beep.structure.cli import auto_load, auto_load_processed
        _, lib, auto, no_raw, validation_only = opts
        self.validated = self.structured = False
        self.schema = self.error = self.dp = self.parameters = None
        try:
            dp = auto_load(path)
            self.schema = dp.schema
            ok, _ = dp.validate()
            self.validated = bool(ok)
            if not ok:
                self.error = "BEEPValidationError"
            elif not validation_only:
                if auto:
                    dp.autostructure(**auto)
                else:
                    dp.structure(**lib)
                dp.to_json_file(ref, omit_raw=no_raw)
                self.structured = True
                self.parameters = json.loads(json.dumps(dp.structuring_parameters, default=lambda v: v.item() if hasattr(v, "item") else str(v)))
                self.dp = auto_load_processed(ref)
        except Exception as e:
            self.error = type(e).__name__


def plain(v):
    """as it appears in json, sequences alike"""
    return json.loads(json.dumps(v, default=lambda x: x.item() if hasattr(x, "item") else x.tolist() if hasattr(x, "tolist") else str(x)))


def check_file(obs, raw, alone, res, out, opts):
    from beep.structure.cli import auto_load_processed
    no_raw = opts[3]
    what = f"{os.path.basename(raw.path)} ({raw.state})"
    obs.require(bool(res["validated"]) == alone.validated and isinstance(res["validated"], bool),
                lambda: f"{what}: reported {'valid' if res['validated'] else 'invalid'}, alone it is {alone.validated}: {res['traceback']}")
    obs.require(res["structured"] is alone.structured, lambda: f"{what}: reported structured={res['structured']}, alone {alone.structured} ({alone.error}): {res['traceback']}")
    obs.require(res["raw_md5_chksum"] == cli.md5(raw.path), lambda: f"{what}: digest of the raw file {res['raw_md5_chksum']}")
    obs.require(res["validation_schema"] == alone.schema, lambda: f"{what}: schema {res['validation_schema']}, expected {alone.schema}")
    obs.require((res["traceback"] is None) == (alone.error is None), lambda: f"{what}: traceback {res['traceback']}, alone {alone.error}")
    if alone.error:
        obs.require(alone.error in "".join(res["traceback"]), lambda: f"{what}: fails with {alone.error}, reported {res['traceback']}")
    obs.require(res["walltime"] is not None and res["walltime"] >= 0, "no walltime")
    if not alone.structured:
        obs.require(res["output"] is None and res["processed_md5_chksum"] is None and res["structuring_parameters"] is None,
                    lambda: f"{what}: not structured, yet {res}")
        obs.require(not os.path.isfile(out), lambda: f"{what}: not structured, yet {out} is written")
        return
    obs.require(res["output"] == out, lambda: f"{what}: output {res['output']}, expected {out}")
    obs.require(os.path.exists(out), lambda: f"{what}: {out} is not written")
    obs.require(res["processed_md5_chksum"] == cli.md5(out), lambda: f"{what}: digest of the output is wrong")
    got = auto_load_processed(out)
    ref = alone.dp
    obs.require(type(got) is type(ref), lambda: f"{what}: {type(got)}, alone {type(ref)}")
    for f in cli.FRAMES:
        frame_equal(getattr(ref, f), getattr(got, f), f"{what}: {f}", obs)
    obs.require((got.raw_data is None) == no_raw or (no_raw and len(got.raw_data) == 0), lambda: f"{what}: raw data {'kept' if no_raw else 'lost'}")
    obs.require(got.metadata.raw == ref.metadata.raw, lambda: f"{what}: metadata {got.metadata.raw}, alone {ref.metadata.raw}")
    obs.require(got.structuring_parameters == ref.structuring_parameters, lambda: f"{what}: parameters {got.structuring_parameters}, alone {ref.structuring_parameters}")
    obs.require(plain(res["structuring_parameters"]) == plain(ref.structuring_parameters),
                lambda: f"{what}: reported parameters {res['structuring_parameters']}, used {ref.structuring_parameters}")
    obs.require(got.paths.get("raw") == raw.path and got.schema == ref.schema, lambda: f"{what}: paths {got.paths}")
    obs.count("outputs")


EARLIER = '{"time": "2019-05-01 10:00:00", "level": "INFO", "msg": "an earlier run"}\n'


def report_of(log, title):
    return cli.reported(cli.log_messages(log), title) if log else None


def base(rng, d):
    """options before the subcommand"""
    o, tags, run = [], [], None
    if rng.random() < 0.6:
        run = rng.choice([0, 1, rng.randrange(10 ** 6)])
        o += [rng.choice(["-r", "--run-id"]), run]
    for _ in range(rng.choice([0, 1, 2])):
        tags.append(rng.choice(["tag a", "experiments_for_kristin", "ü"]))
        o += [rng.choice(["-t", "--tags"]), tags[-1]]
    log = None
    if rng.random() < 0.4:
        log = os.path.join(d, "log.jsonl")
        if rng.random() < 0.4:
            open(log, "w").write(EARLIER)
        o += [rng.choice(["-l", "--log-file"]), log]
    st = os.path.join(d, "status.json")
    o += [rng.choice(["-s", "--output-status-json"]), st]
    return o, run, tags, log, st


def check_common(obs, st, run, tags, log, op, earlier=False):
    import beep
    if log and earlier:
        obs.require(open(log).read().startswith(EARLIER), "the log of an earlier run is lost")
    s = cli.status(st)
    m = s["metadata"]
    obs.require(s["op_type"] == op, lambda: f"operation {s['op_type']}")
    obs.require(m["run_id"] == run and list(m["tags"] or []) == tags and m["beep_verison"] == beep.__version__, lambda: f"metadata {m}, given {run}, {tags}")
    age = (datetime.datetime.utcnow() - datetime.datetime.strptime(m["op_datetime_utc"], "%Y-%m-%d %H:%M:%S")).total_seconds()
    obs.require(-2 < age < 600, lambda: f"operation at {m['op_datetime_utc']}")
    if log:
        lines = open(log).read().splitlines()
        if EARLIER.strip() in lines:
            obs.require(lines[0] == EARLIER.strip(), "the log of an earlier run is moved")
        obs.require(set(lines) - {EARLIER.strip()}, "nothing logged")
        for line in lines:
            try:
                msg = json.loads(line)
            except ValueError:
                msg = None
            obs.require(isinstance(msg, dict) and {"time", "level", "msg"} <= set(msg), lambda: f"not a line of json: {line}")
        obs.count("log lines", len(lines))
    return s


def make_files(rng, d, n=None, states=None):
    raws, seen = [], set()
    for i in range(n or rng.choice([1, 2, 3, 4])):
        sub = os.path.join(d, "in", rng.choice(["", "CH2_export", "neware_000123", "a_C", "FastCharge_timeseries"]))
        os.makedirs(sub, exist_ok=True)
        r = cli.raw_file(rng, sub, f"{cli.stem(rng)}_{i}" if rng.random() < 0.5 else f"{'abcdefgh'[i]}_{cli.stem(rng)}", states[i] if states else None)
        key = os.path.splitext(os.path.basename(r.path))[0]
        if key in seen:
            raise Skip("the same name twice")
        seen.add(key)
        raws.append(r)
    return raws


def expected_output(folder, path):
    return os.path.join(folder, os.path.splitext(os.path.basename(path))[0] + "_structured.json.gz")


def outputs_for(rng, d, raws, opts):
    """(command line, output files)"""
    mode = rng.choice(["cwd", "dir", "names", "both"])
    out = os.path.join(d, "out")
    if mode == "cwd":
        return mode, [], [expected_output(os.path.join(d, "cwd"), r.path) for r in raws]
    if mode == "dir":
        return mode, [rng.choice(["-d", "--output-dir"]), out if rng.random() < 0.5 else os.path.join("..", "out")], [expected_output(out, r.path) for r in raws]
    names = [os.path.join(out, rng.choice(["", "", "", "missing"]), f"o {i}.json" + rng.choice(["", ".gz"])) for i in range(len(raws))]
    rng.shuffle(names)
    o = []
    for n in names:
        o += [rng.choice(["-o", "--output-filenames"]), n if rng.random() < 0.5 else os.path.relpath(n, os.path.join(d, "cwd"))]
    if mode == "both":
        return mode, o + ["-d", out], [expected_output(out, r.path) for r in raws]
    return mode, o, names


def block(rng, outs, alone):
    """some outputs cannot be written"""
    n = 0
    for o, a in zip(outs, alone):
        error = None
        if not os.path.isdir(os.path.dirname(o)):
            error = "FileNotFoundError"
        elif rng.random() < 0.08:
            os.mkdir(o)
            error = "IsADirectoryError"
        if error and a.structured:
            a.structured, a.error, a.parameters, a.dp = False, error, None, None
            n += 1
    return n


def case_batch(rng, obs, d):
    raws = make_files(rng, d)
    opts = options(rng, d)
    mode, oo, outs = outputs_for(rng, d, raws, opts)
    before = cli.tree(os.path.join(d, "in"))
    pre, run, tags, log, st = base(rng, d)
    given = [r.path if rng.random() < 0.6 else os.path.relpath(r.path, os.path.join(d, "cwd")) for r in raws]
    alone = [Alone(r.path, opts, os.path.join(d, "ref", f"{i}.json")) for i, r in enumerate(raws)]
    blocked = block(rng, outs, alone)
    for o, a in zip(outs, alone):
        # the output of an earlier run is replaced
        if a.structured and rng.random() < 0.1:
            open(o, "w").write("old")
    earlier = bool(log) and os.path.exists(log)
    fault = rng.choice([None] * 5 + ["validate", "structure", "to_json_file"])
    at = rng.randrange(len(raws))
    if fault:
        a = alone[at]
        # reached only when all before it has gone well
        if a.schema is not None and (fault == "validate" or a.structured):
            a.validated = a.validated and fault != "validate"
            a.structured, a.error, a.parameters, a.dp = False, "InjectedError", None, None
        else:
            fault = None
    if fault and os.path.isfile(outs[at]):
        os.unlink(outs[at])
    with faulty(fault, raws[at].path):
        r = cli.invoke(os.path.join(d, "cwd"), pre + ["structure"] + opts[0] + oo + given)
    obs.saw("batch", mode, fault, tuple((x.state, os.path.basename(x.path)[-6:]) for x in raws), opts[2] is not None, opts[3], opts[4], blocked)
    obs.describe(f"{mode}: {[os.path.basename(x.path) + ' ' + x.state for x in raws]} {opts[0]}")
    obs.require(r.code == 0, lambda: f"exit code {r.code}: {r.error!r}")
    s = check_common(obs, st, run, tags, log, "structure", earlier)
    obs.require(sorted(s["files"]) == sorted(x.path for x in raws), lambda: f"files {list(s['files'])}, given {[x.path for x in raws]}")
    for x, a, o in zip(raws, alone, outs):
        check_file(obs, x, a, s["files"][x.path], o, opts)
    after = cli.tree(os.path.join(d, "in"))
    obs.require(after == before, "the raw files were changed")
    written = set(cli.tree(os.path.join(d, "cwd"), os.path.join(d, "out")))
    due = {o for o, a in zip(outs, alone) if a.structured}
    obs.require(written == due, lambda: f"files written {sorted(written)}, expected {sorted(due)}")
    obs.require(sum(x["walltime"] for x in s["files"].values()) <= r.elapsed + 1.0, lambda: f"walltimes {[x['walltime'] for x in s['files'].values()]}, the command took {r.elapsed} s")
    rep = report_of(log, "report")
    if rep is not None or log:
        obs.require(rep is not None, "the log has no report")
        obs.require(sorted(f for v in rep.values() for f in v) == sorted(x.path for x, a in zip(raws, alone) if not a.structured),
                    lambda: f"the report lists {rep}, not structured are {[x.path for x, a in zip(raws, alone) if not a.structured]}")
        for h, v in rep.items():
            if v:
                obs.require(f"{len(v)}/{len(raws)}" in h and all((h.startswith("Invalid")) == (not a.validated) for x, a in zip(raws, alone) if x.path in v),
                            lambda: f"'{h}' lists {v}")
        obs.count("reports")
    check_automatic(obs, opts)


class InjectedError(Exception):
    pass


@contextlib.contextmanager
def faulty(name, path):
    """a step fails for one file"""
    from beep.structure.base import BEEPDatapath
    if name is None:
        yield
        return
    old = getattr(BEEPDatapath, name)

    def fail(self, *a, **k):
        if self.paths.get("raw") == path:
            raise InjectedError(name)
        return old(self, *a, **k)
    setattr(BEEPDatapath, name, fail)
    try:
        yield
    finally:
        setattr(BEEPDatapath, name, old)


def check_automatic(obs, opts):
    """the option exists, so there is something which it does"""
    from beep.structure.base import BEEPDatapath
    if opts[2]:
        obs.require(hasattr(BEEPDatapath, "autostructure"), "--automatic: no file can be structured, BEEPDatapath.autostructure does not exist", key="automatic-not-implemented")


def case_names(rng, obs, d):
    """requests which cannot be fulfilled are refused before anything is written"""
    opts = options(rng, d)
    mode = rng.choice(["same stem", "same name", "same output", "too few", "too many", "missing"])
    cwd, out, folder = (os.path.join(d, x) for x in ("cwd", "out", "in"))
    a, b = os.path.join(folder, "a"), os.path.join(folder, "b")
    os.mkdir(a), os.mkdir(b)
    extra = []
    recs = cli.records(rng)
    if mode == "same name":
        p, q = os.path.join(a, "run_CH1.csv"), os.path.join(b, "run_CH1.csv")
    elif mode == "same stem":
        p, q = os.path.join(a, "run_timeseries.csv"), os.path.join(a, "run_timeseries.000")
    else:
        p, q = os.path.join(a, "run_CH1.csv"), os.path.join(b, "run_CH2.csv")
    for x in (p, q):
        (cli.write_archive if "timeseries" in x else cli.write_arbin)(x, rng, recs)
    files = [p, q]
    if mode == "same output":
        extra = ["-o", os.path.join(out, "x.json"), "-o", os.path.join(out, rng.choice(["", "../out/"]) + "x.json")]
    elif mode == "too few":
        extra = ["-o", os.path.join(out, "x.json")]
    elif mode == "too many":
        extra = [x for i in range(3) for x in ("-o", os.path.join(out, f"x{i}.json"))]
    elif mode == "missing":
        files.insert(rng.randrange(3), os.path.join(folder, "none_CH3.csv"))
    elif rng.random() < 0.5:
        extra = ["-d", out]
    before = cli.tree(folder)
    st = os.path.join(d, "status.json")
    r = cli.invoke(cwd, ["-s", st, "structure"] + opts[0] + extra + files)
    obs.saw("names", mode, len(extra))
    obs.describe(mode)
    obs.require(r.code != 0, lambda: f"{mode}: {files} accepted: {r.output[-300:]}")
    obs.require(isinstance(r.error, (ValueError, FileNotFoundError, SystemExit)), lambda: f"{mode}: {r.error!r}")
    obs.require(not cli.tree(cwd, out), lambda: f"{mode}: {list(cli.tree(cwd, out))} written")
    obs.require(cli.tree(folder) == before, "the raw files were changed")


def case_halt(rng, obs, d):
    """--halt-on-error stops at the first file which fails"""
    raws = make_files(rng, d, n=rng.choice([2, 3, 4]))
    opts = options(rng, d)
    out = os.path.join(d, "out")
    outs = [expected_output(out, r.path) for r in raws]
    alone = [Alone(r.path, opts, os.path.join(d, "ref", f"{i}.json")) for i, r in enumerate(raws)]
    st = os.path.join(d, "status.json")
    r = cli.invoke(os.path.join(d, "cwd"), ["--halt-on-error", "-s", st, "structure"] + opts[0] + ["-d", out] + [x.path for x in raws])
    first = next((i for i, a in enumerate(alone) if a.error), None)
    obs.saw("halt", tuple(x.state for x in raws), first)
    obs.describe(f"first failure {first} of {[x.state for x in raws]}")
    written = set(cli.tree(out, os.path.join(d, "cwd")))
    due = {o for i, (o, a) in enumerate(zip(outs, alone)) if a.structured and (first is None or i < first)}
    obs.require((r.code == 0) == (first is None), lambda: f"exit code {r.code}, first failure {first}")
    obs.require(written == due, lambda: f"files written {sorted(written)}, expected {sorted(due)}")
    if first is not None:
        obs.require(type(r.error).__name__ == alone[first].error, lambda: f"stopped with {r.error!r}, the file fails with {alone[first].error}")
    check_automatic(obs, opts)


class _Key:
    def __init__(self, key):
        self.key = key


def case_s3(rng, obs, d):
    """a bucket whose objects are files of another folder"""
    import beep.cmd as cmd
    bucket = os.path.join(d, "bucket")
    cwd, out = os.path.join(d, "cwd"), os.path.join(d, "out")
    cache = os.path.join(d, "cache")
    keys, n = [], rng.choice([2, 3, 4])
    for i in range(n):
        key = os.path.join(rng.choice(["x", "x/y", "z"]), f"{'abcdefgh'[i]}_{i}")
        folder = os.path.join(bucket, os.path.dirname(key))
        os.makedirs(folder, exist_ok=True)
        raw = cli.raw_file(rng, folder, os.path.basename(key), "good")
        keys.append(os.path.relpath(raw.path, bucket))
    clash = rng.random() < 0.2
    if clash:
        # another key of the same base name
        other = os.path.join("w", os.path.basename(keys[0]))
        os.makedirs(os.path.join(bucket, "w"), exist_ok=True)
        (cli.write_archive if "timeseries" in other else cli.write_arbin)(os.path.join(bucket, other), rng, cli.records(rng))
        keys.append(other)
    local = [cli.raw_file(rng, os.path.join(d, "in"), f"l{i}", "good").path for i in range(rng.choice([0, 1, 2]))]
    # a local file which exists under the path of a key is preferred
    shadow = None
    if rng.random() < 0.3 and not clash:
        shadow = rng.choice(keys)
        os.makedirs(os.path.join(cwd, os.path.dirname(shadow)), exist_ok=True)
        (cli.write_archive if "timeseries" in shadow else cli.write_arbin)(os.path.join(cwd, shadow), rng, cli.records(rng))
    use_cache = rng.random() < 0.5
    if clash:
        args = [[keys[0]], [keys[-1]]] + [[x] for x in local]
        given = [a[0] for a in args]
        rng.shuffle(args)
    else:
        picked = rng.sample(keys, rng.randrange(1, len(keys) + 1))
        args = [(k, [k]) for k in picked] + [(x, [x]) for x in local]
        rng.shuffle(args)
        if rng.random() < 0.3:
            # a glob for the keys of one folder, all not given otherwise
            top = rng.choice(["x", "z"])
            rest = [k for k in sorted(keys) if k.startswith(top + "/")]
            args = [a for a in args if not (a[0] in keys and a[0].startswith(top + "/"))]
            if rest and shadow not in rest:
                args.insert(rng.randrange(len(args) + 1), (top + "/*", rest))
        given = [a for a, _ in args]
    if not given:
        raise Skip("no files")
    pardir = cache if use_cache else cwd
    fetched = []

    def download(b, key, dest):
        obs.require(b == "bkt", f"bucket {b}")
        fetched.append(key)
        data = open(os.path.join(bucket, key), "rb").read()
        with open(dest, "wb") as f:
            f.write(data)

    old = cmd.list_s3_objects, cmd.download_s3_object, cmd.S3_CACHE
    st = os.path.join(d, "status.json")
    opts = ([], None, None, False, False)
    cmd.list_s3_objects = lambda b: [_Key(k) for k in sorted(keys)]
    cmd.download_s3_object = download
    cmd.S3_CACHE = cache
    try:
        if clash:
            r = cli.invoke(cwd, ["-s", st, "structure", "-r", 5, "-b", "bkt", "-d", out] + (["--s3-use-cache"] if use_cache else []) + given)
            obs.saw("s3 clash", use_cache, len(local))
            obs.require(r.code != 0, "two objects of the same name are mixed up")
            obs.require(not cli.tree(out), "outputs written although the files clash")
            return
        flat = [f for _, fs in args for f in fs]
        names = [os.path.join(out, f"o{i}.json") for i in range(len(flat))]
        oo = []
        for nme in names:
            oo += ["-o", nme]
        r = cli.invoke(cwd, ["-s", st, "structure", "-r", 5, "-b", "bkt"] + oo + (["--s3-use-cache"] if use_cache else []) + given)
    finally:
        cmd.list_s3_objects, cmd.download_s3_object, cmd.S3_CACHE = old
    obs.saw("s3", use_cache, len(local), shadow in flat, any("*" in g for g in given), len(flat))
    obs.describe(f"{given} shadow {shadow}")
    obs.require(r.code == 0, lambda: f"exit code {r.code}: {r.error!r}")
    s = cli.status(st)
    from beep.structure.cli import auto_load
    for f, o in zip(flat, names):
        remote = f in keys and f != shadow
        path = os.path.join(pardir, os.path.basename(f)) if remote else os.path.join(cwd, f)
        source = os.path.join(bucket, f) if remote else path
        obs.require(path in s["files"], lambda: f"{f}: not among {list(s['files'])}")
        res = s["files"][path]
        obs.require(res["structured"] and res["output"] == o, lambda: f"{f}: output {res['output']}, asked for {o}: {res['traceback']}")
        obs.require(res["raw_md5_chksum"] == cli.md5(source), lambda: f"{f}: another file was structured")
        obs.require((f in fetched) == remote, lambda: f"{f}: fetched {fetched}")
        from beep.structure.cli import auto_load_processed
        got = auto_load_processed(o)
        frame_equal(auto_load(path).raw_data, got.raw_data, f, obs, dtypes=False)
    obs.require(len(s["files"]) == len(flat), lambda: f"{len(s['files'])} files, {len(flat)} given")


@contextlib.contextmanager
def interrupted(n):
    """the n-th validation is interrupted by the user"""
    from beep.structure.base import BEEPDatapath
    old = BEEPDatapath.validate
    count = [0]

    def validate(self, *a, **k):
        count[0] += 1
        if count[0] == n:
            raise KeyboardInterrupt()
        return old(self, *a, **k)
    BEEPDatapath.validate = validate
    try:
        yield
    finally:
        BEEPDatapath.validate = old


def case_interrupt(rng, obs, d):
    raws = make_files(rng, d, n=3, states=["good"] * 3)
    n = rng.choice([1, 2, 3])
    out = os.path.join(d, "out")
    st = os.path.join(d, "status.json")
    with interrupted(n):
        r = cli.invoke(os.path.join(d, "cwd"), ["-s", st, "structure", "-r", 5, "-d", out] + [x.path for x in raws])
    obs.saw("interrupt", n)
    obs.describe(f"interrupted at file {n}")
    obs.require(r.code == 1, lambda: f"exit code {r.code}: {r.error!r}")
    written = set(cli.tree(out))
    obs.require(written == {expected_output(out, x.path) for x in raws[:n - 1]}, lambda: f"written {sorted(written)} although interrupted at {n}")
