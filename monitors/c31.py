"""C31 - moving files between projects in object storage renames them and changes nothing else."""
import os
import shutil
import tempfile
from unittest import mock

from vlib.core import Skip  # noqa: F401

ID = "C31"
RULE = (
    "Seeded buckets (keys inside, beside and outside the project, several listing pages, empty pages, contents from empty "
    "to several buffers long with any line ends and bytes) are served by an in-memory stand-in for the object store that "
    "records every call and reads a file when it is uploaded, with refused uploads injected; the real listing and transfer "
    "run against it and the selected keys and the uploaded objects are compared with the originals. Non-trivial: an "
    "uploaded object was compared; distinct by (mode, content form, name form, refusal)."
)
KINDS = {"transfer": (1920, 11520), "list": (1280, 7680), "fetch": (320, 1920)}
MIN_SIGNATURES = 30
WORDS = ["PreDiag", "PredictionDiagnostics", "ClosedLoop", "2017-05-12", "Refill_2", "x"]


class Store:
    """Stand-in for boto3: one account, recorded calls."""

    def __init__(self, buckets, page=3, refuse=()):
        self.buckets, self.page, self.refuse, self.log = buckets, page, set(refuse), []

    def client(self, service, *a, **k):
        assert service == "s3", service
        return self

    def resource(self, service, *a, **k):
        assert service == "s3", service
        return self

    def Bucket(self, name):
        store = self

        class Objects:
            def all(self):
                for k in sorted(store.buckets[name]):
                    yield (name, k)

        class B:
            objects = Objects()
        return B()

    def get_paginator(self, op):
        assert op == "list_objects_v2", op
        store = self

        class P:
            def paginate(self, Bucket, Prefix="", Delimiter=None):
                return store.pages(Bucket, Prefix, Delimiter)
        return P()

    def pages(self, bucket, prefix, delimiter):
        keys, common = [], []
        for k in sorted(self.buckets[bucket]):
            if not k.startswith(prefix):
                continue
            rest = k[len(prefix):]
            if delimiter and delimiter in rest:
                c = prefix + rest.split(delimiter)[0] + delimiter
                if c not in common:
                    common.append(c)
                    keys.append((c, True))
            else:
                keys.append((k, False))
        for i in range(0, max(1, len(keys)), self.page):
            chunk = keys[i:i + self.page]
            r = {"KeyCount": len(chunk), "IsTruncated": i + self.page < len(keys)}
            obj = [{"Key": k, "Size": len(self.buckets[bucket][k]), "ETag": '"0"'} for k, c in chunk if not c]
            # as the service does: neither entry is there when it would be empty
            if obj:
                r["Contents"] = obj
            if any(c for _, c in chunk):
                r["CommonPrefixes"] = [{"Prefix": k} for k, c in chunk if c]
            yield r

    def download_file(self, bucket, key, path, **k):
        with open(path, "wb") as f:
            f.write(self.buckets[bucket][key])
        self.log.append(("download", bucket, key))

    def upload_file(self, path, bucket, key, **k):
        from botocore.exceptions import ClientError
        with open(path, "rb") as f:
            data = f.read()
        if key in self.refuse:
            self.log.append(("refused", bucket, key))
            raise ClientError({"Error": {"Code": "AccessDenied", "Message": "refused"}}, "PutObject")
        self.log.append(("upload", bucket, key))
        self.buckets[bucket][key] = data


def content(rng, project):
    """(form, bytes) of a cycler file."""
    form = rng.choice(["empty", "one-line", "text", "text", "crlf", "long", "long", "bytes", "named"])
    if form == "empty":
        return form, b""
    head = rng.choice([f"Today''s Date\t06/15/2020  Date of Test:\t06/08/2020 Filename:\tSave\\{project}\\{project}_000175.092",
                       f"Procedure:{project} - {project}, {project}.000\tComment: {project}", "no such name", f"{project}"])
    if form == "one-line":
        return form, (head + rng.choice(["", "\n"])).encode()
    eol = "\r\n" if form == "crlf" else "\n"
    n = rng.choice([1, 3, 40]) if form != "long" else rng.choice([200, 800, 5000, 30000])
    rows = [f"{i}\t{i * 7 % 13}\t{rng.random():.9f}" for i in range(n)]
    if form == "named":
        rows[rng.randrange(n)] += project
    data = (head + eol + eol.join(rows) + rng.choice(["", eol])).encode()
    if form == "bytes":
        data = data.replace(b"\t", rng.choice([b"\xb0C\t", b"\xb5A\t", "°\t".encode(), b"\x00\t", b"\r"]), rng.choice([1, 2, 5]))
    return form, data


def run_case(kind, rng, obs):
    import beep.utils.project_transfer as pt
    import beep.utils.s3 as s3
    a, b = rng.sample(WORDS, 2)
    bucket, other = "beep-input", "beep-sync-test-stage"
    prefix = rng.choice(["d3Batt/raw/maccor", "raw", "d3Batt/raw/maccor/STANFORD LOANER #2", f"d3Batt/{a}", f"{a}/raw/{a}_maccor"])
    objs, forms = {}, {}
    for _ in range(rng.choice([0, 1, 2, 4, 9])):
        where = rng.choice(["in", "in", "in", "beside", "deeper", "outside", "root"])
        name = {"in": f"{a}{rng.choice(['_', '-', ''])}{rng.randrange(1000):06d}.{rng.randrange(100):03d}",
                "beside": f"Other_{rng.choice([a, 'y'])}_{rng.randrange(100)}.csv",
                "deeper": f"{rng.choice(['sub', a, a + '_old'])}/{a}_{rng.randrange(100)}.csv",
                "outside": f"{a}_{rng.randrange(100)}.csv", "root": f"{a}.092"}[where]
        if where == "in" and rng.random() < 0.3:
            name = name.replace(".", rng.choice([f"_{a}.", "_Logs.", " copy.", "_000052."]), 1)
        key = {"outside": prefix + "-old/" + name, "root": name}.get(where, prefix + "/" + name)
        forms[key], objs[key] = content(rng, a)
    if kind == "fetch" and rng.random() < 0.4:
        for key in rng.sample(["/" + a, "raw/", f"raw//{a} .csv", f" {a}", "a%20b+c", "é/" + a, a + "/"], 3):
            forms[key], objs[key] = content(rng, a)
    page = rng.choice([1, 2, 3, 1000])
    before = dict(objs)
    keys = sorted(objs)
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        os.chdir(d)
        if kind == "fetch":
            store = Store({bucket: objs, other: {}})
            with mock.patch.object(s3, "boto3", store):
                obs.require(list(s3.list_s3_objects(bucket)) == [(bucket, k) for k in keys], "listing differs from the bucket")
                for k in keys:
                    s3.download_s3_object(bucket, k, os.path.join(d, "got"))
                    with open(os.path.join(d, "got"), "rb") as f:
                        obs.require(f.read() == before[k], lambda: f"{k}: downloaded content differs")
                    obs.count("objects_compared")
                    obs.saw("fetch", forms[k], page)
            if not keys:
                raise Skip("empty bucket")
            return
        inside = [k for k in keys if k.startswith(prefix + "/") and "/" not in k[len(prefix) + 1:]
                  and k[len(prefix) + 1:].startswith(a)]
        if kind == "list":
            excluded = rng.choice([[], [], ["Logs"], ["_000052", "Logs"], [a], ["nothing has this"], ["zz", "Logs", " copy", "_0"], ["9", "7.", "zz"], [rng.choice([".0", "1", ".csv", "raw/"])]])
            t = pt.ProjectTransfer(a, b, bucket, prefix + rng.choice(["", "", "/"]))
            store = Store({bucket: objs}, page)
            obs.describe(f"list {a} under {prefix!r} without {excluded} pages of {page}: {keys}")
            with mock.patch.object(pt, "boto3", store):
                got = t.get_list_files(excluded)
            want = [k for k in inside if not any(x in k for x in excluded)]
            obs.require(sorted(got) == want, lambda: f"selected {got}, the project's files are {want}")
            obs.require(objs == before and not store.log, "listing moved something")
            obs.count("keys_listed", len(got))
            obs.saw("list", page, len(want) > 0, len(want) < len(inside), len(keys) > len(inside), len(keys) > page)
            return
        dry = rng.random() < 0.5
        same = rng.random() < 0.1
        target = a if same else b
        todo = list(inside)
        rng.shuffle(todo)
        new = {k: prefix + "/" + k[len(prefix) + 1:].replace(a, target) for k in todo}
        if len(set(new.values())) < len(new) or any(v in objs for v in new.values()) and not same:
            raise Skip("two names meet")
        refuse = {new[k] for k in todo if rng.random() < 0.15}
        store = Store({bucket: objs, other: {}}, page, refuse)
        t = pt.ProjectTransfer(a, target, bucket, prefix + rng.choice(["", "/"]), dry_run=dry)
        obs.describe(f"transfer {a}->{target} dry={dry} refused={sorted(refuse)} "
                     f"{[(k, forms[k], len(before[k])) for k in todo]}")
        with mock.patch.object(pt, "boto3", store):
            t.download_and_modify(list(todo))
        where = other if dry else bucket
        for k in todo:
            first, nl, rest = before[k].partition(b"\n")
            want = first.replace(a.encode(), target.encode()) + nl + rest
            if new[k] in refuse:
                obs.require(store.buckets[where].get(new[k]) == (before.get(new[k]) if not dry else None), "a refused upload was stored")
                obs.count("refused")
                continue
            got = store.buckets[where].get(new[k])
            obs.require(got is not None, lambda: f"{k} was not uploaded as {where}/{new[k]}: {store.log}")
            obs.require(got == want, lambda: f"{k} ({forms[k]}, {len(want)} bytes) arrived with {len(got)} bytes; "
                        f"first difference at {next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))}")
            obs.count("objects_compared")
            obs.saw("transfer", dry, forms[k], "." in new[k], k.count(a), bool(refuse), same)
        # nothing else was written or removed
        for k in keys:
            if k not in new.values():
                obs.require(store.buckets[bucket].get(k) == before[k], lambda: f"{k} was changed or removed")
        extra = set(store.buckets[bucket]) - set(keys) - (set() if dry else set(new.values()))
        obs.require(not extra, lambda: f"dry={dry}: {sorted(extra)} appeared in the source bucket")
        obs.require(set(store.buckets[other]) <= (set(new.values()) if dry else set()), "unexpected objects in the test bucket")
        obs.require(os.getcwd() == os.path.realpath(d) and not os.listdir(d), lambda: f"left behind {os.listdir(d)} or moved to {os.getcwd()}")
        if not todo:
            raise Skip("nothing to move")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
