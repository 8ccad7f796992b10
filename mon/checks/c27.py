"""C27 dataset download: histories of downloads run against a scripted loopback server that refuses, resets, truncates (with a length, chunked, or neither) and changes its content, while downloads are also killed, interrupted and run out of disk; after each call the archive, the unpacked files and the server's request log are compared with a model.

Failures are judged only by what the caller sees, so any repair of the same behaviour is quiet."""
import io
import os
import shutil
import socket
import zipfile
from pathlib import Path

from .. import fault, gen, server
from ..util import *
from . import c26

LEVEL = "exploration"
RULE = ("histories of 2-12 calls (one dataset, or several with similar names in one folder) with unzip, redownload, archives or unpacked files deleted in between, and changing archives (empty, many, large and nested members) x server answers (complete in 5 framings, redirects; 12 kinds of failure, cut at any byte) x client failures (killed, failing and partial "
        "writes at any operation, exceptions at any line); the CQADupStack archive included. Non-trivial: a call judged; distinct by the history up to it.")
ASSUMPTIONS = ["an answer without any length information is complete if it is a complete zip archive (archives have no comment)", "one download of a dataset at a time", "process death, not power loss"]
prepare = fault.prepare


def plan(tier):
    f = 1 if tier == "quick" else 60
    s = 100 if tier == "quick" else 2400
    return [dict(cases=[("history", 400 * f), ("crash", 40 * f), ("lines", 60 * f), ("cqa", 20 * f), ("several", 60 * f)], workers=5, soft=s)]


def MIN(tier):
    return {"distinct": 1000, "calls_judged": 1200, "failures_reported": 300, "cut_answers": 150, "reused": 200, "downloads": 500, "members_compared": 2000, "requests_seen": 800, "client_failures": 300, "recovered": 300, "several_datasets": 100, "deleted": 50}


def setup(ctx):
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    socket.setdefaulttimeout(30)


def archive(rng, dataset, version):
    m = {}
    for i in range(rng.choice([0, 1, 3, 12])):
        name = rng.choice(["corpus.jsonl", "queries.jsonl", "qrels/test.tsv", "qrels/train.tsv", "deep/er/x.bin", f"file {i}.txt", f"{i}"])
        size = rng.choice([0, 1, 100, 5000, 16384, 40000])
        m[f"{dataset}/{name}"] = rng.randbytes(size) if rng.random() < 0.6 else (b"line %d\n" % version) * (size // 8)
    m[f"{dataset}/version"] = b"%d" % version
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        if rng.random() < 0.3:
            z.writestr(zipfile.ZipInfo(f"{dataset}/"), b"")
        for k, v in m.items():
            z.writestr(k, v)
    return b.getvalue(), m


def good(rng):
    return rng.choice([[("ok",)], [("ok",)], [("pieces", rng.choice([1000, 16384, 7777]))], [("chunked", rng.choice([100, 5000, 10 ** 6]))], [("closed", rng.choice(["1.0", "1.1"]))],
                       [("redirect", rng.choice(["301 Moved", "302 Found", "307 Temporary"])), ("ok",)]])


def bad(rng, n):
    cut = rng.choice([0, 1, rng.randrange(n), rng.randrange(n), n - 1, max(0, n - 22), n // 2, min(n - 1, 16384), min(n - 1, 32768)])
    return rng.choice([[("status", rng.choice(["404 Not Found", "403 Forbidden", "500 Error", "503 Unavailable", "429 Too Many"]))], [("drop",)], [("rst",)], [("garbage",)], [("cut_head",)],
                       [("cut", cut, False)], [("cut", cut, False)], [("cut", cut, True)], [("cut_chunked", cut)], [("cut_closed", cut, "1.0")], [("cut_closed", cut, "1.1")],
                       [("redirect", "302 Found"), ("status", "404 Not Found")], [("redirect", "302 Found"), ("cut", cut, False)]])


NAMES = ["nq", "scifact", "trec-covid", "nq.v1", "nq.v2", "nq-v1", "NQ", "x.zip", "webis-touche2020"]


class World:
    def __init__(self, ctx, rng, dataset=None, root=None):
        self.ctx, self.rng = ctx, rng
        self.srv = server.Server()
        self.root = root or os.path.join(ctx.scratch(), rng.choice(["datasets", "my data", "a/b/c"]))
        self.dataset = dataset or rng.choice(NAMES)
        self.url = f"http://127.0.0.1:{self.srv.port}/data/" + "{}.zip"
        self.log = []
        self.versions = []  # all archives ever served: (bytes, members)
        self.may_have = []  # archives that may be held complete; None: none

    def serve(self, a):
        self.versions.append(a)
        self.srv.body = a[0]

    def call(self, unzip, redownload):
        kw = {}
        if not unzip or self.rng.random() < 0.5:
            kw["unzip"] = unzip
        if redownload or self.rng.random() < 0.3:
            kw["redownload"] = redownload
        return self.ctx.bm25s.utils.beir.download_dataset(self.dataset, base_url=self.url, save_dir=self.rng.choice([str, Path])(self.root), show_progress=self.rng.random() < 0.05, **kw)

    def judge(self, out, unzip, allowed, what):
        """The result of a successful call holds one of the archives allowed; returns it."""
        ctx = self.ctx
        out = os.fspath(out)
        if not unzip:
            ctx.check(os.path.isfile(out), lambda: f"{what}: returned {out!r}, which is no file")
            with open(out, "rb") as f:
                got = f.read()
            hit = [a for a in allowed if a[0] == got]
            ctx.check(bool(hit), lambda: f"{what}: the archive holds {len(got)} bytes which differ from the {[len(a[0]) for a in allowed]} bytes of the server")
            return hit[0]
        ctx.check(os.path.isdir(out) and os.path.realpath(out) == os.path.realpath(os.path.join(self.root, self.dataset)), lambda: f"{what}: returned {out!r}")
        errs = []
        for a in allowed:
            wrong = None
            for k, v in a[1].items():
                p = os.path.join(self.root, k)
                if not os.path.isfile(p):
                    wrong = f"{k} is missing"
                    break
                with open(p, "rb") as f:
                    if f.read() != v:
                        wrong = f"{k} differs"
                        break
                ctx.count("members_compared")
            if wrong is None:
                return a
            errs.append(wrong)
        ctx.fail(f"{what}: the unpacked dataset is not the archive's: {errs}")

    def archive_file(self):
        return os.path.join(self.root, "archive", self.dataset + ".zip")

    def close(self):
        self.srv.close()


def step(ctx, w, rng, force=None):
    """One call with a scripted answer, judged against the model."""
    unzip, redo = rng.random() < 0.6, rng.random() < 0.25
    failing = force == "bad" or (force is None and rng.random() < 0.45)
    cur = w.versions[-1]
    w.srv.script[:] = bad(rng, len(cur[0])) if failing else good(rng)
    script = list(w.srv.script)
    n0 = len(w.srv.requests)
    desc = f"unzip={unzip}, redownload={redo}, server: {script} of {len(cur[0])} bytes"
    w.log.append(desc)
    what = f"download {len(w.log)} ({desc}) after {w.log[:-1][-4:]}"
    try:
        out, exc = w.call(unzip, redo), None
    except Exception as e:
        out, exc = None, e
    asked = len(w.srv.requests) - n0
    ctx.count("calls_judged")
    ctx.count("requests_seen", asked)
    for p in w.srv.requests[n0:]:
        ctx.check(p.split("?")[0] == f"/data/{w.dataset}.zip", lambda: f"{what}: asked for {p}")
    w.srv.script.clear()
    have = [a for a in w.may_have if a is not None]
    must_ask = redo or not have
    may_skip = not redo and bool(have)
    if asked == 0:
        ctx.check(exc is None, lambda: f"{what}: raised {exc!r:.300} without contacting the server")
        ctx.check(may_skip, lambda: f"{what}: returned {out!r} without contacting the server, although {'a new download was requested' if redo else 'no download was ever completed'}")
        got = w.judge(out, unzip, have, what)
        w.may_have = [got]
        ctx.count("reused")
    else:
        ctx.check(must_ask or None in w.may_have, lambda: f"{what}: contacted the server although the archive was complete")
        if failing:
            ctx.check(exc is not None, lambda: f"{what}: the failure was not reported (returned {out!r})")
            ctx.count("failures_reported")
            ctx.count("cut_answers", "cut" in script[-1][0])
            w.may_have = w.may_have + [None]
        else:
            if exc is not None:
                raise exc
            w.judge(out, unzip, [cur], what)
            w.may_have = [cur]
            ctx.count("downloads")
            ctx.count("recovered", len(w.log) > 1 and "bad" in w.tags)
    if failing and asked:
        w.tags.append("bad")
    ctx.nontrivial((ctx.index, tuple(w.log)))
    # whatever archive file exists under the final name is complete
    if os.path.exists(w.archive_file()):
        with open(w.archive_file(), "rb") as f:
            b = f.read()
        ctx.check(any(b == a[0] for a in w.versions), lambda: f"{what}: the kept archive of {len(b)} bytes is none the server ever held")


def case_history(ctx, rng):
    w = World(ctx, rng)
    w.tags = []
    w.may_have = [None]
    try:
        w.serve(archive(rng, w.dataset, 0))
        for i in range(rng.choice([2, 4, 8, 12])):
            if rng.random() < 0.15:
                w.serve(archive(rng, w.dataset, i + 1))
            k = rng.random()
            here = os.path.join(w.root, w.dataset)
            if k < 0.06:
                # what was unpacked earlier is no download; another program's files may be there as well
                os.makedirs(here, exist_ok=True)
                with open(os.path.join(here, "notes.txt"), "w") as f:
                    f.write("mine")
                w.log.append("a directory of that name exists")
            elif k < 0.16 and os.path.exists(w.archive_file()):
                os.remove(w.archive_file())
                w.may_have = [None]
                w.log.append("the archive is deleted")
                ctx.count("deleted")
            elif k < 0.22 and os.path.isdir(here):
                shutil.rmtree(here)
                w.log.append("what was unpacked is deleted")
                ctx.count("deleted")
            step(ctx, w, rng)
        step(ctx, w, rng, "good")
        ctx.sample(dict(history=w.log, requests=len(w.srv.requests)))
    finally:
        w.close()


def case_several(ctx, rng):
    """Datasets of similar names in one folder: each keeps its own archive and files."""
    names = rng.choice([["nq.v1", "nq.v2"], ["nq", "nq-train"], ["nq", "nq.v1", "nq.v2"], ["x", "x.zip"], ["a.b.c", "a.b", "a"], rng.sample(NAMES, 3), ["fever", "climate-fever"]])
    root = os.path.join(ctx.scratch(), "datasets")
    ws = []
    try:
        for i, name in enumerate(names):
            w = World(ctx, rng, name, root)
            ws.append(w)
            w.tags, w.may_have = [], [None]
            w.serve(archive(rng, name, i))
        for i in range(rng.choice([4, 8])):
            w = rng.choice(ws)
            if rng.random() < 0.15:
                w.serve(archive(rng, w.dataset, 10 + i))
            step(ctx, w, rng)
        for w in ws + ws:
            step(ctx, w, rng, "good")
        ctx.count("several_datasets", len(ws))
    finally:
        for w in ws:
            w.close()


def recover(ctx, w, what):
    """After any client failure: the next call gives a complete archive."""
    n0 = len(w.srv.requests)
    w.srv.script.clear()
    have = w.versions if any(a is not None for a in w.may_have) else w.versions[-1:]
    out = w.call(True, False)
    got = w.judge(out, True, w.versions[::-1] if len(w.srv.requests) == n0 else w.versions[-1:], what)
    if os.path.exists(w.archive_file()):
        with open(w.archive_file(), "rb") as f:
            b = f.read()
        ctx.check(any(b == a[0] for a in w.versions), lambda: f"{what}: the kept archive of {len(b)} bytes is none the server ever held")
    n1 = len(w.srv.requests)
    w.judge(w.call(True, False), True, [got], what + ", again")
    ctx.check(len(w.srv.requests) == n1, f"{what}: the completed download was not reused")
    ctx.count("reused")
    ctx.count("recovered")
    ctx.count("calls_judged", 2)


def case_crash(ctx, rng):
    w = World(ctx, rng)
    try:
        w.serve(archive(rng, w.dataset, 0))
        os.makedirs(w.root)
        base = os.path.realpath(w.root)
        prior = rng.random() < 0.4
        if prior:
            w.call(rng.random() < 0.5, False)
            w.serve(archive(rng, w.dataset, 1))
        keep = base + "-start"
        shutil.copytree(base, keep)
        unzip = rng.random() < 0.8
        act = lambda st: w.call(unzip, prior)
        rep = fault.inject(base, lambda: None, act, None)
        ctx.check(rep["error"] is None and rep["killed"] is None, lambda: f"download failed: {rep}")
        total = rep["seen"]
        todo = [(n, m) for n in range(1, total + 1) for m in (fault.KILL, fault.FAIL_ONCE, fault.FAIL_STICKY)]
        lim = 12 if not ctx.thorough else 100
        for n, mode in rng.sample(todo, min(len(todo), lim)):
            shutil.rmtree(base)
            shutil.copytree(keep, base)
            frac = rng.choice([0, 1, 50, 99])
            rep = fault.inject(base, lambda: None, act, None, n=n, mode=mode, frac=frac, err=rng.choice(fault.ERRORS))
            what = f"download after one {'killed' if rep['killed'] else 'with failing operations'} at operation {n} of {total} (unzip={unzip}, mode {mode}, earlier archive: {prior})"
            ctx.count("client_failures", bool(rep["killed"] or rep["fired"]))
            if not rep["killed"] and rep["error"] is None:
                w.judge(os.path.join(w.root, w.dataset) if unzip else w.archive_file(), unzip, w.versions[-1:], what + " that reported success")
            w.may_have = [None] + w.versions
            recover(ctx, w, what)
            ctx.nontrivial(("crash", n, mode, frac, prior, unzip, ctx.index))
        shutil.rmtree(keep)
    finally:
        w.close()


def case_lines(ctx, rng):
    w = World(ctx, rng)
    try:
        prior = rng.random() < 0.4
        w.serve(archive(rng, w.dataset, 0))
        os.makedirs(w.root)
        if prior:
            w.call(rng.random() < 0.5, False)
            w.serve(archive(rng, w.dataset, 1))
        keep = w.root + "-start"
        shutil.copytree(w.root, keep)
        unzip = rng.random() < 0.8
        act = lambda: w.call(unzip, prior)
        total, err = fault.trace_raise(act, os.path.join(ctx.repo, "bm25s"), 0, None)
        ctx.check(err is None, lambda: f"download raised {err!r}")
        for n in sorted({rng.randint(1, total) for _ in range(4)}):
            shutil.rmtree(w.root)
            shutil.copytree(keep, w.root)
            e = rng.choice([KeyboardInterrupt("injected"), SystemExit("injected"), RuntimeError("injected")])
            w.srv.script[:] = rng.choice([[], [("pieces", 1000)], [("chunked", 3000)]])
            _, err = fault.trace_raise(act, os.path.join(ctx.repo, "bm25s"), n, e)
            ctx.count("client_failures")
            recover(ctx, w, f"download after {e!r} at line event {n} of {total} (unzip={unzip}, earlier archive: {prior})")
            ctx.nontrivial(("lines", n, repr(e), prior, unzip, ctx.index))
    finally:
        w.close()


def case_cqa(ctx, rng):
    """The archive that is merged after unpacking."""
    src, *exp = c26.make(ctx, rng, small=True)
    files = c26.snapshot(src)
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        for k, v in files.items():
            z.writestr("cqadupstack/" + k, v)
    w = World(ctx, rng, "cqadupstack")
    w.tags, w.may_have = [], [None]
    try:
        w.serve((b.getvalue(), {"cqadupstack/" + k: v for k, v in files.items()}))
        base = os.path.realpath(os.path.dirname(w.root))
        rep = fault.inject(base, lambda: None, lambda st: w.call(True, False), None)
        ctx.check(rep["error"] is None and not rep["killed"], lambda: f"download of CQADupStack failed: {rep}")
        d = os.path.join(w.root, "cqadupstack")
        c26.verify(ctx, d, *exp, "downloaded CQADupStack")
        for _ in range(3):
            shutil.rmtree(w.root)
            n, mode = rng.randint(1, rep["seen"]), rng.choice([fault.KILL, fault.FAIL_ONCE, fault.FAIL_STICKY])
            r = fault.inject(base, lambda: None, lambda st: w.call(True, False), None, n=n, mode=mode, frac=rng.choice([0, 50]))
            ctx.count("client_failures")
            w.may_have = [None, w.versions[0]]
            what = f"CQADupStack after a download failing at operation {n}"
            recover(ctx, w, what)
            c26.verify(ctx, d, *exp, what)
            ctx.nontrivial(("cqa", n, mode, ctx.index))
        c26.load(ctx, d, *exp, "downloaded CQADupStack")
    finally:
        w.close()
