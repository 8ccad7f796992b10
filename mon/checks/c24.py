"""C24 hub safety: pushes run against a stand-in hub with every state of the local directory and failures at every stage, while an interpreter hook records each file-system change and the trees before and after are compared bit for bit.

The hook sees every open for writing, creation, renaming and deletion the interpreter makes, so changes that are undone before the call ends are seen too."""
import hashlib
import json
import os
import random
import subprocess
import sys
import tempfile
import threading

from .. import gen, hub
from ..util import *
from pathlib import Path

LEVEL = "exploration"
RULE = ("index, vocabulary or stopwords x local directory (None, absent, empty, symlinked, non-empty in 9 ways, a file, relative, Path) x overwrite x outcome (success; failure of repository creation, of any file write, of the corpus, of the upload before or "
        "after reading; ordinary errors, KeyboardInterrupt, SystemExit); overlapping pushes. Non-trivial: a call whose file-system effects were judged; distinct by configuration and outcome.")
ASSUMPTIONS = ["file-system changes are made by the interpreter's own calls (audit events), which holds for this code; the trees compared do not depend on it"]


class Stop(BaseException):
    pass


def plan(tier):
    f = 1 if tier == "quick" else 60
    s = 60 if tier == "quick" else 2400
    return [dict(cases=[("push", 1200 * f), ("overlap", 60 * f), ("load", 60 * f), ("exit", 16 * f)], workers=4, soft=s), dict(cases=[("push", 300 * f)], workers=1, env={"MON_BLOCK": "orjson"}, soft=s)]


def MIN(tier):
    return {"distinct": 700, "calls_judged": 1000, "failed_calls": 500, "fs_events": 5000, "protected_trees": 300, "temporary_directories": 500, "uploads_inspected": 500, "write_failures": 80, "named_directories_kept": 500, "died_before": 50, "processes_ended": 8, "pushes_before_the_end": 80}


WRITE = {"os.remove", "os.rmdir", "os.mkdir", "os.rename", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime", "shutil.rmtree", "shutil.move", "shutil.copyfile", "shutil.copytree", "os.setxattr", "os.mkfifo"}

DIRFD = {"os.remove", "os.rmdir", "os.mkdir", "os.rename", "os.link", "os.symlink", "os.chmod", "os.utime", "os.chown", "shutil.rmtree"}


class Audit:
    """Records the changes made while active; optionally fails the n-th opening of a file for writing under a condition."""

    def __init__(self):
        self.on, self.events, self.fail_at, self.n_open = False, [], None, 0
        self.thread = None
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        if event == "open":
            path, mode, flags = args
            if not isinstance(path, (str, bytes, os.PathLike)):
                return
            w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) if isinstance(flags, int) else 0
            if not w:
                return
            p = os.path.abspath(os.fsdecode(path))
            if p.startswith(("/dev/", "/proc/")):
                return
            self.events.append(("open", p))
            if self.fail_at is not None and not self.in_hub:
                self.n_open += 1
                if self.n_open == self.fail_at[0]:
                    raise self.fail_at[1]
        elif event in WRITE:
            paths = [a for a in args if isinstance(a, (str, bytes, os.PathLike))]
            # the last arguments of these events are the directory descriptors paths are relative to (-1: none)
            fds = [a for a in args[-len(paths):] if isinstance(a, int)] if event in DIRFD else []
            for i, a in enumerate(paths):
                a = os.fsdecode(a)
                if i < len(fds) and fds[i] >= 0:
                    a = os.path.join(os.readlink(f"/proc/self/fd/{fds[i]}"), a)
                self.events.append((event, os.path.abspath(a)))

    def start(self, fail_at=None):
        self.events, self.fail_at, self.n_open, self.in_hub, self.on = [], fail_at, 0, False, True

    def stop(self):
        self.on = False
        return self.events


def setup(ctx):
    ctx.audit = Audit()
    import bm25s.hf  # noqa


def tree(root):
    """Everything under a directory: kind, content, mode, times."""
    out = {}
    if not os.path.lexists(root):
        return out
    for d, ds, fs in os.walk(root):
        for x in [""] + ds + fs:
            p = os.path.join(d, x) if x else d
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ("dir", st.st_mode, st.st_mtime_ns, st.st_ino)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("file", st.st_mode, st.st_mtime_ns, st.st_ino, st.st_size, hashlib.blake2b(f.read(), digest_size=12).hexdigest())
    return out


def make_object(ctx, rng):
    """(name, push function taking keyword arguments, artifact names, extra keyword arguments)"""
    import bm25s.hf as H
    k = rng.choice(["index", "index", "vocab", "stopwords"])
    if k == "index":
        p = gen.params(rng)
        docs = gen.corpus(rng, n_docs=rng.choice([1, 3, 10]))
        r = H.BM25HF(**p)
        r.index(docs, show_progress=False)
        kw = {}
        if rng.random() < 0.5:
            kw["corpus"] = [f"text {i}" for i in range(len(docs))]
        ref = ctx.scratch() + "/ref"
        r.save(ref, corpus=kw.get("corpus"))
        arts = set(os.listdir(ref))
        if rng.random() < 0.3:
            kw["include_readme"] = False
        else:
            arts.add("README.md")
        return "index", r.save_to_hub, arts, kw
    t = H.TokenizerHF()
    t.tokenize([gen.text(rng) for _ in range(3)], show_progress=False)
    if k == "vocab":
        return k, t.save_vocab_to_hub, {"vocab.tokenizer.json"}, {}
    return k, t.save_stopwords_to_hub, {"stopwords.tokenizer.json"}, {}


FILES = ["data.csc.index.npy", "vocab.index.json", "params.index.json", "README.md", "vocab.tokenizer.json", "stopwords.tokenizer.json", "corpus.jsonl", "corpus.mmindex.json"]
ARTIFACTS = set(FILES) | {"indices.csc.index.npy", "indptr.csc.index.npy", "nonoccurrence_array.index.npy"}


def local_state(ctx, rng, root):
    """(local_dir argument, real path, state, whether it holds something)"""
    d = os.path.join(root, rng.choice(["out", "my dir", "\u00fcber"]))
    k = rng.choice(["none", "none", "absent", "deep", "empty", "link-empty", "file", "hidden", "subdir", "dangling", "artifacts", "index", "link-full", "many", "isfile", "dangling-dir", "relative", "relative-full", "cwd"])
    arg, full = d, True
    if k == "none":
        return None, None, k, False
    if k == "absent":
        full = False
    elif k == "deep":
        arg = d = os.path.join(d, "a", "b")
        full = False
    elif k == "empty":
        os.mkdir(d)
        full = False
    elif k == "link-empty":
        os.mkdir(d + "-real")
        os.symlink(d + "-real", d)
        full = False
    elif k == "isfile":
        with open(d, "w") as f:
            f.write("precious")
    elif k == "dangling-dir":
        os.symlink(d + "-nowhere", d)
    elif k in ("relative", "relative-full"):
        arg = os.path.basename(d)
        os.mkdir(d)
        full = k == "relative-full"
        if full:
            with open(os.path.join(d, "notes.txt"), "w") as f:
                f.write("precious")
    elif k == "cwd":
        arg, d = ".", root
        with open(os.path.join(d, "notes.txt"), "w") as f:
            f.write("precious")
    else:
        os.mkdir(d)
        if k == "file":
            names = ["notes.txt"]
        elif k == "hidden":
            names = [".gitignore"]
        elif k == "subdir":
            os.mkdir(os.path.join(d, "empty sub"))
            names = []
        elif k == "dangling":
            os.symlink("/nonexistent/x", os.path.join(d, "data.csc.index.npy"))
            names = []
        elif k == "artifacts":
            names = rng.sample(FILES, rng.randint(1, len(FILES)))
        elif k == "many":
            names = FILES + ["notes.txt", ".hidden"]
            os.makedirs(os.path.join(d, "sub", "deeper"))
            with open(os.path.join(d, "sub", "deeper", "x"), "w") as f:
                f.write("precious")
        elif k == "link-full":
            os.rmdir(d)
            os.mkdir(d + "-real")
            os.symlink(d + "-real", d)
            names = ["notes.txt"]
        elif k == "index":
            o = ctx.bm25s.BM25(method="bm25+")
            o.index([["old"], ["x", "y"]], show_progress=False)
            o.save(d, corpus=["1", "2"])
            names = ["keep.me"]
        for n in names:
            with open(os.path.join(d, n), "w") as f:
                f.write("precious " + n)
    if rng.random() < 0.2 and k != "cwd":
        arg = arg + "/" if k not in ("isfile", "dangling-dir") else arg
    if rng.random() < 0.3:
        arg = Path(arg)
    return arg, d, k, full


def failing_corpus(n, at, exc):
    out = []
    for i in range(n):
        if i == at:
            raise exc
        yield f"text {i}"


def case_push(ctx, rng):
    root = ctx.scratch()
    tmp = ctx.scratch()
    home = ctx.scratch()
    old = tempfile.tempdir, os.environ.get("TMPDIR"), os.getcwd()
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    os.chdir(root)
    hb = hub.Hub(home)
    try:
        with hb:
            push_case(ctx, rng, root, tmp, hb)
    finally:
        ctx.audit.stop()
        tempfile.tempdir = old[0]
        os.environ.pop("TMPDIR")
        if old[1] is not None:
            os.environ["TMPDIR"] = old[1]
        os.chdir(old[2])


def push_case(ctx, rng, root, tmp, hb):
    if rng.random() < 0.3:
        # other people's temporary files
        os.mkdir(os.path.join(tmp, "tmpother"))
        with open(os.path.join(tmp, "tmpother", "x"), "w") as f:
            f.write("precious")
    if rng.random() < 0.12:
        # an earlier push of the same repository died in the middle
        _, push0, _, kw0 = make_object(ctx, rng)
        pid = os.fork()
        if pid == 0:
            hb.fault["upload_folder"] = lambda args: os._exit(9)
            try:
                push0("u/repo", **kw0)
            finally:
                os._exit(1)
        ctx.check(os.WEXITSTATUS(os.waitpid(pid, 0)[1]) == 9, "a push uploads nothing")
        ctx.count("died_before")
    name, push, arts, kw = make_object(ctx, rng)
    arg, real, state, full = local_state(ctx, rng, root)
    overwrite = rng.choice([None, False, True])
    if arg is not None or rng.random() < 0.3:
        kw["local_dir"] = arg
    if overwrite is not None:
        kw["overwrite_local"] = overwrite
    exc = rng.choice([OSError(28, "No space left on device"), RuntimeError("boom"), hub.Refused("403 forbidden"), KeyboardInterrupt(), SystemExit(3), Stop(), ValueError("bad"), FileNotFoundError(2, "gone")])
    outcome = rng.choice(["ok", "ok", "ok", "create", "upload", "upload-late", "write", "write", "corpus"])
    fail_at = None
    seen = []

    def inspect(args):
        ctx.audit.in_hub = True
        p = os.fspath(args["folder_path"])
        seen.append((os.path.realpath(p), {os.path.relpath(os.path.join(d, f), p) for d, _, fs in os.walk(p) for f in fs}))
        if outcome == "upload":
            raise exc
        if outcome == "upload-late":
            for f in os.listdir(p):
                if os.path.isfile(os.path.join(p, f)):
                    open(os.path.join(p, f), "rb").close()
            raise exc
        ctx.audit.in_hub = False
    hb.fault["upload_folder"] = inspect
    if outcome == "create":
        hb.fault["create_repo"] = exc
    elif outcome == "write":
        fail_at = (rng.randint(1, len(arts) + 1), exc)
    elif outcome == "corpus":
        if name != "index":
            outcome = "ok"
        else:
            exc = rng.choice([KeyboardInterrupt(), SystemExit(3), Stop(), RuntimeError("boom")])
            n = rng.randint(1, 5)
            kw["corpus"] = failing_corpus(n, rng.randrange(n), exc)
    protected = full and not (overwrite is True and state not in ("isfile", "dangling-dir"))
    what = f"push of the {name}, local_dir {state}{' as Path' if isinstance(arg, Path) else ''}, overwrite_local={overwrite}, {'no failure' if outcome == 'ok' else f'{outcome} fails with {exc!r}'}"
    before_root, before_tmp = tree(root), tree(tmp)
    existed = real is not None and os.path.lexists(real)
    ctx.audit.start(fail_at)
    raised = None
    try:
        push("u/repo", **kw)
    except BaseException as e:
        raised = e
    finally:
        events = ctx.audit.stop()
    ctx.count("calls_judged")
    ctx.count("fs_events", len(events))
    ctx.count("failed_calls", raised is not None)
    if outcome == "write" and ctx.audit.n_open >= fail_at[0]:
        ctx.count("write_failures")
    after_root, after_tmp = tree(root), tree(tmp)
    failed = outcome in ("create", "upload", "upload-late", "corpus") or (outcome == "write" and ctx.audit.n_open >= fail_at[0])
    if failed:
        ctx.check(raised is not None, f"{what}: the failure was not reported")
    elif state not in ("isfile", "dangling-dir"):
        if raised is not None:
            raise raised
    # 1. nothing is left in the temporary directory, nothing of others is touched
    ctx.check({k: v[0:1] for k, v in before_tmp.items()} == {k: v[0:1] for k, v in after_tmp.items()} and all(before_tmp[k] == after_tmp[k] for k in before_tmp if k != "."),
              lambda: f"{what}: the temporary directory holds {sorted(set(after_tmp) ^ set(before_tmp))[:8]} after the call")
    made = {p for e, p in events if p.startswith(tmp + os.sep)}
    ctx.count("temporary_directories", bool(made))
    # 2. no change outside the directories concerned
    for e, p in events:
        rp = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        ok = any(x == b or x.startswith(b + os.sep) for x in (p, rp) for b in (root, tmp, os.path.realpath(hb.root)))
        ctx.check(ok, lambda: f"{what}: {e} of {p}")
    # 3. a directory that holds something is not touched, at any time, unless allowed
    if protected:
        inside = os.path.realpath(real)
        bad = [(e, p) for e, p in events for q in (p, os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))) if q == inside or q.startswith(inside + os.sep) or q == real]
        if state == "dangling-dir":
            bad = [b for b in bad if b[0] not in ("os.mkdir",)]
        if state == "isfile":
            bad = [b for b in bad if b[0] not in ("os.mkdir",)]
        ctx.check(not bad, lambda: f"{what}: changes in the local directory although it is not empty: {bad[:5]}")
        ctx.check(before_root == after_root, lambda: f"{what}: the local directory changed: {[k for k in set(before_root) | set(after_root) if before_root.get(k) != after_root.get(k)][:8]}")
        ctx.count("protected_trees")
        for p, files in seen:
            ctx.check(p != inside and not p.startswith(inside + os.sep), lambda: f"{what}: uploads {p} from the caller's directory")
    # 4. the directory named is never deleted, and what it held besides is kept
    if existed:
        ctx.check(os.path.lexists(real), f"{what}: the directory named by the caller is gone")
        for k, v in before_root.items():
            if os.path.basename(k) in ARTIFACTS and overwrite is True:
                continue
            if v[0] == "dir":
                ctx.check(k in after_root, lambda: f"{what}: {k} was deleted")
            else:
                ctx.check(after_root.get(k) == v, lambda: f"{what}: unrelated {k} changed from {v} to {after_root.get(k)}")
        ctx.count("named_directories_kept")
    # 5. only the artifacts are uploaded from a temporary directory
    for p, files in seen:
        temporary = real is None or p != os.path.realpath(real)
        if temporary or not full:
            ctx.check(files == arts, lambda: f"{what}: uploads {sorted(files)} instead of {sorted(arts)}")
        else:
            ctx.check(arts <= files, lambda: f"{what}: does not upload {sorted(arts - files)}")
        ctx.count("uploads_inspected")
    # 6. a local directory that may be used holds the artifacts afterwards
    if raised is None and real is not None and not protected and state not in ("isfile", "dangling-dir"):
        have = set(os.listdir(real))
        ctx.check(arts <= have, lambda: f"{what}: {sorted(arts - have)} missing in the local directory")
        if not full:
            ctx.check(have == arts, lambda: f"{what}: {sorted(have - arts)} left in the local directory")
    if raised is None:
        tr = hb.repos["u/repo"]["branches"]["main"]
        ctx.check(arts <= set(tr), lambda: f"{what}: {sorted(arts - set(tr))} not on the hub")
    ctx.nontrivial((name, state, overwrite, outcome, repr(exc) if failed else "", isinstance(arg, Path), fail_at and fail_at[0], len(arts)))
    ctx.sample(dict(call=what, events=len(events), uploaded=[sorted(f) for _, f in seen]))


def case_overlap(ctx, rng):
    """Pushes that overlap in time upload their own artifacts only, and clean up."""
    tmp = ctx.scratch()
    old = tempfile.tempdir, os.environ.get("TMPDIR")
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    try:
        objs = [make_object(ctx, rng) for _ in range(rng.choice([2, 3, 4]))]
        bar = threading.Barrier(len(objs))
        hb = hub.Hub(ctx.scratch())
        got, errs, content = {}, [], {}
        same_repo = rng.random() < 0.5
        alone = []
        for o in objs:
            # what each uploads alone
            h1 = hub.Hub(ctx.scratch())
            with h1:
                o[1]("u/r", **o[3])
            alone.append({k: v for k, v in h1.repos["u/r"]["branches"]["main"].items() if k in o[2]})
        fails = [rng.random() < 0.3 for _ in objs]

        def inspect(args):
            try:
                bar.wait(20)
            except threading.BrokenBarrierError:
                pass
            p = args["folder_path"]
            i = which[threading.get_ident()]
            got[i] = set(os.listdir(p))
            content[i] = {k: Path(p, k).read_bytes() for k in got[i]}
            if fails[i]:
                raise RuntimeError("upload failed")
        hb.fault["upload_folder"] = inspect

        which = {}

        def run(i):
            which[threading.get_ident()] = i
            try:
                objs[i][1]("u/r" if same_repo else f"u/r-{i}", **objs[i][3])
                if fails[i]:
                    errs.append(f"push {i}: failure not reported")
            except RuntimeError as e:
                if not fails[i]:
                    errs.append(f"push {i}: {e!r}")
            except Exception as e:
                errs.append(f"push {i}: {e!r}")
        with hb:
            th = [threading.Thread(target=run, args=(i,)) for i in range(len(objs))]
            [t.start() for t in th]
            [t.join(60) for t in th]
        ctx.check(not errs, lambda: f"overlapping pushes: {errs}")
        for i, o in enumerate(objs):
            ctx.check(got.get(i) == o[2], lambda: f"overlapping pushes: {o[0]} uploads {got.get(i)} instead of {o[2]}")
            ctx.check(all(content[i][k] == v for k, v in alone[i].items() if k != "README.md"), lambda: f"overlapping pushes: {o[0]} uploads other content than alone")
            ctx.count("uploads_inspected")
        ctx.check(os.listdir(tmp) == [], lambda: f"overlapping pushes left {os.listdir(tmp)}")
        ctx.count("calls_judged", len(objs))
        ctx.nontrivial(("overlap", tuple(o[0] for o in objs), tuple(fails), ctx.index))
    finally:
        tempfile.tempdir = old[0]
        os.environ.pop("TMPDIR")
        if old[1] is not None:
            os.environ["TMPDIR"] = old[1]


def case_load(ctx, rng):
    """Loading changes nothing in the downloaded snapshot and nothing elsewhere."""
    import bm25s.hf as H
    home = ctx.scratch()
    hb = hub.Hub(home)
    with hb:
        name, push, arts, kw = make_object(ctx, rng)
        push("u/r", **kw)
        snap = hb.snapshot_download(hb.default, "u/r")
        before = tree(home)
        obj = H.TokenizerHF()
        ctx.audit.start()
        try:
            if name == "index":
                r = H.BM25HF.load_from_hub("u/r", load_corpus="corpus" in kw, mmap=rng.random() < 0.5)
                r.retrieve([["a"]], k=1, show_progress=False, backend_selection="numpy")
                if rng.random() < 0.5:
                    r.index([["z"]], show_progress=False)
            elif name == "vocab":
                obj.load_vocab_from_hub("u/r")
                obj.tokenize(["new words here"], update_vocab=True, show_progress=False)
            else:
                obj.load_stopwords_from_hub("u/r")
        finally:
            events = ctx.audit.stop()
        ctx.check(tree(home) == before, f"loading the {name} changed the downloaded files")
        ctx.check(not events, lambda: f"loading the {name} changes files: {events[:5]}")
        ctx.count("calls_judged")
        ctx.count("protected_trees")
        ctx.nontrivial(("load", name, ctx.index))


def child(repo, base, seed):
    """Pushes in all states of the local directory, each from a directory of its own, and then the end of the process."""
    sys.path.insert(0, repo)
    import bm25s
    rng = random.Random(seed)

    class Mini:
        n = 0

        def scratch(self):
            Mini.n += 1
            d = os.path.join(base, "s%d" % Mini.n)
            os.mkdir(d)
            return d
    ctx = Mini()
    ctx.bm25s = bm25s
    tmp = os.path.join(base, "tmp")
    os.mkdir(tmp)
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    log = []
    for i in range(14):
        root = ctx.scratch()
        os.chdir(root)
        name, push, arts, kw = make_object(ctx, rng)
        arg, real, state, full = local_state(ctx, rng, root)
        if arg is not None:
            kw["local_dir"] = arg
        kw["overwrite_local"] = rng.choice([False, True])
        hb = hub.Hub(ctx.scratch())
        if rng.random() < 0.4:
            hb.fault["upload_folder"] = OSError(5, "gone")
        with hb:
            e = raises(push, "u/repo", **kw)
        log.append([name, state, kw["overwrite_local"], repr(e)])
    how = rng.choice(["return", "sys.exit", "raise"])
    kept = os.path.join(base, "s1")
    for i in range(1, Mini.n + 1):
        # files that others put there after the push
        d = os.path.join(base, "s%d" % i)
        with open(os.path.join(d, "later"), "w") as f:
            f.write("precious")
    os.chdir(kept)
    with open(os.path.join(os.path.dirname(base), "told.json"), "w") as f:
        json.dump(dict(tree=tree(base), log=log, how=how), f)
    if how == "sys.exit":
        sys.exit(7)
    if how == "raise":
        raise RuntimeError("on purpose")


def case_exit(ctx, rng):
    """What a push left alone stays when the process ends."""
    top = ctx.scratch()
    base = os.path.join(top, "base")
    os.mkdir(base)
    seed = rng.randrange(2 ** 32)
    p = subprocess.run([sys.executable, "-c", "import sys; from mon.checks import c24; c24.child(sys.argv[1], sys.argv[2], int(sys.argv[3]))", ctx.repo, base, str(seed)],
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    told = os.path.join(top, "told.json")
    ctx.check(os.path.exists(told), lambda: f"pushes of a process with seed {seed} did not come to their end: {p.stderr[-800:].decode('utf-8', 'replace')}")
    told = json.load(open(told))
    after = json.loads(json.dumps(tree(base)))
    diff = sorted(k for k in set(after) | set(told["tree"]) if after.get(k) != told["tree"].get(k))
    ctx.check(not diff, lambda: f"a process that pushed {told['log']!r:.900} changed {diff[:6]} when it ended by {told['how']}")
    ctx.count("processes_ended")
    ctx.count("pushes_before_the_end", len(told["log"]))
    ctx.nontrivial(("exit", seed, told["how"]))
