"""C35 nothing is left behind: every operation is repeated on fresh inputs while descriptors, mappings, threads, children, files, the traced heap and the state of the process (directory, environment, random generators, signal handlers, logging, warnings, floating-point settings, configuration of jax and numba, replaced functions and more) are compared before and after.

Operations that fail, are interrupted or run into a full disk are repeated as well as successful ones. What a warm-up of the same operation leaves (imports, compiled code, pools) is not counted, only what repeating adds."""
import atexit
import builtins
import csv
import decimal
import faulthandler
import gc
import io
import json
import locale
import logging
import multiprocessing
import os
import random
import re
import resource
import signal
import socket
import sys
import tempfile
import threading
import tracemalloc
import urllib.request
import warnings
import weakref
import zipfile

from .. import gen, server
from ..store import corpus_for
from ..util import *

LEVEL = "exploration"
RULE = ("25 kinds of operations (index, retrieve with threads, masks and corpora, get_scores, save, load, mapped load, reload, record access, line indexes, tokenizers, evaluation, dataset loading, merging and download, hub push and pull, timers) x success and failure "
        "(invalid arguments, missing and damaged files, interrupted callbacks, refused and cut downloads, failing uploads), each repeated 12-40 times on fresh inputs. Non-trivial: an operation whose repetitions left nothing; distinct by operation and inputs.")
ASSUMPTIONS = ["first use may import modules, compile code and start pools", "a Tokenizer's vocabulary and its table of stems grow with the words it is given", "caches bounded by some tens of kilobytes are not leaks", "Linux: /proc/self"]


def plan(tier):
    f = 1 if tier == "quick" else 30
    s = 100 if tier == "quick" else 2400
    return [dict(cases=[("op", 26 * 6 * f)], workers=4, soft=s),
            dict(cases=[("op", 26 * 2 * f)], workers=1, env={"MON_SIG": "float32,int32,0,none"}, soft=s),
            dict(cases=[("op", 26 * 2 * f)], workers=1, env={"MON_BLOCK": "orjson,numba,jax"}, soft=s)]


def MIN(tier):
    return {"distinct": 120, "operations": 3000, "failed_operations": 300, "states_compared": 3000, "heap_comparisons": 120, "operation_kinds": 20, "writes_seen": 3000}


def setup(ctx):
    ctx.numba = "MON_SIG" in os.environ
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    import bm25s.hf  # noqa
    import bm25s.utils.beir  # noqa
    import bm25s.utils.benchmark  # noqa
    ctx.home = os.path.join(ctx.job["scratch"], "home")
    os.makedirs(ctx.home, exist_ok=True)
    os.environ["HOME"] = ctx.home
    ctx.kinds = set()
    ctx.warmed = set()


# -- what is looked at ------------------------------------------------------------------
def descriptors():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            pass
    return sorted(v for v in out.values() if "/proc/self/fd" not in v and not v.startswith("/proc/"))


def mapped(d):
    return sorted(" ".join(l.split()[5:]) for l in open("/proc/self/maps") if d in l)


def children():
    out = []
    for t in os.listdir("/proc/self/task"):
        try:
            out += open(f"/proc/self/task/{t}/children").read().split()
        except OSError:
            pass
    return sorted(out)


def registered():
    """How much is registered with the interpreter to be called, looked at or kept until the process ends."""
    return {"exit handlers": atexit._ncallbacks(), "thread exit handlers": len(getattr(threading, "_threading_atexits", ())), "gc callbacks": len(gc.callbacks), "finalizers": len(weakref.finalize._registry),
            "import hooks": len(sys.meta_path) + len(sys.path_hooks), "modules": len(sys.modules), "loggers": len(logging.root.manager.loggerDict)}


def files(*roots):
    out = []
    for r in roots:
        for d, ds, fs in os.walk(r):
            out += [os.path.join(d, x) for x in ds + fs]
    return sorted(out)


def state():
    """The settings of the process that belong to the caller."""
    u = os.umask(0o77)
    os.umask(u)
    num = {}
    if "numba" in sys.modules and sys.modules["numba"] is not None:
        num["numba threads"] = sys.modules["numba"].get_num_threads()
    for m, keys in (("jax", ("jax_enable_x64", "jax_platforms", "jax_debug_nans", "jax_disable_jit", "jax_default_matmul_precision", "jax_log_compiles")), ("numba", ("THREADING_LAYER", "NUMBA_NUM_THREADS", "DISABLE_JIT", "BOUNDSCHECK"))):
        if sys.modules.get(m) is not None:
            c = sys.modules[m].config
            num[m + " configuration"] = tuple((k, str(getattr(c, k, None))) for k in keys)
    logs = {n: (logging.getLogger(n).level, len(logging.getLogger(n).handlers), len(logging.getLogger(n).filters), logging.getLogger(n).disabled) for n in ("", "bm25s")}
    return {
        "current directory": os.getcwd(), "environment": tuple(sorted(os.environ.items())), "umask": u, "random": hash(random.getstate()),
        "numpy.random": hash(repr([x.tobytes() if isinstance(x, np.ndarray) else x for x in np.random.get_state()])), "numpy errors": str(np.geterr()), "numpy printing": str(sorted(map(str, np.get_printoptions().items()))),
        "locale": locale.setlocale(locale.LC_ALL), "decimal": str(decimal.getcontext()), "signals": str([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE)]),
        "alarm": signal.getitimer(signal.ITIMER_REAL)[0], "socket timeout": socket.getdefaulttimeout(), "warnings": str(warnings.filters), "logging": str(logs), "logging.disable": logging.root.manager.disable, "sys.path": tuple(sys.path), "recursion limit": sys.getrecursionlimit(),
        "gc": (gc.isenabled(), gc.get_threshold()), "streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)), "switch interval": sys.getswitchinterval(), "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), sys.getprofile() is None, sys.gettrace() is None),
        "limits": tuple(resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_DATA, resource.RLIMIT_AS, resource.RLIMIT_CORE)), "url opener": id(urllib.request._opener), "start method": multiprocessing.get_start_method(), "csv limit": csv.field_size_limit(), "stack size": threading.stack_size(), "digits of integers": sys.get_int_max_str_digits(),
        "fault handler": faulthandler.is_enabled(), "numpy calls": (id(np.geterrcall()), np.getbufsize()), "collector debugging": gc.get_debug(), "logging of errors": (logging.raiseExceptions, id(logging.getLoggerClass()), id(warnings.showwarning)), "bytecode": sys.dont_write_bytecode,
        "replaced functions": tuple(id(getattr(m, f)) for m, f in PATCHABLE), "all loggers": str(sorted((n, l.level, len(l.handlers), l.disabled, l.propagate) for n, l in list(logging.root.manager.loggerDict.items()) if isinstance(l, logging.Logger))),
        "tempdir": tempfile.tempdir, "nice": os.nice(0), "affinity": tuple(sorted(os.sched_getaffinity(0))), **num}


def unusual(rng):
    """Settings that nobody has by default: neither keeping nor restoring a default goes unnoticed."""
    random.seed(rng.random())
    np.random.seed(rng.randrange(2 ** 32))
    np.seterr(all="ignore", over=rng.choice(["ignore", "warn"]), divide=rng.choice(["ignore", "warn"]))
    np.set_printoptions(precision=rng.randint(5, 9), linewidth=rng.randint(70, 90))
    decimal.getcontext().prec = rng.randint(20, 40)
    sys.setswitchinterval(rng.choice([0.003, 0.004, 0.006]))
    sys.setrecursionlimit(rng.randint(2000, 2100))
    gc.set_threshold(rng.randint(650, 750))
    socket.setdefaulttimeout(rng.randint(40, 60))
    os.umask(rng.choice([0o22, 0o27, 0o77]))
    os.environ["VERIF_MARK"] = str(rng.random())
    logging.getLogger("bm25s").setLevel(rng.choice([41, 42, 43]))
    logging.getLogger().setLevel(rng.choice([41, 42, 43]))
    if len(logging.getLogger().handlers) == 0:
        logging.getLogger().addHandler(logging.NullHandler())
    warnings.filters[:] = [("ignore", None, Warning, None, rng.randint(1, 10 ** 6))] + [f for f in warnings.filters if f[4] == 0]
    urllib.request.install_opener(urllib.request.build_opener(urllib.request.ProxyHandler({})))
    multiprocessing.set_start_method(rng.choice(["fork", "spawn", "forkserver"]), force=True)
    csv.field_size_limit(rng.randint(10 ** 5, 10 ** 6))
    sys.set_int_max_str_digits(rng.randint(5000, 6000))
    np.setbufsize(rng.choice([4096, 8192, 16384]))
    signal.signal(signal.SIGINT, lambda *a: None)
    signal.signal(signal.SIGPIPE, rng.choice([signal.SIG_IGN, lambda *a: None]))
    if sys.modules.get("numba") is not None:
        n = sys.modules["numba"]
        n.set_num_threads(rng.randint(1, n.config.NUMBA_NUM_THREADS))


PATCHABLE = [(builtins, f) for f in ("open", "print", "len", "map", "zip", "sorted", "enumerate", "__import__", "hash", "id", "input")] + [(json, f) for f in ("dumps", "loads", "dump", "load")] + [(np, f) for f in ("load", "save", "array", "argsort", "zeros", "concatenate")]
PATCHABLE += [(os, f) for f in ("open", "listdir", "remove", "replace", "rename", "cpu_count", "fsync")] + [(tempfile, "mkdtemp"), (tempfile, "gettempdir"), (urllib.request, "urlopen"), (zipfile, "ZipFile"), (threading, "Thread"), (re, "compile")]


WRITES = []


def at(path, fd):
    if isinstance(path, int):
        return None
    path = os.fsdecode(path)
    if isinstance(fd, int) and fd >= 0 and not os.path.isabs(path):
        return os.path.join(os.readlink(f"/proc/self/fd/{fd}"), path)
    return os.path.abspath(path)


def audit(event, args):
    if audit.on and threading.get_ident() == audit.thread:
        if event == "open":
            if isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                WRITES.append((event, at(args[0], -1)))
        elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.chmod", "os.utime"):
            WRITES.append((event, at(args[0], args[-1])))
        elif event in ("os.truncate", "os.chown"):
            WRITES.append((event, at(args[0], -1)))
        elif event in ("os.rename", "os.link"):
            WRITES.append((event, at(args[0], args[2])))
            WRITES.append((event, at(args[1], args[3])))
        elif event == "os.symlink":
            WRITES.append((event, at(args[1], args[2])))


audit.on = False
audit.thread = None


def strayed(given):
    out = []
    for e, p in WRITES:
        if p is None:
            continue
        p = os.path.realpath(p)
        if not p.startswith("/dev/") and not any(p == g or p.startswith(g + "/") for g in given):
            out.append((e, p))
    return out


def compare(ctx, a, b, what, warm):
    for k in a:
        if not warm and k in ("warnings", "all loggers"):
            continue  # importing a module on first use adds filters and loggers
        ctx.check(a[k] == b[k], lambda: f"{what} changed the {k} of the process from {a[k]!r:.300} to {b[k]!r:.300}")
    ctx.count("states_compared")


class Boom(Exception):
    pass


# -- the operations ------------------------------------------------------------------------
# each takes (ctx, rng, d): a directory of its own; it may raise, and what it returns is dropped
def docs_of(rng, n=None):
    n = n or rng.choice([20, 60])
    return [["w%d" % rng.randrange(400) for _ in range(rng.randint(1, 40))] for _ in range(n)]


def texts_of(rng, n=30):
    return [" ".join("word%d" % rng.randrange(500) for _ in range(rng.randint(1, 40))) for _ in range(n)]


def fresh(ctx, rng, **kw):
    p = sig_params(rng) if ctx.numba else gen.params(rng)
    r = ctx.bm25s.BM25(backend="numba" if ctx.numba else "numpy", **p, **kw)
    docs = docs_of(rng)
    r.index(docs, show_progress=False)
    return r, docs


def op_index(ctx, rng, d):
    return fresh(ctx, rng)


def op_index_fails(ctx, rng, d):
    def it():
        for x in docs_of(rng):
            yield x
        raise Boom
    ctx.bm25s.BM25().index(rng.choice([None, 5, [["a"], None], [["a"], 7], it()]), show_progress=False)


def op_reindex(ctx, rng, d):
    r = ctx.cache.setdefault("r", ctx.bm25s.BM25())
    r.index(docs_of(rng, 40), show_progress=False)
    r.retrieve([["w1", "w2"]], k=3, show_progress=False, backend_selection="numpy")


def shared(ctx, rng):
    """One index searched again and again."""
    if "shared" not in ctx.cache:
        ctx.cache["shared"] = fresh(ctx, rng)
    return ctx.cache["shared"]


def queries(rng, n=20):
    # words never seen before among them: nothing may be kept of them
    return [["w%d" % rng.randrange(400) for _ in range(5)] + ["q%d" % rng.randrange(10 ** 9) for _ in range(10)] for _ in range(n)]


def op_retrieve(ctx, rng, d):
    r, docs = shared(ctx, rng)
    kw = dict(k=rng.choice([5, 20]), show_progress=rng.random() < 0.2, n_threads=rng.choice([0, 0, 1, 3, -1]), sorted=rng.random() < 0.7)
    if not ctx.numba:
        kw["backend_selection"] = rng.choice(["numpy", "auto"])
        if rng.random() < 0.4:
            kw["weight_mask"] = gen.mask(rng, len(docs), "float32")
    if rng.random() < 0.4:
        kw["corpus"] = [f"document {i} {'x' * 200}" for i in range(len(docs))]
    return r.retrieve(queries(rng), **kw)


def op_retrieve_fails(ctx, rng, d):
    r, docs = shared(ctx, rng)
    bad = rng.choice([dict(k=10 ** 6), dict(return_as="x"), dict(weight_mask=np.ones(3)), dict(backend_selection="x"), dict(n_threads=2, k=10 ** 6), dict(n_threads=-3), dict(corpus=["too short"]), dict(n_threads=2, backend_selection="x")])
    if ctx.numba and rng.random() < 0.5:
        # fails at other stages
        bad = rng.choice([dict(weight_mask=np.array(["x"] * len(docs))), dict(k=-1), dict(k=rng.randint(-9, -2)), dict(corpus=5), dict(weight_mask=np.array([None, "x"] * len(docs))[:len(docs)])])
        bad["n_threads"] = rng.randint(1, 8)
    return r.retrieve(queries(rng), **dict(dict(k=len(docs), show_progress=False), **bad))


def op_get_scores(ctx, rng, d):
    r, docs = shared(ctx, rng)
    return [r.get_scores(q) for q in queries(rng)]


def op_save(ctx, rng, d):
    r, docs = shared(ctx, rng)
    r.save(d, corpus=rng.choice([None, texts_of(rng, len(docs))]))


def op_save_fails(ctx, rng, d):
    r, docs = shared(ctx, rng)

    def it():
        yield "one"
        raise Boom
    k = rng.randrange(3)
    if k == 0:
        r.save(d, corpus=it())
    elif k == 1:
        open(os.path.join(d, "f"), "w").close()
        r.save(os.path.join(d, "f"))
    else:
        os.makedirs(os.path.join(d, "corpus.jsonl", "x"))
        r.save(d, corpus=["a"] * len(docs))


def op_load(ctx, rng, d):
    r, docs = shared(ctx, rng)
    r.save(d, corpus=texts_of(rng, len(docs)))
    x = ctx.bm25s.BM25.load(d, mmap=rng.random() < 0.7, load_corpus=rng.random() < 0.7)
    x.retrieve([["w1"]], k=3, show_progress=False, backend_selection="auto" if ctx.numba else "numpy")
    if x.corpus is not None and rng.random() < 0.3 and hasattr(x.corpus, "close"):
        x.corpus.close()
    return x


def op_load_fails(ctx, rng, d):
    r, docs = shared(ctx, rng)
    r.save(d, corpus=texts_of(rng, len(docs)))
    f = rng.choice([x for x in os.listdir(d) if x != "nonoccurrence_array.index.npy"])
    p = os.path.join(d, f)
    if rng.random() < 0.5:
        os.remove(p)
    else:
        open(p, "wb").close()
    return ctx.bm25s.BM25.load(d, mmap=rng.random() < 0.5, load_corpus=True)


def op_reload(ctx, rng, d):
    r, docs = shared(ctx, rng)
    r.save(d, corpus=texts_of(rng, len(docs)))
    x = ctx.bm25s.BM25.load(d, mmap=True, load_corpus=True)
    for _ in range(4):
        x.load_scores(d, mmap=rng.random() < 0.7, num_docs=len(docs))
        x.corpus.load()
        x.retrieve([["w1"]], k=3, show_progress=False, backend_selection="auto" if ctx.numba else "numpy")
    return x


def jsonl(rng, d, name="docs.jsonl", n=400):
    p = os.path.join(d, name)
    with open(p, "w") as f:
        for i in range(n):
            f.write(json.dumps({"id": i, "text": "x" * rng.randint(0, 60)}) + "\n")
    return p


def op_corpus(ctx, rng, d):
    C = ctx.bm25s.utils.corpus
    c = C.JsonlCorpus(jsonl(rng, d), show_progress=False, verbosity=0, save_index=rng.random() < 0.5)
    x = [c[3], c[1:9], c[[1, 2]], c[np.array([[0, 1], [5, 6]])], list(c) if rng.random() < 0.2 else None]
    if rng.random() < 0.4:
        c.close()
        if rng.random() < 0.5:
            c.load()
    elif rng.random() < 0.5:
        c.load()
    return c, x


def op_corpus_fails(ctx, rng, d):
    C = ctx.bm25s.utils.corpus
    k = rng.randrange(5)
    p = jsonl(rng, d)
    if k == 0:
        return C.JsonlCorpus(p + "x", show_progress=False, verbosity=0)
    if k == 1:
        with open(p, "a") as f:
            f.write("{broken\n")
        c = C.JsonlCorpus(p, show_progress=False, verbosity=0)
        return c[400]
    if k == 2:
        return C.JsonlCorpus(p, show_progress=False, verbosity=0)[10 ** 6]
    if k == 3:
        return C.JsonlCorpus(p, show_progress=False, verbosity=0)["x"]
    open(p, "w").close()  # an empty file cannot be mapped
    return C.JsonlCorpus(p, show_progress=False, verbosity=0)


def op_lines(ctx, rng, d):
    C = ctx.bm25s.utils.corpus
    p = jsonl(rng, d)
    i = C.find_newline_positions(p, show_progress=False)
    C.save_mmindex(i, p)
    return C.load_mmindex(p), C.get_line(p, 5, i), C.get_line(p, 0, i)


def op_lines_fails(ctx, rng, d):
    C = ctx.bm25s.utils.corpus
    p = jsonl(rng, d)
    i = C.find_newline_positions(p, show_progress=False)
    with open(p, "ab") as f:
        f.write(b"\xff\xfe broken \xff\n")
    k = rng.randrange(3)
    if k == 0:
        return C.find_newline_positions(p, show_progress=False)
    if k == 1:
        return C.get_line(p, 10 ** 6, i)
    return C.get_line(p, 0, [os.path.getsize(p) - 8])


def op_tokenize(ctx, rng, d):
    return ctx.bm25s.tokenize(["tok%d other%d words" % (rng.randrange(10 ** 9), rng.randrange(10 ** 9)) for _ in range(100)], return_ids=rng.random() < 0.5, show_progress=rng.random() < 0.2, stopwords=rng.choice([None, "en"]))


def op_tokenize_fails(ctx, rng, d):
    def stem(w):
        raise Boom
    k = rng.randrange(3)
    if k == 0:
        return ctx.bm25s.tokenize(texts_of(rng) + [None], show_progress=False)
    if k == 1:
        return ctx.bm25s.tokenize(texts_of(rng), stemmer=stem, show_progress=False)
    return ctx.bm25s.tokenization.Tokenizer(splitter=stem).tokenize(texts_of(rng), show_progress=False)


def op_tokenizer(ctx, rng, d):
    t = ctx.bm25s.tokenization.Tokenizer(stopwords=rng.choice([None, "en"]))
    t.tokenize(texts_of(rng), return_as=rng.choice(["ids", "tuple", "string"]), show_progress=False)
    t.save_vocab(d)
    t.save_stopwords(d)
    u = ctx.bm25s.tokenization.Tokenizer(stopwords=[])
    u.load_vocab(d)
    u.load_stopwords(d)
    next(iter(t.tokenize(texts_of(rng), return_as="stream")))  # a stream that is not read to its end
    return t, u


def op_query_tokens(ctx, rng, d):
    # without a stemmer, a tokenizer that does not learn keeps nothing of the queries
    t = ctx.cache.get("tok")
    if t is None:
        t = ctx.cache["tok"] = ctx.bm25s.tokenization.Tokenizer()
        t.tokenize(["some words", "to begin with"], show_progress=False)
    return t.tokenize(["unseen%d words%d" % (rng.randrange(10 ** 9), rng.randrange(10 ** 9)) for _ in range(100)], update_vocab=False, show_progress=False)


def op_evaluate(ctx, rng, d):
    b = ctx.bm25s.utils.beir
    q = {f"q{i}": {f"d{rng.randrange(50)}": 1 for _ in range(3)} for i in range(10)}
    x = {f"q{i}": {f"d{j}": float(rng.randrange(100)) for j in range(30)} for i in range(10)}
    return b.evaluate(q, x, rng.choice([[1, 5], [1, 3, 10, 100]]))


def op_timer(ctx, rng, d):
    t = ctx.bm25s.utils.benchmark.Timer("[x]")
    a = t.start("a")
    t.pause(a)
    t.resume(a)
    t.stop(a, show=False)
    return t.to_dict() if hasattr(t, "to_dict") else None, ctx.bm25s.utils.benchmark.get_max_memory_usage()


def dataset(rng, d, name="ds"):
    os.makedirs(os.path.join(d, name, "qrels"))
    for f in ("corpus.jsonl", "queries.jsonl"):
        with open(os.path.join(d, name, f), "w") as h:
            for i in range(40):
                h.write(json.dumps({"_id": f"x{i}", "title": "t", "text": "y" * rng.randint(0, 200), "metadata": {}}) + "\n")
    with open(os.path.join(d, name, "qrels", "test.tsv"), "w") as h:
        h.write("query-id\tcorpus-id\tscore\n" + "".join(f"x{i}\tx{rng.randrange(40)}\t1\n" for i in range(40)))


def op_dataset(ctx, rng, d):
    b = ctx.bm25s.utils.beir
    dataset(rng, d)
    dic = rng.random() < 0.5
    return b.load_corpus("ds", save_dir=d, show_progress=False, return_dict=dic), b.load_queries("ds", save_dir=d, show_progress=False, return_dict=dic), b.load_qrels("ds", split="test", save_dir=d, return_dict=dic)


def op_dataset_fails(ctx, rng, d):
    b = ctx.bm25s.utils.beir
    dataset(rng, d)
    f = rng.choice(["corpus.jsonl", "queries.jsonl", "qrels/test.tsv"])
    with open(os.path.join(d, "ds", f), "ab") as h:
        h.write(b"{broken\n\xff\n")
    if f.endswith("tsv"):
        return b.load_qrels("ds", split=rng.choice(["test", "train", "x"]), save_dir=d)
    return (b.load_corpus if f[0] == "c" else b.load_queries)("ds", save_dir=d, show_progress=False)


def op_download(ctx, rng, d):
    s = server.Server()
    try:
        z = io.BytesIO()
        with zipfile.ZipFile(z, "w") as f:
            f.writestr("ds/corpus.jsonl", "{}\n" * 5000)
        s.body = z.getvalue()
        k = rng.randrange(8)
        if k == 0:
            s.body = b"no archive at all" * 50
        elif k == 1:
            s.body = s.body[:45] + bytes(x ^ 255 for x in s.body[45:50]) + s.body[50:]  # damaged within
        elif k == 2:
            s.body = s.body[:-30]
        elif k == 3:  # something is in the way
            os.makedirs(os.path.join(d, "ds", "corpus.jsonl"))
        elif k == 4:  # an archive left by someone else
            os.makedirs(os.path.join(d, "archive"))
            with open(os.path.join(d, "archive", "ds.zip"), "wb") as f:
                f.write(rng.choice([b"no archive", s.body, b"", s.body[:99]]))
        s.script = list(rng.choice([[("ok",)], [("pieces", 1000)], [("status", "404 Not Found")], [("drop",)], [("cut", 60, False)], [("rst",)], [("cut_closed", 50, "1.1")]]))
        return ctx.bm25s.utils.beir.download_dataset("ds", base_url=f"http://127.0.0.1:{s.port}/" + "{}.zip", save_dir=d, show_progress=rng.random() < 0.2)
    finally:
        s.close()


def op_hub(ctx, rng, d):
    from .. import hub
    import bm25s.hf as H
    r = H.BM25HF()
    r.index(docs_of(rng, 20), show_progress=False)
    t = H.TokenizerHF(lower=True, splitter=r"\w+", stopwords=["a"], stemmer=None)
    t.tokenize(texts_of(rng, 5), show_progress=False)
    root = os.path.join(d, "hub")
    os.makedirs(root)
    with hub.Hub(root) as h:
        f = rng.choice([None, None, "create_repo", "upload_folder", "snapshot_download"])
        if f:
            h.fault[f] = Boom("refused")
        err = []
        for step in (lambda: r.save_to_hub("me/x", corpus=["text"] * 20), lambda: t.save_vocab_to_hub("me/x"), lambda: t.save_stopwords_to_hub("me/x"), lambda: H.BM25HF.load_from_hub("me/x", load_corpus=True, mmap=rng.random() < 0.6),
                     lambda: t.load_vocab_from_hub("me/x"), lambda: t.load_stopwords_from_hub("me/x")):
            try:
                step()
            except Exception as e:
                err.append(e)
        if err:
            raise err[0]


class Encoding:
    def __init__(self, tokens):
        self.tokens = tokens


def op_hf_tokens(ctx, rng, d):
    import bm25s.hf as H

    def tokenizer(texts, **kw):
        if kw.get("add_special_tokens"):
            raise Boom("no special tokens")
        return [Encoding(t.split()) for t in texts]
    return H.batch_tokenize(tokenizer, texts_of(rng, rng.choice([0, 1, 30])), add_special_tokens=rng.random() < 0.3)


def op_merge(ctx, rng, d):
    b = ctx.bm25s.utils.beir
    p = os.path.join(d, "cqadupstack")
    for name in ("android", "english", "gis")[:rng.randint(0, 3)]:
        dataset(rng, p, name)
    os.makedirs(p, exist_ok=True)
    k = rng.random()
    if k < 0.2:  # something is in the way
        os.makedirs(os.path.join(p, rng.choice(["qrels/test.tsv.tmp", "queries.jsonl.tmp", "corpus.jsonl"])))
    elif k < 0.4 and os.path.isdir(p + "/android"):
        with open(os.path.join(p, "android", rng.choice(["corpus.jsonl", "queries.jsonl", "qrels/test.tsv"])), "ab") as f:
            f.write(b"\xff{broken")
    return b.merge_cqa_dupstack(p)


OPS = [op_hf_tokens, op_merge, op_index, op_index_fails, op_reindex, op_retrieve, op_retrieve_fails, op_get_scores, op_save, op_save_fails, op_load, op_load_fails, op_reload, op_corpus, op_corpus_fails, op_lines, op_lines_fails, op_tokenize, op_tokenize_fails,
       op_tokenizer, op_query_tokens, op_evaluate, op_timer, op_dataset, op_dataset_fails, op_download, op_hub, op_retrieve]


def case_op(ctx, rng):
    op = OPS[ctx.index // 6 % len(OPS)] if not (ctx.numba or os.environ.get("MON_BLOCK")) else OPS[ctx.index // 2 % len(OPS)]
    name = op.__name__[3:]
    if name == "evaluate" and not has("pytrec_eval"):
        return
    base = ctx.scratch()
    tmp = os.path.join(base, "tmp")
    work = os.path.join(base, "cwd")
    dirs = os.path.join(base, "given")
    for x in (tmp, work, dirs):
        os.mkdir(x)
    old_tmp, old_cwd = tempfile.tempdir, os.getcwd()
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    os.chdir(work)
    n = 0
    if "audit" not in ctx.cache:
        ctx.cache["audit"] = True
        sys.addaudithook(audit)

    def once(warm=True):
        nonlocal n
        d = os.path.join(dirs, f"d{n}")
        os.mkdir(d)
        n += 1
        unusual(rng)
        WRITES.clear()
        audit.thread = threading.get_ident()
        st = state()
        what = f"{name} (repetition {n})"
        audit.on = True
        try:
            op(ctx, rng, d)
        except (Exception, KeyboardInterrupt) as e:
            ctx.count("failed_operations")
            what += f", which raised {type(e).__name__}: {e!s:.80}"
            del e
        audit.on = False
        ctx.count("operations")
        if warm:
            ctx.count("writes_seen", len(WRITES))
            out = strayed([os.path.realpath(d), os.path.realpath(tmp)])
            ctx.check(not out, lambda: f"{what} changed files elsewhere than in the directory it was given: {out!r:.400}")
        WRITES.clear()
        compare(ctx, st, state(), what, warm)
        return what
    # threads of Python itself (not those of numba's or jax's pools): none may be left even by the first use
    own = lambda: {t for t in threading.enumerate() if type(t).__name__ != "TMonitor" and t.name != "mon-server"}
    at_first = own()
    try:
        for _ in range(5 if name in ctx.warmed else 14):
            once(False)
        ctx.warmed.add(name)
        reps = 12 if name in ("download", "hub", "evaluate") else 25

        def look():
            gc.collect()
            return dict(descriptors=descriptors(), mappings=mapped(ctx.job["scratch"]), threads=len(os.listdir("/proc/self/task")), children=children(), files=files(tmp, work, ctx.home))
        gc.collect()
        before = look()
        reg = registered()
        tracemalloc.start()
        once()
        gc.collect()
        h0 = tracemalloc.get_traced_memory()[0]
        what = [once() for _ in range(reps)][-1]
        gc.collect()
        h1 = tracemalloc.get_traced_memory()[0]
        snap = None
        if h1 - h0 > 80_000:
            snap = [str(s) for s in tracemalloc.take_snapshot().statistics("lineno")[:3]]
        tracemalloc.stop()
        after = look()
        for k in before:
            if k in ("descriptors", "threads"):
                # what is kept by a connection being torn down goes away by itself
                for _ in range(30):
                    if after[k] == before[k] or (k == "threads" and after[k] <= before[k]):
                        break
                    threading.Event().wait(0.1)
                    after = look()
            if k == "threads":
                # a native pool (of jax, say) may still start a worker; a leak goes on for ever
                for _ in range(3):
                    if after[k] <= before[k]:
                        break
                    ctx.count("threads_looked_again")
                    before[k] = after[k]
                    for _ in range(reps):
                        once()
                    after[k] = look()[k]
                ctx.check(after[k] <= before[k], lambda: f"{name}: the number of threads keeps growing, {after[k]} after {reps} repetitions, {before[k]} before: {threading.enumerate()!r:.300}")
            else:
                extra = list(after[k])
                for x in before[k]:
                    if x in extra:
                        extra.remove(x)
                ctx.check(not extra, lambda: f"{name}: {reps + 1} repetitions left {k} behind: {extra!r:.500} (last: {what})")
        if any(v - reg[k] > 2 for k, v in registered().items()):
            # a first import may register some; a leak goes on for ever
            reg = registered()
            for _ in range(reps):
                once()
            gc.collect()
        for k, v in registered().items():
            ctx.check(v - reg[k] <= 2, lambda: f"{name}: {reps + 1} repetitions left {v - reg[k]} more {k} registered with the interpreter (last: {what})")
        ctx.count("registries_compared")
        for _ in range(50):
            if own() <= at_first:
                break
            threading.Event().wait(0.1)
        ctx.check(own() <= at_first, lambda: f"{name}: {n} operations left the threads {own() - at_first!r:.300} running")
        ctx.check(h1 - h0 <= 80_000, lambda: f"{name}: the heap grew by {h1 - h0} bytes in {reps} repetitions, most of it at {snap}")
        ctx.count("heap_comparisons")
        ctx.maximum("heap_growth", h1 - h0)
        ctx.maximum("heap_growth_" + name, h1 - h0)
        if name not in ctx.kinds:
            ctx.kinds.add(name)
            ctx.count("operation_kinds")
        ctx.nontrivial((name, ctx.index, ctx.numba, os.environ.get("MON_BLOCK")))
        ctx.sample(dict(operation=name, repetitions=reps, heap_growth=h1 - h0, descriptors=len(before["descriptors"]), threads=before["threads"]))
    finally:
        tracemalloc.stop()
        os.chdir(old_cwd)
        tempfile.tempdir = old_tmp
        os.environ["TMPDIR"] = ctx.job["scratch"]


def has(m):
    try:
        __import__(m)
        return True
    except ImportError:
        return False
