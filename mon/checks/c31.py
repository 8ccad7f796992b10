"""C31 memory mapping: indexes whose postings and documents are much larger than the allowance are loaded with mmap=True and searched while allocations are traced, the data segment is limited and the process's mappings are read.

The monitors are tracemalloc (every allocation of Python and numpy), the kernel's limit on private memory (also for compiled code) and /proc/self/smaps (what stays mapped and resident). Answers are compared with the arrays the index was written from, so that nothing is saved by not doing the work."""
import gc
import json
import os
import resource
import tracemalloc

from .. import gen, layout
from ..oracle import check_topk
from ..util import *

LEVEL = "exploration"
MB = 1 << 20
RULE = ("indexes of 25-60 MB of values, of row numbers and of documents each x load(mmap=True) with and without corpus and line index x numpy, compiled scorer and numba, threads, masks, batches with load_scores and corpus.load between them, saving elsewhere, record access; "
        "allowance 3 MB plus what documents, vocabulary and results need. Non-trivial: a mapped index searched within the allowance with correct answers; distinct by index, backend and history.")
ASSUMPTIONS = ["memory in proportion to the number of documents, of tokens and of results is allowed", "Linux: /proc/self/smaps and RLIMIT_DATA", "file pages the kernel can drop are not counted"]


def plan(tier):
    f = 1 if tier == "quick" else 30
    s = 100 if tier == "quick" else 2400
    return [dict(cases=[("search", 14 * f), ("batches", 8 * f), ("records", 8 * f)], workers=2, soft=s),
            dict(cases=[("search", 8 * f), ("batches", 5 * f)], workers=1, env={"MON_SIG": "float32,int32,0,none"}, soft=s),
            dict(cases=[("search", 4 * f), ("batches", 2 * f), ("records", 4 * f)], workers=1, env={"MON_BLOCK": "orjson,numba"}, soft=s)]


def MIN(tier):
    return {"distinct": 30, "traced_calls": 150, "limited_calls": 20, "rows_checked": 200, "mapped_bytes": 2 * 10 ** 9, "reloads": 30, "saved_elsewhere": 4, "records_read": 500}


def setup(ctx):
    ctx.numba = "MON_SIG" in os.environ


class Big:
    """An index written directly, in memory once and then dropped."""

    def __init__(self, ctx, rng, d, corpus=True, method=None):
        g = np.random.default_rng(rng.randrange(2 ** 32))
        self.d, self.n = d, rng.choice([2000, 4000, 7000])
        self.dtype = "float32"
        target = rng.choice([7, 10]) * 10 ** 6  # postings
        heavy = target // (self.n * 3 // 4)
        self.v = heavy + 300
        self.order = g.permutation(self.v)  # which columns are heavy
        data, indices, ptr = [], [], [0]
        base = np.arange(self.n, dtype=np.int32)
        self.light = []
        self.method = method or rng.choice(["lucene", "robertson", "atire"] + ["bm25+"] * (not ctx.numba))
        for c in range(self.v):
            if self.order[c] < heavy:
                rows = base[g.random(self.n) < 0.75]
            else:
                rows = np.sort(g.choice(self.n, g.integers(1, 30), replace=False)).astype(np.int32)
                self.light.append(c)
            data.append(g.random(len(rows), dtype=np.float32))
            indices.append(rows)
            ptr.append(ptr[-1] + len(rows))
        self.cols = {c: (indices[c], data[c]) for c in self.light}
        self.some = {c: (indices[c].copy(), data[c].copy()) for c in map(int, g.choice(self.v, 12))}
        self.nnoc = g.random(self.v, dtype=np.float32) if self.method == "bm25+" else None
        self.postings = ptr[-1]
        layout.write_arrays(d, np.concatenate(data), np.concatenate(indices), np.array(ptr, dtype=np.int32), self.nnoc)
        self.cols = {c: (x.copy(), y.copy()) for c, (x, y) in self.cols.items()}
        layout.write_json(os.path.join(d, "vocab.index.json"), dict({f"t{c}": c for c in range(self.v)}))
        layout.write_json(os.path.join(d, "params.index.json"), dict(k1=1.5, b=0.75, delta=0.5, method=self.method, idf_method=self.method, dtype="float32", int_dtype="int32", num_docs=self.n, version="0.2.5", backend="numba" if ctx.numba else "numpy"))
        self.bytes = self.postings * 8
        self.corpus = corpus
        if corpus:
            size = 28 * MB // self.n
            filler = "".join(rng.choice("abcdefghij ") for _ in range(size + 1000))
            off = [0]
            with open(os.path.join(d, "corpus.jsonl"), "wb") as f:
                for i in range(self.n):
                    a = rng.randrange(1000)
                    line = json.dumps({"id": i, "text": f"document {i} {filler[a:a + size - rng.randrange(200)]}"}).encode() + b"\n"
                    f.write(line)
                    off.append(off[-1] + len(line))
            self.bytes += off[-1]
            if rng.random() < 0.6:
                layout.write_json(os.path.join(d, "corpus.mmindex.json"), off[:-1])
        # every part alone is well over the allowance
        self.allowance = 3 * MB + self.n * 400 + self.v * 300

    def query(self, rng):
        some = sorted(self.some)
        return [rng.choice(self.light) if rng.random() < 0.6 else rng.choice(some) for _ in range(rng.randint(1, 8))]

    def scores(self, q):
        s = np.zeros(self.n)
        for c in q:
            rows, vals = self.cols.get(c) or self.some[c]
            s[rows] += vals
            if self.nnoc is not None:
                s += float(self.nnoc[c])
        return s


class Trace:
    """The peak of what was allocated inside, in bytes, over what there was before."""

    def __init__(self, ctx, what, limit, result=0):
        self.ctx, self.what, self.limit = ctx, what, limit

    def __enter__(self):
        gc.collect()
        tracemalloc.start()
        self.t0 = tracemalloc.get_traced_memory()[0]
        return self

    def __exit__(self, t, e, tb):
        self.now, self.peak = tracemalloc.get_traced_memory()
        tracemalloc.stop()
        if t is None:
            self.ctx.count("traced_calls")
            self.ctx.maximum("peak_kb", self.peak // 1024)
            self.ctx.check(self.peak - self.t0 <= self.limit, lambda: f"{self.what} allocated {self.peak / MB:.1f} MB at its peak, {self.limit / MB:.1f} MB are enough without a copy of the mapped files")


def status(key):
    for line in open("/proc/self/status"):
        if line.startswith(key + ":"):
            return int(line.split()[1]) * 1024
    return 0


def mappings(d):
    """Resident bytes of each mapping of a file in the directory: {file: [bytes]}."""
    out, cur = {}, None
    for line in open("/proc/self/smaps"):
        f = line.split()
        if "-" in f[0] and not f[0].endswith(":"):
            path = " ".join(f[5:])
            cur = os.path.basename(path) if path.startswith(d + "/") else None
            if cur:
                out.setdefault(cur, []).append(0)
        elif cur and f[0] == "Rss:":
            out[cur][-1] += int(f[1]) * 1024
    return out


def limited(ctx, what, limit, fn):
    """fn() with the process's private memory limited."""
    gc.collect()
    now = status("VmData")
    soft, hard = resource.getrlimit(resource.RLIMIT_DATA)
    resource.setrlimit(resource.RLIMIT_DATA, (now + limit, hard))
    try:
        r = fn()
    except (MemoryError, OSError) as e:
        resource.setrlimit(resource.RLIMIT_DATA, (soft, hard))
        ctx.fail(f"{what} needs more than {limit / MB:.0f} MB of private memory: {type(e).__name__} {e}")
    finally:
        resource.setrlimit(resource.RLIMIT_DATA, (soft, hard))
    ctx.count("limited_calls")
    return r


def judge(ctx, big, res, qs, k, what, mask=None, corpus=False):
    for i, q in enumerate(qs):
        full = big.scores(q)
        tol = (len(q) + 8) * 2 ** -23 * (full + 1) * 2
        if mask is not None:
            full, tol = full * mask, tol * np.abs(mask)
        idx = res.documents[i]
        if corpus:
            for x in idx:
                ctx.check(isinstance(x, dict) and x["text"].startswith(f"document {x['id']} "), lambda: f"{what}: returned {x!r:.100}")
            idx = np.array([x["id"] for x in idx])
        check_topk(ctx, full, tol, idx, res.scores[i], k, True, f"{what}: query {q}")


def opened(ctx, rng, corpus=None):
    d = ctx.scratch()
    big = Big(ctx, rng, d, corpus=rng.random() < 0.6 if corpus is None else corpus)
    what = f"index of {big.postings} postings, {big.n} documents{', corpus' if big.corpus else ''} ({big.bytes // MB} MB), {big.method}"
    lc = big.corpus and (corpus or rng.random() < 0.8)
    with Trace(ctx, f"{what}: load(mmap=True, load_corpus={lc})", big.allowance):
        r = ctx.bm25s.BM25.load(d, mmap=True, load_corpus=lc)
    ctx.count("mapped_bytes", big.bytes)
    return big, r, lc, what


def warm(ctx, rng, r):
    """What is compiled or imported on first use."""
    if "warm" in ctx.cache:
        return
    ctx.cache["warm"] = True
    d = ctx.scratch()
    s = ctx.bm25s.BM25(backend=r.backend, method="lucene")
    s.index([["t1", "t2"], ["t2"]] * 4, show_progress=False)
    s.save(d)
    s = ctx.bm25s.BM25.load(d, mmap=True)
    for t in (0, 2, 4):
        s.retrieve([["t1"], ["t2"]], k=3, show_progress=False, n_threads=t)
        if not ctx.numba:
            for b in ("numpy", "auto"):
                s.retrieve([["t1"], ["t2"]], k=3, show_progress=False, n_threads=t, backend_selection=b)


def case_search(ctx, rng):
    big, r, lc, what = opened(ctx, rng)
    warm(ctx, rng, r)
    sel = "auto" if ctx.numba else "numpy"
    for step in range(5):
        qs = [big.query(rng) for _ in range(rng.choice([1, 3, 10]))]
        form = [[f"t{c}" for c in q] for q in qs] if rng.random() < 0.7 else [list(q) for q in qs]
        k = rng.choice([1, 10, 50])
        th = rng.choice([0, 0, 2, 4])
        kw = dict(k=k, show_progress=False, n_threads=th, backend_selection=sel)
        mask = None
        if not ctx.numba and rng.random() < 0.3:
            mask = np.array([rng.choice([0, 1, 2]) for _ in range(big.n)], dtype=rng.choice(["float32", "int64"]))
            kw["weight_mask"] = mask
        one = big.n * 60 * (max(1, th) + 1)
        limit = big.allowance + one + len(qs) * k * (400 + (30000 if lc else 0))
        call = f"{what}: retrieve of {len(qs)} queries, k={k}, n_threads={th}, {r.backend}"
        if rng.random() < 0.6:
            with Trace(ctx, call, limit):
                res = r.retrieve(form, **kw)
        elif ctx.numba or th == 0:
            res = limited(ctx, call, limit + 12 * MB, lambda: r.retrieve(form, **kw))
        else:
            res = r.retrieve(form, **kw)
        judge(ctx, big, res, qs, k, call, mask, lc)
        if not ctx.numba and rng.random() < 0.5:
            with Trace(ctx, f"{what}: get_scores", big.allowance + one):
                s = r.get_scores(form[0])
            full = big.scores(qs[0])
            ctx.check(bool((np.abs(s - full) <= (len(qs[0]) + 8) * 2 ** -22 * (full + 1)).all()), lambda: f"{what}: get_scores of {qs[0]} is {s!r:.200} instead of {full!r:.200}")
    for a in ("data", "indices"):
        m = mappings(big.d)
        f = f"{a}.csc.index.npy"
        ctx.check(len(m.get(f, [])) == 1, lambda: f"{what}: {f} is mapped {len(m.get(f, []))} times while the index is in use")
    if rng.random() < 0.3:
        stored_again(ctx, rng, big, r, lc, what)
    ctx.nontrivial(("search", big.postings, big.n, big.method, lc, ctx.index, ctx.numba))
    ctx.sample(dict(index=what, allowance_mb=big.allowance / MB, private_mb=status("RssAnon") // MB))


def stored_again(ctx, rng, big, r, lc, what):
    """A mapped index saved elsewhere goes from file to file."""
    d = ctx.scratch()
    how = rng.choice(["trace", "limit"])
    corpus = None
    if lc and rng.random() < 0.3:
        corpus = (x for x in r.corpus)
    if how == "trace":
        with Trace(ctx, f"{what}: save to another directory", big.allowance + 2 * MB):
            r.save(d, corpus=corpus)
    else:
        limited(ctx, f"{what}: save to another directory", big.allowance + 14 * MB, lambda: r.save(d, corpus=corpus))
    for a in ("data", "indices", "indptr"):
        f = f"{a}.csc.index.npy"
        x, y = np.load(os.path.join(big.d, f), mmap_mode="r"), np.load(os.path.join(d, f), mmap_mode="r")
        ctx.check(x.shape == y.shape and all(np.array_equal(x[i:i + MB], y[i:i + MB]) for i in range(0, len(x), MB)), lambda: f"{what}: saved elsewhere, {f} differs from the one it was mapped from")
    if lc:
        with open(os.path.join(d, "corpus.jsonl"), "rb") as f, open(os.path.join(big.d, "corpus.jsonl"), "rb") as g:
            n = 0
            for a, b in zip(f, g):
                ctx.check(json.loads(a) == json.loads(b), lambda: f"{what}: saved elsewhere, record {n} is {a[:80]!r}")
                n += 1
            ctx.check(n == big.n and not f.read(1) and not g.read(1), lambda: f"{what}: saved elsewhere, the corpus has another number of records")
    ctx.count("saved_elsewhere")


def case_batches(ctx, rng):
    """The loop of the batching example: scores and corpus are opened again after each batch to free memory."""
    big, r, lc, what = opened(ctx, rng)
    warm(ctx, rng, r)
    num_docs = r.scores["num_docs"]
    sel = "auto" if ctx.numba else "numpy"
    base = None
    for b in range(8):
        qs = [big.query(rng) for _ in range(rng.choice([1, 5, 20]))]
        form = [[f"t{c}" for c in q] for q in qs]
        k = rng.choice([1, 10])
        res = r.retrieve(form, k=k, show_progress=False, backend_selection=sel)
        judge(ctx, big, res, qs, k, f"{what}: batch {b + 1}", None, lc)
        # read everything through the mapping, as a search of many queries does in the end
        total = float(r.scores["data"][:].sum()) + int(r.scores["indices"][-1])
        del res, total
        m = mappings(big.d)
        ctx.maximum("resident_mb", sum(map(sum, m.values())) // MB)
        with Trace(ctx, f"{what}: load_scores(mmap=True)", big.allowance):
            r.load_scores(save_dir=big.d, mmap=True, num_docs=num_docs)
        if r.corpus is not None:
            with Trace(ctx, f"{what}: corpus.load()", big.allowance):
                r.corpus.load()
        gc.collect()
        m = mappings(big.d)
        left = sum(map(sum, m.values()))
        ctx.check(left <= 4 * MB, lambda: f"{what}: {left / MB:.1f} MB of the files are still mapped and resident after scores and corpus were opened again (batch {b + 1}): {m}")
        ctx.check(all(len(x) == 1 for x in m.values()), lambda: f"{what}: files mapped more than once after being opened again (batch {b + 1}): {m}")
        anon = status("RssAnon")
        if b == 1:
            base = anon
        elif b > 1:
            ctx.check(anon - base <= big.allowance + 8 * MB, lambda: f"{what}: private memory grew by {(anon - base) / MB:.1f} MB from batch 2 to batch {b + 1}")
        ctx.count("reloads")
    if lc:
        c = r.corpus
        if rng.random() < 0.5:
            c.close()
        del r, c
    else:
        del r
    gc.collect()
    m = mappings(big.d)
    ctx.check(not m, lambda: f"{what}: still mapped after the index is gone: {m}")
    ctx.nontrivial(("batches", big.postings, big.n, big.method, lc, ctx.index, ctx.numba))


def case_records(ctx, rng):
    """Reading documents one by one from a corpus much larger than the allowance; making its line index."""
    d = ctx.scratch()
    n = rng.choice([500, 3000, 8000])
    size = 40 * MB // n
    path = os.path.join(d, "corpus.jsonl")
    filler = "".join(rng.choice("abcdefghij \u00e9\u4e2d") for _ in range(size + 500))
    with open(path, "wb") as f:
        for i in range(n):
            a = rng.randrange(500)
            f.write(json.dumps({"id": i, "text": filler[a:a + size - rng.randrange(100)]}, ensure_ascii=False).encode() + b"\n")
    C = ctx.bm25s.utils.corpus
    longest = size * 40
    limit = 3 * MB + n * 300 + longest
    what = f"corpus of {n} documents, {os.path.getsize(path) // MB} MB"
    with Trace(ctx, f"{what}: JsonlCorpus()", limit):
        c = C.JsonlCorpus(path, show_progress=False, verbosity=0)
    ctx.count("mapped_bytes", os.path.getsize(path))
    for _ in range(6):
        k = rng.randint(1, 10)
        ids = [rng.randrange(n) for _ in range(k)]
        with Trace(ctx, f"{what}: reading {k} documents", limit + longest * k):
            form = rng.randrange(5)
            if form > 2:  # documents next to each other, or evenly spaced, or from the end
                a, step = rng.randrange(n - 9), rng.choice([1, 1, -1])
                ids = list(range(n))[slice(a, a + k)] if step == 1 else list(range(n))[slice(a + k, a, -1)]
                s = slice(a, a + k) if step == 1 else slice(a + k, a, -1)
                if form == 4:
                    ids, s = [n - 2, n - 1], slice(-2, None)
                ctx.count("slices_read")
            x = [c[i] for i in ids] if form == 0 else c[ids] if form == 1 else c[np.array(ids)].tolist() if form == 2 else c[s]
        ctx.check([y["id"] for y in x] == ids, lambda: f"{what}: documents {ids} read as {[y['id'] for y in x]}")
        ctx.count("records_read", k)
        del x
    with Trace(ctx, f"{what}: reading every 20th document, one by one", limit + longest):
        for i in range(0, n, 20):
            c[i]["id"]
    ctx.count("records_read", n // 20)
    with Trace(ctx, f"{what}: opening it again", limit):
        c.load()
    m = mappings(d)
    ctx.check(len(m.get("corpus.jsonl", [])) == 1 and sum(map(sum, m.values())) <= 4 * MB, lambda: f"{what}: mapped and resident after being opened again: {m}")
    c.close()
    ctx.check(not mappings(d), lambda: f"{what}: still mapped after close: {mappings(d)}")
    ctx.nontrivial(("records", n, size, ctx.index))
