"""C06 documents: each returned document is the corpus entry at the index returned without a corpus."""
from .. import gen
from ..oracle import Ref
from ..util import *
import json

LEVEL = "exploration"
RULE = ("random indexes with corpora of strings (with trailing NULs), dictionaries, equal-length and ragged lists, tuples, numbers, None, custom objects and mixtures, in lists, tuples, "
        "1-d arrays (of objects, strings, dates, numbers, records, with strides), arrays of more dimensions (a row being a document) and on-disk corpora, given at construction, at retrieval or loaded; both backends, batches, k, threads, return_as. "
        "Non-trivial: a result with at least one document checked; distinct by (corpus, container, result indices).")
ASSUMPTIONS = ["the same call without a corpus is deterministic (it is made twice and compared)"]


def plan(tier):
    q = tier == "quick"
    f = 1 if q else 30
    return [
        dict(cases=[("numpy", 900 * f), ("jsonl", 250 * f)], workers=4),
        dict(cases=[("numba", 250 * f), ("numba_jsonl", 80 * f)], workers=1, env={"MON_SIG": "float32,int32,0,none"}),
        dict(cases=[("numba", 200 * f)], workers=1, env={"MON_SIG": "float64,int32,1,none"}),
    ]


def MIN(tier):
    return {"distinct": 1000, "documents_checked": 10000, "jsonl_documents": 500, "cases_numba": 60, "edited_corpora": 100, "typed_arrays": 100, "tables": 40, "other_length_corpora": 100, "too_short_rejected": 20, "changed_by_caller": 300}


class Obj:
    def __init__(self, i):
        self.i = i


def doc(rng, kind, i):
    u = lambda: gen.unicode_string(rng, 6)
    if kind == "str":
        return rng.choice(["", u(), f"d{i}", "x" * rng.randint(0, 60), "nul\x00", " "])
    if kind == "dict":
        return {"id": i, "text": u(), "meta": {"a": [u(), rng.randint(0, 9)]}}
    if kind == "list2":
        return [i, rng.randint(0, 9)]
    if kind == "liststr":
        return [u(), f"d{i}"]
    if kind == "ragged":
        return [rng.randint(0, 9) for _ in range(rng.randint(0, 3))]
    if kind == "tuple":
        return (i, u())
    if kind == "nested":
        return [[i, 1], [2, rng.randint(0, 3)]]
    if kind == "int":
        return rng.choice([i, -i, 2 ** 53 + 1 + i, 2 ** 70 + i])
    if kind == "float":
        return rng.choice([i + 0.5, float(i), 1e300])
    if kind == "bool":
        return bool(rng.getrandbits(1))
    if kind == "none":
        return None
    if kind == "obj":
        return Obj(i)
    if kind == "bytes":
        return b"d%d" % i
    raise KeyError(kind)


KINDS = ["str", "str", "dict", "dict", "list2", "liststr", "ragged", "tuple", "nested", "int", "float", "bool", "none", "obj", "bytes", "mixed", "mixed"]


def corpus_docs(rng, n, json_only=False):
    kind = rng.choice(KINDS)
    pool = [k for k in KINDS if k != "mixed"]
    if json_only:
        pool = ["str", "dict", "list2", "liststr", "ragged", "nested", "float", "bool", "none"]
        kind = rng.choice(pool + ["mixed", "mixed"])
    if kind == "mixed":
        few = rng.choice([rng.sample(pool, 2), [x for x in pool if x in ("int", "float", "bool")]]) if rng.random() < 0.6 else pool
        return kind, [doc(rng, rng.choice(few), i) for i in range(n)]
    return kind, [doc(rng, kind, i) for i in range(n)]


def same(a, b):
    if a is b:
        return True
    for t in (str, dict, list, tuple, bytes, type(None), (bool, np.bool_), (float, np.floating)):
        if isinstance(a, t) != isinstance(b, t):
            return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and freeze(a.tolist()) == freeze(b.tolist())
    try:
        return bool(a == b)
    except Exception:
        return False


def observe(ctx, rng, r, voc, corpus, entry, n, kw, what, on_index=False):
    """corpus: argument for retrieve (None when the index has its own); entry(i): the expected document."""
    qs = [gen.query(rng, voc) for _ in range(rng.choice([1, 1, 2, 5]))]
    k = rng.choice([1, n, rng.randint(1, n)])
    own = r.corpus
    r.corpus = None
    bare = r.retrieve([list(q) for q in qs], k=k, **kw)
    again = r.retrieve([list(q) for q in qs], k=k, **kw)
    r.corpus = own
    idx, sc = rows(bare)
    if freeze(idx) != freeze(rows(again)[0]):
        ctx.count("nondeterministic_rows")
        return
    args = {} if corpus is None else {"corpus": corpus}
    res = r.retrieve([list(q) for q in qs], k=k, **kw, **args)
    only = r.retrieve([list(q) for q in qs], k=k, return_as="documents", **kw, **args)
    ctx.check(np.array_equal(rows(res)[1], sc), f"{what}: attaching a corpus changed the scores")
    for name, docs in (("tuple", res.documents), ("documents", only)):
        ctx.check(isinstance(docs, np.ndarray), lambda: f"{what}: documents are a {type(docs)}")
        ctx.check(docs.shape == idx.shape, lambda: f"{what} ({name}): documents of shape {docs.shape} instead of {idx.shape}", k=k, queries=len(qs))
        for i in range(len(qs)):
            for j in range(k):
                ctx.count("documents_checked")
                e = entry(int(idx[i, j]))
                ctx.check(same(e, docs[i, j]), lambda: f"{what} ({name}): position ({i},{j}), index {idx[i, j]}: got {docs[i, j]!r} instead of {e!r}")
    ctx.nontrivial((what, idx.tobytes(), n, repr(entry(0))))


def edited(ctx, rng, r, voc, corpus, entry, n, kw, what):
    """Documents read from a file are the caller's own: one that is changed changes no other and no later answer."""
    q = gen.query(rng, voc)
    own = r.corpus
    r.corpus = None
    idx, _ = rows(r.retrieve([list(q), list(q)], k=n, **kw))
    r.corpus = own
    args = {} if corpus is None else {"corpus": corpus}
    docs, _ = rows(r.retrieve([list(q), list(q)], k=n, **kw, **args))
    at = [(i, j) for i in range(2) for j in range(n) if isinstance(docs[i, j], (dict, list))]
    rng.shuffle(at)
    at = at[:max(1, len(at) // 2)]
    for p in at:
        x = docs[p]
        x.clear() if rng.random() < 0.5 else x.update(changed="yes") if isinstance(x, dict) else x.append("changed")
    for i in range(2):
        for j in range(n):
            if (i, j) not in at:
                ctx.check(same(entry(int(idx[i, j])), docs[i, j]), lambda: f"{what}: changing the documents at {at[:5]} of a result made the one at {(i, j)} {docs[i, j]!r:.200}")
    later, _ = rows(r.retrieve([list(q), list(q)], k=n, **kw, **args))
    for i in range(2):
        for j in range(n):
            ctx.check(same(entry(int(idx[i, j])), later[i, j]), lambda: f"{what}: after a returned document was changed, the same search returns {later[i, j]!r:.200} instead of {entry(int(idx[i, j]))!r:.200}")
    ctx.count("changed_by_caller", len(at))


def index(ctx, rng, p, backend, corpus=None):
    docs = gen.corpus(rng)
    return docs, gen.vocab_of(docs), (lambda c: make(ctx, docs, p, backend=backend, corpus=c))


def typed(rng, n):
    """A 1-d array of a plain type: its elements are the documents."""
    kind = rng.choice(["datetime", "timedelta", "float", "int", "bool", "bytes", "complex", "string", "record", "float16", "uint64"])
    ints = [rng.randint(-9, 9) * (i + 1) for i in range(n)]
    if kind in ("datetime", "timedelta"):
        a = np.array(ints, dtype="int64").astype(kind + "64[D]")
    elif kind == "string":
        a = np.array([rng.choice(["", "b", "a"]) + "é" * (abs(i) % 5) for i in ints], dtype=str)
    elif kind == "bytes":
        a = np.array([b"d%d" % i for i in ints])
    elif kind == "record":
        a = np.array([(i, j / 2) for j, i in enumerate(ints)], dtype=[("a", "i4"), ("b", "f8")])
    elif kind == "uint64":
        a = np.array([2 ** 63 + abs(i) for i in ints], dtype="uint64")
    else:
        a = np.array(ints).astype(kind) + (np.array(1.5).astype(kind) if kind in ("float", "float16") else 1j if kind == "complex" else np.array(0).astype(kind))
    if n > 1 and rng.random() < 0.3:
        a = np.concatenate([a, a])[::2] if rng.random() < 0.5 else a[::-1]  # views with a stride
        a = a[:n]
    return kind, a


def table(rng, n):
    """An array of more dimensions: its rows are the documents."""
    shape = (n,) + rng.choice([(1,), (2,), (3,), (n,), (0,), (2, 2), (1, 1)])
    kind = rng.choice(["int", "float", "str", "object"])
    vals = [rng.choice([i, -i, 7]) if kind == "int" else i / 4 if kind == "float" else rng.choice(["", "b", f"d{i}"]) if kind == "str" else rng.choice([None, "x", i, {"i": i}]) for i in range(int(np.prod(shape)))]
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return f"{kind} rows of shape {shape[1:]}", a.astype({"str": str}.get(kind, kind)).reshape(shape)


def containers(rng, docs):
    out = [("list", docs), ("tuple", tuple(docs))]
    arr = np.empty(len(docs), dtype=object)
    for i, d in enumerate(docs):
        arr[i] = d
    out.append(("object array", arr))
    if all(isinstance(d, str) and not d.endswith("\x00") for d in docs):
        out.append(("string array", np.array(docs, dtype=str)))
    return out


def run(ctx, rng, backend, p, kws):
    docs_t, voc, mk = index(ctx, rng, p, backend)
    n = len(docs_t)
    kind, docs = corpus_docs(rng, n)
    name, cont = rng.choice(containers(rng, docs))
    if rng.random() < 0.25:
        kind, cont = typed(rng, n)
        docs, name, kind = list(cont), "typed array", kind + " elements"
        ctx.count("typed_arrays")
    elif rng.random() < 0.15:
        kind, cont = table(rng, n)
        docs, name = list(cont), "table"
        ctx.count("tables")
    other = [{"wrong": i} for i in range(n)]
    where = rng.choice(["init", "arg", "both"])
    r = mk(cont if where == "init" else other if where == "both" else None)
    keep = freeze(docs) if kind not in ("obj", "mixed") and name not in ("typed array", "table") else None
    raw = cont.tobytes() if name in ("typed array", "table") and cont.dtype != object else None
    observe(ctx, rng, r, voc, None if where == "init" else cont, lambda i: docs[i], n, rng.choice(kws), f"{kind} documents in {name} ({where}), {backend}")
    ctx.check(keep is None or freeze(docs) == keep, "the corpus was changed")
    ctx.check(raw is None or cont.tobytes() == raw, "the corpus array was changed")
    if where != "init" and name in ("list", "object array"):
        # the caller edits the corpus it passes between two calls, and passes others
        kind2, docs2 = corpus_docs(rng, n)
        for i in range(n):
            cont[i] = docs2[i]
        observe(ctx, rng, r, voc, cont, lambda i: docs2[i], n, rng.choice(kws), f"{kind2} documents in {name} edited in place ({where}), {backend}")
        ctx.count("edited_corpora")
    if n > 1 and rng.random() < 0.3:
        short(ctx, rng, r, voc, n, backend, rng.choice(kws))
    if where != "arg":
        expect = docs if where == "init" else other
        observe(ctx, rng, r, voc, None, lambda i: expect[i], n, rng.choice(kws), f"own documents of a retriever ({where}) after other calls, {backend}")
    ctx.sample(dict(kind=kind, container=name, where=where, n=n))


def short(ctx, rng, r, voc, n, backend, kw):
    """A corpus argument with fewer or more entries than the index: its own entries, or an error."""
    m = rng.choice([1, n - 1, n - 1, rng.randint(1, n), n + 1, n + 5])
    kind, docs = corpus_docs(rng, m)
    name, cont = rng.choice(containers(rng, docs))
    q = gen.query(rng, voc)
    for k in {1, rng.randint(1, n)}:
        own, r.corpus = r.corpus, None
        idx = rows(r.retrieve([list(q)], k=k, **kw))[0]
        stable = freeze(idx) == freeze(rows(r.retrieve([list(q)], k=k, **kw))[0])
        r.corpus = own
        if not stable:
            continue
        what = f"{m} {kind} documents in {name} for an index of {n}, results {idx.tolist()!r:.100}, {backend}"
        fits = int(idx.max()) < m
        try:
            got = r.retrieve([list(q)], k=k, corpus=cont, **kw).documents
        except Exception as e:
            # another length may be rejected altogether
            ctx.check(m != n, lambda: f"{what}: {e!r}")
            ctx.count("too_short_rejected")
            continue
        ctx.check(fits, lambda: f"{what}: got {got!r:.200} although there is no such entry")
        for j in range(k):
            ctx.check(same(docs[int(idx[0, j])], got[0, j]), lambda: f"{what}: position {j}: got {got[0, j]!r} instead of {docs[int(idx[0, j])]!r}")
        ctx.count("other_length_corpora")
        ctx.nontrivial((what, q))


def case_numpy(ctx, rng):
    kws = [dict(backend_selection="numpy", show_progress=False), dict(backend_selection="numpy", n_threads=3, show_progress=False)]
    if ctx.index % 6 == 0:
        kws += [dict(backend_selection="auto", show_progress=False)]
    run(ctx, rng, "numpy", gen.params(rng), kws)


def case_numba(ctx, rng):
    run(ctx, rng, "numba", sig_params(rng), [dict(show_progress=False), dict(n_threads=4, show_progress=False), dict(backend_selection="numba", sorted=False, show_progress=False)])


def jsonl(ctx, rng, backend, p, kw):
    docs_t, voc, mk = index(ctx, rng, p, backend)
    n = len(docs_t)
    kind, docs = corpus_docs(rng, n, json_only=True)
    d = ctx.scratch()
    path = d + "/c.jsonl"
    with open(path, "w", encoding="utf-8") as f:
        for x in docs:
            f.write(json.dumps(x, ensure_ascii=rng.random() < 0.5) + "\n")
    c = ctx.bm25s.utils.corpus.JsonlCorpus(path, show_progress=False, verbosity=0)
    where = rng.choice(["init", "arg", "loaded"])
    expect = docs
    if where == "loaded":
        expect = [({"id": i, "text": x} if isinstance(x, str) else x) for i, x in enumerate(docs)]
        # scalars are not documents for save: only store what it documents as storable
        expect = [x if isinstance(x, (dict, list)) else {"v": i} for i, x in enumerate(expect)]
        r0 = mk(None)
        r0.save(d + "/idx", corpus=expect)
        r = ctx.bm25s.BM25.load(d + "/idx", load_corpus=True, mmap=rng.random() < 0.7)
        r.backend = backend
        if backend == "numba":
            r2 = mk(r.corpus)
            r = r2
        observe(ctx, rng, r, voc, None, lambda i: expect[i], n, kw, f"{kind} documents loaded from disk, {backend}")
        if rng.random() < 0.5:
            observe(ctx, rng, r, voc, c, lambda i: docs[i], n, kw, f"{kind} documents in JsonlCorpus given to an index with a loaded corpus, {backend}")
            observe(ctx, rng, r, voc, None, lambda i: expect[i], n, kw, f"{kind} documents loaded from disk after another corpus, {backend}")
    else:
        r = mk(c if where == "init" else None)
        observe(ctx, rng, r, voc, None if where == "init" else c, lambda i: expect[i], n, kw, f"{kind} documents in JsonlCorpus ({where}), {backend}")
        edited(ctx, rng, r, voc, None if where == "init" else c, lambda i: expect[i], n, kw, f"{kind} documents in JsonlCorpus ({where}), {backend}")
    ctx.count("jsonl_documents", n)
    c.close()


def case_jsonl(ctx, rng):
    jsonl(ctx, rng, "numpy", gen.params(rng), dict(backend_selection="numpy", n_threads=rng.choice([0, 0, 3]), show_progress=False))


def case_numba_jsonl(ctx, rng):
    jsonl(ctx, rng, "numba", sig_params(rng), dict(show_progress=False))
