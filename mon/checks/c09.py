"""C09 re-indexing and failed calls: histories of index calls and of calls made to fail, with answers compared after every step with a reference of the corpus of the last successful index call.

Failures come from malformed arguments, iterables that raise at a random element, exceptions injected into progress bars, and writes refused by a file-size limit of the process."""
import contextlib
import os
import resource

from .. import gen
from ..oracle import Ref, check_topk
from ..util import *

LEVEL = "fault_enumeration"
RULE = ("random histories (6-25 steps) of index (all forms and sizes, growing and shrinking vocabularies and corpora) and of failing calls: malformed or raising corpora, invalid retrievals and scorings, "
        "saves that cannot write (path is a file, missing directory, size limit at a random byte, raising corpus), load_scores of absent and damaged files. Non-trivial: a failed call or a re-index followed by probes; distinct by (step kind, exception, form, parameters).")
ASSUMPTIONS = ["an asynchronous exception between the last assignments of index is not injected"]


def plan(tier):
    f = 1 if tier == "quick" else 40
    return [dict(cases=[("numpy", 400 * f), ("ints", 100 * f)], workers=5),
            dict(cases=[("numba", 80 * f)], workers=1, env={"MON_SIG": "float32,int32,1,float32"}),
            dict(cases=[("numba", 80 * f)], workers=1, env={"MON_SIG": "float32,int32,0,float32"})]


def MIN(tier):
    return {"distinct": 500, "probes": 5000, "reindexed": 1000, "failed_index": 500, "failed_retrieve": 500, "failed_save": 150, "failed_load": 150, "cases_ints": 50, "id_probes": 2000}


class Boom(Exception):
    pass


class Raising:
    """An iterable of documents that raises at element n of pass p."""
    def __init__(self, docs, n, p):
        self.docs, self.n, self.p, self.passes = docs, n, p, 0

    def __iter__(self):
        self.passes += 1
        for i, d in enumerate(self.docs):
            if i == self.n and self.passes == self.p:
                raise Boom("injected")
            yield d

    def __len__(self):
        return len(self.docs)


class Obj:
    pass


@contextlib.contextmanager
def size_limit(n):
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def good_index(ctx, rng, r, docs, cet=True):
    form = rng.choice(["strings", "tuple", "Tokenized", "object", "generator"])
    if form in ("strings", "generator"):
        arg = [list(d) for d in docs]
        if form == "generator":
            arg = iter(arg)
    else:
        ids, v = tokenized(ctx, docs, rng, rng.choice([0, 0, 3]))
        arg = (ids, v)
        if form == "Tokenized":
            arg = ctx.bm25s.tokenization.Tokenized(ids, v)
        elif form == "object":
            arg = Obj()
            arg.ids, arg.vocab = ids, v
    r.index(arg, show_progress=False)
    r.mon_ids = dict(arg[1] if isinstance(arg, tuple) else arg.vocab) if form in ("tuple", "Tokenized", "object") else None
    return form


def by_ids(ctx, rng, r, ref, p, everseen, what):
    """Queries of token ids: the ids of the current vocabulary mean its words, and any other id (of a former index too) none."""
    vocab = getattr(r, "mon_ids", None)
    if vocab is None or not ref.n:
        return
    everseen.update(x for x in vocab.values() if isinstance(x, int))
    rev = {i: t for t, i in vocab.items()}
    gone = sorted(everseen - set(rev)) + [max(rev, default=0) + 5]
    for _ in range(2):
        known = [rng.choice(sorted(rev)) for _ in range(rng.choice([0, 1, 3]))] if rev else []
        q = known + [rng.choice(gone) for _ in range(rng.choice([0, 1, 2]))]
        rng.shuffle(q)
        if not q:
            continue
        words = [rev[i] for i in q if i in rev and rev[i] in ref.post]
        full, m = ref.scores(words)
        k = rng.choice([1, ref.n])
        d, s = rows(r.retrieve([q] if rng.random() < 0.6 else [q, q], k=k, show_progress=False, **({} if r.backend == "numba" else dict(backend_selection="numpy")), return_as="tuple", corpus=list(range(ref.n))))
        check_topk(ctx, full, ref.tol(words, m, p["dtype"]), d[0].astype(int), s[0], k, True, what + ", query by token ids", query=q)
        ctx.count("id_probes")


def bad_corpora(ctx, rng, docs):
    ids, v = tokenized(ctx, docs, rng)
    n = len(docs)
    o = Obj()
    o.ids, o.vocab = None, v
    o2 = Obj()
    o2.ids, o2.vocab = ids, None
    pos = rng.randint(0, n)
    bad = [list(d) for d in docs]
    bad.insert(pos, rng.choice([None, 5, [["unhashable"]], [{}]]))
    bi = [list(d) for d in ids]
    bi.insert(pos, rng.choice([None, 5, [[1]], [len(v) + 7] * 2, ["x"]]))
    return rng.choice([
        ("int", 5), ("none", None), ("tuple", (ids, list(v))), ("tuple", (dict(v), ids)), ("tuple2", (docs[0], docs[0])),
        ("object", o), ("object", o2), ("bad document", bad), ("bad document", bad), ("bad ids", (bi, v)), ("bad ids", (bi, v)),
        ("raising", Raising([list(d) for d in docs], rng.randrange(n), rng.choice([1, 2]))), ("raising", Raising([list(d) for d in docs], rng.randrange(n), rng.choice([1, 2]))),
        ("tuple vocab", (ids, {t: str(i) for t, i in v.items()} if v else {"a": "x"})),
    ])


def bad_retrieve(ctx, rng, r, ref):
    voc = sorted(ref.post) or ["x"]
    q = [[rng.choice(voc)]]
    n = ref.n
    if rng.random() < 0.4:
        # valid arguments next to the invalid one
        kw = dict(k=1, show_progress=False, corpus=[{"other": i} for i in range(n)])
        if rng.random() < 0.5:
            kw["weight_mask"] = np.zeros(n, dtype="float32")
        if rng.random() < 0.5:
            kw.update(n_threads=2, sorted=False, return_as="documents")
        what = rng.choice(["k", "selection", "return_as", "mask", "query"])
        if what == "query":
            q = q + [[{}]]
        else:
            kw.update({"k": dict(k=n + 1), "selection": dict(backend_selection="bogus"), "return_as": dict(return_as="list"), "mask": dict(weight_mask=np.ones(n + 1))}[what])
        return what + " and a corpus", lambda: r.retrieve(q, **kw)
    return rng.choice([
        ("k", lambda: r.retrieve(q, k=n + rng.choice([1, 100]), show_progress=False)),
        ("k", lambda: r.retrieve(q * 3, k=n + 1, show_progress=False, n_threads=2)),
        ("return_as", lambda: r.retrieve(q, k=1, return_as="list", show_progress=False)),
        ("mask", lambda: r.retrieve(q, k=1, weight_mask=np.ones(n + 1), show_progress=False)),
        ("mask", lambda: r.retrieve(q, k=1, weight_mask=[1] * n, show_progress=False)),
        ("selection", lambda: r.retrieve(q, k=1, backend_selection="bogus", show_progress=False)),
        ("query", lambda: r.retrieve([None], k=1, show_progress=False)),
        ("query", lambda: r.retrieve([[rng.choice(voc)], [{}]], k=1, show_progress=False, backend_selection="auto" if r.backend == "numba" else "numpy")),
        ("tuple", lambda: r.retrieve(([[0]],), k=1, show_progress=False)),
        ("tuple", lambda: r.retrieve((5, {}), k=1, show_progress=False)),
        ("tuple", lambda: r.retrieve(([[7]], {"a": 0}), k=1, show_progress=False)),
        ("corpus", lambda: r.retrieve(q, corpus=[], k=1, show_progress=False)),
        ("scores", lambda: r.get_scores("text")),
        ("scores", lambda: r.get_scores([None])),
        ("scores", lambda: r.get_scores_from_ids([10 ** 6])),
        ("scores", lambda: r.get_scores_from_ids([-3])),
        ("scores", lambda: r.get_scores([rng.choice(voc)], weight_mask=np.ones(n + 3))),
        ("tokens", lambda: r.get_tokens_ids([[]])),
    ])


def bad_save(ctx, rng, r, ref, own):
    d = ctx.scratch()
    kind = rng.choice(["file", "missing", "limit", "limit", "limit", "corpus", "own"])
    if kind == "file":
        p = os.path.join(d, "f")
        open(p, "w").write("x")
        return kind, lambda: r.save(p)
    if kind == "missing":
        name = rng.choice(["data_name", "indices_name", "indptr_name", "vocab_name", "params_name"])
        return kind, lambda: r.save(d, **{name: "no/such/dir/x.npy"})
    if kind == "corpus":
        c = Raising(["t"] * ref.n, rng.randrange(ref.n), 1)
        return kind, lambda: r.save(d, corpus=c)
    limit = rng.choice([1, 60, 130, 200, rng.randint(1, 600)])

    def f():
        with size_limit(limit):
            r.save(own if kind == "own" and own else d, corpus=["x" * 50] * ref.n)
    return kind, f


def bad_load(ctx, rng, r, ref):
    """load_scores from a directory that holds no index, or another index of which one file is damaged."""
    d = ctx.scratch()
    kind = rng.choice(["empty", "gone", "cut", "cut", "garbage", "directory", "names"])
    names = ["data.csc.index.npy", "indices.csc.index.npy", "indptr.csc.index.npy"]
    kw = dict(mmap=rng.random() < 0.5)
    if rng.random() < 0.7:
        kw["num_docs"] = rng.choice([ref.n, 3])
    if kind != "empty":
        o = ctx.bm25s.BM25()
        o.index([["other", "words"], ["x"], ["other"] * 3], show_progress=False)
        o.save(d)
        f = os.path.join(d, rng.choice(names))
        b = open(f, "rb").read()
        if kind == "cut":
            open(f, "wb").write(b[:rng.choice([0, 5, 100, len(b) - 1])])
        elif kind == "garbage":
            open(f, "wb").write(bytes(rng.randrange(256) for _ in range(300)))
        elif kind == "names":
            kw[rng.choice(["data_name", "indices_name", "indptr_name"])] = "other.npy"
        else:
            os.remove(f)
            if kind == "directory":
                os.mkdir(f)
    return "load_scores " + kind, lambda: r.load_scores(d, **kw)


def history(ctx, rng, p, backend, sel):
    docs = gen.corpus(rng)
    mine = rng.choice([None, ["own %d" % i for i in range(120)]])
    r = ctx.bm25s.BM25(backend=backend, corpus=mine, **p)
    good_index(ctx, rng, r, docs)
    ref = Ref(docs, **p)
    olds = sorted(ref.post)
    own = None
    everseen = set()
    for step in range(rng.choice([6, 12, 25])):
        op = rng.choice(["index", "index", "bad_index", "bad_index", "bad_retrieve", "bad_retrieve", "bad_save", "bad_load", "reload"])
        e = form = None
        if op == "index":
            if rng.random() < 0.3:  # same tokens, other documents
                docs = [gen.zipf_choice(rng, olds or ["x"], rng.randint(0, 6), 1) for _ in range(rng.choice([1, ref.n, ref.n + 3]))]
            else:
                docs = gen.corpus(rng)
            form = good_index(ctx, rng, r, docs)
            olds = (olds + sorted(ref.post))[-60:]
            ref = Ref(docs, **p)
            ctx.count("reindexed")
        elif op == "bad_index":
            form, c = bad_corpora(ctx, rng, gen.corpus(rng) if rng.random() < 0.8 else docs)
            e = raises(r.index, c, show_progress=False)
            if e is None:
                ctx.count("accepted_index_" + form.replace(" ", "_"))
                # not a failing call after all: start over from a known corpus
                form = good_index(ctx, rng, r, docs)
            else:
                ctx.count("failed_index")
        elif op == "bad_retrieve":
            form, f = bad_retrieve(ctx, rng, r, ref)
            e = raises(f)
            ctx.count("failed_retrieve" if e is not None else "accepted_retrieve")
        elif op == "bad_save":
            form, f = bad_save(ctx, rng, r, ref, own)
            e = raises(f)
            ctx.count("failed_save" if e is not None else "accepted_save")
        elif op == "bad_load":
            form, f = bad_load(ctx, rng, r, ref)
            e = raises(f)
            ctx.check(e is not None, lambda: f"{backend}, step {step}: {form} raises nothing")
            ctx.count("failed_load")
        elif op == "reload":
            # go on with a loaded (possibly memory-mapped) retriever, which can be re-indexed as well
            own = ctx.scratch()
            r.save(own)
            ids = r.mon_ids
            r = ctx.bm25s.BM25.load(own, mmap=rng.random() < 0.5)
            r.mon_ids = ids
            mine = None
        what = f"{backend}, after {op} ({form}, {type(e).__name__ if e else 'no error'}: {str(e)[:80] if e else ''}), step {step}"
        probe(ctx, rng, r, ref, p, what, sel=sel, n=2, vocab=sorted(ref.post) + rng.sample(olds, min(3, len(olds))),
              docs_expected=list(range(ref.n)) if mine is None else mine[:ref.n])
        by_ids(ctx, rng, r, ref, p, everseen, what)
        ctx.nontrivial((op, form, type(e).__name__, backend, sorted(p.items(), key=str)))
    # a fresh retriever gives the same
    ctx.sample(dict(params=p, backend=backend, last=what))


def case_numpy(ctx, rng):
    history(ctx, rng, variant(rng, ctx.index), "numpy", ("numpy",) * 8 + (("auto",) if ctx.index % 20 == 0 else ()))


def case_numba(ctx, rng):
    history(ctx, rng, sig_params(rng), "numba", ("auto",))


def case_ints(ctx, rng):
    """Indexes of bare integer tokens: re-indexing, failing calls and failing saves."""
    p = variant(rng, ctx.index)
    r = ctx.bm25s.BM25(**p)
    im, pool = {}, rng.sample(range(0, 4000), 900)

    def index():
        docs = gen.corpus(rng)
        for t in gen.vocab_of(docs):
            if t not in im:
                im[t] = pool.pop() if pool else 4000 + len(im)
        r.index([[im[t] for t in d] for d in docs], show_progress=False)
        return docs, Ref(docs, **p)

    docs, ref = index()
    for step in range(rng.choice([4, 10])):
        op = rng.choice(["index", "bad_index", "bad_retrieve", "bad_save", "bad_save", "save", "reload"])
        e = form = None
        if op == "index":
            docs, ref = index()
            ctx.count("reindexed")
        elif op == "bad_index":
            bad = [[im[t] for t in d] for d in docs]
            bad.insert(rng.randint(0, len(bad)), rng.choice([None, 5, [[1]], [{}]]))
            e = raises(r.index, bad, show_progress=False)
            if e is None:
                docs, ref = index()
            ctx.count("failed_index", e is not None)
        elif op == "bad_retrieve":
            tok = im[rng.choice(sorted(ref.post))] if ref.post else 1
            form, f = rng.choice([("k", lambda: r.retrieve([[tok]], k=ref.n + 3, show_progress=False)), ("mask", lambda: r.retrieve([[tok]], k=1, weight_mask=np.ones(ref.n + 2), show_progress=False)),
                                  ("selection", lambda: r.retrieve([[tok]], k=1, backend_selection="bogus", show_progress=False))])
            e = raises(f)
            ctx.count("failed_retrieve", e is not None)
        elif op == "bad_save":
            if rng.random() < 0.5:
                d = ctx.scratch()
                form = rng.choice(["vocab.index.json", "params.index.json", "data.csc.index.npy"])
                os.mkdir(os.path.join(d, form))
                e = raises(r.save, d)
            else:
                form, f = bad_save(ctx, rng, r, ref, None)
                e = raises(f)
            ctx.count("failed_save", e is not None)
        elif op == "save":
            r.save(ctx.scratch())
        else:
            d = ctx.scratch()
            r.save(d)
            r = ctx.bm25s.BM25.load(d, mmap=rng.random() < 0.5)
        what = f"index of integer tokens after {op} ({form}, {type(e).__name__ if e else 'no error'}), step {step}, {p}"
        for _ in range(2):
            q = [t for t in gen.query(rng, sorted(ref.post), unknown=0) if t in im]
            if not q:
                continue
            full, m = ref.scores(q)
            k = rng.choice([1, ref.n])
            dd, s = rows(r.retrieve([[im[t] for t in q]], k=k, show_progress=False, backend_selection="numpy"))
            check_topk(ctx, full, ref.tol(q, m, p["dtype"]), dd[0], s[0], k, True, what, query=q)
            ctx.count("probes")
        ctx.nontrivial(("ints", op, form, type(e).__name__, sorted(p.items(), key=str)))
