"""C34 invalid arguments: calls with one argument outside its documented values, in otherwise random valid calls on random retrievers, tokenizers, corpora and directories, must raise; the same calls with the documented values must not.

What a rejected call may have changed is observed too: the answers, the vocabulary and the files afterwards are those from before."""
import os
import re

from .. import gen
from ..store import corpus_for
from ..util import *

LEVEL = "exploration"
RULE = ("60 kinds of invalid arguments of BM25, index, retrieve, get_scores, load, tokenize, Tokenizer, JsonlCorpus, topk and the dataset loaders, each with many values, x otherwise valid random calls (25 variants, numpy and numba backend, threads, masks, corpora, forms of queries, fresh and loaded), "
        "next to accepted controls. Non-trivial: a rejected call, judged with its after-effects; distinct by kind, value and call.")
ASSUMPTIONS = ["any ordinary exception is a rejection", "only the values named in the statement are claimed to be rejected"]


def plan(tier):
    f = 1 if tier == "quick" else 60
    s = 100 if tier == "quick" else 2400
    return [dict(cases=[("search", 450 * f), ("build", 250 * f), ("tokenizers", 350 * f), ("files", 250 * f)], workers=4, soft=s),
            dict(cases=[("search", 160 * f)], workers=1, env={"MON_SIG": "float32,int32,0,none"}, soft=s),
            dict(cases=[("search", 100 * f), ("tokenizers", 60 * f), ("files", 60 * f)], workers=1, env={"MON_BLOCK": "orjson,numba,jax"}, soft=s)]


def MIN(tier):
    return {"distinct": 3000, "rejected": 6000, "accepted": 3000, "kinds_search": 10, "unchanged": 1000}


def setup(ctx):
    ctx.numba = "MON_SIG" in os.environ
    ctx.kinds = set()


def rejected(ctx, kind, what, fn):
    try:
        r = fn()
    except (RecursionError, MemoryError) as e:
        ctx.fail(f"{what} ended in {type(e).__name__}")
    except Exception as e:
        ctx.count("rejected")
        ctx.nontrivial((kind, what))
        if kind not in ctx.kinds:
            ctx.kinds.add(kind)
            ctx.count("kinds_" + ctx.kind)
        return e
    ctx.fail(f"{what} was accepted and returned {r!r:.300}")


def accepted(ctx, what, fn):
    r = fn()
    ctx.count("accepted")
    return r


def case_search(ctx, rng):
    docs = gen.corpus(rng, n_docs=rng.choice([1, 2, 4, 12, 40]))
    n = len(docs)
    p, backend = (sig_params(rng), "numba") if ctx.numba else (variant(rng, ctx.index), "numpy")
    r = make(ctx, docs, p, backend)
    what = f"{p['method']}/{p['idf_method']}, {backend}, {n} documents"
    if rng.random() < 0.3:
        d = ctx.scratch()
        r.save(d)
        r = ctx.bm25s.BM25.load(d, mmap=rng.random() < 0.5)
        what += ", loaded"
    voc = gen.vocab_of(docs) or ["x"]

    def form():
        qs = [gen.query(rng, voc) or [rng.choice(voc)] for _ in range(rng.choice([1, 2, 5]))]
        f = rng.choice(["strings", "strings", "tuple", "tokenized", "empty", "unknown"])
        if f == "strings":
            return qs
        if f == "empty":
            return [[], []]
        if f == "unknown":
            return [["__never__"]]
        v = {t: i for i, t in enumerate(dict.fromkeys(t for q in qs for t in q))}
        ids = [[v[t] for t in q] for q in qs]
        return (ids, v) if f == "tuple" else ctx.bm25s.tokenization.Tokenized(ids=ids, vocab=v)

    def kwargs():
        kw = dict(k=rng.choice([n, 1, rng.randint(1, n)]), show_progress=rng.random() < 0.05, sorted=rng.random() < 0.5, n_threads=rng.choice([0, 0, 1, 2, -1]), return_as=rng.choice(["tuple", "documents"]))
        kw["backend_selection"] = rng.choice(["auto", "numba"] if ctx.numba else ["auto", "numpy", "jax"] if jax else ["auto", "numpy"])
        if not ctx.numba and rng.random() < 0.4:
            kw["weight_mask"] = gen.mask(rng, n, rng.choice(["float32", "float64", "bool"]))
        if rng.random() < 0.4:
            kw["corpus"] = rng.choice([[f"d{i}" for i in range(n)], np.arange(n)])
        return kw
    jax = has("jax")
    probe_q = [[rng.choice(voc)]]
    opt = dict(k=n, show_progress=False, backend_selection="auto" if ctx.numba else "numpy")
    before = r.retrieve(probe_q, **opt)
    state = freeze(r.vocab_dict), freeze({a: np.array(v) for a, v in r.scores.items()})
    for _ in range(8):
        kw = kwargs()
        q = form()
        accepted(ctx, what, lambda: r.retrieve(q, **kw))
        kind = rng.choice(["return_as", "backend_selection", "k", "mask", "tuple", "queries", "get_scores", "get_scores ids", "get_scores mask", "k", "mask", "k type", "n_threads"])
        w = lambda b: f"{what}: retrieve({q!r:.80}, {dict(kw, **b)!r:.250})"
        if kind == "return_as":
            b = dict(return_as=rng.choice(["foo", None, "Tuple", "doc", "document", "", "ids", "scores", "tuples", "list", 0, True]))
        elif kind == "backend_selection":
            b = dict(backend_selection=rng.choice(["foo", "numpyy", "", "torch", "num", "jaxx", "cupy", "AUTO", "Numpy", "np"] + (["numpy", "numbaa", "jax"] if ctx.numba else ["numba " if has("numba") else "foo"])))
        elif kind == "k":
            b = dict(k=n + rng.choice([1, 1, 2, 10, n, 10 ** 6]))
        elif kind == "n_threads":
            b = dict(n_threads=rng.choice([-2, -3, -100, "2", "all", [1], -1.5]))
        elif kind == "k type":
            b = dict(k=rng.choice(["2", None, [1]]))
        elif kind == "mask":
            m = rng.choice(["list", "tuple", "short", "long", "2d", "column", "0d", "str", "empty", "dict", "as corpus", "as corpus"])
            size = rng.choice([x for x in (1, n - 1, n + 1, 2 * n, n + 7) if x not in (0, n)])
            b = dict(corpus=rng.choice([[f"d{i}" for i in range(size)], np.arange(size)])) if m == "as corpus" else {}
            b.update(weight_mask={"as corpus": np.ones(size, rng.choice(["float32", "int64", "bool"])), "list": [1.0] * n, "tuple": (1,) * n, "short": np.ones(n - 1, "float32"), "long": np.ones(n + rng.choice([1, 5, n]), "float32"), "2d": np.ones((1, n), "float32"), "column": np.ones((n, 1), "float32"), "0d": np.array(1.0),
                                  "str": "1" * n, "empty": np.ones(0) , "dict": {i: 1 for i in range(n)}}[m])
        elif kind == "tuple":
            ids = [[0]]
            bad = rng.choice([(ids,), (ids, {"a": 0}, 1), (5, {"a": 0}), (None, {"a": 0}), (ids, [0]), (ids, None), (ids, "abc"), ()])
            if bad == ():
                bad = (ids, {"a": 0}, {"a": 0}, 1)
            rejected(ctx, kind, f"{what}: retrieve({bad!r}, {kw!r:.200})", lambda: r.retrieve(bad, **kw))
            continue
        elif kind == "queries":
            bad = rng.choice(["abc", ["abc"], [None], None, 5, [1, 2], [[1.5]], [[None]], [[["a"]]], {"a": 1}, [b"a"], 1.5])
            rejected(ctx, kind, f"{what}: retrieve({bad!r}, {kw!r:.200})", lambda: r.retrieve(bad, **kw))
            continue
        elif kind == "get_scores":
            bad = rng.choice(["abc", ("a",), None, 5, [1.5], [None], [["a"]], np.array([1]), {"a"}, {"a": 1}, b"a", [b"a"], range(2), iter(["a"]), [{}]])
            rejected(ctx, kind, f"{what}: get_scores({bad!r})", lambda: r.get_scores(bad))
            accepted(ctx, what, lambda: r.get_scores([rng.choice(voc)]))
            continue
        elif kind == "get_scores ids":
            top = len(r.scores["indptr"]) - 1
            ok = [rng.randrange(top) for _ in range(rng.randint(0, 5))]
            bad = list(ok)
            bad.insert(rng.randint(0, len(bad)), rng.choice([top, top + 1, top * 10, 10 ** 9, -1, -top, -10 ** 6, 2 ** 31, 2 ** 32, 2 ** 32 + rng.randrange(top), 2 ** 16 * 2 ** 16 * 3, rng.randrange(top) - 2 ** 32, 2 ** 62]))
            low = rng.choice([list, np.array])
            rejected(ctx, kind, f"{what}: get_scores_from_ids({low(bad)!r}) with {top} columns", lambda: r.get_scores_from_ids(low(bad)))
            if ok:
                accepted(ctx, what, lambda: r.get_scores_from_ids(low(ok)))
            if not isinstance(next(iter(r.vocab_dict), None), int):
                rejected(ctx, kind, f"{what}: get_scores({bad!r}) with {top} columns", lambda: r.get_scores(bad))
                if ok:
                    accepted(ctx, what, lambda: r.get_scores(ok))
            continue
        else:
            m = np.ones(n + rng.choice([1, 2, n + 3]) if n == 1 or rng.random() < 0.5 else n - 1, "float32")
            if len(m) != 1 or n == 1:
                rejected(ctx, kind, f"{what}: get_scores with a mask of {len(m)} weights", lambda: r.get_scores([voc[0]], weight_mask=m))
            continue
        rejected(ctx, kind, w(b), lambda: r.retrieve(q, **dict(kw, **b)))
    after = r.retrieve(probe_q, **opt)
    ctx.check(freeze(tuple(after)) == freeze(tuple(before)) and state == (freeze(r.vocab_dict), freeze({a: np.array(v) for a, v in r.scores.items()})), lambda: f"{what}: after rejected calls the answer is {after!r:.300}, before {before!r:.300}")
    ctx.count("unchanged")
    ctx.sample(dict(retriever=what))


def has(package):
    import importlib
    try:
        importlib.import_module(package)
        return True
    except ImportError:
        return False


def case_build(ctx, rng):
    docs = gen.corpus(rng, n_docs=rng.choice([1, 3, 10]))
    if not any(docs):
        return
    p = variant(rng, ctx.index)
    B = ctx.bm25s.BM25

    def build(**kw):
        x = B(**dict(p, **kw))
        x.index(docs, show_progress=False)
        return x
    accepted(ctx, "", build)
    m = rng.choice(["foo", "BM25", "Lucene", "ROBERTSON", "", None, 3, "bm25", "bm25plus", "okapi", "bm25-l", "bm25 +", "atir", "lucene ", "tfidf"])
    rejected(ctx, "method", f"BM25(method={m!r}, idf_method={p['idf_method']!r}) and index", lambda: build(method=m))
    if m is not None:
        rejected(ctx, "idf_method", f"BM25(method={p['method']!r}, idf_method={m!r}) and index", lambda: build(idf_method=m))
    d = rng.choice(["foo", "floaty", "float31", "int3"])
    rejected(ctx, "dtype", f"BM25(dtype={d!r}) and index", lambda: build(dtype=d))
    r = build()
    bad = rng.choice([None, 5, 1.5, object(), (docs, ["a"]), [["a"], None], [["a"], 5], [None], [3], (docs, 5), True])
    state = freeze(r.vocab_dict), freeze({a: np.array(v) for a, v in r.scores.items()})
    rejected(ctx, "corpus", f"index({bad!r:.80})", lambda: r.index(bad, show_progress=False))
    v = {"a": 0, "b": 1}
    top = rng.choice([2, 3, 50])
    ids = [[0, 1], [1], [0]]
    ids[rng.randrange(3)].append(top)
    rejected(ctx, "ids", f"index of ids {ids} with the vocabulary {v}", lambda: r.index((ids, v), show_progress=False))
    ctx.check(state == (freeze(r.vocab_dict), freeze({a: np.array(v) for a, v in r.scores.items()})), lambda: f"rejected index calls changed the index of {docs!r:.200}")
    ctx.count("unchanged")
    a = np.arange(rng.choice([1, 3, 9]), dtype="float32")
    sel = ctx.bm25s.selection.topk
    for b in ("foo", "", "numpyy", "np"):
        rejected(ctx, "topk backend", f"topk({len(a)} scores, backend={b!r})", lambda: sel(a, 1, backend=b))
    for b in ("numpy", "auto", "jax") if has("jax") else ("numpy", "auto"):
        k = len(a) + rng.choice([1, 2, 100])
        rejected(ctx, "topk k", f"topk({len(a)} scores, {k}, backend={b!r})", lambda: sel(a, k, backend=b))
        accepted(ctx, "", lambda: sel(a, rng.randint(1, len(a)), backend=b))
    if has("numba"):
        import importlib
        nsel = importlib.import_module("bm25s.numba.selection").topk
        for x in rng.sample(["numpy", "jax", "auto", "foo", "", None, "Numba", "numbaa", "numb"], 4):
            rejected(ctx, "compiled topk backend", f"compiled topk({len(a)} scores, backend={x!r})", lambda: nsel(a, 1, backend=x))
        k = len(a) + rng.choice([1, 2, 100])
        rejected(ctx, "compiled topk k", f"compiled topk({len(a)} scores, {k})", lambda: nsel(a, k))
        accepted(ctx, "", lambda: nsel(a, rng.randint(1, len(a))))


class NoStem:
    stem = "x"


def case_tokenizers(ctx, rng):
    T = ctx.bm25s.tokenization
    texts = [gen.text(rng) for _ in range(rng.choice([0, 1, 4]))]
    q = dict(show_progress=False)
    lower, ids = rng.random() < 0.5, rng.random() < 0.5
    lang = rng.choice(["klingon", "", "EN", "English", "xx", "e", "english ", "fran\u00e7ais", "ger", "es_ES", "stop"])
    rejected(ctx, "stopwords", f"tokenize({texts!r:.80}, stopwords={lang!r}, lower={lower}, return_ids={ids})", lambda: T.tokenize(list(texts), stopwords=lang, lower=lower, return_ids=ids, **q))
    rejected(ctx, "Tokenizer stopwords", f"Tokenizer(stopwords={lang!r})", lambda: T.Tokenizer(stopwords=lang))
    st = rng.choice(["x", 5, [1], object(), {"a": 1}, NoStem(), 1.5, b"x", True])
    rejected(ctx, "stemmer", f"tokenize({texts!r:.80}, stemmer={st!r:.30})", lambda: T.tokenize(list(texts), stemmer=st, stopwords=None, lower=lower, return_ids=ids, **q))
    rejected(ctx, "Tokenizer stemmer", f"Tokenizer(stemmer={st!r:.30})", lambda: T.Tokenizer(stemmer=st))
    sp = rng.choice([5, None, [1], object(), {"a": 1}, 1.5, ["\\w+"], ("\\w+",), True])
    rejected(ctx, "splitter", f"Tokenizer(splitter={sp!r:.30})", lambda: T.Tokenizer(splitter=sp))
    pat = rng.choice(["(", "[a", "*", "a{2,1}", "(?P<x"])
    rejected(ctx, "pattern", f"Tokenizer(splitter={pat!r})", lambda: T.Tokenizer(splitter=pat))
    rejected(ctx, "token_pattern", f"tokenize(token_pattern={pat!r})", lambda: T.tokenize(list(texts), token_pattern=pat, **q))
    t = T.Tokenizer(lower=lower, stopwords=rng.choice([None, "en", ["a"]]), stemmer=rng.choice([None, None, lambda w: w[:3]]))
    filled = rng.random() < 0.6
    if filled:
        t.tokenize(["some words", "and others"], **q)
    for _ in range(4):
        before = freeze(t.get_vocab_dict()), freeze(t.word_to_stem)
        up = rng.choice([True, False, "if_empty", "never"])
        ra = rng.choice(["ids", "tuple", "string", "stream"])
        bad = rng.choice(["foo", None, "list", "ID", "Tuple", "strings", "", "streams", "str", 0, 5, False])
        rejected(ctx, "Tokenizer return_as", f"tokenize({texts!r:.80}, return_as={bad!r}, update_vocab={up})", lambda: t.tokenize(list(texts), return_as=bad, update_vocab=up, **q))
        bad = rng.choice(["foo", None, "always", "Never", "ifempty", "", "true", 5, -1, "if_emptyy", [True]])
        rejected(ctx, "update_vocab", f"tokenize({texts!r:.80}, return_as={ra!r}, update_vocab={bad!r})", lambda: list(t.tokenize(list(texts), return_as=ra, update_vocab=bad, **q)))
        rejected(ctx, "stream if_empty", f"streaming", lambda: list(t.tokenize(list(texts), return_as="stream", update_vocab="nope")))
        bad = rng.choice([[5], [None], [["a"]], [b"x"], [texts, "x"]])
        rejected(ctx, "texts", f"tokenize of {bad!r}", lambda: t.tokenize(bad, update_vocab=up, **q))
        ctx.check((freeze(t.get_vocab_dict())) == before[0] or "" in t.get_vocab_dict() and up in (True, "if_empty"), lambda: f"rejected calls changed the vocabulary from {before[0]!r:.200} to {t.get_vocab_dict()!r:.200}")
        accepted(ctx, "", lambda: t.tokenize(list(texts) or ["x"], return_as=ra if ra != "stream" or up != "if_empty" else "ids", update_vocab=up, **q))
        top = max(t.get_vocab_dict().values(), default=0)
        i = top + rng.choice([1, 2, 1000])
        rejected(ctx, "decode", f"decode of the id {i}, the highest is {top}", lambda: t.decode([[i]]))
    ctx.count("unchanged")


def case_files(ctx, rng):
    B, C, b = ctx.bm25s.BM25, ctx.bm25s.utils.corpus.JsonlCorpus, ctx.bm25s.utils.beir
    docs = gen.corpus(rng, n_docs=rng.choice([1, 3, 10]))
    n = len(docs)
    p = variant(rng, ctx.index)
    r = make(ctx, docs, p)
    d = ctx.scratch()
    corpus, exp = corpus_for(rng, n, "dict")
    r.save(d, corpus=corpus)
    held = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
    lc = rng.random() < 0.5
    for m in rng.sample(["r", "c", "r+", 1, 0, None, "True", "", [True], 1.0], 4):
        rejected(ctx, "mmap", f"load(mmap={m!r}, load_corpus={lc})", lambda: B.load(d, mmap=m, load_corpus=lc))
    mm = rng.random() < 0.5
    accepted(ctx, "", lambda: B.load(d, mmap=mm, load_corpus=lc))
    rejected(ctx, "directory", f"load of a directory that does not exist", lambda: B.load(os.path.join(d, "nope"), mmap=mm, load_corpus=lc))
    ctx.check(not os.path.exists(os.path.join(d, "nope")), "loading from a directory that does not exist created it")
    need = ["data.csc.index.npy", "indices.csc.index.npy", "indptr.csc.index.npy", "vocab.index.json", "params.index.json"] + ["nonoccurrence_array.index.npy"] * (p["method"] in ("bm25l", "bm25+"))
    gone = rng.choice(need)
    os.rename(os.path.join(d, gone), os.path.join(d, "away"))
    rejected(ctx, "missing file", f"load of an index ({p['method']}) without {gone} (mmap={mm})", lambda: B.load(d, mmap=mm, load_corpus=lc))
    os.rename(os.path.join(d, "away"), os.path.join(d, gone))
    c = C(os.path.join(d, "corpus.jsonl"), show_progress=False, verbosity=0)
    for i in rng.sample(["0", 1.0, None, {0}, b"0", object(), {0: 0}, 2.5, "x", (x for x in [0])], 4):
        e = rejected(ctx, "record type", f"corpus[{i!r:.30}]", lambda: c[i])
        ctx.check(isinstance(e, TypeError), lambda: f"corpus[{i!r:.30}] raised {type(e).__name__}")
    over = n + rng.choice([0, 1, 5, 10 ** 6])
    for i in (over, [0, over], (over,), np.int64(over), np.array([0, over]), np.array([[over]]), -n - 1):
        e = rejected(ctx, "record index", f"corpus[{i!r:.40}] of {n} records", lambda: c[i])
        ctx.check(isinstance(e, IndexError), lambda: f"corpus[{i!r:.40}] of {n} records raised {type(e).__name__}")
    accepted(ctx, "", lambda: c[rng.randrange(n)])
    c.close()
    rejected(ctx, "no corpus", "JsonlCorpus of a file that does not exist", lambda: C(os.path.join(d, "nope.jsonl"), show_progress=False, verbosity=0))
    ctx.check(not [f for f in os.listdir(d) if f.startswith("nope")], lambda: f"opening a corpus that does not exist created files: {os.listdir(d)}")
    os.makedirs(os.path.join(d, "ds", "qrels"))
    for s in ("train", "dev", "test", "foo", "Test", "tests", "test2", "validation", "val", "all", "dev_old", "trai", "t", "test.tsv"):
        with open(os.path.join(d, "ds", "qrels", s + ".tsv"), "w") as f:
            f.write("query-id\tcorpus-id\tscore\nq\td\t1\n")
    for s in rng.sample(["foo", "", None, "Test", "tests", "test2", "validation", "test ", "val", 0, "../qrels/test", "all", "dev_old", "trai", "t", "test.tsv"], 5):
        dic = rng.random() < 0.5
        rejected(ctx, "split", f"load_qrels(split={s!r}, return_dict={dic})", lambda: b.load_qrels("ds", split=s, save_dir=d, return_dict=dic))
    accepted(ctx, "", lambda: b.load_qrels("ds", split=rng.choice(["train", "dev", "test"]), save_dir=d))
    for f, x in held.items():
        ctx.check(open(os.path.join(d, f), "rb").read() == x, lambda: f"rejected calls changed {f}")
    t = ctx.bm25s.tokenization.Tokenizer()
    rejected(ctx, "no tokenizer", "load_vocab from a directory without one", lambda: t.load_vocab(d))
    rejected(ctx, "no stopwords", "load_stopwords from a directory without them", lambda: t.load_stopwords(d))
    ctx.count("unchanged")
