"""Operations of bm25s with plain (picklable) arguments and results, run here or in a peer process."""
import os
import sys

import numpy as np

import bm25s
from bm25s.utils import json_functions
from bm25s.utils.corpus import JsonlCorpus, find_newline_positions, load_mmindex, save_mmindex

from .util import freeze, norm


def packages():
    return {m: m in sys.modules and sys.modules[m] is not None for m in ("orjson", "numba", "jax", "tqdm")}


def dumps(v, **kw):
    return json_functions.dumps(v, **kw)


def loads(s):
    return json_functions.loads(s)


def save_index(d, docs, params, corpus=None, names=None, backend="numpy"):
    r = bm25s.BM25(backend=backend, **params)
    r.index(docs, show_progress=False)
    r.save(d, corpus=corpus, **(names or {}))


def load_index(d, mmap, load_corpus, names=None):
    """(vocabulary, scores arrays, parameters, corpus records)"""
    r = bm25s.BM25.load(d, mmap=mmap, load_corpus=load_corpus, **(names or {}))
    rec = None if r.corpus is None else [norm(r.corpus[i]) for i in range(len(r.corpus))]
    par = {k: getattr(r, k) for k in ("k1", "b", "delta", "method", "idf_method", "dtype", "int_dtype", "backend")}
    return dict(r.vocab_dict), {k: np.array(v) for k, v in r.scores.items()}, par, rec


def save_tokenizer(d, texts, stopwords, kw):
    t = bm25s.tokenization.Tokenizer(stopwords=stopwords, **kw)
    t.tokenize(texts, show_progress=False)
    t.save_vocab(d)
    t.save_stopwords(d)
    return (dict(t.word_to_id), dict(t.word_to_stem), dict(t.stem_to_sid), list(t.stopwords))


def load_tokenizer(d, kw):
    t = bm25s.tokenization.Tokenizer(stopwords=[], **kw)
    t.load_vocab(d)
    t.load_stopwords(d)
    return (dict(t.word_to_id), dict(t.word_to_stem), dict(t.stem_to_sid), list(t.stopwords))


def write_mmindex(path):
    save_mmindex(find_newline_positions(path, show_progress=False), path)
    return find_newline_positions(path, show_progress=False)


def read_mmindex(path):
    return load_mmindex(path)


def read_jsonl(path):
    c = JsonlCorpus(path, show_progress=False, verbosity=0)
    try:
        return [norm(c[i]) for i in range(len(c))]
    finally:
        c.close()


MODULES = ["bm25s", "bm25s.tokenization", "bm25s.scoring", "bm25s.selection", "bm25s.stopwords", "bm25s.utils", "bm25s.utils.corpus", "bm25s.utils.json_functions", "bm25s.utils.beir", "bm25s.utils.benchmark"]


def modules():
    """Imports every module that does not itself need an optional package; the packages then present."""
    import importlib
    for m in MODULES:
        importlib.import_module(m)
    return {p: importable(p) for p in ("orjson", "numba", "jax", "tqdm")}


def importable(name):
    import importlib
    try:
        importlib.import_module(name)
        return True
    except ImportError:
        return False


def tokenizations(texts, kw, cls_kw, progress):
    """Every way to tokenize the texts."""
    from bm25s.tokenization import Tokenizer, tokenize
    a = tokenize(texts, show_progress=progress, **kw)
    b = tokenize(texts, return_ids=False, show_progress=progress, **kw)
    t = Tokenizer(**cls_kw)
    out = {}
    for form in ("ids", "string", "tuple"):
        r = t.tokenize(texts, return_as=form, show_progress=progress)
        out[form] = (r.ids, r.vocab) if form == "tuple" else r
    out["stream"] = list(t.tokenize(texts, return_as="stream", show_progress=progress))
    return (a.ids, a.vocab), b, out, t.get_vocab_dict(), (dict(t.word_to_id), dict(t.stem_to_sid))


def answers(r, queries, k, progress, n_threads, sel, corpus=None, mask=None):
    """(effective backend, get_scores of each query, documents, scores)"""
    full = [np.array(r.get_scores(list(q), weight_mask=mask)) for q in queries]
    kw = {} if corpus is None else dict(corpus=corpus)
    res = r.retrieve([list(q) for q in queries], k=k, show_progress=progress, n_threads=n_threads, backend_selection=sel, weight_mask=mask, **kw)
    docs = [[norm(x) for x in (row.tolist() if isinstance(row, np.ndarray) else row)] for row in res.documents]
    return r.backend, full, docs, np.array(res.scores)


def build(docs, params, backend, queries, k, progress, n_threads=0, sel="auto", corpus=None, mask=None, save=None, save_corpus=None):
    r = bm25s.BM25(backend=backend, corpus=corpus, **params)
    r.index(docs, show_progress=progress)
    if save:
        r.save(save, corpus=save_corpus)
    arrays = {x: np.array(v) for x, v in r.scores.items()}
    return dict(r.vocab_dict), arrays, answers(r, queries, k, progress, n_threads, sel, mask=mask)


def search(d, mmap, load_corpus, queries, k, progress, n_threads=0, sel="auto", mask=None):
    r = bm25s.BM25.load(d, mmap=mmap, load_corpus=load_corpus)
    arrays = {x: np.array(v) for x, v in r.scores.items()}
    return dict(r.vocab_dict), arrays, answers(r, queries, k, progress, n_threads, sel, mask=mask)


def explicit(docs, query):
    """Requests that name a backend: (error type, text) or None for each."""
    out = {}

    def attempt(name, fn):
        try:
            fn()
            out[name] = None
        except Exception as e:
            out[name] = (type(e).__name__, str(e))

    def index(backend):
        r = bm25s.BM25(backend=backend)
        r.index(docs, show_progress=False)
        return r
    r = index("numpy")
    one = np.arange(5, dtype="float32")
    attempt("numba backend", lambda: index("numba").retrieve([query], k=1, show_progress=False))
    attempt("numba selection", lambda: r.retrieve([query], k=1, show_progress=False, backend_selection="numba"))
    attempt("numba scorer", lambda: index("numpy").activate_numba_scorer())
    attempt("jax selection", lambda: r.retrieve([query], k=1, show_progress=False, backend_selection="jax"))
    attempt("jax topk", lambda: bm25s.selection.topk(one, 2, backend="jax"))
    n = len(docs)
    for i, (order, k, threads, form) in enumerate((o, k, th, f) for o in (True, False) for k in (1, n) for th in (0, 2) for f in ("tuple", "documents")):
        kw = dict(k=k, sorted=order, n_threads=threads, return_as=form, show_progress=False)
        qs = [[query], [query, []], [["absent"]]][i % 3]
        opt = f"(sorted={order}, k={k}, n_threads={threads}, return_as={form}, queries {qs})"
        attempt("numba selection " + opt, lambda: r.retrieve(qs, backend_selection="numba", **kw))
        attempt("jax selection " + opt, lambda: r.retrieve(qs, backend_selection="jax", **kw))
        attempt("auto selection " + opt, lambda: r.retrieve(qs, backend_selection="auto", **kw))
        if threads == 0:
            attempt("numba backend " + opt, lambda: index("numba").retrieve(qs, **kw))
            attempt("auto backend " + opt, lambda: index("auto").retrieve(qs, **kw))
    for order in (True, False):
        for dt in ("float32", "float64"):
            for k in (1, 5):
                attempt(f"jax topk (sorted={order}, {dt}, k={k})", lambda: bm25s.selection.topk(one.astype(dt), k, backend="jax", sorted=order))
                attempt(f"auto topk (sorted={order}, {dt}, k={k})", lambda: bm25s.selection.topk(one.astype(dt), k, sorted=order))
    attempt("numpy backend", lambda: index("numpy").retrieve([query], k=1, show_progress=False, backend_selection="numpy"))
    attempt("auto backend", lambda: index("auto").retrieve([query], k=1, show_progress=False))
    attempt("auto selection", lambda: r.retrieve([query], k=1, show_progress=False, backend_selection="auto"))
    attempt("auto topk", lambda: bm25s.selection.topk(one, 2))
    return out


def pipeline(texts, kw, form, params, backend, queries, k, n_threads=0, sel="numpy", corpus=None, mask=None, save=None):
    """Texts to answers: (token ids or strings of the corpus, those of the queries, documents, scores, all scores)."""
    from bm25s.tokenization import Tokenizer, tokenize
    kw, stem = stemmer(kw, form.startswith("class"))
    if form.startswith("class"):
        t = Tokenizer(lower=kw["lower"], stopwords=kw["stopwords"], stemmer=stem)
        c = t.tokenize(texts, return_as=form.split("-")[1], show_progress=False)
        q = t.tokenize(queries, return_as=form.split("-")[1], update_vocab=False, show_progress=False)
    else:
        c = tokenize(texts, return_ids=form == "function-ids", stemmer=stem, show_progress=False, **kw)
        q = tokenize(queries, return_ids=form == "function-ids", stemmer=stem, show_progress=False, **kw)
    show = [(x.ids, x.vocab) if hasattr(x, "ids") else x for x in (c, q)]
    r = bm25s.BM25(backend=backend, **params)
    r.index(c, show_progress=False)
    if save:
        r.save(save, corpus=corpus)
    return show, results(r, q, k, n_threads, sel, corpus, mask)


def stemmer(kw, single):
    """The options without "stem", and the stemmer it names (one word at a time or a list)."""
    kw = dict(kw)
    stem = kw.pop("stem", None)
    if stem is None:
        return kw, None
    import Stemmer
    if stem.startswith("first"):
        n = int(stem[5:] or 3)
        return kw, (lambda w: w[:n]) if single else lambda words: [w[:n] for w in words]
    kind, _, lang = stem.partition(":")
    s = Stemmer.Stemmer(lang or "english")
    if kind == "stemmer":
        return kw, s
    f = s.stemWord
    return kw, f if single else lambda words: [f(w) for w in words]


def results(r, q, k, n_threads=0, sel="numpy", corpus=None, mask=None):
    opt = {} if corpus is None else dict(corpus=corpus)
    d, s = r.retrieve(q, k=k, show_progress=False, n_threads=n_threads, backend_selection=sel, weight_mask=mask, **opt)
    return [[norm(x) for x in row] for row in np.asarray(d).tolist()], np.asarray(s)


def results_of(data, q, k, **kw):
    """The answers of a pickled retriever."""
    import pickle
    return results(pickle.loads(data), q, k, **kw)


def reload(d, mmap, load_corpus, q, k, **kw):
    return results(bm25s.BM25.load(d, mmap=mmap, load_corpus=load_corpus), q, k, **kw)


def retokenize(data, texts, form, update):
    """What a pickled tokenizer makes of the texts."""
    import pickle
    t = pickle.loads(data)
    r = t.tokenize(texts, return_as=form, update_vocab=update, show_progress=False)
    return (r.ids, r.vocab) if hasattr(r, "ids") else r, t.get_vocab_dict()
