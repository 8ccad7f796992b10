"""C36 arguments: every public call is made three ways - all arguments by name, the first ones by position in their documented order, and without those that equal their documented default - each on fresh but equal state; what is returned, raised, written to files, printed and changed in the objects is compared.

The documented order and defaults are those of the published release (the table below); a misspelt option has to be rejected."""
import contextlib
import copy
import importlib
import io
import os
import re
import resource
import shutil
import sys
import zipfile

import numpy as np

from .. import gen, hub, server, store
from ..util import *
from ..core import Violation
from . import c30

LEVEL = "exploration"
RULE = ("every public function, method and constructor (40 entries) x random values of every argument, its default with probability one half x positions, names and omissions x fresh equal state. "
        "Non-trivial: a pair of calls compared; distinct by entry, values and form of the call.")
ASSUMPTIONS = ["the published signatures are the documented ones; further trailing arguments may be added"]
REQ = object()


def plan(tier):
    f = 1 if tier == "quick" else 60
    s = 100 if tier == "quick" else 2400
    return [dict(cases=[("call", 2600 * f), ("tuple", 40 * f), ("large", 6 * min(f, 5))], workers=6, soft=s, env={"JAX_PLATFORMS": "cpu"}),
            dict(cases=[("numba", 8 * (1 if tier == "quick" else 10))], workers=1, soft=s, env={"JAX_PLATFORMS": "cpu"})]


def MIN(tier):
    return {"distinct": 4000, "calls_compared": 6000, "omissions": 4000, "positions": 4000, "raised_alike": 20, "shown_alike": 300, "silent_calls": 150, "large_compared": 6, "files_compared": 1500, "misspelt_rejected": 700, **{"entry_" + n: 30 for n in ENTRIES}}


class Stop(ConnectionError):
    pass


URLS = []


def watch(event, args):
    if event == "urllib.Request":
        URLS.append(str(args[0]))
        if "127.0.0.1" not in str(args[0]):
            raise Stop("no network")


def setup(ctx):
    c30.setup(ctx)
    sys.addaudithook(watch)
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]


def tree(d, content=True):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, "rb") as fh:
                out[os.path.relpath(q, d)] = fh.read() if content else None
    return dict(sorted(out.items()))


# -- entries: parameters in their documented order with defaults, values to choose from, fresh state -----------------
BM25 = [("k1", 1.5), ("b", 0.75), ("delta", 0.5), ("method", "lucene"), ("idf_method", None), ("dtype", "float32"), ("int_dtype", "int32"), ("corpus", None), ("backend", "numpy")]
BAR = [("show_progress", True), ("leave_progress", False)]
NAMES = [("data_name", "data.csc.index.npy"), ("indices_name", "indices.csc.index.npy"), ("indptr_name", "indptr.csc.index.npy"), ("vocab_name", "vocab.index.json"), ("params_name", "params.index.json"),
         ("nnoc_name", "nonoccurrence_array.index.npy"), ("corpus_name", "corpus.jsonl")]


def pick(rng, params, alt, p=0.5):
    """Values for all parameters: the default, or one of the alternatives."""
    out = {}
    for n, d in params:
        if d is REQ or (n in alt and rng.random() >= p):
            out[n] = rng.choice(alt[n])
        else:
            out[n] = d
    return out


def docs_of(rng, lo=1, hi=30):
    return gen.corpus(rng, n_docs=rng.randint(lo, hi), max_len=8)


def answers(r, docs, corpus=False):
    voc = gen.vocab_of(docs)[:6]
    out = [r.get_scores([t]) for t in voc]
    if voc:
        n = len(docs)
        x = r.retrieve([voc, voc[:1]], k=n, show_progress=False)
        out += [x.documents, x.scores]
    return out


def state(r):
    """What a user reads from a retriever."""
    keys = ("k1", "b", "delta", "method", "idf_method", "dtype", "int_dtype", "backend")
    out = [getattr(r, k) for k in keys]
    out.append(getattr(r, "vocab_dict", None))
    c = r.corpus
    out.append(None if c is None else (type(c).__name__, [c[i] for i in range(len(c))]))
    s = getattr(r, "scores", None)
    if s:
        out.append({k: (type(v).__name__, np.asarray(v)) for k, v in s.items()})
    n = getattr(r, "nonoccurrence_array", None)
    out.append(None if n is None else (type(n).__name__, np.asarray(n)))
    return out


METHOD = ["robertson", "atire", "bm25l", "bm25+", "lucene"]


def e_bm25(ctx, rng):
    docs = docs_of(rng)
    recs = [{"id": i} for i in range(len(docs))]
    v = pick(rng, BM25, dict(k1=[0.9, 2.0, "a"], b=[0.1, 1.0], delta=[0.25, 1.5], method=METHOD, idf_method=METHOD, dtype=["float64", "float16x"], int_dtype=["int64"], corpus=[recs], backend=["numba", "auto"]), 0.55)

    def fresh(d):
        def observe(r):
            r.index([list(x) for x in docs], show_progress=False)
            r.save(d)
            return [state(r), answers(r, docs) if r.backend == "numpy" else 0]
        return ctx.bm25s.BM25, observe
    return BM25, v, fresh


def e_index(ctx, rng):
    docs = docs_of(rng)
    params = [("corpus", REQ), ("create_empty_token", True)] + BAR
    p = gen.params(rng)
    form = rng.choice(["lists", "tuple", "tokenized"])
    ids, voc = tokenized(ctx, docs, rng)
    c = docs if form == "lists" else (ids, voc) if form == "tuple" else ctx.bm25s.tokenization.Tokenized(ids, voc)
    v = pick(rng, params, dict(corpus=[c], create_empty_token=[False], show_progress=[False], leave_progress=[True]))

    def fresh(d):
        r = ctx.bm25s.BM25(**p)

        def observe(res):
            r.save(d)
            return [res, state(r)]
        return r.index, observe
    return params, v, fresh


RETR = [("query_tokens", REQ), ("corpus", None), ("k", 10), ("sorted", True), ("return_as", "tuple"), ("show_progress", True), ("leave_progress", False), ("n_threads", 0), ("chunksize", 50), ("backend_selection", "auto"), ("weight_mask", None)]


def built(ctx, rng, lo=1, hi=40, **kw):
    docs = docs_of(rng, lo, hi)
    p = gen.params(rng)

    def new():
        r = ctx.bm25s.BM25(**p, **kw)
        r.index([list(x) for x in docs], show_progress=False)
        return r
    return docs, new


def mask_of(rng, n):
    return np.array([rng.choice([0.0, 0.5, 1.0, 2.0]) for _ in range(n)], dtype="float32")


def e_retrieve(ctx, rng, sel=("numpy", "jax", "auto")):
    docs, new = built(ctx, rng, 6)
    voc = gen.vocab_of(docs)
    q = [gen.query(rng, voc) for _ in range(rng.choice([1, 2, 5, 60]))]
    if rng.random() < 0.3:
        t = {x: i for i, x in enumerate(sorted({y for z in q for y in z} | {""}))}
        q = rng.choice([tuple, lambda x: ctx.bm25s.tokenization.Tokenized(*x)])(([[t[y] for y in z] for z in q], t))
    n = len(docs)
    v = pick(rng, RETR, dict(query_tokens=[q], corpus=[["d%d" % i for i in range(n)]], k=[1, 3, n, n + 1], sorted=[False], return_as=["documents", "scores"], show_progress=[False], leave_progress=[True], n_threads=[2, -1],
                             chunksize=[1, 7], backend_selection=list(sel), weight_mask=[mask_of(rng, n)]))

    def fresh(d):
        r = new()
        return r.retrieve, lambda res: [type(res).__name__, res, state(r)]
    return RETR, v, fresh


def e_get_scores(ctx, rng):
    docs, new = built(ctx, rng)
    params = [("query_tokens_single", REQ), ("weight_mask", None)]
    v = pick(rng, params, dict(query_tokens_single=[gen.query(rng, gen.vocab_of(docs))], weight_mask=[mask_of(rng, len(docs))]))
    return params, v, lambda d: ((lambda r: r.get_scores)(new()), lambda res: res)


def e_get_scores_from_ids(ctx, rng):
    docs, new = built(ctx, rng)
    params = [("query_tokens_ids", REQ), ("weight_mask", None)]
    n = len(gen.vocab_of(docs))
    v = pick(rng, params, dict(query_tokens_ids=[[rng.randrange(n) for _ in range(4)] if n else []], weight_mask=[mask_of(rng, len(docs))]))
    return params, v, lambda d: ((lambda r: r.get_scores_from_ids)(new()), lambda res: res)


def e_get_tokens_ids(ctx, rng):
    docs, new = built(ctx, rng)
    params = [("query_tokens", REQ)]
    return params, dict(query_tokens=gen.query(rng, gen.vocab_of(docs))), lambda d: (new().get_tokens_ids, lambda res: res)


def other_names(rng):
    return {n: ["other_" + d, "x%d%s" % (i, os.path.splitext(d)[1])] for i, (n, d) in enumerate(NAMES)}


def e_save(ctx, rng):
    own = rng.random() < 0.5
    docs = docs_of(rng)
    recs = [{"text": "d%d" % i} for i in range(len(docs))]
    p = gen.params(rng)
    params = [("save_dir", REQ), ("corpus", None)] + NAMES + [("allow_pickle", False)]
    v = pick(rng, params, dict(save_dir=[None], corpus=[["other %d" % i for i in range(len(docs))]], allow_pickle=[True], **other_names(rng)))

    def fresh(d):
        r = ctx.bm25s.BM25(corpus=recs if own else None, **p)
        r.index([list(x) for x in docs], show_progress=False)
        return (lambda *a, **k: r.save(*subst(a, d), **subst(k, d))), lambda res: [res, state(r)]
    v["save_dir"] = DIR
    return params, v, fresh


DIR = "\0DIR"


def subst(x, d):
    """Arguments with the directory of this run for its placeholder."""
    if isinstance(x, dict):
        return {k: subst(y, d) if isinstance(y, str) else y for k, y in x.items()}
    if isinstance(x, tuple):
        return tuple(subst(y, d) if isinstance(y, str) else y for y in x)
    return x.replace(DIR, d)


def saved(ctx, rng, d, docs, p, recs, names):
    r = ctx.bm25s.BM25(corpus=recs, **p)
    r.index([list(x) for x in docs], show_progress=False)
    r.save(d, **names)
    return r


def e_load(ctx, rng):
    docs = docs_of(rng)
    recs = rng.choice([None, [{"text": "d%d" % i} for i in range(len(docs))]])
    p = gen.params(rng)
    params = [("save_dir", REQ)] + NAMES + [("load_corpus", False), ("mmap", False), ("allow_pickle", False), ("load_vocab", True)]
    v = pick(rng, params, dict(save_dir=[DIR], load_corpus=[True], mmap=[True], allow_pickle=[True], load_vocab=[False], **other_names(rng)), 0.6)
    names = {n: v[n] for n, _ in NAMES} if rng.random() < 0.9 else {}

    def fresh(d):
        saved(ctx, rng, d, docs, p, recs, names)

        def observe(r):
            out = [type(r).__name__, state(r), r.scores["num_docs"]]
            if hasattr(r.corpus, "close"):
                r.corpus.close()
            return out
        return (lambda *a, **k: ctx.bm25s.BM25.load(*subst(a, d), **subst(k, d))), observe
    return params, v, fresh


def e_load_scores(ctx, rng):
    docs = docs_of(rng)
    p = gen.params(rng)
    params = [("save_dir", REQ)] + NAMES[:3] + [("num_docs", None), ("mmap", False), ("allow_pickle", False)]
    v = pick(rng, params, dict(save_dir=[DIR], num_docs=[len(docs)], mmap=[True], allow_pickle=[True], **other_names(rng)))
    names = {n: v[n] for n, _ in NAMES[:3]}

    def fresh(d):
        saved(ctx, rng, d, docs, p, None, names)
        r = ctx.bm25s.BM25(**p)
        return (lambda *a, **k: r.load_scores(*subst(a, d), **subst(k, d))), lambda res: [res, state(r)]
    return params, v, fresh


TEXTS = ["The cat and THE dogs", "a I x be of running", "", "Un chat ne dort pas", "caf\u00e9 na\u00efve 12", "runs Run RUNNING cats"]


def texts_of(rng):
    return [rng.choice([gen.text(rng), rng.choice(TEXTS)]) for _ in range(rng.choice([1, 2, 5, 9]))]


def stem(w):
    return w[:3]


class Stemmer:
    def stemWords(self, ws):
        return [w[:2] for w in ws]


PATTERN = r"(?u)\b\w\w+\b"
STOPS = ["en", None, False, True, "fr", ["the", "cat"], [], "klingon"]
TOK = [("lower", True), ("splitter", PATTERN), ("stopwords", "english"), ("stemmer", None)]
TALT = dict(lower=[False], splitter=[r"\w+", r"\S+", str.split], stopwords=STOPS, stemmer=[stem, None])


def tok_state(t):
    return [dict(t.get_vocab_dict()), list(t.stopwords), dict(t.word_to_stem) if hasattr(t, "word_to_stem") else 0]


def e_tokenizer(ctx, rng):
    v = pick(rng, TOK, TALT)
    texts = texts_of(rng)

    def fresh(d):
        def observe(t):
            out = t.tokenize(list(texts), update_vocab=True, show_progress=False)
            return [out, tok_state(t), t.decode(out)]
        return ctx.bm25s.tokenization.Tokenizer, observe
    return TOK, v, fresh


def tokenizer(ctx, rng):
    v = pick(rng, TOK, {**TALT, "stopwords": STOPS[:-1]})
    first = texts_of(rng) if rng.random() < 0.6 else None

    def new():
        t = ctx.bm25s.tokenization.Tokenizer(**v)
        if first is not None:
            t.tokenize(list(first), update_vocab=True, show_progress=False)
        return t
    return new


def e_tok_tokenize(ctx, rng):
    new, texts = tokenizer(ctx, rng), texts_of(rng)
    params = [("texts", REQ), ("update_vocab", "if_empty"), ("leave_progress", False), ("show_progress", True), ("length", None), ("return_as", "ids"), ("allow_empty", True)]
    v = pick(rng, params, dict(texts=[texts], update_vocab=[True, False, "never"], leave_progress=[True], show_progress=[False], length=[len(texts), 3], return_as=["string", "tuple", "stream", "nothing"], allow_empty=[False]))

    def fresh(d):
        t = new()

        def observe(res):
            if not isinstance(res, (list, tuple)):
                res = ["stream"] + list(res)
            return [type(res).__name__, res, tok_state(t)]
        return t.tokenize, observe
    return params, v, fresh


def e_streaming(ctx, rng):
    new, texts = tokenizer(ctx, rng), texts_of(rng)
    params = [("texts", REQ), ("update_vocab", True), ("allow_empty", True)]
    v = pick(rng, params, dict(texts=[texts], update_vocab=[False, "if_empty"], allow_empty=[False]))

    def fresh(d):
        t = new()
        return t.streaming_tokenize, lambda res: [list(res), tok_state(t)]
    return params, v, fresh


def tok_file(which, save):
    name = f"{which}_name"
    default = f"{which}.tokenizer.json"

    def entry(ctx, rng):
        new, other = tokenizer(ctx, rng), tokenizer(ctx, rng)
        params = [("save_dir", REQ), (name, default)]
        v = pick(rng, params, {"save_dir": [DIR], name: ["other.json", "v"]})

        def fresh(d):
            t = new()
            if not save:
                getattr(t, "save_" + which)(d, **{name: v[name]})
                t = other()
            f = getattr(t, ("save_" if save else "load_") + which)
            return (lambda *a, **k: f(*subst(a, d), **subst(k, d))), lambda res: [res, tok_state(t)]
        return params, v, fresh
    return entry


def e_tokenize(ctx, rng):
    params = [("texts", REQ), ("lower", True), ("token_pattern", PATTERN), ("stopwords", "english"), ("stemmer", None), ("return_ids", True), ("show_progress", True), ("leave", False), ("allow_empty", True)]
    texts = texts_of(rng)
    v = pick(rng, params, dict(texts=[texts, texts, texts[0]], lower=[False], token_pattern=[r"\w+", r"\S+"], stopwords=STOPS, stemmer=[stem, Stemmer()], return_ids=[False], show_progress=[False], leave=[True], allow_empty=[False]))
    return params, v, lambda d: (ctx.bm25s.tokenize, lambda res: [type(res).__name__, res])


def e_topk(ctx, rng):
    params = [("query_scores", REQ), ("k", REQ), ("backend", "auto"), ("sorted", True)]
    n = rng.randint(1, 40)
    s = np.array([rng.choice([0.0, 1.0, rng.random()]) for _ in range(n)], dtype="float32")
    v = pick(rng, params, dict(query_scores=[s], k=[1, n, rng.randint(1, n)], backend=["numpy", "jax", "torch"], sorted=[False]))
    return params, v, lambda d: (ctx.bm25s.selection.topk, lambda res: [np.asarray(x) for x in res])


def lines(rng, d):
    enc = rng.choice(["utf-8", "utf-8", "latin-1"])
    p = os.path.join(d, "c.jsonl")
    with open(p, "w", encoding=enc) as f:
        for i in range(rng.randint(1, 12)):
            f.write('{"text": "%s"}\n' % rng.choice(["abc", "caf\u00e9", "", "x" * 50]))
    return p, enc


def with_lines(ctx, rng, fn):
    """Entries on a file of lines: fresh(d) writes it."""
    seed = rng.random()
    import random
    return lambda d: lines(random.Random(seed), d)


def e_jsonlcorpus(ctx, rng):
    params = [("path", REQ), ("show_progress", True), ("leave_progress", True), ("save_index", True), ("verbosity", 1), ("encoding", "utf-8")]
    v = pick(rng, params, dict(path=[DIR + "/c.jsonl"], show_progress=[False], leave_progress=[False], save_index=[False], verbosity=[0, 2], encoding=["latin-1", "utf8"]))
    write = with_lines(ctx, rng, None)
    again = rng.random() < 0.3

    def fresh(d):
        write(d)
        C = ctx.bm25s.utils.corpus.JsonlCorpus
        if again:
            C(os.path.join(d, "c.jsonl"), show_progress=False, verbosity=0, encoding="latin-1").close()

        def observe(c):
            out = [len(c), [c[i] for i in range(len(c))], c[::2], c.verbosity]
            c.close()
            return out
        return (lambda *a, **k: C(*subst(a, d), **subst(k, d))), observe
    return params, v, fresh


def e_newlines(ctx, rng):
    params = [("path", REQ), ("show_progress", True), ("leave_progress", True), ("encoding", "utf-8")]
    v = pick(rng, params, dict(path=[DIR + "/c.jsonl"], show_progress=[False], leave_progress=[False], encoding=["latin-1"]))
    write = with_lines(ctx, rng, None)

    def fresh(d):
        write(d)
        return (lambda *a, **k: ctx.bm25s.utils.corpus.find_newline_positions(*subst(a, d), **subst(k, d))), lambda res: list(res)
    return params, v, fresh


def e_save_mmindex(ctx, rng):
    params = [("indexes", REQ), ("path", REQ), ("encoding", "utf-8")]
    v = pick(rng, params, dict(indexes=[[0, 5, 9, 2 ** 33], [0]], path=[DIR + "/c.jsonl"], encoding=["utf-16", "latin-1"]))
    return params, v, lambda d: ((lambda *a, **k: ctx.bm25s.utils.corpus.save_mmindex(*subst(a, d), **subst(k, d))), lambda res: res)


def e_load_mmindex(ctx, rng):
    params = [("path", REQ), ("encoding", "utf-8")]
    v = pick(rng, params, dict(path=[DIR + "/c.jsonl"], encoding=["utf-16", "latin-1"]))
    how = rng.choice([v["encoding"], "utf-8"])

    def fresh(d):
        ctx.bm25s.utils.corpus.save_mmindex([0, 7, 20], os.path.join(d, "c.jsonl"), encoding=how)
        return (lambda *a, **k: ctx.bm25s.utils.corpus.load_mmindex(*subst(a, d), **subst(k, d))), lambda res: list(res)
    return params, v, fresh


def e_get_line(ctx, rng):
    params = [("path", REQ), ("index", REQ), ("mmindex", REQ), ("encoding", "utf-8"), ("file_obj", None), ("mmap_obj", None)]
    write = with_lines(ctx, rng, None)
    with open(write(ctx.scratch())[0], "rb") as f:
        starts = [0]
        for line in f:
            starts.append(starts[-1] + len(line))
    v = pick(rng, params, dict(path=[DIR + "/c.jsonl"], index=[rng.randrange(len(starts) - 1)], mmindex=[starts], encoding=["latin-1"]))

    def fresh(d):
        write(d)
        return (lambda *a, **k: ctx.bm25s.utils.corpus.get_line(*subst(a, d), **subst(k, d))), lambda res: res
    return params, v, fresh


@contextlib.contextmanager
def inside(d):
    was = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(was)


def dataset(rng, root, name):
    """A small dataset; returns its files."""
    import json
    p = os.path.join(root, name)
    os.makedirs(os.path.join(p, "qrels"), exist_ok=True)
    for f, n in (("corpus", 4), ("queries", 3)):
        with open(os.path.join(p, f + ".jsonl"), "w") as fh:
            for i in range(n):
                rec = {"_id": "%s%d" % (f[0], i), "text": "%s %s %d" % (name, root[-1], i), "metadata": {"a": i}}
                if i % 2:
                    rec["title"] = "T"
                fh.write(json.dumps(rec) + "\n")
    for s in ("test", "train", "dev"):
        with open(os.path.join(p, "qrels", s + ".tsv"), "w") as fh:
            fh.write("query-id\tcorpus-id\tscore\nq0\tc1\t1\nq%s\tc2\t%d\n" % (s, len(s)))


def beir_loader(fn, params, alt):
    def entry(ctx, rng):
        v = pick(rng, params, alt)
        if rng.random() < 0.05:
            v["dataset"] = "nothing"

        def fresh(d):
            for root in ("datasets", "elsewhere"):
                for n in ("nq", "fiqa"):
                    dataset(rng, os.path.join(d, root), n)

            def call(*a, **k):
                with inside(d):
                    return getattr(ctx.bm25s.utils.beir, fn)(*a, **k)
            return call, lambda res: res
        return params, v, fresh
    return entry


DS = dict(dataset=["nq", "fiqa"], save_dir=["./elsewhere", "elsewhere"], show_progress=[False], return_dict=[False], fname=["corpus.jsonl", "queries.jsonl"], force_title=[True], remove=[["metadata"], ["text", "none"]], split=["train", "dev", "valid"])
LOAD = [("dataset", REQ), ("save_dir", "./datasets"), ("show_progress", True), ("return_dict", True)]
e_load_jsonl = beir_loader("load_jsonl", [("dataset", REQ), ("fname", REQ), ("save_dir", "./datasets"), ("show_progress", True), ("return_dict", True), ("force_title", False), ("remove", None)], DS)
e_load_corpus = beir_loader("load_corpus", LOAD, DS)
e_load_queries = beir_loader("load_queries", LOAD, DS)
e_load_qrels = beir_loader("load_qrels", [("dataset", REQ), ("split", "test")] + LOAD[1:], DS)


def e_download(ctx, rng):
    params = [("dataset", REQ), ("base_url", "https://github.com/xhluca/bm25s/releases/download/data/{}.zip"), ("save_dir", "./datasets"), ("unzip", True), ("redownload", False), ("show_progress", True)]
    if "server" not in ctx.cache:
        ctx.cache["server"] = server.Server()
    srv = ctx.cache["server"]
    v = pick(rng, params, dict(dataset=["nq", "fiqa"], save_dir=["elsewhere"], unzip=[False], redownload=[True], show_progress=[False]))
    if rng.random() < 0.8:
        v["base_url"] = f"http://127.0.0.1:{srv.port}/d/" + "{}.zip"
    there = rng.random() < 0.5

    def archive(text):
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w") as z:
            z.writestr(zipfile.ZipInfo(v["dataset"] + "/version"), text)
        return b.getvalue()

    def fresh(d):
        del URLS[:]
        srv.requests.clear()
        srv.body, srv.script = archive("new"), [("ok",)]
        if there:
            p = os.path.join(d, v["save_dir"], "archive", v["dataset"] + ".zip")
            os.makedirs(os.path.dirname(p))
            with open(p, "wb") as f:
                f.write(archive("old"))

        def call(*a, **k):
            with inside(d):
                try:
                    return ctx.bm25s.utils.beir.download_dataset(*a, **k)
                except Stop:
                    return "refused"
        return call, lambda res: [os.fspath(res), list(URLS), [str(x) for x in srv.requests]]
    return params, v, fresh


def e_evaluate(ctx, rng):
    params = [("qrels", REQ), ("results", REQ), ("k_values", REQ), ("ignore_identical_ids", True)]
    ids = ["a", "b", "c", "d"]
    qrels = {q: {x: rng.randrange(3) for x in rng.sample(ids, 3)} for q in rng.sample(ids, 2)}
    res = {q: {x: rng.random() for x in rng.sample(ids, 3)} for q in qrels}
    v = pick(rng, params, dict(qrels=[qrels], results=[res], k_values=[[1, 3], [2]], ignore_identical_ids=[False]))
    return params, v, lambda d: (ctx.bm25s.utils.beir.evaluate, lambda r: r)


def e_postprocess(ctx, rng):
    params = [("results", REQ), ("scores", REQ), ("query_ids", REQ)]
    n = rng.randint(1, 4)
    v = dict(results=[[{"id": "d%d" % rng.randrange(9)}] for _ in range(n)], scores=[[rng.random()] for _ in range(n)], query_ids=["q%d" % i for i in range(n)])
    return params, v, lambda d: (ctx.bm25s.utils.beir.postprocess_results_for_eval, lambda r: r)


def e_timer(ctx, rng):
    params = [("prefix", ""), ("precision", 4)]
    v = pick(rng, params, dict(prefix=["[x]", "Run"], precision=[0, 2, 7]))
    return params, v, lambda d: (ctx.cache["Timer"], lambda t: timer_use(ctx, t))


def timer_use(ctx, t):
    c = ctx.cache["clock"]
    t.start("some Name")
    c["now"] += 3.123456789
    t.stop("some Name", show=True, n_total=7)
    t.show_all()
    return [t.elapsed("some Name"), t.to_dict()]


def timer_method(name, params, alt):
    def entry(ctx, rng):
        v = pick(rng, params, alt)
        pr = rng.choice([3, 5])
        dt = rng.choice([0.5, 3.123456789, 65.25])

        def fresh(d):
            c = ctx.cache["clock"]
            t = ctx.cache["Timer"](prefix="p", precision=pr)
            for n in ("some Name", "b"):
                t.start(n)
                c["now"] += dt
            if name != "stop":
                t.stop("some Name")
                t.stop("b")
            return getattr(t, name), lambda res: [res, t.to_dict() if name != "stop" else t.elapsed("some Name")]
        return params, v, fresh
    return entry


TN = dict(name=["some Name", "b", "unknown"], show=[True], n_total=[3, 10], precision=[0, 1, 9], offset=[1.5, 100], underscore=[True], lowercase=[True])
e_timer_stop = timer_method("stop", [("name", REQ), ("show", False), ("n_total", None)], {**TN, "name": ["some Name"]})
e_timer_elapsed = timer_method("elapsed", [("name", REQ), ("precision", None)], TN)
e_timer_show = timer_method("show", [("name", REQ), ("offset", 0), ("n_total", None)], TN)
e_timer_to_dict = timer_method("to_dict", [("underscore", False), ("lowercase", False)], TN)


def e_memory(ctx, rng):
    params = [("format", "GB")]
    v = pick(rng, params, dict(format=["MB", "KB", "PB"]))

    def observe(x):
        # the unit: the peak of this process is known
        return 0 if x is None else round(float(np.log2(max(float(x), 1e-12) / resource.getrusage(resource.RUSAGE_SELF).ru_maxrss)) / 10)
    return params, v, lambda d: (importlib.import_module("bm25s.utils.benchmark").get_max_memory_usage, observe)


class Enc:
    def __init__(self, t):
        self.tokens = t


class HF:
    """What batch_tokenize needs of a Hugging Face tokenizer."""

    def __call__(self, texts, add_special_tokens=True, **kw):
        return [Enc((["[CLS]"] if add_special_tokens else []) + t.split()) for t in texts]


def e_batch(ctx, rng):
    params = [("tokenizer", REQ), ("texts", REQ), ("add_special_tokens", False)]
    v = pick(rng, params, dict(tokenizer=[HF()], texts=[texts_of(rng)], add_special_tokens=[True]))
    return params, v, lambda d: (importlib.import_module("bm25s.hf").batch_tokenize, lambda r: [list(x) for x in r])


def hub_log(h):
    """What the hub was asked to keep."""
    return {n: (r["private"], r["owner"], {b: {k: v for k, v in f.items() if not k.endswith("README.md")} for b, f in r["branches"].items()},
                [(c["revision"], c["message"], c["token"], c["files"], c["description"]) for c in r["commits"]]) for n, r in sorted(h.repos.items())}


def hub_entry(kind, name, params, alt, push):
    def entry(ctx, rng):
        m = importlib.import_module("bm25s.hf")
        first = params[0][0]
        v = pick(rng, params, {**alt, first: ["me/x", "other/y"]})
        docs = docs_of(rng)
        p = gen.params(rng)
        recs = ["d%d" % i for i in range(len(docs))]
        if "corpus" in alt:
            v["corpus"] = rng.choice([None, recs])
        texts, other = texts_of(rng), texts_of(rng)
        owner = rng.choice([None, "hf_A"])

        def obj(ts=texts):
            if kind == "index":
                r = m.BM25HF(**p)
                r.index([list(x) for x in docs], show_progress=False)
                return r
            t = m.TokenizerHF(stopwords=["the"])
            t.tokenize(list(ts), update_vocab=True, show_progress=False)
            return t

        def fresh(d):
            h = hub.Hub(os.path.join(d, "hub"))
            out = os.path.join(d, "out")
            os.makedirs(out)
            x = obj()
            if not push:
                with h:
                    for rev in ("main", "dev"):
                        y = obj(texts if rev == "main" else other)
                        kw = dict(token=owner, revision=rev, private=False)
                        if kind == "index":
                            y.save_to_hub(v[first], corpus=recs if rev == "main" else None, **kw)
                        else:
                            y.save_vocab_to_hub(v[first], **kw)
                            y.save_stopwords_to_hub(v[first], **kw)
                x = obj(["other words"]) if kind != "index" else m.BM25HF
            h.calls.clear()
            f = getattr(x, name)

            def call(*a, **k):
                with h:
                    return f(*subst(a, out), **subst(k, out))

            def observe(res):
                new = res if kind == "index" and not push else x
                asked = [(n, a["given_token"], a.get("revision")) for n, a in h.calls]
                log = [res if push else type(res).__name__, state(new) if kind == "index" else tok_state(new), asked, hub_log(h) if push else 0]
                if kind == "index" and hasattr(getattr(new, "corpus", None), "close"):
                    new.corpus.close()
                shutil.rmtree(h.root, ignore_errors=True)
                return log
            return call, observe
        return params, v, fresh
    return entry


HA = dict(token=["hf_A", "hf_B"], local_dir=[DIR + "/loc"], private=[False], commit_message=["mine"], overwrite_local=[True], include_readme=[False], allow_pickle=[True], revision=["dev", "none"], load_corpus=[True], mmap=[True])
TP = lambda msg: [("repo_id", REQ), ("token", None), ("local_dir", None), ("commit_message", msg), ("overwrite_local", False), ("private", True)]
TL = [("repo_id", REQ), ("revision", None), ("token", None), ("local_dir", None)]
e_hub_save = hub_entry("index", "save_to_hub", [("repo_id", REQ), ("token", None), ("local_dir", None), ("corpus", None), ("private", True), ("commit_message", "Update BM25S model"), ("overwrite_local", False), ("include_readme", True), ("allow_pickle", False)], {**HA, "corpus": [None]}, True)
e_hub_load = hub_entry("index", "load_from_hub", [("repo_name", REQ), ("revision", None), ("token", None), ("local_dir", None), ("load_corpus", False), ("mmap", False), ("allow_pickle", False)], HA, False)
e_hub_save_vocab = hub_entry("tok", "save_vocab_to_hub", TP("Update tokenizer"), HA, True)
e_hub_save_stop = hub_entry("tok", "save_stopwords_to_hub", TP("Update stopwords"), HA, True)
e_hub_load_vocab = hub_entry("tok", "load_vocab_from_hub", TL, HA, False)
e_hub_load_stop = hub_entry("tok", "load_stopwords_from_hub", TL, HA, False)
e_save_vocab, e_load_vocab = tok_file("vocab", True), tok_file("vocab", False)
e_save_stopwords, e_load_stopwords = tok_file("stopwords", True), tok_file("stopwords", False)
ENTRIES = {k[2:]: f for k, f in sorted(globals().items()) if k.startswith("e_")}
WEIGHT = {"retrieve": 6, "load": 4, "save": 3, "tokenize": 4, "tok_tokenize": 4, "bm25": 4, "index": 3, "topk": 2}
BAG = [n for n in ENTRIES for _ in range(WEIGHT.get(n, 2))]


# -- comparison ---------------------------------------------------------------------------------------------------
def shown(text):
    """What was displayed, without times and rates."""
    if not text:
        return None
    descs = sorted({re.sub(r"[\d.]+", "#", x).strip() for x in re.findall(r"(?:^|[\r\n])([^\r\n:|]*)[:|]", text)})
    return descs, text.endswith("\n")


def outcome(ctx, fresh, a, k):
    d = ctx.scratch()
    if "tqdm" in sys.modules:
        # bars that an exception left open would move the next ones to other lines
        sys.modules["tqdm"].tqdm._instances.clear()
    ctx.cache["clock"].update(now=100.0, on=True)
    fn, observe = fresh(d)
    err, out = io.StringIO(), io.StringIO()
    a, k = copy.deepcopy((a, k))
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
            try:
                res = fn(*a, **k)
                if hasattr(res, "__next__"):
                    res = ["stream"] + list(res)
                e = None
            except Exception as x:
                e, res = x, None
        if e is not None:
            got = ("raised", type(e).__name__)
        else:
            with contextlib.redirect_stdout(out):
                try:
                    got = ("returned", freeze(observe(res)))
                except Violation:
                    raise
                except Exception as x:
                    got = ("raised later", type(x).__name__)
    finally:
        ctx.cache["clock"]["on"] = False
    files = tree(d)
    shutil.rmtree(d)
    os.makedirs(d)
    fix = lambda s: s.replace(d, "<dir>")
    return dict(result=got, files={fix(n): re.sub(rb"d\d+(?=/)", b"d", x) for n, x in files.items()}, shown=shown(fix(err.getvalue())) if e is None else None, printed=fix(out.getvalue())), e


def forms(rng, params, v):
    """Ways of making the call: (positional, named) with what they omit."""
    names = [n for n, _ in params]
    dflt = dict(params)
    isd = [n for n in names if dflt[n] is not REQ and is_default(v[n], dflt[n])]
    req = 0
    out = []
    last = max([i for i, n in enumerate(names) if n not in isd], default=-1) + 1
    # everything by position
    out.append(([v[n] for n in names], {}, 0, len(names)))
    # nothing that may be omitted
    out.append(([], {n: v[n] for n in names if n not in isd}, len(isd), 0))
    # as many as needed by position, the rest omitted
    out.append(([v[n] for n in names[:last]], {}, len(names) - last, last))
    for _ in range(2):
        j = rng.randint(0, len(names))
        rest = [n for n in names[j:] if not (n in isd and rng.random() < 0.6)]
        kw = {n: v[n] for n in rest}
        items = list(kw.items())
        rng.shuffle(items)
        out.append(([v[n] for n in names[:j]], dict(items), len(names) - j - len(rest), j))
    return out


def is_default(x, d):
    return x is d or (type(x) is type(d) and isinstance(d, (str, int, float, bool)) and x == d)


def one(ctx, rng, name, entry):
    params, v, fresh = entry(ctx, rng)
    base, e = outcome(ctx, fresh, (), dict(v))
    if v.get("show_progress") is False:
        ctx.check(base["shown"] is None and not base["printed"], lambda: f"{name} with show_progress=False shows {base['shown']!r:.200} and prints {base['printed']!r:.200}")
        ctx.count("silent_calls")
    for a, k, om, pos in rng.sample(forms(rng, params, v), 3):
        got, e2 = outcome(ctx, fresh, tuple(a), k)
        what = f"{name}: called with {len(a)} arguments by position and {sorted(k)} by name, out of {v!r:.500}"
        for part in ("result", "files", "shown", "printed"):
            ctx.check(got[part] == base[part], lambda: f"{what}: {part} differ from the same call with all arguments by name: {diff(got[part], base[part])} ({e2!r:.200}; {e!r:.200})")
        ctx.count("calls_compared")
        ctx.count("omissions", om)
        ctx.count("positions", pos)
        ctx.count("raised_alike", e is not None)
        ctx.count("shown_alike", base["shown"] is not None)
        ctx.count("files_compared", len(base["files"]))
        ctx.nontrivial((name, repr(v)[:2000], len(a), sorted(k)))
    if rng.random() < 0.4 and e is None:
        n = rng.choice([x for x, _ in params])
        bad = rng.choice([n + "s", n[:-1], n.upper(), "_" + n])
        if bad and bad not in v:
            got, e2 = outcome(ctx, fresh, (), {**v, bad: v[n]})
            ctx.check(e2 is not None, lambda: f"{name}: the misspelt argument {bad!r} was accepted")
            ctx.count("misspelt_rejected")
    ctx.count("entry_" + name)
    ctx.sample((name, v))


def diff(a, b):
    x, y = repr(a), repr(b)
    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return f"{x[max(0, i - 60):i + 140]} instead of {y[max(0, i - 60):i + 140]}"


def case_call(ctx, rng):
    name = BAG[ctx.index % len(BAG)]
    one(ctx, rng, name, ENTRIES[name])


def case_tuple(ctx, rng):
    """Results and Tokenized by position, name and unpacking; what the functions return unpacks in the same order."""
    b = ctx.bm25s
    d, s = np.array([[1, 2]]), np.array([[0.5, 0.25]])
    for r in (b.Results(d, s), b.Results(documents=d, scores=s), b.Results(scores=s, documents=d), b.Results(*b.Results(d, s))):
        x, y = r
        ctx.check(x is d and y is s and r.documents is d and r.scores is s and r[0] is d and r[1] is s and len(r) == 1, lambda: f"the fields of {r!r:.200} are mixed up")
    T = b.tokenization.Tokenized
    ids, voc = [[0, 1]], {"a": 0, "b": 1}
    for t in (T(ids, voc), T(ids=ids, vocab=voc), T(*T(ids, voc))):
        x, y = t
        ctx.check(x is ids and y is voc and t.ids is ids and t.vocab is voc, lambda: f"the fields of {t!r:.200} are mixed up")
    docs, new = built(ctx, rng, 2)
    r = new()
    q = [gen.query(rng, gen.vocab_of(docs)) for _ in range(rng.randint(1, 3))]
    res = r.retrieve(q, k=2, show_progress=False)
    x, y = res
    ctx.check(freeze(x) == freeze(res.documents) and freeze(y) == freeze(res.scores), lambda: f"{res!r:.200} unpacks in another order than its names")
    m = b.Results.merge([res, res])
    ctx.check(len(m) == 2 * len(q) and freeze(m.documents[:len(q)]) == freeze(x) and freeze(m.scores[len(q):]) == freeze(y), "merged results differ from their parts")
    texts = texts_of(rng)
    t = b.tokenize(list(texts), show_progress=False)
    i, w = t
    ctx.check(i is t.ids and w is t.vocab and isinstance(w, dict), "what tokenize returns unpacks in another order than its names")
    ctx.count("calls_compared")
    ctx.nontrivial(("tuple", ctx.index))


def case_large(ctx, rng):
    """Defaults do not depend on the size: indexes up to 80 MB a file, many documents, long texts."""
    b = ctx.bm25s
    d = ctx.scratch()
    n = [2 * 10 ** 5, 2 * 10 ** 6, 2 * 10 ** 7][ctx.index % 3]
    r = b.BM25()
    r.index([["a"], ["b"]], show_progress=False)
    r.save(d)
    for f, t in (("data", "float32"), ("indices", "int32")):
        np.lib.format.open_memmap(os.path.join(d, f + ".csc.index.npy"), mode="w+", dtype=t, shape=(n,)).flush()
    np.save(os.path.join(d, "indptr.csc.index.npy"), np.array([0, n // 2, n, n], dtype="int32"))
    v = {"save_dir": d, **dict(NAMES), "load_corpus": False, "mmap": False, "allow_pickle": False, "load_vocab": True}
    if rng.random() < 0.5:
        v["mmap"] = True
    base = b.BM25.load(**v)
    for a, k in (((d,), {"mmap": True} if v["mmap"] else {}), (tuple(v.values()), {}), ((d,), {"mmap": v["mmap"]})):
        got = b.BM25.load(*a, **k)
        for x in ("data", "indices", "indptr"):
            p, q = base.scores[x], got.scores[x]
            ctx.check(type(p) is type(q) and p.shape == q.shape and p.dtype == q.dtype and isinstance(q, np.memmap) == v["mmap"], lambda: f"load with {len(a)} arguments by position and {k} by name of an index with {n} postings: {x} is a {type(q).__name__} {q.shape} instead of {type(p).__name__} {p.shape}")
        ctx.count("calls_compared")
    del base, got
    # many documents and queries
    m = [1500, 12000, 70000][ctx.index % 3]
    r = b.BM25()
    r.index([["w%d" % (i % 50), "x"] for i in range(m)], show_progress=False)
    q = [["w1", "x"]] * rng.choice([1, 300])
    x = r.retrieve(query_tokens=q, corpus=None, k=10, sorted=True, return_as="tuple", show_progress=False, leave_progress=False, n_threads=0, chunksize=50, backend_selection="auto", weight_mask=None)
    y = r.retrieve(q, show_progress=False)
    ctx.check(freeze(x) == freeze(y), lambda: f"retrieve of {len(q)} queries on {m} documents without its options differs from the call with the documented defaults: {diff(y, x)}")
    texts = ["the Cat_%d sat on mats" % (i % 977) for i in range(m)]
    x = b.tokenize(texts=texts, lower=True, token_pattern=PATTERN, stopwords="english", stemmer=None, return_ids=True, show_progress=False, leave=False, allow_empty=True)
    y = b.tokenize(texts, show_progress=False)
    ctx.check(x.ids == y.ids and x.vocab == y.vocab, lambda: f"tokenize of {m} texts without its options differs from the call with the documented defaults")
    t, u = b.tokenization.Tokenizer(lower=True, splitter=PATTERN, stopwords="english", stemmer=None), b.tokenization.Tokenizer()
    x = t.tokenize(texts=texts, update_vocab="if_empty", leave_progress=False, show_progress=False, length=None, return_as="ids", allow_empty=True)
    y = u.tokenize(texts, show_progress=False)
    ctx.check(x == y and t.get_vocab_dict() == u.get_vocab_dict(), lambda: f"Tokenizer.tokenize of {m} texts without its options differs from the call with the documented defaults")
    ctx.count("calls_compared", 3)
    ctx.count("large_compared")
    ctx.nontrivial(("large", ctx.index))


def case_numba(ctx, rng):
    """The compiled selection and a compiled retriever."""
    params = [("query_scores", REQ), ("k", REQ), ("backend", "numba"), ("sorted", True)]
    n = rng.randint(2, 30)
    s = np.array([rng.random() for _ in range(n)], dtype="float32")
    sel = importlib.import_module("bm25s.numba.selection")
    v = pick(rng, params, dict(query_scores=[s], k=[1, rng.randint(1, n)], backend=["numpy"], sorted=[False]))
    one(ctx, rng, "numba_topk", lambda c, r: (params, v, lambda d: (sel.topk, lambda res: [np.asarray(x) for x in res])))
    docs = docs_of(rng, 12, 20)
    p = gen.params(rng, method="lucene", dtype="float32", int_dtype="int32")
    q = [gen.query(rng, gen.vocab_of(docs)) for _ in range(3)]
    v = pick(rng, RETR, dict(query_tokens=[q], corpus=[["d%d" % i for i in range(len(docs))]], k=[1, 3], sorted=[False], return_as=["documents"], show_progress=[False], n_threads=[2]))

    def fresh(d):
        r = ctx.bm25s.BM25(backend="numba", **p)
        r.index([list(x) for x in docs], show_progress=False)
        return r.retrieve, lambda res: [type(res).__name__, res]
    one(ctx, rng, "numba_retrieve", lambda c, r: (RETR, v, fresh))
