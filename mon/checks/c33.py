"""C33 on-disk format: directories written by an independent writer of the layout are loaded and searched, and what save writes is read by an independent reader, which must find the scores, vocabulary, parameters, documents and line offsets in it.

Neither the writer nor the reader uses code of bm25s. The foreign writer varies everything the layout leaves open."""
import json
import os

from .. import gen, layout
from ..oracle import Ref, check_topk
from ..store import corpus_for, names
from ..util import *

LEVEL = "exploration"
RULE = ("foreign directories: arbitrary scores in compressed column form x parameters as integers or floats, in any order, with and without version and backend x plain, indented and escaped JSON x with and without corpus and line index x mmap, backends; "
        "written directories: 25 variants x corpora x names x forms of tokens, read back value by value; tokenizer vocabularies and stopword lists both ways. Non-trivial: a directory with at least one posting whose every score was compared; distinct by its contents.")
ASSUMPTIONS = ["rows are ascending within a column, values finite", "JSON is UTF-8", "file names are the defaults or those given"]


def plan(tier):
    f = 1 if tier == "quick" else 60
    s = 100 if tier == "quick" else 2400
    return [dict(cases=[("foreign", 500 * f), ("written", 450 * f), ("tokenizer", 250 * f), ("lines", 150 * f)], workers=4, soft=s),
            dict(cases=[("foreign", 60 * f), ("written", 20 * f)], workers=1, env={"MON_SIG": "float32,int32,0,none"}, soft=s),
            dict(cases=[("foreign", 100 * f), ("written", 100 * f), ("tokenizer", 60 * f), ("lines", 60 * f)], workers=1, env={"MON_BLOCK": "orjson"}, soft=s)]


def MIN(tier):
    return {"distinct": 900, "foreign": 500, "written": 400, "cells_compared": 50000, "rows_checked": 1000, "records_compared": 2000, "offsets_compared": 1000, "tokenizers": 200, "lines_read": 1000}


def setup(ctx):
    ctx.numba = "MON_SIG" in os.environ


def style(rng, value):
    """The same JSON value, written otherwise."""
    kw = dict(indent=rng.choice([None, None, 1, 4]), ensure_ascii=rng.random() < 0.5, separators=rng.choice([None, (",", ":"), (" , ", " : ")]))
    if isinstance(value, dict):
        items = list(value.items())
        rng.shuffle(items)
        value = dict(items)
    return value, kw


def case_foreign(ctx, rng):
    n = rng.choice([1, 2, 3, 7, 20, 60])
    voc = gen.words(rng, rng.choice([1, 2, 5, 20, 50]))
    if rng.random() < 0.6 and "" not in voc:
        voc.insert(rng.randint(0, len(voc)), "")
    p = sig_params(rng) if ctx.numba else variant(rng, ctx.index)
    dt = p["dtype"]
    cols = []
    for t in voc:
        rows = sorted(rng.sample(range(n), rng.choice([0, 1, rng.randint(0, n), rng.randint(0, n)])))
        cols.append([(r, float(np.dtype(dt).type(rng.choice([rng.uniform(0.01, 9), 1.0, 0.5, 2.0, 0.0])))) for r in rows])
    order = list(range(len(voc)))
    data = np.array([v for c in cols for _, v in c], dtype=dt)
    indices = np.array([r for c in cols for r, _ in c], dtype=p["int_dtype"])
    indptr = np.cumsum([0] + [len(c) for c in cols]).astype(rng.choice([p["int_dtype"], p["int_dtype"], "int64", "int32"]) if not ctx.numba else p["int_dtype"])
    nn = p["method"] in ("bm25l", "bm25+")
    nnoc = np.array([rng.choice([0.0, 0.25, 1.5]) for _ in voc], dtype=dt) if nn else None
    d = ctx.scratch()
    layout.write_arrays(d, data, indices, indptr, nnoc)
    rng.shuffle(order)
    v, kw = style(rng, {voc[i]: i for i in order})
    layout.write_json(os.path.join(d, "vocab.index.json"), v, **kw)
    num = lambda x: int(x) if float(x).is_integer() and rng.random() < 0.5 else x
    par = dict(k1=num(p["k1"]), b=num(p["b"]), delta=num(p["delta"]), method=p["method"], idf_method=p["idf_method"] or p["method"], dtype=dt, int_dtype=p["int_dtype"], num_docs=n)
    if rng.random() < 0.6:
        par["version"] = rng.choice(["0.1.0", "0.2.5", "9.9.9", ""])
    backend = "numpy"
    if ctx.numba or rng.random() < 0.5:
        par["backend"] = backend = "numba" if ctx.numba else "numpy"
    v, kw = style(rng, par)
    layout.write_json(os.path.join(d, "params.index.json"), v, **kw)
    recs = None
    if rng.random() < 0.6:
        recs = [rng.choice([{"id": i, "text": gen.unicode_string(rng, 12) + str(i)}, [i, "x"], {"_id": f"d{i}", "title": gen.unicode_string(rng, 5)}]) for i in range(n)]
        kw = dict(ensure_ascii=rng.random() < 0.5, separators=rng.choice([None, (",", ":")]))
        lines = [json.dumps(x, **kw).encode() for x in recs]
        end = rng.choice([b"\n", b"\n", b""])
        with open(os.path.join(d, "corpus.jsonl"), "wb") as f:
            f.write(b"\n".join(lines) + end)
        if rng.random() < 0.6:
            off = np.cumsum([0] + [len(x) + 1 for x in lines])[:-1].tolist()
            v, kw = style(rng, off)
            layout.write_json(os.path.join(d, "corpus.mmindex.json"), v, **kw)
    files = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
    mm, lc = rng.random() < 0.5, rng.random() < 0.7
    what = f"foreign directory (parameters {par}, {n} documents, {len(voc)} columns, mmap={mm}, load_corpus={lc}, files {sorted(files)})"
    r = ctx.bm25s.BM25.load(d, mmap=mm, load_corpus=lc)
    ctx.count("foreign")
    for k in ("k1", "b", "delta", "method", "idf_method", "dtype", "int_dtype"):
        ctx.check(getattr(r, k) == par[k], lambda: f"{what}: parameter {k} is {getattr(r, k)!r}")
    ctx.check(r.backend == backend, lambda: f"{what}: the backend is {r.backend}")
    full = np.zeros((n, len(voc)))
    for c, col in enumerate(cols):
        for row, val in col:
            full[row, c] = val
    if nn:
        full += nnoc.astype(np.float64)[None, :]
    have = recs is not None and lc
    for _ in range(3):
        q = [rng.choice(voc) for _ in range(rng.randint(1, 6))] + (["__absent__"] if rng.random() < 0.2 else [])
        known = [voc.index(t) for t in q if t in voc]
        if not known and "" in voc:
            known = [voc.index("")]
        want = sum((full[:, c] for c in known), np.zeros(n))
        tol = (8 + len(q)) * (2 ** -23 if dt == "float32" else 2 ** -52) * np.abs(full[:, known]).sum(axis=1) * (3 if nn else 1) + 1e-300 + (1e-6 if nn and dt == "float32" else 0)
        if "" in q and "" in voc and known == [voc.index("")]:
            tol = tol + 1e-6
        s = r.get_scores(list(q))
        bad = np.abs(np.asarray(s, dtype=float) - want) > tol
        ctx.check(len(s) == n and not bad.any(), lambda: f"{what}: get_scores({q!r:.100}) is {s!r:.200} instead of {want!r:.200}")
        ctx.count("cells_compared", n * len(q))
        k = rng.choice([n, rng.randint(1, n)])
        res = r.retrieve([list(q)], k=k, show_progress=False, backend_selection="auto" if ctx.numba else "numpy")
        if have:
            where = {repr(freeze(norm(x))): i for i, x in enumerate(recs)}
            idx = np.array([where.get(repr(freeze(norm(x))), -1) for x in res.documents[0].tolist()])
            ctx.check(bool((idx >= 0).all()), lambda: f"{what}: returned {res.documents[0].tolist()!r:.300}, not all lines of the corpus")
            ctx.count("records_compared", k)
        else:
            idx = res.documents[0]
        check_topk(ctx, want, tol, idx, res.scores[0], k, True, f"{what}: retrieve {q!r:.100}")
    if have:
        got = [norm(r.corpus[i]) for i in range(n)]
        ctx.check(len(r.corpus) == n and freeze(got) == freeze(norm(recs)), lambda: f"{what}: the corpus reads {got!r:.300} instead of {recs!r:.300}")
    for f, b in files.items():
        ctx.check(open(os.path.join(d, f), "rb").read() == b, lambda: f"{what}: reading it changed {f}")
    if data.size:
        ctx.nontrivial(("foreign", data.tobytes(), tuple(voc), freeze(par)))
    ctx.sample(dict(directory=what))


def case_written(ctx, rng):
    docs = gen.corpus(rng, n_docs=rng.choice([1, 2, 3, 6, 15, 40]), max_len=rng.choice([2, 8, 30]))
    if rng.random() < 0.05:  # more tokens and documents than fit small integers
        n = rng.choice([300, 1500])
        docs = [[f"w{rng.randrange(2000)}" for _ in range(rng.randint(1, 12))] for _ in range(n)]
        ctx.count("large")
    if not any(docs):
        return
    p = sig_params(rng) if ctx.numba else variant(rng, ctx.index)
    n = len(docs)
    form = rng.choice(["strings", "ids", "ids with unused"])
    obj = docs if form == "strings" else tokenized(ctx, docs, rng, rng.randint(1, 4) if form == "ids with unused" else 0)
    corpus, exp = corpus_for(rng, n)
    d = ctx.scratch()
    backend = "numba" if ctx.numba else "numpy"
    r = ctx.bm25s.BM25(backend=backend, **p)
    r.index(obj, show_progress=False)
    nm = names(rng)
    if rng.random() < 0.3:  # something else was here before
        o = ctx.bm25s.BM25(method="bm25+")
        o.index([["x", "y"]] * 3, show_progress=False)
        o.save(d, corpus=["old"] * 3 if exp is not None else None, **nm)
    r.save(d, corpus=corpus, **nm)
    ctx.count("written")
    files = {k: nm.get(k + "_name", f) for k, f in layout.FILES.items()}
    what = f"directory saved from {form} ({p['method']}/{p['idf_method']}, {p['dtype']}, {p['int_dtype']}, {n} documents, names {nm})"
    try:
        x = layout.read(d, files)
    except (ValueError, OSError, UnicodeDecodeError) as e:
        ctx.fail(f"{what}: an independent reader cannot read it: {type(e).__name__}: {e}; files {sorted(os.listdir(d))}")
    want = dict(p, idf_method=p["idf_method"] or p["method"], backend=backend, num_docs=n)
    for k, v in want.items():
        ctx.check(k in x["params"] and x["params"][k] == v and type(x["params"][k]) in (type(v), int, float), lambda: f"{what}: the parameters have {k}={x['params'].get(k)!r} instead of {v!r}")
    ctx.check(str(x["data"].dtype) == p["dtype"] and x["indices"].dtype.kind == "i" and x["indptr"].dtype.kind == "i", lambda: f"{what}: arrays of type {x['data'].dtype} and {x['indices'].dtype}")
    vals = sorted(x["vocab"].values())
    v = len(x["indptr"]) - 1
    ctx.check(vals == list(range(len(vals))) and len(vals) <= v, lambda: f"{what}: columns {vals[:10]!r} of {v}")
    ctx.check(x["indptr"][0] == 0 and bool((np.diff(x["indptr"].astype(np.int64)) >= 0).all()) and x["indptr"][-1] == len(x["data"]) == len(x["indices"]), lambda: f"{what}: the column pointers {x['indptr']!r:.200} do not fit {len(x['data'])} values")
    ctx.check(bool(((x["indices"] >= 0) & (x["indices"] < n)).all()), lambda: f"{what}: rows outside 0..{n - 1}")
    nn = p["method"] in ("bm25l", "bm25+")
    ctx.check((x["nnoc"] is not None) == nn, lambda: f"{what}: {'no' if nn else 'a'} nonoccurrence array")
    m = layout.dense(x, n)
    ref = Ref(docs, **p)
    for t in ref.post:
        ctx.check(t in x["vocab"], lambda: f"{what}: the vocabulary lacks {t!r}")
        full, mag = ref.scores([t])
        tol = 2 * ref.tol([t], mag, p["dtype"])
        got = m[:, x["vocab"][t]]
        bad = np.abs(got - full) > tol
        ctx.check(not bad.any(), lambda: f"{what}: the stored scores of {t!r} are {got!r:.200} instead of {full!r:.200}")
        ctx.count("cells_compared", n)
    # columns of tokens that occur nowhere hold nothing
    for t, c in x["vocab"].items():
        if t not in ref.post:
            ctx.check(x["indptr"][c] == x["indptr"][c + 1], lambda: f"{what}: the column of {t!r}, which no document contains, has postings")
    if exp is not None:
        ctx.check(freeze(norm(x["corpus"])) == freeze(norm(exp)), lambda: f"{what}: the corpus file holds {x['corpus']!r:.300} instead of {exp!r:.300}")
        off = np.cumsum([0] + [len(y) + 1 for y in x["lines"]])[:-1].tolist()
        ctx.check(x["mmindex"] == off, lambda: f"{what}: the line index is {x['mmindex']!r:.200} instead of {off!r:.200}")
        ctx.count("records_compared", n)
        ctx.count("offsets_compared", n)
    ctx.nontrivial(("written", freeze(docs), freeze(p), form))


def case_lines(ctx, rng):
    """Any JSONL file, with and without a line index written by others."""
    C = ctx.bm25s.utils.corpus
    recs = [rng.choice([gen.json_value(rng, 2), {"id": i, "t": gen.unicode_string(rng, 20)}]) for i in range(rng.choice([1, 2, 9, 40]))]
    kw = dict(ensure_ascii=rng.random() < 0.5, separators=rng.choice([None, (",", ":")]))
    eol = rng.choice([b"\n", b"\n", b"\r\n"])
    lines = [json.dumps(x, **kw).encode("utf-8") for x in recs]
    d = ctx.scratch()
    name = rng.choice(["corpus.jsonl", "a.b.jsonl", "docs.json"])
    path = os.path.join(d, name)
    with open(path, "wb") as f:
        f.write(eol.join(lines) + rng.choice([eol, b""]))
    off = np.cumsum([0] + [len(x) + len(eol) for x in lines])[:-1].tolist()
    mm = path.rsplit(".", 1)[0] + ".mmindex.json"
    foreign = rng.random() < 0.5
    if foreign:
        v, kw = style(rng, off)
        layout.write_json(mm, v, **kw)
    c = C.JsonlCorpus(path, show_progress=False, verbosity=0)
    try:
        got = [c[i] for i in range(len(c))]
    finally:
        c.close()
    ctx.check(freeze(norm(got)) == freeze(norm(recs)), lambda: f"{name} with lines ending in {eol!r}, {'its' if foreign else 'no'} line index: read {got!r:.300} instead of {recs!r:.300}")
    ctx.count("lines_read", len(recs))
    written = json.loads(open(mm, "rb").read())
    ctx.check(written == off, lambda: f"{name} with lines ending in {eol!r}: the line index is {written!r:.200}, the lines start at {off!r:.200}")
    ctx.count("offsets_compared", len(off))
    ctx.nontrivial(("lines", freeze(recs), eol))


def case_tokenizer(ctx, rng):
    Tk = ctx.bm25s.tokenization.Tokenizer
    texts = [gen.text(rng) for _ in range(rng.randint(1, 6))]
    stop = rng.choice([[], ["the", "a"], ["\u00fcber", "na\u00efve"]])
    lower = rng.random() < 0.5
    d = ctx.scratch()
    if rng.random() < 0.5:  # written by others
        words = [w for w in dict.fromkeys(gen.words(rng, rng.randint(1, 12), weird=0)) if len(w) > 1 and w.isalnum() and w == w.lower()]
        if not words:
            return
        ids = list(range(len(words)))
        off = rng.random() < 0.5
        table = {w: i + off for w, i in zip(words, ids)}
        if off:
            table[""] = 0
        full = dict(word_to_stem={w: w for w in words}, stem_to_sid=dict(table), word_to_id=dict(table))
        v, kw = style(rng, full)
        layout.write_json(os.path.join(d, "vocab.tokenizer.json"), v, **kw)
        sv, kw = style(rng, stop)
        layout.write_json(os.path.join(d, "stopwords.tokenizer.json"), sv, **kw)
        t = Tk(stopwords=[], lower=lower)
        t.load_vocab(d)
        t.load_stopwords(d)
        ctx.check(t.get_vocab_dict() == table and list(t.stopwords) == stop, lambda: f"a foreign tokenizer of {table!r:.200} and stopwords {stop} loads as {t.get_vocab_dict()!r:.200}, {t.stopwords!r}")
        q = [" ".join(rng.choice(words) for _ in range(4))]
        got = t.tokenize(q, update_vocab=False, show_progress=False)[0]
        want = [table[w] for w in q[0].split() if w not in stop]
        ctx.check(got == want or (not want and got in ([], [0])), lambda: f"a foreign tokenizer of {table!r:.200} gives {got!r} for {q!r} instead of {want!r}")
        ctx.nontrivial(("foreign tokenizer", tuple(words), q[0]))
    else:
        t = Tk(stopwords=list(stop), lower=lower)
        t.tokenize(texts, show_progress=False)
        t.save_vocab(d)
        t.save_stopwords(d)
        x = json.loads(open(os.path.join(d, "vocab.tokenizer.json"), "rb").read().decode("utf-8"))
        s = json.loads(open(os.path.join(d, "stopwords.tokenizer.json"), "rb").read().decode("utf-8"))
        want = dict(word_to_stem=t.word_to_stem, stem_to_sid=t.stem_to_sid, word_to_id=t.word_to_id)
        for k, v in want.items():
            ctx.check(x.get(k) == v, lambda: f"the saved tokenizer has {k}={x.get(k)!r:.200} instead of {v!r:.200}")
        ctx.check(s == list(stop), lambda: f"the saved stopwords are {s!r} instead of {stop!r}")
        ctx.nontrivial(("tokenizer", freeze(texts), lower))
    ctx.count("tokenizers")
