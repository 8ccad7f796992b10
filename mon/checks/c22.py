"""C22 pipelines: raw texts go through the real tokenizers, index, save/load and retrieve in every documented combination of forms, and every returned document and score is judged by a brute-force BM25 over independently tokenized texts.

The reference tokenizes and scores without any code of bm25s. numpy, the compiled scorer and the numba backend are covered; each numba worker is bound to one type signature."""
import re

from .. import gen, textref, tokmodel
from ..oracle import Ref, check_topk, compare_scores
from ..util import *

LEVEL = "exploration"
RULE = ("raw Unicode texts (also empty, punctuation only, stopwords only, duplicates) x function/class tokenizer x stemmer, stopwords, splitter, lower x index from Tokenized, strings, (ids, vocab), bare ids, generator x "
        "queries as Tokenized, strings, (ids, vocab), ids, stream, single string x fresh, saved and reloaded (with tokenizer, corpus, mmap) x 25 variants x numpy/numba. Non-trivial: a query with a positive score; distinct by texts, query and configuration.")
ASSUMPTIONS = ["queries are tokenized with the options used for the corpus", "an index built from bare IDs is queried with IDs of the same tokenizer",
               "a query without any token, on a corpus in which documents without tokens hold the empty token, may be taken as the empty token or as no token"]


def plan(tier):
    f = 1 if tier == "quick" else 60
    s = 100 if tier == "quick" else 2400
    c = [("function", 350 * f), ("klass", 450 * f), ("readme", 60 * f), ("wordpieces", 60 * f)]
    n = [("function", 120 * f), ("klass", 150 * f)]
    return [dict(cases=c, workers=4, soft=s)] + [dict(cases=n, workers=1, env={"MON_SIG": g}, soft=s) for g in ("float32,int32,0,none", "float32,int32,1,none", "float64,int64,0,none")] + [
        dict(cases=[("function", 100 * f), ("klass", 100 * f)], workers=1, env={"MON_BLOCK": "orjson,numba"}, soft=s)]


def MIN(tier):
    return {"distinct": 3000, "rows_checked": 5000, "scores_compared": 20000, "positive_queries": 3000, "reloads": 300, "index_ids": 60, "index_strings": 100, "index_tuple": 100, "index_tokenized": 200,
            "query_ids": 200, "query_strings": 200, "query_tuple": 100, "query_tokenized": 200, "query_stream": 50, "numba_rows": 300, "wordpieces": 300}


def setup(ctx):
    import os
    ctx.numba = "MON_SIG" in os.environ


def params(ctx, rng):
    if ctx.numba:
        return sig_params(rng), rng.choice(["numba", "numba", "numba", "numpy"])
    return variant(rng, ctx.index), "numpy"


def texts(rng, n=None):
    n = n or rng.choice([1, 2, 3, 5, 8, 13, 30, 60])
    pieces = rng.choice([None, rng.sample(gen.TEXT_PIECES, 8), ["cat", "cats", "dog", "dogs", "the", "running", "runs", "run", "a"]])
    out = [gen.text(rng, rng.choice([3, 12, 40]), pieces) for _ in range(n)]
    if rng.random() < 0.3:
        out = [rng.choice(out) for _ in out]
    if rng.random() < 0.04:  # a text with more tokens than any usual limit
        i = rng.randrange(n)
        out[i] = (out[i] + " cat ") * (rng.choice([1100, 4500, 66000]) // (1 + out[i].count(" ")))
        out[i] += " lastword"
    return out


def queries(rng, corpus):
    out = []
    for _ in range(rng.choice([1, 2, 4, 9])):
        k = rng.random()
        if k < 0.6:
            w = " ".join(rng.choice(corpus) for _ in range(2)).split() or ["nothing"]
            out.append(" ".join(rng.choice(w) for _ in range(rng.randint(1, 6))))
        elif k < 0.7:
            out.append(rng.choice(corpus))
        else:
            out.append(gen.text(rng, 5))
        if rng.random() < 0.02 and len(out[-1]) < 500:
            w = corpus[rng.randrange(len(corpus))][-200:]
            out[-1] = (out[-1] + " ") * rng.choice([300, 2000]) + w
    return out


def build(ctx, rng, corpus_obj, n, p, backend, kind):
    """An index, perhaps saved and reloaded; returns (retriever, expected records or None, directory or None)."""
    c = rng.choice([None, None, "given", "saved"])
    recs = [{"id": i, "title": f"t{i}", "text": gen.unicode_string(rng, 8)} for i in range(n)]
    if rng.random() < 0.4:
        recs = [f"text {i} {gen.unicode_string(rng, 5)}" for i in range(n)]
    r = ctx.bm25s.BM25(backend=backend, corpus=recs if c == "given" else None, **p)
    if rng.random() < 0.3 and kind != "reused":
        # a retriever that has indexed something else before
        r.index([["old", "words"], ["old"], []], show_progress=False)
        r.vocab_dict["x"] = 0
    r.index(corpus_obj, show_progress=False)
    exp = recs if c == "given" else None
    d = None
    if rng.random() < 0.5:
        d = ctx.scratch()
        r.save(d, corpus=recs if c == "saved" else None)
        lc = c in ("given", "saved") and rng.random() < 0.7
        r = ctx.bm25s.BM25.load(d, load_corpus=lc, mmap=rng.random() < 0.5)
        ctx.count("reloads")
        exp = None
        if lc:
            exp = [x if isinstance(x, dict) else {"id": i, "text": x} for i, x in enumerate(recs)]
    return r, exp, d


def judge(ctx, rng, r, exp, p, backend, form, want, what, n):
    """form: what is passed to retrieve; want: per query, the reference scores allowed [(scores, tolerance)]."""
    if n == 0:
        return
    k = rng.choice([n, n, 1, rng.randint(1, n), rng.randint(1, n)])
    kw = dict(k=k, show_progress=False, sorted=rng.random() < 0.8)
    if rng.random() < 0.2:
        kw.update(n_threads=rng.choice([1, 2, 4]))
    if backend == "numpy":
        kw["backend_selection"] = "numpy" if not ctx.numba or rng.random() < 0.8 else "numba"
    if exp is None and rng.random() < 0.3:
        kw["corpus"] = exp = [f"document {i}" for i in range(n)] if rng.random() < 0.5 else np.array([f"document {i}" for i in range(n)])
    if rng.random() < 0.15:
        kw["return_as"] = "documents"
    res = r.retrieve(form, **kw)
    docs, sc = (res, None) if "return_as" in kw else (res.documents, res.scores)
    ctx.check(np.shape(docs) == (len(want), k), lambda: f"{what}: {np.shape(docs)} documents for {len(want)} queries and k={k}")
    for i, alts in enumerate(want):
        row = docs[i]
        if exp is not None:
            where = {repr(freeze(norm(x))): j for j, x in enumerate(exp if not isinstance(exp, np.ndarray) else exp.tolist())}
            got = [x for x in row.tolist()]
            idx = np.array([where.get(repr(freeze(norm(x))), -1) for x in got])
            ctx.check(bool((idx >= 0).all()), lambda: f"{what}: query {i}: returned {got!r:.200}, not all documents of the corpus")
        else:
            idx = np.asarray(row)
        s = alts
        if len(s) > 1:  # two readings allowed
            if sc is None:
                continue
            s = [a for a in alts if np.all(np.abs(np.asarray(sc[i], dtype=np.float64) - a[0][idx]) <= a[1][idx])] or alts[:1]
        full, tol = s[0]
        # without scores the order is judged by the reference's scores of the documents returned
        row_sc = full[idx] if sc is None else sc[i]
        check_topk(ctx, full, tol, idx, row_sc, k, kw["sorted"] and sc is not None, f"{what}: query {i}")
        if "numba" in (backend, kw.get("backend_selection")):
            ctx.count("numba_rows")
        if (full > 0).any():
            ctx.count("positive_queries")


def reference(docs, p):
    ref = Ref(docs, **p) if sum(map(len, docs)) else None
    n = len(docs)

    def want(q):
        alts = [q]
        if any("" in d for d in docs) and all(t == "" for t in q):
            alts = [q, [], [""]]
        out = []
        for a in alts:
            if ref is None:
                out.append((np.zeros(n), np.full(n, 1e-300)))
            else:
                s, m = ref.scores(a)
                out.append((s, ref.tol(a, m, p["dtype"])))
        return out
    return want


def case_function(ctx, rng):
    T = ctx.bm25s.tokenization
    _, fform, _ = stem = textref.stemmer(rng)
    stop, words = textref.stopwords(rng)
    pat = rng.choice(textref.PATTERNS)
    lower = rng.random() < 0.7
    kw = dict(lower=lower, token_pattern=pat, stopwords=stop, stemmer=fform, show_progress=False)
    if rng.random() < 0.3:
        kw["allow_empty"] = rng.random() < 0.5
    no_match = T.tokenize(["\x01"], return_ids=False, **dict(kw, token_pattern="zzz"))[0]

    def toks(t):
        x, m = textref.tokens(t, lower, pat, words, stem[0])
        return x if m else list(no_match)

    corpus = texts(rng)
    docs = [toks(t) for t in corpus]
    if not any(docs):
        return
    p, backend = params(ctx, rng)
    form = rng.choice(["tokenized", "strings", "tuple", "generator"])
    if form in ("strings", "generator"):
        obj = T.tokenize(list(corpus), return_ids=False, **kw)
        if form == "generator":
            lst = obj
            obj = (x for x in lst)
        ctx.count("index_strings")
    else:
        obj = T.tokenize(list(corpus), **kw)
        if form == "tuple":
            ids, voc = obj
            obj = (ids, voc)
            ctx.count("index_tuple")
        else:
            ctx.count("index_tokenized")
    r, exp, d = build(ctx, rng, obj, len(docs), p, backend, "function")
    want = reference(docs, p)
    for _ in range(2):
        qs = queries(rng, corpus)
        wants = [want(toks(q)) for q in qs]
        qf = rng.choice(["tokenized", "strings", "tuple", "single", "wrapped"])
        if qf == "single":
            f = T.tokenize(qs[0], **kw)
            wants = wants[:1]
            ctx.count("query_tokenized")
        elif qf == "tokenized":
            f = T.tokenize(list(qs), **kw)
            ctx.count("query_tokenized")
        elif qf == "wrapped":
            ids, voc = T.tokenize(list(qs), **kw)
            f = T.Tokenized(ids=ids, vocab=voc)
            ctx.count("query_tokenized")
        elif qf == "tuple":
            f = tuple(T.tokenize(list(qs), **kw))
            ctx.count("query_tuple")
        else:
            f = T.tokenize(list(qs), return_ids=False, **kw)
            ctx.count("query_strings")
        what = f"function tokenizer ({form} -> {qf}, {p['method']}/{p['idf_method']}, {backend}{', reloaded' if d else ''})"
        judge(ctx, rng, r, exp, p, backend, f, wants, what, len(docs))
        for q, w in zip(qs, wants):
            ts = T.tokenize(q, return_ids=False, **kw)[0]
            if ts and len(w) == 1:
                compare_scores(ctx, r.get_scores(ts), w[0][0], w[0][1], f"{what}: get_scores of {q!r:.100}")
            ctx.nontrivial((tuple(corpus), q, sorted(map(str, p.items()))))
    ctx.sample(dict(corpus=corpus[:3], queries=qs[:3], tokenizer=dict(lower=lower, pattern=pat, stopwords=words[:5], stemmer=str(fform)), pipeline=what))


def split_space(t):
    return t.split()


def case_klass(ctx, rng):
    T = ctx.bm25s.tokenization
    sfn, _, sform = textref.stemmer(rng)
    if sfn is not None and sfn("") != "":
        sfn = sform = None
    stop, words = textref.stopwords(rng)
    if "" in words:
        stop = words = [w for w in words if w]
    pat = rng.choice(textref.PATTERNS + [None])
    splitter = split_space if pat is None else pat
    split = split_space if pat is None else lambda t: [x.group(1) if x.re.groups else x.group() for x in re.finditer(pat, t)]
    lower = rng.random() < 0.7
    ae = rng.random() < 0.8
    kwa = {} if ae and rng.random() < 0.5 else dict(allow_empty=ae)

    def new():
        return T.Tokenizer(lower=lower, splitter=splitter, stopwords=stop, stemmer=sform)

    tok, model = new(), tokmodel.Model(lower, split, words, sfn)
    corpus = texts(rng)
    iform = rng.choice(["tokenized", "strings", "tuple", "ids", "stream", "stream-to-tuple"])
    upd = rng.choice([True, "if_empty", True])
    if iform.startswith("stream"):
        upd = True
    if rng.random() < 0.2:  # the tokenizer has seen other texts before
        other = texts(rng, 3)
        tok.tokenize(other, update_vocab=True, show_progress=False, **kwa)
        model.begin(True, ae)
        for t in other:
            model.step(t, True, ae)
    elif rng.random() < 0.25:  # ... or was used for another pipeline (often of the same words in another order) and reset
        other = [" ".join(reversed(t.split())) for t in reversed(corpus)] if rng.random() < 0.6 else texts(rng)
        tok.tokenize(other, update_vocab=True, return_as=rng.choice(["string", "tuple"]), show_progress=False, **kwa)
        seen = [list(range(len(tok.get_vocab_dict())))]
        before = {v: w for w, v in tok.get_vocab_dict().items()}
        ctx.check(tok.decode(seen) == [[before[i] for i in seen[0]]], lambda: f"decode of all ids gives {tok.decode(seen)!r:.300}")
        if rng.random() < 0.5:
            tok.reset_vocab()
        else:  # or loaded an empty tokenizer's vocabulary
            e = ctx.scratch()
            new().save_vocab(e)
            tok.load_vocab(e)
        ctx.count("tokenizer_resets")
    eff = model.mode(upd)
    model.begin(eff, ae)
    docs = [model.step(t, eff, ae) for t in corpus]
    if iform == "ids":
        obj = tok.tokenize(list(corpus), update_vocab=upd, show_progress=False, **kwa)
        ctx.count("index_ids")
    elif iform == "strings":
        obj = tok.tokenize(list(corpus), update_vocab=upd, return_as="string", show_progress=False, **kwa)
        ctx.count("index_strings")
    elif iform == "stream":
        obj = tok.decode(list(tok.tokenize(list(corpus), update_vocab=upd, return_as="stream", **kwa)))
        ctx.count("index_strings")
    elif iform == "stream-to-tuple":
        obj = tok.to_tokenized_tuple(list(tok.streaming_tokenize((t for t in corpus), update_vocab=upd, **kwa)))
        ctx.count("index_tokenized")
    else:
        obj = tok.tokenize(list(corpus), update_vocab=upd, return_as="tuple", show_progress=False, **kwa)
        if iform == "tuple":
            obj = (obj.ids, obj.vocab)
            ctx.count("index_tuple")
        else:
            ctx.count("index_tokenized")
    if not any(docs):
        return
    p, backend = params(ctx, rng)
    r, exp, d = build(ctx, rng, obj, len(docs), p, backend, "klass")
    if d and rng.random() < 0.8:
        tok.save_vocab(d)
        t2 = T.Tokenizer(lower=lower, splitter=splitter, stopwords=rng.choice([[], stop]), stemmer=sform)
        t2.load_vocab(d)
        tok.save_stopwords(d)
        t2.load_stopwords(d)
        tok = t2
    want = reference(docs, p)
    for _ in range(2):
        qs = queries(rng, corpus)
        qu = rng.choice([False, False, "if_empty", "never"])
        forms = ["tokenized", "strings", "tuple", "stream-strings", "stream-tuple"] + (["ids", "ids", "stream"] if iform in ("tokenized", "tuple", "stream-to-tuple") else [])
        if iform == "ids":
            forms = ["ids", "stream"]
        elif iform in ("strings", "stream") and rng.random() < 0.2:
            qu = True  # new words of queries get tokens the index does not know
        qf = rng.choice(forms)
        if qf.startswith("stream") and qu == "if_empty":
            qu = False
        e = model.mode(qu)
        model.begin(e, ae)
        exp_t = [model.step(q, e, ae) for q in qs]
        what = f"Tokenizer ({iform} -> {qf}, update_vocab={qu}, {p['method']}/{p['idf_method']}, {backend}{', reloaded' if d else ''})"
        if qf == "ids":
            f = tok.tokenize(list(qs), update_vocab=qu, show_progress=False, **kwa)
            ctx.count("query_ids")
        elif qf == "stream":
            f = list(tok.streaming_tokenize(iter(qs), update_vocab=qu, **kwa))
            ctx.count("query_stream")
        elif qf == "strings":
            f = tok.tokenize(list(qs), update_vocab=qu, return_as="string", show_progress=False, **kwa)
            ctx.count("query_strings")
        elif qf == "stream-strings":
            f = tok.decode(list(tok.tokenize(list(qs), update_vocab=qu, return_as="stream", **kwa)))
            ctx.count("query_stream")
        elif qf == "stream-tuple":
            ids = list(tok.tokenize(list(qs), update_vocab=qu, return_as="stream", **kwa))
            f = tok.to_tokenized_tuple(ids)
            ctx.count("query_stream")
        else:
            f = tok.tokenize(list(qs), update_vocab=qu, return_as="tuple", show_progress=False, **kwa)
            if qf == "tuple":
                f = (f.ids, dict(f.vocab))
                ctx.count("query_tuple")
            else:
                ctx.count("query_tokenized")
        judge(ctx, rng, r, exp, p, backend, f, [want(t) for t in exp_t], what, len(docs))
        for q, ts in zip(qs, exp_t):
            ctx.nontrivial((tuple(corpus), q, iform, qf, sorted(map(str, p.items()))))
            w = want(ts)
            if ts and len(w) == 1 and iform != "ids":
                compare_scores(ctx, r.get_scores(list(ts)), w[0][0], w[0][1], f"{what}: get_scores of {q!r:.100}")
    ctx.sample(dict(corpus=corpus[:3], queries=qs[:3], tokenizer=dict(lower=lower, pattern=pat, stopwords=words[:5], stemmer=str(sform), allow_empty=ae), pipeline=what))


def case_readme(ctx, rng):
    """The quickstart, word by word, with random texts."""
    bm25s = ctx.bm25s
    import Stemmer
    corpus = texts(rng, rng.randint(3, 20))
    stem = textref.Lang("english")
    from bm25s.stopwords import STOPWORDS_EN
    toks = lambda t: textref.tokens(t, True, gen.DEFAULT_PATTERN, STOPWORDS_EN, stem)[0]
    docs = [toks(t) for t in corpus]
    if not any(docs):
        return
    stemmer = Stemmer.Stemmer("english")
    corpus_tokens = bm25s.tokenize(corpus, stopwords="en", stemmer=stemmer, show_progress=False)
    corpus_json = [{"text": t, "metadata": {"n": i}} for i, t in enumerate(corpus)]
    method = rng.choice(["robertson", "lucene", "atire", "bm25l", "bm25+"])
    retriever = bm25s.BM25(method=method, corpus=corpus_json) if rng.random() < 0.5 else bm25s.BM25(method=method)
    has = retriever.corpus is not None
    retriever.index(corpus_tokens, show_progress=False)
    p = dict(method=method, idf_method=None, k1=1.5, b=0.75, delta=0.5, dtype="float32", int_dtype="int32")
    want = reference(docs, p)
    for step in ("fresh", "reloaded", "mapped"):
        if step == "reloaded":
            d = ctx.scratch()
            retriever.save(d, corpus=None if has else corpus)
            retriever = bm25s.BM25.load(d, load_corpus=True)
        elif step == "mapped":
            retriever = bm25s.BM25.load(d, mmap=True, load_corpus=rng.random() < 0.7)
        q = queries(rng, corpus)[0]
        qt = bm25s.tokenize(q, stemmer=stemmer, show_progress=False)
        k = rng.randint(1, min(3, len(docs)))
        results, scores = retriever.retrieve(qt, k=k, show_progress=False, backend_selection="numpy")
        idx = []
        for i in range(results.shape[1]):
            x = results[0, i]
            if isinstance(x, dict):
                idx.append(x["id"] if "id" in x else x["metadata"]["n"])
                ctx.check(x["text"] == corpus[idx[-1]], lambda: f"quickstart ({step}): record {x!r} has another text")
            else:
                idx.append(int(x))
        full, tol = want(toks(q))[0]
        check_topk(ctx, full, tol, np.array(idx), scores[0], k, True, f"quickstart ({step}, {method}): {q!r:.100}")
        ctx.nontrivial(("readme", tuple(corpus), q))
        if step != "fresh":
            ctx.count("reloads")


class Encoding:
    def __init__(self, tokens):
        self.tokens = tokens
        self.ids = [hash(t) % 1000 for t in tokens]


class Encodings:
    """What a Hugging Face tokenizer returns for a list of texts."""

    def __init__(self, encodings):
        self.encodings = encodings

    def __getitem__(self, i):
        return [e.ids for e in self.encodings] if i == "input_ids" else self.encodings[i]

    def tokens(self, i=0):
        return list(self.encodings[i].tokens)


class WordPieces:
    """A tokenizer with the calling convention of Hugging Face's: words cut into pieces, special tokens when asked."""

    def __init__(self, size):
        self.size, self.calls = size, []

    def pieces(self, text, special):
        out = [w[i:i + self.size] if i == 0 else "##" + w[i:i + self.size] for w in text.split() for i in range(0, len(w), self.size)]
        return ["[CLS]"] + out + ["[SEP]"] if special else out

    def __call__(self, text, add_special_tokens=True, truncation=False, max_length=None, **kw):
        self.calls.append((len(text), add_special_tokens))
        cut = (lambda t: t[:max_length]) if truncation else (lambda t: t)
        return Encodings([Encoding(cut(self.pieces(t, add_special_tokens))) for t in text])


def case_wordpieces(ctx, rng):
    """Texts tokenized by a Hugging Face tokenizer, or in parts by several calls, as in the examples."""
    import contextlib
    import io
    import bm25s.hf
    corpus = texts(rng)
    w = WordPieces(rng.choice([1, 3, 5]))
    special = rng.random() < 0.3
    kw = {"add_special_tokens": special} if special or rng.random() < 0.5 else {}
    with contextlib.redirect_stderr(io.StringIO()):
        got = bm25s.hf.batch_tokenize(w, corpus, **kw)
        q = queries(rng, corpus)
        gq = bm25s.hf.batch_tokenize(w, q, **kw)
    want = [w.pieces(t, special) for t in corpus]
    ctx.check([list(d) for d in got] == want, lambda: f"batch_tokenize of {corpus!r:.200} (special tokens {special}) gives {got!r:.300} instead of {want!r:.300}")
    ctx.check([list(d) for d in gq] == [w.pieces(t, special) for t in q], lambda: f"batch_tokenize of {q!r:.200} gives {gq!r:.300}")
    ctx.count("wordpieces", len(want))
    if not any(want):
        return
    p, backend = params(ctx, rng)
    r = ctx.bm25s.BM25(backend=backend, **p)
    r.index(got, show_progress=False)
    k = rng.randint(1, len(corpus))
    res = r.retrieve([list(d) for d in gq], k=k, show_progress=False, backend_selection="auto" if backend == "numba" else "numpy")
    ref = reference(want, p)
    for i, t in enumerate(q):
        w = ref(gq[i])
        if gq[i] and len(w) == 1:
            check_topk(ctx, w[0][0], w[0][1], res.documents[i], res.scores[i], k, True, f"word pieces, {p['method']}: {t!r:.100}")
            ctx.count("rows_checked")
            ctx.nontrivial(("wordpieces", tuple(corpus), t))
