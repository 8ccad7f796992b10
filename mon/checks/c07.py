"""C07 indexing forms: every form of one tokenized corpus is indexed and every answer of each is compared with one independent reference.

Score vectors, retrievals and failures of all forms are observed on the same queries, so that a form that shifts, drops or merges documents or tokens is seen."""
from .. import gen
from ..oracle import Ref, check_topk, compare_scores
from ..util import *

LEVEL = "exploration"
RULE = ("random corpora (empty documents, all-empty corpora, one document, repeated documents, thousands of tokens) indexed as strings (list, tuple, generator), (ids, vocabulary) "
        "shuffled and extended, Tokenized, any object with ids and vocab, bare integer tokens, permuted, with/without the created empty token, all progress options; the low-level building functions called directly and overridden by subclasses. "
        "Non-trivial: an index whose score vectors of at least one query with a known token were compared; distinct by (corpus, form, parameters).")


def plan(tier):
    f = 1 if tier == "quick" else 40
    return [dict(cases=[("forms", 700 * f), ("empty", 120 * f), ("lowlevel", 250 * f), ("big", 6 * f)], workers=6),
            dict(cases=[("numba", 100 * f)], workers=1, env={"MON_SIG": "float32,int32,1,none"})]


def MIN(tier):
    return {"distinct": 2000, "scores_compared": 100000, "forms": 3000, "int_queries": 300, "lowlevel_columns": 1000, "overrides": 100}


class Obj:
    def __init__(self, ids, vocab):
        self.ids, self.vocab = ids, vocab


class Iter:
    """An iterable that can be iterated again but is no sequence."""
    def __init__(self, docs):
        self.docs = docs

    def __iter__(self):
        return iter(self.docs)


def forms(ctx, rng, docs):
    """(name, corpus argument, row permutation, int map)"""
    T = ctx.bm25s.tokenization.Tokenized
    n = len(docs)
    idn = list(range(n))
    c = lambda: [list(d) for d in docs]
    out = [("strings", c(), idn, None), ("iterable", Iter(c()), idn, None), ("generator", (d for d in c()), idn, None),
           ("tuples of strings", [tuple(d) for d in docs], idn, None)]
    for extra in (0, rng.choice([1, 5])):
        ids, v = tokenized(ctx, docs, rng, extra)
        out.append((f"(ids, vocab+{extra})", (ids, v), idn, None))
    ids, v = tokenized(ctx, docs, rng, rng.choice([0, 3]))
    out.append(("Tokenized", T(ids=ids, vocab=v), idn, None))
    ids, v = tokenized(ctx, docs, rng, rng.choice([0, 3]))
    out.append(("object", Obj(ids, v), idn, None))
    # a vocabulary that already has the empty token, in any position
    ids, v = tokenized(ctx, docs, rng, 0)
    if "" not in v:
        at = rng.randint(0, len(v))
        v2 = {t: i + (i >= at) for t, i in v.items()}
        v2[""] = at
        out.append(("vocab with empty token", ([[v2[t] for t in d] for d in docs], v2), idn, None))
    perm = idn[:]
    rng.shuffle(perm)
    out.append(("permuted", [list(docs[i]) for i in perm], perm, None))
    voc = gen.vocab_of(docs)
    nums = rng.sample(range(0, 10 * len(voc) + 10), len(voc)) if rng.random() < 0.7 else rng.sample(range(10 ** 9, 10 ** 9 + 10 * len(voc) + 10), len(voc))
    if rng.random() < 0.2:
        nums = [-x for x in nums]
    im = dict(zip(voc, nums))
    out.append(("bare integers", [[im[t] for t in d] for d in docs], idn, im))
    return out


def observe(ctx, rng, docs, p, backend="numpy", k_all=True, sel=("numpy",), only=None):
    ref = Ref(docs, **p)
    voc = gen.vocab_of(docs)
    qs = [q for q in [gen.query(rng, voc, unknown=0.3) for _ in range(4)]] + ([[t] for t in rng.sample(voc, min(2, len(voc)))])
    n = len(docs)
    for name, corpus, perm, im in forms(ctx, rng, docs):
        if only and rng.random() > only:
            continue
        cet = rng.choice([True, True, False])
        opts = dict(create_empty_token=cet, show_progress=rng.choice([False, False, True]), leave_progress=rng.choice([False, True]))
        if rng.random() < 0.3 and cet:
            del opts["create_empty_token"]
        if n != 2 and name == "strings" and rng.random() < 0.3:
            corpus, name = tuple(corpus), "tuple of lists"
        keep = freeze(corpus if not isinstance(corpus, Obj) else (corpus.ids, corpus.vocab)) if name not in ("generator", "iterable") else None
        r = ctx.bm25s.BM25(backend=backend, **p)
        r.index(corpus, **opts)
        ctx.count("forms")
        what = f"indexed as {name} with {opts}, {p}"
        if keep is not None:
            ctx.check(keep == freeze(corpus if not isinstance(corpus, Obj) else (corpus.ids, corpus.vocab)), f"{what}: index changed its input")
        for q in qs:
            full, m = ref.scores(q)
            full, m = full[perm], m[perm]
            tol = ref.tol(q, m, p["dtype"])
            known = [t for t in q if t in ref.post]
            if im is None:
                if q and (cet or known):
                    compare_scores(ctx, r.get_scores(list(q)), full, tol, f"{what}, query {q!r:.100}", docs=docs[:20])
                arg = [list(q)]
            else:
                # integer tokens are queried as integer tokens
                unk = [max(im.values(), default=0) + 5 + j for j in range(3)]
                arg = [[im.get(t, rng.choice(unk)) for t in q]]
                ctx.count("int_queries")
            if not known and not cet:
                continue
            k = rng.choice([n, rng.randint(1, n)])
            d, s = rows(r.retrieve(arg, k=k, show_progress=False, backend_selection=rng.choice(sel)))
            check_topk(ctx, full, tol, d[0], s[0], k, True, f"{what}, retrieve {q!r:.100}", docs=docs[:20])
            if known:
                ctx.nontrivial((docs, name, sorted(p.items(), key=str)))
    return ref


def case_forms(ctx, rng):
    p = variant(rng, ctx.index)
    docs = gen.corpus(rng, n_docs=rng.choice([None, None, 1, 2]))
    observe(ctx, rng, docs, p, sel=("numpy",) * 6 + (("auto",) if ctx.index % 9 == 0 else ()), only=0.6)
    ctx.sample(dict(params=p, docs=docs[:5]))


def case_empty(ctx, rng):
    """Corpora mostly or wholly without tokens."""
    p = variant(rng, ctx.index)
    n = rng.choice([1, 1, 2, 3, 10])
    docs = [[] for _ in range(n)]
    if rng.random() < 0.5:
        docs[rng.randrange(n)] = ["a"] * rng.randint(1, 3)
    if rng.random() < 0.3:
        docs[rng.randrange(n)] = [""]
    observe(ctx, rng, docs, p)
    ctx.count("all_empty", all(not d for d in docs))


def case_big(ctx, rng):
    p = variant(rng, ctx.index * 7)
    voc = ["w%d" % i for i in range(rng.choice([70000, 33000, 3000]))]
    docs = [gen.zipf_choice(rng, voc, rng.choice([20, 50]), 1) for _ in range(rng.choice([300, 1500]))]
    docs[-1] = list(voc)  # more distinct tokens than 16 bits can number
    for i in rng.sample(range(len(docs) - 1), 30):
        docs[i] = [rng.choice(voc) for _ in range(rng.choice([0, 1, 1, 2]))]
    observe(ctx, rng, docs, p, only=0.3)


def case_numba(ctx, rng):
    p = sig_params(rng)
    observe(ctx, rng, gen.corpus(rng), p, backend="numba", sel=("auto",), only=0.6)


def dense(scores, cols, n):
    """One column per token of what an index holds."""
    out = np.zeros((cols, n))
    ptr = np.asarray(scores["indptr"])
    for c in range(cols):
        for j in range(int(ptr[c]), int(ptr[c + 1])):
            out[c, int(scores["indices"][j])] += float(scores["data"][j])
    return out


def case_lowlevel(ctx, rng):
    """The documented low-level functions: they build what index builds, and index uses the ones a subclass gives."""
    p = variant(rng, ctx.index)
    docs = gen.corpus(rng)
    voc = gen.vocab_of(docs)
    ids, v = tokenized(ctx, docs, rng, rng.choice([0, 2]))
    ref = Ref(docs, **p)
    n = len(docs)
    base = ctx.bm25s.BM25
    quiet = dict(show_progress=rng.random() < 0.2, leave_progress=False)
    # called directly, on an object of their own
    r = base(**p)
    r.index((ids, dict(v)), create_empty_token=rng.random() < 0.5, show_progress=False)
    mine = dense(r.scores, len(v), n)
    got = base(**p).build_index_from_ids(sorted(v.values()), [list(d) for d in ids], **quiet)
    ctx.check(int(got["num_docs"]) == n, f"build_index_from_ids says there are {got['num_docs']} documents, not {n}, {p}")
    ctx.check(np.allclose(dense(got, len(v), n), mine, rtol=1e-5, atol=1e-7), f"build_index_from_ids builds something else than index of the same ids, {p}", docs=docs[:20])
    how = rng.choice(["list", "generator", "tuple"])
    toks = dict(list=[list(d) for d in docs], generator=(list(d) for d in docs), tuple=tuple(tuple(d) for d in docs))[how]
    sc, vd = base(**p).build_index_from_tokens(toks, **quiet)
    ctx.check(set(vd) == set(voc), f"build_index_from_tokens gives a vocabulary of {sorted(vd)!r:.200} for tokens {voc!r:.200}")
    ctx.check(sorted(vd.values()) == list(range(len(voc))), f"build_index_from_tokens numbers {len(voc)} tokens as {sorted(vd.values())!r:.200}")
    d2 = dense(sc, len(vd), n)
    for t in voc:
        m = ref.scores([t])[1]
        ctx.check(bool((np.abs(d2[vd[t]] - mine[v[t]]) <= 2 * ref.tol([t], m, p["dtype"])).all()), f"build_index_from_tokens stores other scores for {t!r} than index does, {p}", docs=docs[:20])
    ctx.count("lowlevel_columns", len(voc))
    # given by a subclass
    calls = []
    style = rng.choice(["ids", "tokens", "both"])

    class Sub(base):
        if style in ("ids", "both"):
            def build_index_from_ids(self, *a, **k):
                calls.append("ids")
                s = super().build_index_from_ids(*a, **k)
                s["data"] = np.asarray(s["data"]) * np.asarray(s["data"]).dtype.type(2)
                self.nonoccurrence_array = None if self.nonoccurrence_array is None else self.nonoccurrence_array * self.nonoccurrence_array.dtype.type(2)
                return s
        if style in ("tokens", "both"):
            def build_index_from_tokens(self, corpus_tokens, *a, **k):
                calls.append("tokens")
                return super().build_index_from_tokens([[t + "!" for t in d] for d in corpus_tokens], *a, **k)

    form = rng.choice(["strings", "ids", "Tokenized"])
    s = Sub(**p)
    if form == "strings":
        s.index([list(d) for d in docs], show_progress=False)
    elif form == "ids":
        s.index((ids, dict(v)), show_progress=False)
    else:
        s.index(ctx.bm25s.tokenization.Tokenized(ids=ids, vocab=dict(v)), show_progress=False)
    want = (["tokens"] if form == "strings" and style != "ids" else []) + (["ids"] if style != "tokens" else [])
    what = f"a subclass that overrides {style}, indexed from {form}"
    ctx.check(calls == want, f"{what}: index used {calls}, not {want}")
    mark = "!" if "tokens" in want else ""
    mul = 2 if "ids" in want else 1
    for q in [gen.query(rng, voc, unknown=0.2) for _ in range(3)]:
        if q:
            full, m = ref.scores(q)
            tol = ref.tol(q, m, p["dtype"])
            compare_scores(ctx, s.get_scores([t + mark for t in q]), full * mul, tol * mul, f"{what}, {p}, query {q!r:.100}", docs=docs[:20])
    ctx.count("overrides", len(want))
    ctx.nontrivial((docs, style, form, sorted(p.items(), key=str)))
