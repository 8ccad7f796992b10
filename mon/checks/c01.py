"""C01 scores = formula: a reference monitor compares every score against an independent float64 BM25."""
from .. import gen
from ..oracle import METHODS, Ref, compare_scores
from ..util import *

LEVEL = "exploration"
RULE = ("random corpora (1..100 documents, empty/very long/identical documents, token repeated beyond 8/16-bit counts, zipf vocabularies, odd Unicode tokens), "
        "the 25 method x idf combinations in rotation, random k1/b/delta/dtypes, queries with repeats and unknown tokens; plus large-scale corpora "
        "(>65536 documents, tokens or repeats). Non-trivial: the query has at least one token of the corpus; distinct by (parameters, corpus, query).")
ASSUMPTIONS = ["reference: textbook formulas in float64 written independently; absent documents use tf=0 (0/0 parameter choices k1=0 with bm25l/bm25+ excluded)",
               "tolerance: (16+query length) ulp of the sum of magnitudes"]


def plan(tier):
    n = 5000 if tier == "quick" else 40000
    return [dict(cases=[("formula", n), ("big", 10 if tier == "quick" else 60)], workers=7)]


def MIN(tier):
    return {"distinct": 2000, "scores_compared": 20000, "variants": 1, "cases_big": 4}


def verify(ctx, rng, docs, p, queries, full=True):
    ref = Ref(docs, **p)
    r = make(ctx, docs, p)
    n = len(docs)
    for q in queries:
        s, m = ref.scores(q)
        tol = ref.tol(q, m, p["dtype"])
        desc = dict(params=p, docs=docs if n <= 30 else f"{n} documents", query=q)
        got = r.get_scores(list(q))
        compare_scores(ctx, got, s, tol, "get_scores", **desc)
        known = [t for t in q if t in ref.post]
        ids = [r.vocab_dict[t] for t in known]
        if ids and rng.random() < 0.5:
            compare_scores(ctx, r.get_scores_from_ids(ids), s, tol, "get_scores_from_ids", **desc)
            compare_scores(ctx, r.get_scores(ids), s, tol, "get_scores(ids)", **desc)
        if full and rng.random() < 0.5:
            d, sc = rows(r.retrieve([list(q)], k=n, backend_selection="numpy", show_progress=False))
            back = np.full(n, np.nan)
            back[d[0]] = sc[0]
            compare_scores(ctx, back, s, tol, "retrieve(k=n)", **desc)
        if known:
            ctx.nontrivial((sorted(p.items(), key=str), docs if n <= 100 else n, q))
    return r


def case_formula(ctx, rng):
    p = variant(rng, ctx.index)
    ctx.count("variants")
    docs = gen.corpus(rng)
    voc = gen.vocab_of(docs)
    qs = [gen.query(rng, voc) for _ in range(6)] + [[t] for t in rng.sample(voc, min(4, len(voc)))]
    verify(ctx, rng, docs, p, qs)
    ctx.sample(dict(params=p, docs=len(docs), queries=qs[:2]))


def case_big(ctx, rng):
    style = ctx.index % 10
    p = gen.params(rng)
    if style == 0:      # more documents than 16 bits count
        docs = [[f"t{i % 7}", f"u{i % 1000}"] for i in range(66000)]
        qs = [["t3", "u999"], ["u5"], ["t0", "t6", "t0"]]
    elif style == 1:    # more tokens than 16 bits count
        docs = [[f"v{j}" for j in range(i * 700, i * 700 + 700)] for i in range(100)]
        qs = [["v69999"], ["v65536", "v0"], ["v35", "v40000", "v66001"]]
    elif style == 2:    # a token repeated more often than 16 bits count
        docs = [["a"] * 70000 + ["b"], ["a", "b", "c"], ["c"] * 300]
        qs = [["a"], ["b", "a"], ["c", "c"]]
    elif style == 3:    # very long queries
        docs = gen.corpus(rng, n_docs=50)
        voc = gen.vocab_of(docs)
        qs = [[rng.choice(voc) for _ in range(5000)], [voc[0]] * 300]
    elif style == 4:    # around power-of-two and thousand boundaries
        n = rng.choice([1000, 1001, 1023, 1024, 1025, 2048, 4096, 4097, 10001])
        docs = [[f"t{i % 13}"] * (1 + i % 3) + [f"d{i}"] for i in range(n)]
        qs = [[f"d{n - 1}"], ["t0", "d0"], ["t5", "t5"]]
    elif style == 5:    # a very long document among short ones
        docs = [["x", "y"] for _ in range(20)] + [[f"w{j % 5000}" for j in range(66000)]]
        qs = [["x"], ["w1", "y"], ["w4999"]]
    elif style == 6:    # token in exactly half / all / all but one of many documents
        n = rng.choice([257, 3000, 9999])
        docs = [["all"] + (["half"] if i % 2 else []) + (["most"] if i else []) for i in range(n)]
        qs = [["all"], ["half"], ["most"], ["all", "half", "most"]]
    elif style == 7:    # many empty documents
        docs = [[] if i % 10 else [f"t{i % 70}", "z"] for i in range(3000)]
        qs = [["t0"], ["z", "t10"]]
    elif style == 8:
        docs = gen.corpus(rng, n_docs=rng.choice([5000, 20000]), max_len=8)
        voc = gen.vocab_of(docs)
        qs = [gen.query(rng, voc) for _ in range(4)]
    else:               # document lengths beyond 8 and 16 bits
        docs = [["a"] * n + ["b"] for n in (1, 254, 255, 256, 65534, 65535, 65536)]
        qs = [["a"], ["b"], ["a", "b"]]
    verify(ctx, rng, docs, p, qs, full=style in (0, 4, 6))
