"""C04 query forms: the same queries in every accepted form must give rows consistent with one reference."""
from .. import gen
from ..oracle import Ref, check_topk, compare_scores
from ..util import *

LEVEL = "exploration"
RULE = ("random corpora and batches with empty and fully unknown queries first/middle/last/only, in forms: token strings, Tokenized and (ids, vocabulary) with an own "
        "vocabulary in random order, index ids mixed with unknown ids; all variants, numpy and numba. Non-trivial: a batch whose rows were all checked; distinct by (batch, form, backend).")
ASSUMPTIONS = ["corpora do not contain the empty token themselves", "get_scores (unlike retrieve) may reject ids outside the index instead of ignoring them"]


def plan(tier):
    q = tier == "quick"
    f = 1 if q else 30
    return [
        dict(cases=[("numpy", 700 * f)], workers=3),
        dict(cases=[("scorer", 150 * f)], workers=1, env={"MON_SIG": "float32,int32,0,none"}),
        dict(cases=[("numba", 260 * f)], workers=1, env={"MON_SIG": "float32,int32,0,none"}),
        dict(cases=[("numba", 260 * f)], workers=1, env={"MON_SIG": "float32,int32,1,none"}),
        dict(cases=[("numba", 200 * f)], workers=1, env={"MON_SIG": "float64,int64,1,none"}),
    ]


def MIN(tier):
    return {"distinct": 1500, "rows_checked": 5000, "empty_queries": 1000, "unknown_ids": 500, "cases_numba": 100}


def batch(rng, voc):
    n = rng.choice([1, 1, 2, 3, 4, 7])
    qs = [gen.query(rng, voc, unknown=0.4) for _ in range(n)]
    style = rng.randrange(8)
    if style == 0:
        qs = [[] for _ in qs]
    elif style == 1:
        qs[0] = []
    elif style == 2:
        qs[-1] = []
    elif style == 3:
        qs.insert(rng.randint(0, len(qs)), [])
    elif style == 4:
        qs = [["__unk%d__" % i] for i in range(n)]
    elif style == 5:
        qs = [[], []] + qs + [[]]
    return qs


def refilled(ctx, rng, qs, mine):
    """A query over one dict object owned by the caller, refilled (often to the same length) for every batch."""
    own = list(dict.fromkeys(t for q in qs for t in q))
    size = rng.choice([len(mine), len(mine), len(own), 12])
    own += ["__pad%d__" % i for i in range(size - len(own))]
    rng.shuffle(own)
    mine.clear()
    mine.update((t, i) for i, t in enumerate(own))
    ctx.count("refilled_vocab")
    return "refilled vocabulary", rng.choice([tuple, lambda x: ctx.bm25s.tokenization.Tokenized(*x)])(([[mine[t] for t in q] for q in qs], mine))


def forms(ctx, rng, r, qs):
    """(name, query argument) for every accepted form of the batch."""
    T = ctx.bm25s.tokenization.Tokenized
    out = [("strings", [list(q) for q in qs])]
    voc = sorted({t for q in qs for t in q} | {"__other%d__" % i for i in range(rng.randint(0, 3))})
    rng.shuffle(voc)
    off = rng.choice([0, 0, 7])
    d = {t: i + off for i, t in enumerate(voc)}
    ids = [[d[t] for t in q] for q in qs]
    out.append(("Tokenized", T(ids=[list(q) for q in ids], vocab=dict(d))))
    out.append(("tuple", ([list(q) for q in ids], dict(d))))
    # ids of the index; unknown tokens become ids the index does not know
    top = max(r.vocab_dict.values(), default=0)
    own = []
    for q in qs:
        row = []
        for t in q:
            if t in r.vocab_dict:
                row.append(r.vocab_dict[t])
            else:
                row.append(rng.choice([top + 1, top + 2, top + 1000, 2 ** 30, -1, -2, -top - 5, 2 ** 32, 2 ** 32 + rng.randint(0, top), rng.randint(0, top) - 2 ** 32, 2 ** 70]))
                ctx.count("unknown_ids")
        own.append(row)
    out.append(("index ids", own))
    return out


def run(ctx, rng, backend, p, sels, threads, scorer=False):
    docs = gen.corpus(rng)
    voc = gen.vocab_of(docs)
    ref = Ref(docs, **p)
    if rng.random() < 0.5:
        r = make(ctx, docs, p, backend=backend)
    else:
        r = ctx.bm25s.BM25(backend=backend, **p)
        r.index(tokenized(ctx, docs, rng, extra=rng.choice([0, 2])), show_progress=False)
    if scorer:
        activate(ctx, r)
    mine = {}
    for turn in range(5):
        qs = batch(rng, voc)
        k = rng.randint(1, ref.n)
        for name, arg in forms(ctx, rng, r, qs) if turn < 3 else [refilled(ctx, rng, qs, mine)]:
            keep = freeze(arg)
            res = r.retrieve(arg, k=k, backend_selection=rng.choice(sels), n_threads=rng.choice(threads), show_progress=False)
            d, s = rows(res)
            what = f"{name} queries on {backend}, {p}"
            ctx.check(d.shape == (len(qs), k), lambda: f"{what}: shape {d.shape} for {len(qs)} queries, k={k}", queries=qs)
            for i, q in enumerate(qs):
                full, m = ref.scores(q)
                check_topk(ctx, full, ref.tol(q, m, p["dtype"]), d[i], s[i], k, True, f"{what}, query {i} {short_q(q)}", queries=qs, docs=docs[:30])
                if not any(t in ref.post for t in q):
                    ctx.count("empty_queries")
                    ctx.check(bool((s[i] == 0).all()), lambda: f"{what}: a query without known tokens scores {s[i]}", queries=qs)
            ctx.check(keep == freeze(arg), "retrieve changed its query argument", form=name)
            ctx.nontrivial((qs, name, backend, sorted(p.items(), key=str), len(docs)))
        for q in qs[:2]:
            full, m = ref.scores(q)
            compare_scores(ctx, r.get_scores(list(q)), full, ref.tol(q, m, p["dtype"]), f"get_scores {short_q(q)}", params=p)
            ids = r.get_tokens_ids(list(q))
            ctx.check(ids == [r.vocab_dict[t] for t in q if t in r.vocab_dict], "get_tokens_ids is not the ids of the known tokens in order")
            compare_scores(ctx, r.get_scores(ids), full, ref.tol(q, m, p["dtype"]), f"get_scores(ids) {short_q(q)}", params=p)
    ctx.sample(dict(params=p, backend=backend, queries=qs))


def short_q(q):
    return repr(q)[:120]


def case_numpy(ctx, rng):
    sels = ["numpy"] * 6 + (["auto"] if ctx.index % 6 == 0 else [])
    run(ctx, rng, "numpy", variant_all(ctx, rng), sels, [0, 0, 2])


def variant_all(ctx, rng):
    return variant(rng, ctx.index)


def case_scorer(ctx, rng):
    s = sig()
    run(ctx, rng, "numpy", gen.params(rng, dtype=s["dtype"], int_dtype=s["int_dtype"]), ["numpy"], [0], scorer=True)


def case_numba(ctx, rng):
    run(ctx, rng, "numba", sig_params(rng), ["auto", "numba"], [0, 0, 2, 4])
