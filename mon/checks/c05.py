"""C05 weight masks: masked scores must be the unmasked reference times the weight, everywhere."""
from .. import gen
from ..oracle import Ref, check_topk, compare_scores
from ..util import *

LEVEL = "exploration"
RULE = ("random indexes, queries and masks (all zero, all one, random; bool/int/uint/float32/float64, negative weights), get_scores, get_scores_from_ids and retrieve on numpy "
        "(all selections, threads) and numba; plus invalid masks. Non-trivial: a mask with both zero and non-zero weights; distinct by (mask, query, index, backend).")


def plan(tier):
    q = tier == "quick"
    f = 1 if q else 30
    return [
        dict(cases=[("numpy", 700 * f), ("invalid", 60 * f)], workers=3),
        dict(cases=[("numba", 150 * f)], workers=1, env={"MON_SIG": "float32,int32,0,float32"}),
        dict(cases=[("numba", 150 * f)], workers=1, env={"MON_SIG": "float32,int32,1,float64"}),
        dict(cases=[("numba", 150 * f)], workers=1, env={"MON_SIG": "float32,int32,1,bool"}),
        dict(cases=[("numba", 150 * f), ("numba_invalid", 30 * f)], workers=1, env={"MON_SIG": "float64,int32,0,int64"}),
    ] + ([] if q else [
        dict(cases=[("numba", 150 * f)], workers=1, env={"MON_SIG": "float64,int64,1,float32"}),
        dict(cases=[("numba", 150 * f)], workers=1, env={"MON_SIG": "float32,int32,0,uint8"}),
    ])


def MIN(tier):
    return {"distinct": 800, "rows_checked": 3000, "zero_weight_documents": 2000, "rejected": 100, "cases_numba": 60, "masks_changed_in_place": 200}


def observe(ctx, rng, r, ref, docs, p, backend, sels, threads, mdtype, mine=None):
    n = ref.n
    voc = gen.vocab_of(docs)
    w = gen.mask(rng, n, mdtype, wide=True)
    if mine is not None and bool((abs(w.astype(np.float64)) < 6e4).all() or mine.dtype != np.float16):
        # the caller changes its own mask in place between two calls
        mine[...] = w.astype(mine.dtype)
        w = mine
        ctx.count("masks_changed_in_place")
    qs = [gen.query(rng, voc) for _ in range(rng.choice([1, 2, 4]))]
    keep = freeze(w)
    k = rng.choice([n, rng.randint(1, n), 1])
    what = f"weight_mask {w.dtype} on {backend}, {p}"
    d, s = rows(r.retrieve([list(q) for q in qs], k=k, weight_mask=w, backend_selection=rng.choice(sels), n_threads=rng.choice(threads), show_progress=False))
    ctx.check(d.shape == (len(qs), k), lambda: f"{what}: shape {d.shape}")
    zero = np.flatnonzero(w == 0)
    for i, q in enumerate(qs):
        full, m = ref.scores(q, mask=w)
        tol = 2 * ref.tol(q, m, p["dtype"])
        check_topk(ctx, full, tol, d[i], s[i], k, True, f"retrieve, {what}", query=q, mask=w[:60], docs=docs[:30])
        z = np.isin(d[i], zero)
        ctx.count("zero_weight_documents", z.sum())
        ctx.check(bool((s[i][z] == 0).all()), lambda: f"{what}: a document of weight 0 scores {s[i][z]}")
        got = r.get_scores(list(q), weight_mask=w)
        compare_scores(ctx, got, full, tol, f"get_scores, {what}", query=q, mask=w[:60])
        ctx.check(bool((np.asarray(got)[zero] == 0).all()), lambda: f"{what}: get_scores of weight 0 is not 0")
        ids = r.get_tokens_ids(list(q))
        compare_scores(ctx, r.get_scores_from_ids(ids, weight_mask=w), full, tol, f"get_scores_from_ids, {what}", query=q)
        # an unmasked call right after is not influenced by the mask
        f0, m0 = ref.scores(q)
        compare_scores(ctx, r.get_scores(list(q)), f0, ref.tol(q, m0, p["dtype"]), "get_scores without mask after a masked call", query=q)
        if 0 < len(zero) < n:
            ctx.nontrivial((w.tobytes(), q, backend, sorted(p.items(), key=str), n))
    ctx.check(keep == freeze(w), "the mask was changed")
    return w


def case_numpy(ctx, rng):
    p = variant(rng, ctx.index)
    docs = gen.corpus(rng, n_docs=rng.choice([None, None, None, None, 1100]))
    r = make(ctx, docs, p)
    ref = Ref(docs, **p)
    sels = ["numpy"] * 5 + (["auto"] if ctx.index % 7 == 0 else []) + (["numba"] if ctx.index % 13 == 0 else [])
    mine = None
    for _ in range(3):
        w = observe(ctx, rng, r, ref, docs, p, "numpy", sels, [0, 0, 3], None, mine)
        mine = w if rng.random() < 0.6 else None
    ctx.sample(dict(params=p, n=len(docs)))


def case_numba(ctx, rng):
    p = sig_params(rng)
    docs = gen.corpus(rng, n_docs=rng.choice([None, None, None, 1100]))
    r = make(ctx, docs, p, backend="numba")
    ref = Ref(docs, **p)
    mine = None
    for _ in range(2):
        w = observe(ctx, rng, r, ref, docs, p, "numba", ["auto", "numba"], [0, 2, 4], sig()["mask"], mine)
        mine = w if rng.random() < 0.6 else None


def invalid(ctx, rng, backend, p):
    docs = gen.corpus(rng)
    n = len(docs)
    r = make(ctx, docs, p, backend=backend)
    voc = gen.vocab_of(docs) or ["x"]
    bad = [[1.0] * n, tuple([1] * n), np.ones((n, 1)), np.ones((1, n)), np.ones(n + 1), np.ones(n + 7), np.ones((n, n)), np.array(1.0), "mask", {0: 1}]
    if n > 1:
        bad += [np.ones(n - 1), np.ones(1)]
    bad.append(np.ones(0))
    for w in bad:
        # the query may be empty or unknown: the mask is invalid whatever the query
        e = raises(r.retrieve, [[rng.choice(voc)]], k=1, weight_mask=w, backend_selection="auto" if backend == "numba" else "numpy", show_progress=False)
        ctx.check(e is not None, lambda: f"retrieve on {backend} accepted an invalid weight_mask {type(w)} {getattr(w, 'shape', None)} for {n} documents")
        ctx.count("rejected")


def case_invalid(ctx, rng):
    invalid(ctx, rng, "numpy", gen.params(rng))


def case_numba_invalid(ctx, rng):
    invalid(ctx, rng, "numba", sig_params(rng))
