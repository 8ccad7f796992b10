"""C02 top-k: an output monitor checks every returned row against the whole score vector."""
from .. import gen
from ..oracle import check_topk
from ..util import *

LEVEL = "exploration"
RULE = ("random score vectors (ties, all equal, negative, zeros, infinities, sorted/reversed, heavy duplicates; float32/float64, integers of all sizes, half and extended precision, lists; lengths 1..300 and up to 200k) "
        "and random indexes, k in 1..n (1, n-1, n favoured), sorted or not, selection backends numpy/jax/auto/numba and both retrieval backends. "
        "Non-trivial: the row was compared against all scores; distinct by (vector, k, backend, sorted).")
ASSUMPTIONS = ["explicit jax selection on float64 vectors is judged at float32 precision (jax default), NaN and denormal scores excluded"]


def plan(tier):
    q = tier == "quick"
    return [
        dict(cases=[("vec", 500 if q else 12000), ("retrieve", 220 if q else 6000), ("bigvec", 24 if q else 300), ("types", 150 if q else 4000), ("extended", 30 if q else 1000)], workers=4),
        dict(cases=[("numbavec", 900 if q else 30000)], workers=1, env={"MON_SIG": "float32,int32,0,none"}),
        dict(cases=[("numba", 160 if q else 4000)], workers=1, env={"MON_SIG": "float32,int32,1,none"}),
        dict(cases=[("numba", 160 if q else 4000)], workers=1, env={"MON_SIG": "float64,int64,0,none"}),
    ]


def MIN(tier):
    return {"distinct": 800, "rows_checked": 3000, "overflow_rejected": 100, "other_types_checked": 200, "extended_rows": 10, "cases_numba": 20, "cases_numbavec": 50}


def vector(rng, n, dtype):
    style = rng.randrange(9)
    if style == 0:
        v = [rng.random() for _ in range(n)]
    elif style == 1:
        v = [rng.choice([0.0, 1.0, 2.0]) for _ in range(n)]
    elif style == 2:
        v = [rng.choice([3.25, -1.5, 0.0])] * n
    elif style == 3:
        v = [-rng.random() for _ in range(n)]
    elif style == 4:
        v = sorted(rng.uniform(-1, 1) for _ in range(n))
    elif style == 5:
        v = sorted((rng.uniform(-1, 1) for _ in range(n)), reverse=True)
    elif style == 6:
        v = [0.0] * n
        for _ in range(rng.randint(0, max(1, n // 4))):
            v[rng.randrange(n)] = rng.choice([1.0, 2.0, rng.random()])
    elif style == 7:
        v = [rng.choice([rng.uniform(-1e30, 1e30), float("inf"), float("-inf"), 0.0, 1e-30]) for _ in range(n)]
    else:
        base = rng.random()
        v = [base + rng.choice([0, 1e-7, -1e-7, 1e-12]) for _ in range(n)]
    return np.array(v, dtype=dtype)


def pick_k(rng, n):
    return rng.choice([1, n, max(1, n - 1), min(2, n), rng.randint(1, n), rng.randint(1, n)])


def topk_case(ctx, rng, fn, v, k, backend, srt):
    keep = v.copy()
    sc, idx = fn(v, k=k, backend=backend, sorted=srt)
    full = v.astype(np.float64)
    tol = 0.0
    if backend == "jax" and v.dtype == np.float64:
        full = v.astype(np.float32).astype(np.float64)
    check_topk(ctx, full, tol, idx, sc, k, srt, f"topk(backend={backend}, sorted={srt}, k={k}, n={len(v)}, {v.dtype})", vector=v[:200])
    ctx.check(freeze(keep) == freeze(v), "topk changed the score vector")
    ctx.nontrivial((v.tobytes(), k, backend, srt))


def overflow(ctx, fn, what):
    e = raises(fn)
    ctx.check(e is not None and not isinstance(e, (SystemError, MemoryError)), lambda: f"{what}: asking for more documents than exist gives {e!r} instead of an error")
    ctx.count("overflow_rejected")


def case_vec(ctx, rng):
    from bm25s import selection
    n = rng.choice([1, 2, 3, 4, 5, 8, 10, 16, 17, 33, 64, 100, 300])
    for dtype in ("float32", "float64"):
        v = vector(rng, n, dtype)
        for backend in ("numpy", "numpy", "numpy", "auto", "jax") if ctx.index % 4 == 0 else ("numpy", "numpy", "numpy", "numpy"):
            topk_case(ctx, rng, selection.topk, v, pick_k(rng, n), backend, rng.random() < 0.6)
        for extra in (1, 2, 50):
            overflow(ctx, lambda: selection.topk(v, k=n + extra, backend=rng.choice(["numpy", "auto", "jax"]), sorted=True), "selection.topk")


# scores of other types than the usual two, and lists
TYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "longdouble"]


def case_types(ctx, rng):
    """The automatic choice and numpy select exactly for every type of number."""
    from bm25s import selection
    n = rng.choice([1, 2, 3, 5, 16, 17, 64, 100])
    for dtype in TYPES:
        if dtype == "longdouble":
            v = vector(rng, n, "float64").astype("longdouble")
            v += np.array([rng.choice([0, 1e-19, 3e-19]) for _ in range(n)], dtype="longdouble")
        elif dtype == "float16":
            v = np.array([rng.choice([0.0, 1.5, -2.25, rng.uniform(-100, 100)]) for _ in range(n)], dtype=dtype)
        else:
            i = np.iinfo(dtype)
            v = np.array([rng.choice([0, 1, 2, i.max, i.min, i.max - 1, rng.randint(i.min, i.max)]) for _ in range(n)], dtype=dtype)
        for backend in ("auto", "numpy"):
            k, srt = pick_k(rng, n), rng.random() < 0.6
            keep = v.copy()
            sc, idx = selection.topk(v, k=k, backend=backend, sorted=srt)
            check_topk(ctx, v.astype(np.longdouble), 0.0, idx, sc, k, srt, f"topk(backend={backend}, sorted={srt}, k={k}, n={n}, {dtype})", vector=v[:200])
            ctx.check(np.array_equal(keep, v), "topk changed the score vector")
            ctx.count("other_types_checked")
            ctx.nontrivial((dtype, v.tobytes(), k, backend, srt))
        overflow(ctx, lambda: selection.topk(v, k=n + 1), "selection.topk")
    x = [rng.choice([0.1, 0.7, 1 / 3, rng.random()]) for _ in range(n)]
    k = pick_k(rng, n)
    sc, idx = selection.topk(x, k=k)
    check_topk(ctx, np.array(x), 0.0, idx, sc, k, True, f"topk of a list (k={k}, n={n})", vector=x)


def case_extended(ctx, rng):
    """An index with scores of extended precision."""
    import bm25s
    docs = gen.corpus(rng, n_docs=rng.randint(1, 25))
    r = bm25s.BM25(method=rng.choice(["lucene", "atire", "robertson", "bm25l", "bm25+"]), dtype="longdouble")
    r.index(docs, show_progress=False)
    voc = gen.vocab_of(docs)
    for _ in range(3):
        q = gen.query(rng, voc, unknown=0.2) or ["zzz"]
        k, srt = pick_k(rng, len(docs)), rng.random() < 0.6
        full = np.asarray(r.get_scores(list(q)), dtype=np.longdouble)
        res = r.retrieve([list(q)], k=k, sorted=srt, show_progress=False, n_threads=rng.choice([0, 2]))
        check_topk(ctx, full, 0.0, res.documents[0], res.scores[0], k, srt, f"retrieve from a longdouble index (sorted={srt}, k={k}, n={len(docs)})")
        ctx.count("extended_rows")
        ctx.nontrivial(("extended", freeze(docs), freeze(q), k, srt))


def case_bigvec(ctx, rng):
    from bm25s import selection
    n = rng.choice([1000, 1001, 4096, 16385, 32767, 32768, 32769, rng.randint(32770, 65534), rng.randint(32770, 65534), 65535, 65536, 65537, 100003, 200000])
    for dtype in ("float32", "float64"):
        v = vector(rng, n, dtype)
        for backend in ("numpy", "auto", "jax"):
            topk_case(ctx, rng, selection.topk, v, rng.choice([1, 10, 100, 1000, n, n - 1, rng.randint(1, n)]), backend, rng.random() < 0.6)


def case_numbavec(ctx, rng):
    from bm25s.numba import selection
    big = ctx.index % 40 == 0
    n = rng.choice([65536, 70001, 33000, 32768, 32767, rng.randint(1025, 65535)]) if big else rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 40, 63, 64, 100, 257, 300])
    for dtype in ("float32", "float64"):
        v = vector(rng, n, dtype)
        for _ in range(3):
            topk_case(ctx, rng, selection.topk, v, pick_k(rng, n), "numba", rng.random() < 0.6)
        overflow(ctx, lambda: selection.topk(v, k=n + rng.choice([1, 3]), backend="numba"), "numba selection.topk")


def run_retrieve(ctx, rng, r, docs, backend, combos):
    n = len(docs)
    voc = gen.vocab_of(docs)
    qs = [gen.query(rng, voc) for _ in range(rng.choice([1, 2, 5]))]
    fulls = [np.asarray(r.get_scores(list(q)), dtype=np.float64) for q in qs]
    for sel in combos:
        k = pick_k(rng, n)
        srt = rng.random() < 0.6
        nt = rng.choice([0, 0, 2])
        d, s = rows(r.retrieve([list(q) for q in qs], k=k, sorted=srt, backend_selection=sel, n_threads=nt, show_progress=False))
        ctx.check(d.shape == (len(qs), k) and s.shape == (len(qs), k), lambda: f"result shapes {d.shape} {s.shape} for {len(qs)} queries, k={k}")
        for q, full, di, si in zip(qs, fulls, d, s):
            tol = 1e-6 * np.abs(full) * (1 + len(q)) if (backend == "numba" or sel == "jax") else 0.0
            if backend == "numba":
                tol = tol + 2e-5 * np.abs(full).max(initial=0) + 1e-6 if r.dtype == "float32" else tol
            check_topk(ctx, full, tol, di, si, k, srt, f"retrieve(backend={backend}, selection={sel}, sorted={srt}, k={k}, n={n}, n_threads={nt})", query=q, docs=docs if n < 30 else n)
            ctx.nontrivial((docs if n < 101 else n, q, k, sel, srt, backend))
        overflow(ctx, lambda: r.retrieve([list(q) for q in qs], k=n + rng.choice([1, 2, 100]), sorted=srt, backend_selection=sel, show_progress=False), f"retrieve(backend={backend}, selection={sel})")


def case_retrieve(ctx, rng):
    docs = gen.corpus(rng)
    r = make(ctx, docs, gen.params(rng))
    sels = ["numpy", "numpy"]
    if ctx.index % 3 == 0:
        sels += ["auto", "jax"]
    if ctx.index % 11 == 0:
        sels += ["numba"]
    run_retrieve(ctx, rng, r, docs, "numpy", sels)


def case_numba(ctx, rng):
    docs = gen.corpus(rng, n_docs=rng.choice([None, None, None, 1500]))
    r = make(ctx, docs, sig_params(rng), backend="numba")
    run_retrieve(ctx, rng, r, docs, "numba", ["auto", "numba"])
