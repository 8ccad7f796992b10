"""C03 backend / threads / batching invariance: every row of every configuration is checked against one independent reference."""
from .. import gen
from ..oracle import Ref, check_topk, compare_scores
from ..util import *

LEVEL = "exploration"
RULE = ("random indexes and query batches (1..400 queries, duplicates and empty queries included) retrieved under random configurations: backend numpy/numba, "
        "selection numpy/jax/auto/numba, compiled scorer on/off, n_threads -1,0..16, chunksize 1..1000, batch split at random points and merged, batch permuted, progress on/off. "
        "Non-trivial: a batch of at least two queries in a configuration; distinct by (index, batch, configuration).")
ASSUMPTIONS = ["at most 8 threads of numba run (NUMBA_NUM_THREADS of the monitor process; 2 in one worker), whatever number is asked for"]


def plan(tier):
    q = tier == "quick"
    f = 1 if q else 25
    return [
        dict(cases=[("numpy", 260 * f), ("large_batch", 14 * f), ("huge", 3 * f)], workers=3),
        dict(cases=[("scorer", 120 * f)], workers=1, env={"MON_SIG": "float32,int32,0,none"}),
        dict(cases=[("numba", 170 * f), ("numba_large", 6 * f), ("numba_huge", 2 * f)], workers=1, env={"MON_SIG": "float32,int32,0,none"}),
        dict(cases=[("numba", 170 * f), ("numba_large", 6 * f), ("numba_huge", 2 * f)], workers=1, env={"MON_SIG": "float32,int32,1,none", "NUMBA_NUM_THREADS": "2"}),
        dict(cases=[("numba", 170 * f), ("numba_large", 6 * f), ("numba_huge", 2 * f)], workers=1, env={"MON_SIG": "float64,int64,%d,none" % (0 if q else 1)}),
    ]


def MIN(tier):
    return {"distinct": 300, "rows_checked": 10000, "merges": 50, "configs": 500, "cases_numba": 60, "cases_scorer": 20, "huge_rows": 100000}


def batch(rng, voc, n):
    pool = [gen.query(rng, voc) for _ in range(max(1, n // 2))]
    return [list(rng.choice(pool)) if rng.random() < 0.5 else gen.query(rng, voc) for _ in range(n)]


def check_rows(ctx, ref, qs, res, k, srt, dtype, what):
    d, s = rows(res)
    ctx.check(len(d) == len(qs) and len(s) == len(qs), lambda: f"{what}: {len(d)} rows for {len(qs)} queries")
    ctx.check(d.shape == (len(qs), k) and s.shape == (len(qs), k), lambda: f"{what}: shapes {d.shape} and {s.shape}")
    for i, q in enumerate(qs):
        full, m = ref.scores(q)
        check_topk(ctx, full, ref.tol(q, m, dtype), d[i], s[i], k, srt, f"{what}, query {i} of {len(qs)}", query=q)


def split(rng, qs):
    out, i = [], 0
    while i < len(qs):
        j = min(len(qs), i + rng.randint(1, max(1, len(qs) // 2)))
        out.append(qs[i:j])
        i = j
    return out


def configurations(ctx, rng, r, ref, qs, p, confs, k):
    Results = ctx.bm25s.Results
    for conf in confs:
        kw = dict(conf)
        mode = kw.pop("mode")
        srt = kw["sorted"]
        what = f"{conf} k={k} n={ref.n} params={p}"
        if mode == "whole":
            check_rows(ctx, ref, qs, r.retrieve([list(q) for q in qs], k=k, **kw), k, srt, p["dtype"], what)
        elif mode == "merge":
            parts = split(rng, qs)
            got = [r.retrieve([list(q) for q in part], k=k, **kw) for part in parts]
            for part, g in zip(parts, got):
                ctx.check(len(g) == len(part), lambda: f"len(Results) is {len(g)} for {len(part)} queries")
            check_rows(ctx, ref, qs, Results.merge(got), k, srt, p["dtype"], what)
            ctx.count("merges")
        else:
            order = list(range(len(qs)))
            rng.shuffle(order)
            check_rows(ctx, ref, [qs[i] for i in order], r.retrieve([list(qs[i]) for i in order], k=k, **kw), k, srt, p["dtype"], what)
        ctx.count("configs")
        if len(qs) > 1:
            ctx.nontrivial((sorted(p.items(), key=str), ref.n, qs, sorted(conf.items(), key=str), k))


def conf(rng, sels, threads, chunks=(1, 2, 3, 7, 49, 50, 51, 1000)):
    c = dict(mode=rng.choice(["whole", "whole", "merge", "perm"]), backend_selection=rng.choice(sels), n_threads=rng.choice(threads),
             chunksize=rng.choice(chunks), sorted=rng.random() < 0.7, show_progress=rng.random() < 0.1)
    if c["show_progress"]:
        c["leave_progress"] = rng.random() < 0.5
    if rng.random() < 0.3:
        del c["chunksize"]
    return c


def setup_index(ctx, rng, p, backend):
    docs = gen.corpus(rng)
    ref = Ref(docs, **p)
    return docs, gen.vocab_of(docs), ref, make(ctx, docs, p, backend=backend)


def case_numpy(ctx, rng):
    p = gen.params(rng)
    docs, voc, ref, r = setup_index(ctx, rng, p, "numpy")
    qs = batch(rng, voc, rng.choice([1, 2, 3, 5, 9, 20]))
    sels = ["numpy"] * 4 + (["auto", "jax"] if ctx.index % 5 == 0 and p["dtype"] == "float32" else [])
    k = rng.randint(1, ref.n)
    configurations(ctx, rng, r, ref, qs, p, [conf(rng, sels, [0, 1, 2, 3, 8, 16, -1]) for _ in range(5)], k)
    if ctx.index % 6 == 0:
        configurations(ctx, rng, r, ref, qs, p, [conf(rng, ["numba", "auto"], [0, 2, 5]) for _ in range(2)], k)
    ctx.sample(dict(params=p, n=ref.n, queries=len(qs), k=k))


def case_large_batch(ctx, rng):
    p = gen.params(rng)
    docs, voc, ref, r = setup_index(ctx, rng, p, "numpy")
    n = rng.choice([50, 51, 99, 101, 137, 150, 257, 400])
    qs = batch(rng, voc, n)
    configurations(ctx, rng, r, ref, qs, p, [conf(rng, ["numpy"], [0, 1, 2, 4, 8, -1], (1, 3, 16, 50, 64, 128, n, n - 1)) for _ in range(4)], rng.randint(1, min(10, ref.n)))


def case_scorer(ctx, rng):
    """the compiled scorer against the reference and against the plain one."""
    s = sig()
    p = gen.params(rng, dtype=s["dtype"], int_dtype=s["int_dtype"])
    docs, voc, ref, r = setup_index(ctx, rng, p, "numpy")
    activate(ctx, r)
    if ctx.index % 40 == 1:
        r.activate_numba_scorer()
    ctx.count("compiled_scorers")
    qs = batch(rng, voc, rng.choice([1, 3, 9, 60]))
    for q in qs[:6]:
        full, m = ref.scores(q)
        compare_scores(ctx, r.get_scores(list(q)), full, ref.tol(q, m, p["dtype"]), "compiled get_scores", query=q, params=p)
    configurations(ctx, rng, r, ref, qs, p, [conf(rng, ["numpy"], [0, 1, 4, 8]) for _ in range(3)], rng.randint(1, ref.n))


def case_numba(ctx, rng):
    p = sig_params(rng)
    docs, voc, ref, r = setup_index(ctx, rng, p, "numba")
    qs = batch(rng, voc, rng.choice([1, 2, 3, 5, 9, 20, 60]))
    cs = [conf(rng, ["numba", "auto"], [0, 1, 2, 3, 4, 8, 16, -1]) for _ in range(5)]
    configurations(ctx, rng, r, ref, qs, p, cs, rng.randint(1, ref.n))


def case_numba_large(ctx, rng):
    p = sig_params(rng)
    docs, voc, ref, r = setup_index(ctx, rng, p, "numba")
    qs = batch(rng, voc, rng.choice([255, 256, 1000, 1025]))
    configurations(ctx, rng, r, ref, qs, p, [conf(rng, ["numba"], [0, 2, 8, 32]) for _ in range(3)], rng.randint(1, min(10, ref.n)))


def huge(ctx, rng, r, ref, voc, p, n, sels, threads):
    """A batch of very many queries, each of which is one of a few."""
    pool = [gen.query(rng, voc, unknown=0.1) for _ in range(12)]
    k = rng.randint(1, min(5, ref.n))
    full = np.array([ref.scores(q)[0] for q in pool])
    tol = np.array([max(np.max(ref.tol(q, ref.scores(q)[1], p["dtype"])), 0.0) for q in pool])
    best = -np.sort(-full, axis=1)[:, :k]
    pick = np.array([rng.randrange(len(pool)) for _ in range(n)])
    c = conf(rng, sels, threads)
    c.pop("mode")
    c.update(show_progress=False, sorted=True)
    c.pop("leave_progress", None)
    d, s = rows(r.retrieve([list(pool[i]) for i in pick], k=k, **c))
    what = f"{c} k={k} n={ref.n} batch of {n} params={p}"
    ctx.check(d.shape == (n, k) and s.shape == (n, k), lambda: f"{what}: shapes {d.shape} and {s.shape}")
    ctx.check(bool(((d >= 0) & (d < ref.n)).all()), lambda: f"{what}: documents out of range")
    for name, want in (("scores of the documents", full[pick[:, None], d]), ("best scores", best[pick])):
        off = np.abs(want - s) > 2 * tol[pick][:, None] + 1e-12
        ctx.check(not off.any(), lambda: f"{what}: {name}: query {int(np.argwhere(off)[0][0])} of {n} ({pool[pick[np.argwhere(off)[0][0]]]!r:.100}) has {s[np.argwhere(off)[0][0]]!r}, expected {want[np.argwhere(off)[0][0]]!r}")
    srt = np.sort(d, axis=1)
    ctx.check(bool((srt[:, 1:] != srt[:, :-1]).all()), lambda: f"{what}: a document is returned twice")
    ctx.count("huge_rows", n)
    ctx.maximum("query_tokens", sum(len(pool[i]) for i in pick))
    ctx.nontrivial((what, tuple(map(tuple, pool))))


def case_huge(ctx, rng):
    p = gen.params(rng)
    docs, voc, ref, r = setup_index(ctx, rng, p, "numpy")
    huge(ctx, rng, r, ref, voc, p, rng.choice([5000, 8000]), ["numpy"], [0, 2, 8])


def case_numba_huge(ctx, rng):
    p = sig_params(rng)
    docs, voc, ref, r = setup_index(ctx, rng, p, "numba")
    huge(ctx, rng, r, ref, voc, p, rng.choice([20000, 33000, 40000]), ["numba", "auto"], [0, 2, 8, 64])
