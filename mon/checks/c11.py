"""C11 compiled memory safety: the compiled code runs under numba's bounds checker, and unchecked on index arrays placed in read-only memory between inaccessible pages, where a stray access kills the process.

Every accepted call's values are also compared with the reference, so that a read from outside the index that happens not to fault is seen as a wrong value; hostile ids and k must be rejected or treated as unknown."""
from .. import gen
from ..guard import Guard
from ..oracle import Ref, check_topk, compare_scores
from ..util import *

LEVEL = "exploration"
RULE = ("numba retrieval (1-8 threads), compiled scorer and compiled selection over random indexes (fresh, loaded, memory-mapped) with valid and hostile queries: ids -1, V, V+1, 2^31-1, vocabularies extended after indexing, "
        "vocabularies and collections beyond 16 bits, empty and huge queries, k in {0, 1, n, n+1, ...}; (a) with NUMBA_BOUNDSCHECK=1, (b) with guarded read-only arrays. Non-trivial: a compiled call that completed and was compared, or a hostile call that was rejected; distinct by call.")
ASSUMPTIONS = ["numba's bounds checker and the page protection of the kernel", "negative indices inside the compiled code wrap (numba semantics); they are caught as wrong values"]


def plan(tier):
    f = 1 if tier == "quick" else 40
    b = {"NUMBA_BOUNDSCHECK": "1"}
    return [
        dict(cases=[("retrieve", 120 * f), ("topk", 200 * f), ("batch", 4 * f), ("large", 3 * f)], workers=1, env=dict(b, MON_SIG="float32,int32,1,float32", MON_MODE="bounds")),
        dict(cases=[("retrieve", 120 * f), ("batch", 4 * f), ("large", 3 * f)], workers=1, env=dict(b, MON_SIG="float64,int64,0,bool", MON_MODE="bounds")),
        dict(cases=[("scorer", 150 * f), ("large", 3 * f)], workers=1, env=dict(b, MON_SIG="float32,int32,0,none", MON_MODE="bounds", MON_PART="scorer")),
        dict(cases=[("retrieve", 150 * f), ("topk", 300 * f), ("batch", 6 * f), ("large", 4 * f)], workers=1, env=dict(MON_SIG="float32,int32,0,float32", MON_MODE="guard")),
        dict(cases=[("retrieve", 150 * f), ("batch", 6 * f), ("large", 4 * f)], workers=1, env=dict(MON_SIG="float32,int32,1,none", MON_MODE="guard")),
        dict(cases=[("scorer", 200 * f), ("large", 4 * f)], workers=1, env=dict(MON_SIG="float32,int32,1,none", MON_MODE="guard", MON_PART="scorer")),
    ]


def MIN(tier):
    return {"distinct": 2000, "bounds_calls": 1000, "guard_calls": 1500, "hostile_rejected": 500, "scores_compared": 20000, "guarded_arrays": 1000, "long_batches": 12, "large_indexes": 15}


def mode():
    import os
    return os.environ.get("MON_MODE", "guard")


def setup(ctx):
    import numba
    ctx.check(bool(numba.config.BOUNDSCHECK) == (mode() == "bounds"), "bounds checking is not configured as planned")


def oob(e):
    """Did the bounds checker fire (rather than Python code rejecting the call)?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, SystemError) or (isinstance(e, IndexError) and str(e).strip() in ("index is out of bounds", "getitem out of range", "setitem out of range")):
            return True
        e = e.__cause__ or e.__context__
    return False


def call(ctx, what, f, hostile):
    """Result of f, or None if a hostile call was rejected."""
    ctx.count(mode() + "_calls")
    try:
        return f()
    except Exception as e:
        ctx.check(not oob(e), lambda: f"{what}: the compiled code accessed memory outside its arrays ({type(e).__name__}: {e})")
        if not hostile:
            raise
        ctx.check(isinstance(e, (ValueError, IndexError, OverflowError, KeyError, TypeError)), lambda: f"{what}: {type(e).__name__}: {e}")
        ctx.count("hostile_rejected")
        ctx.nontrivial((what, "rejected"))
        return None


def build(ctx, rng, p, backend, g):
    docs = gen.corpus(rng, n_docs=rng.choice([None, None, 1, 2]))
    r = make(ctx, docs, p, backend=backend)
    how = rng.choice(["fresh", "fresh", "loaded", "mmap"])
    if how != "fresh":
        d = ctx.scratch()
        r.save(d)
        r = ctx.bm25s.BM25.load(d, mmap=how == "mmap")
    if mode() == "guard" and how != "mmap":
        for name in ("data", "indices", "indptr"):
            r.scores[name] = g.array(r.scores[name], at_end=rng.random() < 0.7)
            ctx.count("guarded_arrays")
        if r.nonoccurrence_array is not None:
            r.nonoccurrence_array = g.array(r.nonoccurrence_array, at_end=rng.random() < 0.7)
            ctx.count("guarded_arrays")
    return docs, r, how


def hostile_ids(rng, V):
    return rng.choice([-1, -2, -V, -V - 1, V, V + 1, V + rng.randint(2, 100000), 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 32, 2 ** 32 + rng.randrange(V), rng.randrange(V) - 2 ** 32, 2 ** 63 - 1])


def case_retrieve(ctx, rng):
    g = Guard()
    try:
        p = sig_params(rng)
        docs, r, how = build(ctx, rng, p, "numba", g)
        ref = Ref(docs, **p)
        voc = gen.vocab_of(docs)
        n = ref.n
        m = sig()["mask"]
        for step in range(4):
            w = None
            if m and rng.random() < 0.6:
                w = gen.mask(rng, n, m)
                if mode() == "guard":
                    w = g.array(w, at_end=rng.random() < 0.7)
            qs = [gen.query(rng, voc, unknown=0.3) for _ in range(rng.choice([1, 2, 5, 9]))]
            k = rng.choice([n, 1, rng.randint(1, n), 0, n + 1, n + 1000])
            nt = rng.choice([0, 1, 2, 8])
            srt = rng.random() < 0.7
            form = rng.choice(["strings", "ids", "hostile ids", "grown"])
            V = len(r.scores["indptr"]) - 1
            hostile = k > n or k == 0
            arg, exp = [list(q) for q in qs], qs
            if form in ("ids", "hostile ids"):
                arg = [[r.vocab_dict[t] for t in q if t in r.vocab_dict] for q in qs]
                if not any(arg):
                    form, arg = "strings", [list(q) for q in qs]
            if form == "hostile ids":
                for a in arg:
                    for _ in range(rng.randint(0, 3)):
                        a.insert(rng.randint(0, len(a)), hostile_ids(rng, V))
                hostile = True
            grown = None
            if form == "grown":
                # the vocabulary gets entries that the index has no column for (a shared vocabulary, or the documented manual additions)
                grown = dict(r.vocab_dict), set(r.unique_token_ids_set)
                for j in range(rng.randint(1, 3)):
                    i = rng.choice([V + j, V + 500, 2 ** 31 - 2, -1 - j])
                    r.vocab_dict["__grown%d__" % j] = i
                    r.unique_token_ids_set.add(i)
                    a = rng.choice(arg)
                    a.insert(rng.randint(0, len(a)), "__grown%d__" % j)
                if rng.random() < 0.3:
                    arg = [[r.vocab_dict[t] for t in q if t in r.vocab_dict] for q in arg]
                    if not any(arg):
                        arg = [["__grown0__"]]
                        exp = [[]]
                hostile = True
            what = f"numba retrieve {form} k={k} n={n} V={V} threads={nt} {how} masked={w is not None}: {arg!r:.150}"
            res = call(ctx, what, lambda: r.retrieve(arg, k=k, n_threads=nt, sorted=srt, weight_mask=w, show_progress=False), hostile)
            if grown:
                r.vocab_dict, r.unique_token_ids_set = grown
            if res is None:
                continue
            ctx.check(k <= n, f"{what}: accepted")
            d, s = rows(res)
            ctx.check(d.shape == (len(exp), k) and s.shape == (len(exp), k), lambda: f"{what}: shape {d.shape}")
            for i, q in enumerate(exp):
                if k == 0:
                    continue
                full, mag = ref.scores(q, mask=w)
                check_topk(ctx, full, 2 * ref.tol(q, mag, p["dtype"]), d[i], s[i], k, srt, what)
                ctx.count("scores_compared", k)
            ctx.nontrivial(what)
    finally:
        g.release()


def case_batch(ctx, rng):
    """Batches whose queries hold more tokens together, or alone, than short integers can count."""
    g = Guard()
    try:
        p = sig_params(rng)
        docs, r, how = build(ctx, rng, p, "numba", g)
        ref = Ref(docs, **p)
        voc = gen.vocab_of(docs)
        if not voc:
            return
        n = ref.n
        total = rng.choice([32766, 32768, 33000, 65535, 65537, 70000])
        some = [gen.query(rng, voc) or [voc[0]] for _ in range(4)]
        if rng.random() < 0.5:
            qs = []
            while sum(map(len, qs)) < total:
                qs.append(rng.choice(some) * rng.choice([1, 1, 50]))
        else:
            qs = [[rng.choice(voc) for _ in range(total)]] + some
            rng.shuffle(qs)
        k, nt = rng.randint(1, min(n, 5)), rng.choice([0, 1, 4])
        what = f"numba retrieve of {len(qs)} queries with {sum(map(len, qs))} tokens, k={k} n={n} threads={nt} {how}"
        w = None
        if sig()["mask"]:
            w = gen.mask(rng, n, sig()["mask"])
            if mode() == "guard":
                w = g.array(w, at_end=True)
        d, s = rows(call(ctx, what, lambda: r.retrieve([list(q) for q in qs], k=k, n_threads=nt, weight_mask=w, show_progress=False), False))
        ctx.check(d.shape == (len(qs), k) == s.shape, lambda: f"{what}: shape {d.shape}")
        seen = {}
        for i, q in enumerate(qs):
            t = tuple(q)
            if t not in seen:
                full, mag = ref.scores(q, mask=w)
                seen[t] = full, 2 * ref.tol(q, mag, p["dtype"])
            check_topk(ctx, *seen[t], d[i], s[i], k, True, f"{what}: query {i} of {len(q)} tokens")
            ctx.count("scores_compared", k)
        ctx.count("long_batches")
        ctx.nontrivial(what)
    finally:
        g.release()


def case_large(ctx, rng):
    """Vocabularies and collections larger than short integers can count."""
    g = Guard()
    try:
        p = sig_params(rng)
        size = rng.choice([32767, 32769, 40000, 65535, 65540, 70000, 70000])
        words = [f"w{i}" for i in range(size)]
        some = [[rng.choice(words[-300:] + words[:300]) for _ in range(rng.randint(1, 6))] for _ in range(40)]
        if rng.random() < 0.6:
            # each word in a document of its own sort, so that no two words have the same scores everywhere
            parts = [[] for _ in range(41)]
            for x in words:
                rng.choice(parts).append(x)
            docs = parts + some
        else:
            # as many documents as that, most of one word
            docs = [[words[i % 7]] for i in range(size)]
            for x in some:
                docs[rng.choice([rng.randrange(size), size - 1 - rng.randrange(100)])] = x
        backend = "numpy" if os.environ.get("MON_PART") == "scorer" else "numba"
        r = make(ctx, docs, p, backend=backend)
        if mode() == "guard":
            for name in ("data", "indices", "indptr"):
                r.scores[name] = g.array(r.scores[name], at_end=True)
                ctx.count("guarded_arrays")
            if r.nonoccurrence_array is not None:
                r.nonoccurrence_array = g.array(r.nonoccurrence_array, at_end=True)
        if backend == "numpy":
            activate(ctx, r)
        ref = Ref(docs, **p)
        ids = rng.random() < 0.5
        # the words at the limits of short integers, the last ones of the vocabulary, and others
        by_id = {i: t for t, i in r.vocab_dict.items()}
        edge = [by_id[i] for i in (0, 1, 32766, 32767, 32768, 65534, 65535, 65536, 65537, size - 1, size - 2) if i in by_id and by_id[i] != ""]
        qs = [[rng.choice(edge)] for _ in range(4)] + [rng.sample(edge, min(3, len(edge)))] + [list(rng.choice(some)) for _ in range(3)]
        w = None
        if sig()["mask"]:
            w = gen.mask(rng, ref.n, sig()["mask"])
            if mode() == "guard":
                w = g.array(w, at_end=True)
        k = rng.choice([1, 5, min(41, ref.n)])
        what = f"{backend} {'scoring' if backend == 'numpy' else 'retrieval'} over {len(docs)} documents and {len(r.vocab_dict)} words, k={k}"
        arg = [[r.vocab_dict[t] for t in q] if ids else list(q) for q in qs]
        extra = dict(backend_selection="numpy") if backend == "numpy" else dict(n_threads=rng.choice([0, 2]))
        d, s = rows(call(ctx, what, lambda: r.retrieve(arg, k=k, weight_mask=w, show_progress=False, **extra), False))
        for i, q in enumerate(qs):
            full, mag = ref.scores(q, mask=w)
            check_topk(ctx, full, 2 * ref.tol(q, mag, p["dtype"]), d[i], s[i], k, True, f"{what}: {q!r:.80}")
            ctx.count("scores_compared", k)
        ctx.count("large_indexes")
        ctx.nontrivial((what, freeze(qs)))
    finally:
        g.release()


def case_scorer(ctx, rng):
    g = Guard()
    try:
        s = sig()
        p = sig_params(rng)
        docs, r, how = build(ctx, rng, p, "numpy", g)
        activate(ctx, r)
        ref = Ref(docs, **p)
        voc = gen.vocab_of(docs)
        V = len(r.scores["indptr"]) - 1
        for _ in range(8):
            q = gen.query(rng, voc, unknown=0.3)
            ids = r.get_tokens_ids(q)
            hostile = rng.random() < 0.5
            if hostile:
                for _ in range(rng.randint(1, 3)):
                    ids.insert(rng.randint(0, len(ids)), hostile_ids(rng, V))
            arg = rng.choice([list, np.array])(ids) if ids else ids
            what = f"compiled scoring of {'hostile ' if hostile else ''}ids {ids!r:.150}, V={V}, {how}"
            f = rng.choice([r.get_scores_from_ids, r.get_scores]) if isinstance(arg, list) else r.get_scores_from_ids
            got = call(ctx, what, lambda: f(arg), hostile)
            if got is None:
                continue
            full, mag = ref.scores(q)
            compare_scores(ctx, got, full, ref.tol(q, mag, p["dtype"]), what)
            ctx.nontrivial(what)
            k = rng.randint(1, ref.n)
            dd, ss = call(ctx, what, lambda: r.retrieve([q], k=k, backend_selection="numpy", show_progress=False), False)
            check_topk(ctx, full, ref.tol(q, mag, p["dtype"]), dd[0], ss[0], k, True, what)
    finally:
        g.release()


def case_topk(ctx, rng):
    from bm25s.numba import selection
    g = Guard()
    try:
        n = rng.choice([0, 1, 2, 3, 5, 8, 17, 64, 300])
        style = rng.randrange(5)
        a = np.array([rng.choice([0.0, 1.0, -1.0, 2.5]) if style == 0 else rng.gauss(0, 1) if style < 3 else float(i if style == 3 else -i) for i in range(n)], dtype=rng.choice(["float32", "float64"]))
        if n and rng.random() < 0.2:
            a[rng.randrange(n)] = rng.choice([np.inf, -np.inf])
        if mode() == "guard" and n:
            a = g.array(a, at_end=rng.random() < 0.6)
            ctx.count("guarded_arrays")
        for k in {0, 1, n, n // 2, n + 1, n + 50, max(n - 1, 0)}:
            for srt in (True, False):
                what = f"numba selection of {k} among {a.dtype} {a.tolist()!r:.120}, sorted={srt}"
                res = call(ctx, what, lambda: selection.topk(a, k=k, sorted=srt), k > n or k == 0)
                if res is None:
                    continue
                ctx.check(k <= n, f"{what}: accepted")
                sc, idx = res
                ctx.check(len(sc) == k == len(idx), f"{what}: {len(sc)} results")
                if k:
                    check_topk(ctx, a.astype(np.float64), 0.0, idx, sc, k, srt, what)
                ctx.nontrivial(what)
    finally:
        g.release()
