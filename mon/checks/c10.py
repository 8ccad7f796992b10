"""C10 concurrent searches: threads share one index or on-disk corpus while delays are injected between the lines of bm25s; every call's result is compared with the same call made alone.

The interpreter's switch interval is 1 microsecond and a line monitor yields at random lines of the code under test in every thread; the evidence counts the distinct (line, line) thread switches seen."""
import json
import os

from .. import gen
from ..oracle import Ref, check_topk
from ..sched import Perturb, run_threads
from ..util import *

LEVEL = "exploration"
RULE = ("2-8 threads over one shared retriever (fresh, loaded or memory-mapped; with and without attached on-disk corpus; numpy, compiled scorer, numba) or one shared on-disk corpus, each making random "
        "retrieve/get_scores/lookup calls under injected delays; also n_threads within one call. Non-trivial: a call that overlapped others and was compared; distinct by (call, index).")
ASSUMPTIONS = ["CPython with the GIL; preemption is explored at line granularity with injected yields", "numba's default threading layer (tbb here)"]


def plan(tier):
    f = 1 if tier == "quick" else 40
    return [dict(cases=[("search", 90 * f), ("corpus", 90 * f), ("within", 60 * f), ("long", 40 * f)], workers=3),
            dict(cases=[("scorer", 40 * f)], workers=1),
            dict(cases=[("numba", 40 * f)], workers=1, env={"MON_SIG": "float32,int32,1,float32"})]


def MIN(tier):
    return {"distinct": 900, "calls_compared": 4000, "line_events": 50000, "max_switch_pairs": 300, "thread_switches": 3000}


def snap(res):
    if isinstance(res, np.ndarray):
        return freeze(res)
    if isinstance(res, tuple):
        return tuple(snap(x) for x in res)
    return freeze(res)


def run(ctx, rng, calls, what, rate=None):
    """calls: list of (description, thunk). Alone first, then concurrently, then alone again."""
    alone = [snap(f()) for _, f in calls]
    T = rng.choice([2, 3, 4, 8])
    order = [[rng.randrange(len(calls)) for _ in range(rng.randint(4, 10))] for _ in range(T)]
    if rng.random() < 0.3:
        order = [list(order[0]) for _ in range(T)]  # everybody does the same
    P = Perturb(ctx.repo, f"{ctx.seed}|{ctx.index}|{ctx.kind}", rate=rate if rate is not None else rng.choice([0.02, 0.15, 0.4]))
    with P:
        out, done = run_threads([[calls[i][1] for i in o] for o in order])
    ctx.check(done, f"{what}: concurrent calls did not finish")
    for o, res in zip(order, out):
        for i, (st, val) in zip(o, res):
            ctx.check(st == "ok", lambda: f"{what}: {calls[i][0]} raised {val!r:.300} when run concurrently")
            ctx.check(snap(val) == alone[i], lambda: f"{what}: {calls[i][0]} returned {val!r:.400} concurrently, which is not what it returns alone")
            ctx.count("calls_compared")
            ctx.nontrivial((what, calls[i][0], ctx.index))
    for i, (name, f) in enumerate(calls):
        ctx.check(snap(f()) == alone[i], lambda: f"{what}: {name} answers differently after the concurrent calls")
    ctx.count("line_events", P.events)
    ctx.count("thread_switches", P.n_switch)
    ctx.cache.setdefault("pairs", set()).update(P.switches)
    ctx.maximum("switch_pairs", len(ctx.cache["pairs"]))
    ctx.maximum("threads", T)


def jsonl(ctx, rng, n):
    d = ctx.scratch()
    recs = [{"id": i, "text": gen.unicode_string(rng, rng.choice([3, 30, 300]))} for i in range(n)]
    path = os.path.join(d, "c.jsonl")
    with open(path, "w", encoding="utf-8") as f:
        for x in recs:
            f.write(json.dumps(x, ensure_ascii=rng.random() < 0.5) + "\n")
    return path, recs


def retriever(ctx, rng, p, backend):
    docs = gen.corpus(rng, n_docs=rng.choice([None, None, 60]))
    corpus = None
    how = rng.choice(["fresh", "fresh", "loaded", "mmap", "mmap+corpus"])
    r = make(ctx, docs, p, backend=backend)
    if how != "fresh":
        d = ctx.scratch()
        r.save(d, corpus=["text %d %s" % (i, "x" * rng.randint(0, 50)) for i in range(len(docs))] if how == "mmap+corpus" else None)
        r = ctx.bm25s.BM25.load(d, mmap=how != "loaded", load_corpus=how == "mmap+corpus")
    elif rng.random() < 0.4:
        path, recs = jsonl(ctx, rng, len(docs))
        r.corpus = ctx.bm25s.utils.corpus.JsonlCorpus(path, show_progress=False, verbosity=0)
        how += "+jsonl"
    return r, docs, how


def calls_for(ctx, rng, r, docs, p, sels, mdt=None, threads=(0, 0, 0, 2)):
    voc = gen.vocab_of(docs)
    n = len(docs)
    calls = []
    for _ in range(rng.randint(3, 8)):
        q = gen.query(rng, voc)
        qs = [gen.query(rng, voc) for _ in range(rng.choice([1, 2, 5]))]
        w = gen.mask(rng, n, mdt) if rng.random() < 0.4 else None
        k = rng.randint(1, n)
        sel, nt = rng.choice(sels), rng.choice(threads)
        ret = rng.choice(["tuple", "tuple", "documents"])
        srt = rng.random() < 0.8
        op = rng.randrange(4)
        if op == 0:
            calls.append((f"get_scores({q!r:.80})", lambda q=q, w=w: r.get_scores(list(q), weight_mask=w)))
        elif op == 1 and any(t in r.vocab_dict for t in q):
            ids = [r.get_tokens_ids(q)]
            calls.append((f"retrieve ids {ids!r:.80}", lambda ids=ids, k=k, sel=sel: r.retrieve(ids, k=k, show_progress=False, backend_selection=sel)))
        else:
            calls.append((f"retrieve({qs!r:.120}, k={k}, n_threads={nt}, {sel}, {ret}, masked={w is not None})",
                          lambda qs=qs, k=k, w=w, sel=sel, nt=nt, ret=ret, srt=srt: r.retrieve([list(x) for x in qs], k=k, weight_mask=w, n_threads=nt, sorted=srt, chunksize=1 + 49 * srt,
                                                                                          return_as=ret, show_progress=False, backend_selection=sel)))
    return calls


def case_search(ctx, rng):
    p = variant(rng, ctx.index)
    r, docs, how = retriever(ctx, rng, p, "numpy")
    run(ctx, rng, calls_for(ctx, rng, r, docs, p, ["numpy"] * 6 + (["auto"] if ctx.index % 10 == 0 else [])), f"numpy, {how}, {p['method']}")
    ctx.sample(dict(how=how, params=p))


def case_long(ctx, rng):
    """Long queries over a large vocabulary."""
    p = variant(rng, ctx.index)
    voc = [f"w{i}" for i in range(rng.choice([300, 1500, 4000]))]
    docs = [rng.choices(voc, k=rng.choice([50, 200])) for _ in range(rng.choice([10, 40]))]
    r = make(ctx, docs, p, backend="numpy")
    calls = []
    for _ in range(rng.randint(3, 8)):
        q = rng.choices(voc + ["unknown"], k=rng.choice([60, 120, 300]))
        op = rng.randrange(3)
        if op == 0:
            calls.append((f"get_scores of {len(q)} tokens", lambda q=q: r.get_scores(list(q))))
        elif op == 1:
            calls.append((f"get_tokens_ids of {len(q)} tokens", lambda q=q: np.array(r.get_tokens_ids(list(q)))))
        else:
            calls.append((f"retrieve of {len(q)} tokens", lambda q=q: r.retrieve([list(q)] * 2, k=len(docs), show_progress=False, backend_selection="numpy", n_threads=2)))
    run(ctx, rng, calls, f"long queries, {p['method']}")


def case_scorer(ctx, rng):
    p = gen.params(rng, dtype="float32", int_dtype="int32")
    r, docs, how = retriever(ctx, rng, p, "numpy")
    activate(ctx, r)
    run(ctx, rng, calls_for(ctx, rng, r, docs, p, ["numpy"]), f"compiled scorer, {how}")


def case_numba(ctx, rng):
    p = sig_params(rng)
    r, docs, how = retriever(ctx, rng, p, "numba")
    run(ctx, rng, calls_for(ctx, rng, r, docs, p, ["auto"], "float32", (0, 1, 2, 4)), f"numba, {how}")


def case_corpus(ctx, rng):
    path, recs = jsonl(ctx, rng, rng.choice([1, 3, 20, 200]))
    c = ctx.bm25s.utils.corpus.JsonlCorpus(path, show_progress=False, verbosity=0)
    n = len(recs)
    calls = [("len", lambda: len(c))]
    gl = ctx.bm25s.utils.corpus.get_line
    mm = ctx.bm25s.utils.corpus.load_mmindex(path)
    for _ in range(rng.randint(3, 8)):
        i = rng.randrange(n)
        op = rng.randrange(5)
        if op == 0:
            calls.append((f"[{i}]", lambda i=i: c[i]))
        elif op == 1:
            s = slice(rng.randrange(n), None, rng.choice([1, 2, 7]))
            calls.append((f"[{s}]", lambda s=s: c[s]))
        elif op == 2:
            a = np.array([[rng.randrange(n) for _ in range(3)] for _ in range(rng.randint(1, 3))])
            calls.append((f"[{a.tolist()}]", lambda a=a: c[a]))
        elif op == 3:
            l = [rng.randrange(n) for _ in range(4)]
            calls.append((f"[{l}]", lambda l=l: c[l]))
        else:
            calls.append((f"get_line({i})", lambda i=i: gl(path, i, mm)))
            calls.append((f"get_line({i}) shared", lambda i=i: gl(path, i, mm, file_obj=c.file_obj, mmap_obj=c.mmap_obj)))
    run(ctx, rng, calls, f"on-disk corpus of {n}")
    for i in range(n):
        ctx.check(c[i] == recs[i], "wrong record")


def case_within(ctx, rng):
    """Worker threads inside one call equal the sequential call."""
    p = variant(rng, ctx.index)
    r, docs, how = retriever(ctx, rng, p, "numpy")
    voc = gen.vocab_of(docs)
    qs = [gen.query(rng, voc) for _ in range(rng.choice([1, 5, 17, 40]))]
    w = gen.mask(rng, len(docs)) if rng.random() < 0.4 else None
    k = rng.randint(1, len(docs))
    kw = dict(k=k, weight_mask=w, show_progress=False, backend_selection="numpy")
    seq = snap(r.retrieve([list(q) for q in qs], **kw))
    P = Perturb(ctx.repo, f"{ctx.seed}|{ctx.index}|within", rate=rng.choice([0.02, 0.15]))
    with P:
        for nt in (rng.choice([1, 2, 3]), rng.choice([4, 8, -1])):
            for cs in (1, rng.choice([2, 7, 50])):
                got = r.retrieve([list(q) for q in qs], n_threads=nt, chunksize=cs, **kw)
                ctx.check(snap(got) == seq, f"retrieve with n_threads={nt}, chunksize={cs} differs from the sequential result", queries=qs)
                ctx.count("calls_compared")
                ctx.nontrivial(("within", nt, cs, ctx.index))
    ctx.count("line_events", P.events)
    ctx.count("thread_switches", P.n_switch)
    ctx.cache.setdefault("pairs", set()).update(P.switches)
