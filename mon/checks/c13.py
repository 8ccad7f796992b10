"""C13 saving over an existing index: random histories of saves into one directory while retrievers and corpora memory-mapped from it stay live; every live object and a fresh load are compared with their references after every save.

A write into mapped files shows as a wrong answer of a live object or kills the process by SIGBUS/SIGSEGV, which the supervisor reports."""
from .. import gen
from ..oracle import Ref
from ..store import *
from ..util import *

LEVEL = "exploration"
RULE = ("histories of 4-14 saves into one directory by different indexes (growing and shrinking, with and without absent-term scores) and by retrievers loaded from that directory (in place, memory-mapped or not), "
        "with live memory-mapped retrievers and corpora. Non-trivial: a save followed by a load and by probes of every live object; distinct by (saver kind, live objects, parameters).")


def plan(tier):
    f = 1 if tier == "quick" else 40
    return [dict(cases=[("numpy", 300 * f)], workers=5),
            dict(cases=[("numba", 50 * f)], workers=1, env={"MON_SIG": "float32,int32,1,none"})]


def MIN(tier):
    return {"distinct": 500, "saves": 1200, "saves_in_place": 300, "live_checked": 2000, "failed_saves": 150, "probes": 4000}


def fresh(ctx, rng, p, backend):
    docs = gen.corpus(rng, n_docs=rng.choice([None, None, None, 300]))
    corpus, exp = corpus_for(rng, len(docs), rng.choice(["str", "dict", "list", "tuple", "mixed"]))
    r = ctx.bm25s.BM25(backend=backend, corpus=None, **p)
    r.index(docs if rng.random() < 0.6 else tokenized(ctx, docs, rng, 2), show_progress=False)
    return r, Ref(docs, **p), p, corpus, exp


def verify(ctx, rng, obj, what, sel):
    kind, r, ref, p, exp = obj
    if kind == "corpus":
        got = read_records(r)
        ctx.check(len(got) == len(exp) and all(same(a, norm(b)) for a, b in zip(got, exp)), lambda: f"{what}: live on-disk corpus now reads {got!r:.300} instead of {exp!r:.300}")
    else:
        probe(ctx, rng, r, ref, p, f"{what}: live retriever ({kind})", sel=sel, n=1, docs_expected=exp)
    ctx.count("live_checked")


def history(ctx, rng, params, backend, sel):
    d = ctx.scratch()
    nm = names(rng, rng.random() < 0.2)
    cname = nm.get("corpus_name", "corpus.jsonl")
    live = []
    last = None
    for step in range(rng.choice([4, 7, 14])):
        if last is None or rng.random() < 0.45 or not [o for o in live if o[0] in ("mmap", "memory")]:
            r, ref, p, corpus, exp = fresh(ctx, rng, params(), backend)
            how = "fresh"
            if rng.random() < 0.5:
                r.corpus = corpus
                r.save(d, **nm)
            else:
                r.save(d, corpus=corpus, **nm)
            if rng.random() < 0.3:
                r.corpus = corpus
                live.append(("saved", r, ref, p, [x for x in corpus]))
        else:
            # save a retriever that was loaded from here back in place, or over a later one
            o = rng.choice([o for o in live if o[0] in ("mmap", "memory")])
            _, r, ref, p, exp = o
            how = "in place, " + o[0]
            ctx.count("saves_in_place")
            r.save(d, **nm)
        last = (ref, p, exp)
        ctx.count("saves")
        if rng.random() < 0.2:
            # a save that cannot be made: a token no file can hold
            bad, _, _, bcorpus, _ = fresh(ctx, rng, params(), backend)
            bad.index([["a", rng.choice(["\ud83d", "x\udc00y"])]] * rng.choice([1, 3]), show_progress=False)
            before = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
            e = raises(bad.save, d, corpus=bcorpus if rng.random() < 0.5 else None, **nm)
            ctx.check(e is not None, f"{backend}: a vocabulary with a lone surrogate was saved")
            after = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
            ctx.check(before == after, lambda: f"{backend}: a save that failed with {e!r:.100} left {sorted(after)} of {sorted(before)} (changed: {sorted(f for f in after if f in before and after[f] != before[f])})")
            ctx.count("failed_saves")
        what = f"{backend}, after save {step} ({how}), names {nm}"
        # what is on disk is the last save, in full
        for mm in (True, False):
            new = ctx.bm25s.BM25.load(d, mmap=mm, load_corpus=True, **nm)
            check_params(ctx, new, p, backend, what)
            got = read_records(new.corpus)
            ctx.check(len(got) == ref.n and all(same(a, norm(b)) for a, b in zip(got, exp)), lambda: f"{what}: the loaded corpus (mmap={mm}) is {got!r:.300} instead of {exp!r:.300}")
            probe(ctx, rng, new, ref, p, f"{what}, loaded with mmap={mm}", sel=sel, n=1, docs_expected=exp)
            if rng.random() < 0.5:
                live.append(("mmap" if mm else "memory", new, ref, p, exp))
        if rng.random() < 0.3:
            live.append(("corpus", ctx.bm25s.utils.corpus.JsonlCorpus(os.path.join(d, cname), show_progress=False, verbosity=0), None, None, exp))
        for o in live:
            verify(ctx, rng, o, what, sel)
        while len(live) > 7:
            live.pop(rng.randrange(len(live)))
        ctx.nontrivial((how, tuple(sorted(o[0] for o in live)), sorted(p.items(), key=str), ref.n))
    ctx.sample(dict(steps=step + 1, live=[o[0] for o in live], params=p))


def case_numpy(ctx, rng):
    history(ctx, rng, lambda: variant(rng, rng.randrange(25)), "numpy", ("numpy",) * 12 + (("auto",) if ctx.index % 30 == 0 else ()))


def case_numba(ctx, rng):
    history(ctx, rng, lambda: sig_params(rng), "numba", ("auto",))
