"""C12 save/load round trip: every loaded index is compared with the saved one (bit for bit) and with an independent reference, over chains of saves and loads."""
from .. import gen
from ..oracle import Ref
from ..store import *
from ..util import *
from pathlib import Path

LEVEL = "exploration"
RULE = ("random indexes (all 25 variants, parameters incl. integer-valued, both float and integer types, string and integer tokens, hostile vocabularies) saved under default or custom file names, loaded with or without "
        "memory mapping, corpus, vocabulary; scores reloaded; up to 4 generations of save and load; tokens, ids and parameters of numpy types and subclasses. Non-trivial: a loaded index whose answers were compared; distinct by (corpus, parameters, options).")


def plan(tier):
    f = 1 if tier == "quick" else 40
    return [dict(cases=[("numpy", 600 * f), ("ints", 150 * f), ("typed", 150 * f), ("defaults", 100 * f)], workers=5),
            dict(cases=[("typed", 40 * f)], workers=1, env={"MON_BLOCK": "orjson"}),
            dict(cases=[("numba", 60 * f)], workers=1, env={"MON_SIG": "float32,int32,1,none"})]


def MIN(tier):
    return {"distinct": 800, "probes": 3000, "answers_compared": 3000, "loads": 1000, "mmap_loads": 400, "parameters_compared": 5000, "reloaded_scores": 200, "typed_indexes": 100}


def chain(ctx, rng, r, ref, p, backend, corpus, exp, sel, int_map=None):
    n = ref.n
    voc = sorted(ref.post)
    first = r
    cur = r
    for g in range(rng.choice([1, 1, 2, 4])):
        d = ctx.scratch()
        nm = names(rng)
        tenant = rng.random() < 0.25
        path = rng.choice([str, Path])(d) if rng.random() < 0.7 else rng.choice([str, Path])(d + "/new/dir \u00e9/x.y")
        if tenant:
            # another index lives in the same directory, under names of its own
            other = dict.fromkeys(NAMES, "")
            for k in NAMES:
                other[k] = "other-" + k[:-5] + (".npy" if k in ARRAY else ".json" if k != "corpus_name" else ".jsonl")
            onm = other if not nm or len(set(nm) & set(NAMES)) < len(NAMES) or rng.random() < 0.3 else {}
            op = variant(rng, rng.randrange(25))
            op["delta"] = rng.choice([0.25, 2.0, 3.5])
            o = ctx.bm25s.BM25(**op)
            od = gen.corpus(rng)
            o.index(od, show_progress=False)
            oc, oexp = corpus_for(rng, len(od))
            first_saved = rng.random() < 0.6
            if first_saved:
                o.save(path, corpus=oc, **onm)
            ctx.count("shared_directories")
        give = corpus if (g == 0 or cur.corpus is None) else None
        how = rng.random()
        if give is not None and how < 0.5:
            cur.save(path, corpus=give, **nm)
        else:
            if give is not None:
                cur.corpus = give
            cur.save(path, **nm)
        if tenant and not first_saved:
            o.save(path, corpus=oc, **onm)
        if tenant:
            ol = ctx.bm25s.BM25.load(path, mmap=rng.random() < 0.5, load_corpus=oc is not None, **onm)
            check_params(ctx, ol, op, "numpy", "the other index of the directory")
            same_answers(ctx, rng, o, ol, sorted(Ref(od, **op).post), len(od), f"the other index of the directory (names {onm} and {nm})")
        mm, lc = rng.random() < 0.5, rng.random() < 0.7
        new = ctx.bm25s.BM25.load(path, mmap=mm, load_corpus=lc, **nm)
        ctx.count("loads")
        ctx.count("mmap_loads", mm)
        what = f"generation {g}, mmap={mm}, names {nm}, {p}"
        check_params(ctx, new, p, backend, what)
        same_answers(ctx, rng, first, new, voc, n, what, sel, int_map)
        if int_map is None:
            probe(ctx, rng, new, ref, p, what, sel=sel, n=2, docs_expected=exp if lc and exp is not None else None)
        if lc and exp is not None:
            got = read_records(new.corpus)
            ctx.check(len(got) == n and all(same(a, norm(b)) for a, b in zip(got, exp)), lambda: f"{what}: loaded corpus {got!r:.300} instead of {exp!r:.300}")
            ctx.count("records_compared", n)
        if rng.random() < 0.6:
            new.load_scores(path, mmap=rng.random() < 0.5, num_docs=new.scores["num_docs"], allow_pickle=rng.random() < 0.3, **scores_only(nm))
            ctx.count("reloaded_scores")
            same_answers(ctx, rng, first, new, voc, n, what + ", scores reloaded", sel, int_map)
        if rng.random() < 0.2 and int_map is None:
            nv = ctx.bm25s.BM25.load(path, mmap=mm, load_vocab=False, **nm)
            check_params(ctx, nv, p, backend, what)
            for _ in range(2):
                ids = first.get_tokens_ids(gen.query(rng, voc))
                ctx.check(freeze(nv.get_scores_from_ids(ids)) == freeze(first.get_scores_from_ids(ids)), f"{what}, without vocabulary: get_scores_from_ids differs")
        ctx.nontrivial((g, mm, lc, sorted(nm.items()), sorted(p.items(), key=str), n, voc[:10]))
        cur = new
    # the saved retriever itself still answers as before
    if int_map is None:
        probe(ctx, rng, first, ref, p, "the retriever that was saved", sel=sel, n=1)


def case_numpy(ctx, rng):
    p = variant(rng, ctx.index)
    if rng.random() < 0.2:
        p["k1"], p["b"] = rng.choice([1, 2]), rng.choice([0, 1])
    docs = gen.corpus(rng, n_docs=rng.choice([None, None, None, 1, 400 if ctx.index % 50 == 0 else None]))
    corpus, exp = corpus_for(rng, len(docs))
    r = ctx.bm25s.BM25(**p)
    r.index(docs if rng.random() < 0.5 else tokenized(ctx, docs, rng, rng.choice([0, 3])), show_progress=False)
    chain(ctx, rng, r, Ref(docs, **p), p, "numpy", corpus, exp, ("numpy",) * 10 + (("auto",) if ctx.index % 20 == 0 else ()))
    ctx.sample(dict(params=p, vocab=sorted(r.vocab_dict)[:8]))


def case_defaults(ctx, rng):
    """Parameters left at their defaults, backend 'auto' kept as a concrete backend."""
    docs = gen.corpus(rng)
    corpus, exp = corpus_for(rng, len(docs))
    r = ctx.bm25s.BM25()
    r.index(docs, show_progress=False)
    p = dict(k1=1.5, b=0.75, delta=0.5, method="lucene", idf_method="lucene", dtype="float32", int_dtype="int32")
    chain(ctx, rng, r, Ref(docs, **p), p, "numpy", corpus, exp, ("numpy",))


def case_ints(ctx, rng):
    p = variant(rng, ctx.index)
    docs = gen.corpus(rng)
    voc = gen.vocab_of(docs)
    im = dict(zip(voc, rng.sample(range(-5, 10 * len(voc) + 10), len(voc))))
    r = ctx.bm25s.BM25(**p)
    r.index([[im[t] for t in d] for d in docs], show_progress=False)
    chain(ctx, rng, r, Ref(docs, **p), p, "numpy", None, None, ("numpy",), int_map=im)


def case_numba(ctx, rng):
    p = sig_params(rng)
    docs = gen.corpus(rng)
    corpus, exp = corpus_for(rng, len(docs))
    r = make(ctx, docs, p, backend="numba")
    chain(ctx, rng, r, Ref(docs, **p), p, "numba", corpus, exp, ("auto",))


class Word(str):
    """A token of a type of the caller's."""


def case_typed(ctx, rng):
    """Tokens, ids and parameters of numpy types and of subclasses: what can be indexed and searched can be saved."""
    p = variant(rng, ctx.index)
    exact = rng.random() < 0.7
    p["k1"], p["b"], p["delta"] = rng.choice([0.5, 1.5, 2.0]), rng.choice([0.25, 0.75]), rng.choice([0.5, 1.0])
    if rng.random() < 0.3:
        p["k1"], p["b"] = rng.choice([1, 2]), rng.choice([0, 1])
    typ = lambda v: rng.choice([np.int64, np.int32] if isinstance(v, int) else [np.float64] if exact else [np.float32, np.float16]).__call__(v) if rng.random() < 0.7 else v
    q = {k: typ(v) if k in ("k1", "b", "delta") else v for k, v in p.items()}
    for k in ("dtype", "int_dtype"):
        q[k] = rng.choice([str, np.dtype, lambda x: np.dtype(x).type])(p[k])
    docs = gen.corpus(rng)
    voc = gen.vocab_of(docs)
    how = rng.choice(["str_", "Word", "ids", "ints", "plain"])
    im = None
    given = docs
    if how in ("str_", "Word"):
        w = np.str_ if how == "str_" else Word
        given = [[w(t) if rng.random() < 0.8 else t for t in d] for d in docs]
        if rng.random() < 0.3:
            ids, v = tokenized(ctx, docs, rng, 1)
            given = ids, {w(t): i for t, i in v.items()}
    elif how == "ids":
        ids, v = tokenized(ctx, docs, rng, rng.choice([0, 2]))
        w = rng.choice([np.int64, np.int32])
        given = [np.array(d, dtype=w) if rng.random() < 0.5 else d for d in ids], {t: w(i) if rng.random() < 0.8 else i for t, i in v.items()}
    elif how == "ints":
        im = dict(zip(voc, rng.sample(range(0, 10 * len(voc) + 10), len(voc))))
        given = [[np.int64(im[t]) for t in d] for d in docs]
    if how == "str_":
        docs2 = [[str(t) for t in d] for d in docs]
        if docs2 != docs or any(t.endswith("\0") for t in voc):
            return
    r = ctx.bm25s.BM25(**q)
    r.index(given, show_progress=False)
    what = f"{how}, parameters {q!r}"
    ctx.count("typed_indexes")
    if exact:
        corpus, exp = corpus_for(rng, len(docs))
        chain(ctx, rng, r, Ref(docs, **p), p, "numpy", corpus, exp, ("numpy",), int_map=im)
        return
    d = ctx.scratch()
    r.save(d)
    new = ctx.bm25s.BM25.load(d, mmap=rng.random() < 0.5)
    check_params(ctx, new, p, "numpy", what)
    same_answers(ctx, rng, r, new, voc, len(docs), what, int_map=im)
    ctx.nontrivial((how, repr(q), voc[:10], len(docs)))
