"""C08 read-only searching and isolation: random histories of calls and of edits by the caller, with answers compared with a reference after every step and deep snapshots of every input.

The monitor keeps a frozen copy of everything the caller owns and of the answers the index must give; each step of a history is followed by probes of every live index."""
from .. import gen
from ..oracle import Ref, compare_scores
from ..store import corpus_for
from ..util import *

LEVEL = "exploration"
RULE = ("random histories (8-40 steps) over one or two indexes sharing their input: retrieve in every form, scoring, masks, saving, tokenizing queries with the tokenizer the vocabulary came from, "
        "edits by the caller of its token lists, vocabulary, queries and of returned arrays. Non-trivial: a step followed by probes; distinct by (step kind, previous step kind, input form, index parameters).")


def plan(tier):
    f = 1 if tier == "quick" else 40
    return [dict(cases=[("numpy", 300 * f), ("tokenizer", 200 * f)], workers=5),
            dict(cases=[("numba", 60 * f)], workers=1, env={"MON_SIG": "float32,int32,1,float32"}),
            dict(cases=[("scorer", 80 * f)], workers=1)]


def MIN(tier):
    return {"distinct": 800, "probes": 5000, "steps": 4000, "step_edit_vocab": 100, "step_edit_ids": 100, "step_save": 100, "id_arrays": 300}


class Obj:
    pass


def build(ctx, rng, p, backend, docs):
    """An input owned by the caller, and the retrievers indexed from it."""
    T = ctx.bm25s.tokenization.Tokenized
    form = rng.choice(["strings", "tuple", "tuple", "Tokenized", "object"])
    if form == "strings":
        inp = [list(d) for d in docs]
        ids, vocab = inp, None
    else:
        ids, vocab = tokenized(ctx, docs, rng, rng.choice([0, 0, 2]))
        if form == "object":
            inp = Obj()
            inp.ids, inp.vocab = ids, vocab
        else:
            inp = T(ids=ids, vocab=vocab) if form == "Tokenized" else (ids, vocab)
    return form, inp, ids, vocab


def history(ctx, rng, p, backend, sel, threads, mdt, scorer=False):
    docs = gen.corpus(rng)
    corpus = rng.choice([None, ["doc %d" % i for i in range(len(docs))], [{"i": i} for i in range(len(docs))], corpus_for(rng, len(docs), rng.choice(["dict", "mixed", "list"]))[1]])
    form, inp, ids, vocab = build(ctx, rng, p, backend, docs)
    owned = dict(ids=ids, vocab=vocab, corpus=corpus)
    keep = freeze(owned)
    ref = Ref(docs, **p)
    rs = []

    def new():
        r = ctx.bm25s.BM25(backend=backend, corpus=corpus, **p)
        r.index(inp, show_progress=False)
        if scorer:
            activate(ctx, r)
        rs.append(r)

    new()
    ctx.check(freeze(owned) == keep, f"index changed its input ({form})")
    pristine = True
    prev = "start"
    voc = sorted(ref.post)
    d = None
    for step in range(rng.choice([8, 15, 25, 40] if not ctx.thorough else [15, 40, 80])):
        r = rng.choice(rs)
        q = gen.query(rng, voc, unknown=0.3)
        op = rng.choice(["retrieve", "retrieve", "get_scores", "masked", "ids", "save", "second", "edit_vocab", "edit_ids", "tuple_query", "edit_result", "batch", "fails"])
        if op == "retrieve":
            arg = [list(q)]
            f = freeze(arg)
            given = rng.choice([{}, {}, dict(corpus=["other %d" % i for i in range(ref.n)]), dict(corpus=[{"o": i} for i in range(ref.n)]), dict(corpus=None)])
            fg = freeze(given)
            r.retrieve(arg, k=rng.randint(1, ref.n), sorted=rng.random() < 0.5, n_threads=rng.choice(threads), show_progress=False,
                       return_as=rng.choice(["tuple", "documents"]), backend_selection=rng.choice(sel), **given)
            ctx.check(freeze(arg) == f, "retrieve changed its query")
            ctx.check(freeze(given) == fg, "retrieve changed the corpus it was given")
            ctx.count("corpora_retrieved", bool(given))
        elif op == "batch":
            arg = [gen.query(rng, voc, unknown=0.3) for _ in range(rng.randint(2, 6))]
            f = freeze(arg)
            r.retrieve(arg, k=rng.randint(1, ref.n), n_threads=rng.choice(threads), show_progress=False, backend_selection=rng.choice(sel))
            ctx.check(freeze(arg) == f, "retrieve changed its queries")
        elif op == "tuple_query":
            toks = sorted(set(q)) or ["zz"]
            own = {t: i for i, t in enumerate(toks)}
            arg = rng.choice([tuple, lambda x: ctx.bm25s.tokenization.Tokenized(*x)])(([[own[t] for t in q]], own))
            f = freeze(arg)
            r.retrieve(arg, k=1, show_progress=False, backend_selection=rng.choice(sel))
            ctx.check(freeze(arg) == f, "retrieve changed its (ids, vocab) query")
        elif op == "get_scores":
            arg = list(q)
            r.get_scores(arg)
            ctx.check(arg == q, "get_scores changed its query")
            found = r.get_tokens_ids(arg)
            ctx.check(arg == q, "get_tokens_ids changed its query")
            rng.shuffle(found)
            if rng.random() < 0.2 and len(r.scores["indptr"]) > 1:
                found = [rng.randrange(len(r.scores["indptr"]) - 1) for _ in range(rng.choice([3, 30]))]
            arr = rng.choice([lambda x: np.array(x, p.get("int_dtype", "int32")), lambda x: np.array(x, p.get("int_dtype", "int32")), lambda x: np.array(x, "int64"), list, tuple])(found)
            f = freeze(arr)
            w = gen.mask(rng, ref.n, mdt) if rng.random() < 0.3 else None
            fw = freeze(w)
            sc = r.get_scores_from_ids(arr) if w is None else r.get_scores_from_ids(arr, weight_mask=w)
            ctx.check(freeze(arr) == f and freeze(w) == fw, lambda: f"get_scores_from_ids changed the ids {found!r:.200} it was given ({type(arr).__name__}) to {arr!r:.200}, or its mask")
            if rng.random() < 0.5:
                # what is returned is the caller's
                sc[...] = 5
                ctx.check(freeze(arr) == f and freeze(w) == fw, "the scores returned share memory with the ids or the mask")
            ctx.count("id_arrays")
        elif op == "masked":
            w = gen.mask(rng, ref.n, mdt)
            f = freeze(w)
            if rng.random() < 0.5:
                r.retrieve([list(q)], k=1, weight_mask=w, show_progress=False, backend_selection=rng.choice(sel))
            else:
                r.get_scores(list(q), weight_mask=w)
            ctx.check(freeze(w) == f, "the weight mask was changed")
        elif op == "ids":
            arg = [r.get_tokens_ids(list(q))] if rng.random() < 0.7 else [[0, 10 ** 6]]
            f = freeze(arg)
            if ref.n and arg[0]:
                r.retrieve(arg, k=1, show_progress=False, backend_selection=rng.choice(sel))
            ctx.check(freeze(arg) == f, "retrieve changed its id query")
        elif op == "save":
            dd = d if d and rng.random() < 0.5 else ctx.scratch()
            d = dd
            given = corpus_for(rng, ref.n)[0]
            f = freeze(given)
            r.save(dd, **({} if given is None else {"corpus": given}))
            ctx.check(freeze(given) == f, lambda: f"save changed the corpus it was given to {given!r:.300}")
            ctx.count("corpora_given", given is not None)
        elif op == "second" and len(rs) < 3 and pristine:
            new()
        elif op == "edit_vocab" and vocab is not None:
            pristine = False
            e = rng.randrange(5)
            if e == 0:
                vocab["new%d" % step] = len(vocab)
            elif e == 1 and vocab:
                ks = list(vocab)
                vs = list(vocab.values())
                rng.shuffle(vs)
                vocab.update(zip(ks, vs))
            elif e == 2 and vocab:
                vocab.pop(rng.choice(list(vocab)))
            elif e == 3:
                vocab.clear()
            else:
                vocab["__unknown0__"] = 0
            keep = freeze(owned)
        elif op == "edit_ids":
            pristine = False
            e = rng.randrange(4)
            if e == 0 and ids:
                ids.pop()
            elif e == 1 and ids and ids[0]:
                ids[0][0] = ids[-1][0] if ids[-1] else ids[0][-1]
            elif e == 2:
                ids.append([])
            elif ids:
                ids[rng.randrange(len(ids))].clear()
            keep = freeze(owned)
        elif op == "edit_result":
            res = r.retrieve([list(q)], k=ref.n, show_progress=False, backend_selection=rng.choice(sel))
            sc = r.get_scores(list(q))
            for a in (res.scores, res.documents, sc):
                if a.flags.writeable:
                    a[...] = a.dtype.type(77) if a.dtype != object else None
        elif op == "fails":
            raises(r.retrieve, [list(q)], k=ref.n + 5, show_progress=False)
        else:
            op = "noop"
        ctx.count("step_" + op)
        ctx.count("steps")
        ctx.check(freeze(owned) == keep, f"{op} changed the caller's tokens, vocabulary or corpus ({form})")
        for x in rs:
            probe(ctx, rng, x, ref, p, f"after {op} (step {step}, input {form}, {len(rs)} indexes, {backend})", sel=sel, n=1,
                  vocab=voc + ["new%d" % step], docs_expected=corpus if corpus is not None else list(range(ref.n)))
        ctx.nontrivial((prev, op, form, sorted(p.items(), key=str)))
        prev = op
    ctx.sample(dict(params=p, form=form, last=prev))


def case_numpy(ctx, rng):
    history(ctx, rng, variant(rng, ctx.index), "numpy", ("numpy",) * 8 + (("auto",) if ctx.index % 20 == 0 else ()), [0, 0, 3], None)


def case_scorer(ctx, rng):
    history(ctx, rng, gen.params(rng, dtype="float32", int_dtype="int32"), "numpy", ("numpy",), [0], None, scorer=True)


def case_numba(ctx, rng):
    history(ctx, rng, sig_params(rng), "numba", ("auto", "numba"), [0, 2], sig()["mask"])


def case_tokenizer(ctx, rng):
    """The vocabulary comes from a Tokenizer that goes on learning words."""
    p = variant(rng, ctx.index)
    tk = ctx.bm25s.tokenization.Tokenizer(stopwords=rng.choice([None, "en"]), stemmer=rng.choice([None, lambda w: w[:3]]))
    texts = [gen.text(rng) for _ in range(rng.randint(1, 12))]
    how = rng.choice(["tuple", "string", "ids+vocab"])
    out = tk.tokenize(list(texts), return_as="tuple", show_progress=False)
    inv = {v: k for k, v in out.vocab.items()}
    docs = [[inv[i] for i in d] for d in out.ids]
    if how == "tuple":
        inp = out
    elif how == "string":
        inp = tk.decode(out.ids)
    else:
        inp = (out.ids, tk.get_vocab_dict())
    ref = Ref(docs, **p)
    r = ctx.bm25s.BM25(**p)
    kv = freeze(tk.get_vocab_dict())
    r.index(inp, show_progress=False)
    ctx.check(freeze(tk.get_vocab_dict()) == kv, "indexing changed the tokenizer's vocabulary")
    voc = sorted(t for t in ref.post if t)
    sc = "" not in ref.post
    for step in range(rng.randint(3, 10)):
        qt = [gen.text(rng, 5) for _ in range(rng.randint(1, 3))]
        upd = rng.choice([True, True, False, "never", "if_empty"])
        qids = tk.tokenize(qt, update_vocab=upd, return_as=rng.choice(["ids", "tuple"]), show_progress=False)
        if rng.random() < 0.3:
            tk.reset_vocab()
            tk.tokenize(["zeta alpha beta " + gen.text(rng)], show_progress=False)
        if isinstance(qids, tuple):
            r.retrieve(qids, k=1, show_progress=False, backend_selection="numpy")
        ctx.count("steps")
        ctx.count("step_tokenizer")
        probe(ctx, rng, r, ref, p, f"after the tokenizer learned {qt!r:.100} (update_vocab={upd}, indexed from {how})", n=2, vocab=voc, scores=sc)
        ctx.nontrivial(("tokenizer", how, upd, step, sorted(p.items(), key=str)))
