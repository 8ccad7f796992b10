"""C32 reproducible answers: the same inputs are given to processes with different hash seeds, to forked children, to copies of a retriever or tokenizer and again to the same objects after other work; documents, their order and the bits of the scores must be the same.

Nothing is compared with a reference here (other checks do that): one execution judges another."""
import copy
import os
import pickle
import select
import signal
import struct
import time

from .. import gen, ops, textref
from ..core import Inconclusive, Violation
from ..peer import Peer
from ..store import corpus_for
from ..util import *

LEVEL = "exploration"
RULE = ("texts with many ties x tokenizer forms x 25 variants x numpy/numba x masks, threads, corpora: processes with 4 hash seeds, 2-4 concurrently forked children (mapped index and corpus included), pickled and deep-copied retrievers and tokenizers, "
        "repetitions with other work in between, rebuilt retrievers. Non-trivial: two executions with a positive score compared; distinct by inputs and kind.")
ASSUMPTIONS = ["the same machine and packages, the same backend", "the numbering of the vocabulary of an index built from strings is not part of the answer", "an object that refuses to be pickled or copied is not compared",
               "forked children use the numpy backend"]
LANGUAGES = ["nation", "nations", "nationale", "running", "runner", "happily", "dances", "dancing", "machines", "universelle", "universe", "generation", "generate", "kinder", "houses"]
SEEDS = ("0", "1", "4242")


def plan(tier):
    f = 1 if tier == "quick" else 40
    s = 100 if tier == "quick" else 2400
    return [dict(cases=[("processes", 90 * f), ("repeat", 130 * f), ("copies", 120 * f)], workers=4, soft=s),
            dict(cases=[("processes", 60 * f), ("repeat", 60 * f), ("copies", 25 * f)], workers=1, env={"MON_SIG": "float32,int32,0,none"}, soft=s),
            dict(cases=[("forks", 60 * f)], workers=2, env={"MON_BLOCK": "jax"}, soft=s)]


def MIN(tier):
    return {"distinct": 250, "compared": 800, "stemmed": 30, "processes": 300, "children": 60, "mapped_children": 20, "repetitions": 400, "files_reloaded": 60, "fresh_processes": 40, "twins": 20}


def setup(ctx):
    ctx.numba = "MON_SIG" in os.environ
    ctx.peers = []


def peers(ctx):
    if not ctx.peers:
        ctx.peers = [Peer(ctx, env={"PYTHONHASHSEED": h, "TZ": z, "OMP_NUM_THREADS": t}) for h, z, t in zip(SEEDS, ("UTC", "Asia/Tokyo", "America/Lima"), "124")]
    return ctx.peers


def fresh(ctx):
    """A process that forks another one for every request."""
    if not hasattr(ctx, "zygote"):
        ctx.zygote = Peer(ctx, block="jax")
    return ctx.zygote


def inputs(ctx, rng):
    pieces = rng.choice([None, ["cat", "cats", "dog", "dogs", "bird", "the", "fish", "runs"], LANGUAGES, rng.sample(gen.TEXT_PIECES, 8)])
    texts = [gen.text(rng, rng.choice([3, 8, 30]), pieces) for _ in range(rng.choice([1, 2, 5, 13, 40, 120]))]
    if rng.random() < 0.5:
        texts = [rng.choice(texts) for _ in texts]
    texts.append("some words of their own")
    qs = [gen.text(rng, rng.choice([2, 5, 20]), pieces) for _ in range(rng.choice([1, 2, 5]))] + [rng.choice(texts)]
    kw = dict(lower=rng.random() < 0.7, stopwords=rng.choice([None, "en", ["a", "the"]]), stem=rng.choice([None, None, None, "stemmer", "english", "first", "first2", "first5"] + [f"{k}:{l}" for k in ("stemmer", "word") for l in ("french", "german", "porter")]))
    p, backend = (sig_params(rng), "numba") if ctx.numba else (variant(rng, ctx.index), "numpy")
    form = rng.choice(["function-ids", "function-strings", "class-string", "class-tuple"])
    n = len(texts)
    opt = dict(sel="numpy" if rng.random() < 0.8 else "auto")
    if ctx.numba:
        opt["sel"] = "auto"
    if rng.random() < 0.3 and not ctx.numba:
        opt["mask"] = gen.mask(rng, n, rng.choice(["float32", "float64"]))
    if rng.random() < 0.3:
        opt["n_threads"] = rng.choice([1, 2, 4])
    corpus, _ = corpus_for(rng, n, rng.choice(["none", "str", "dict", "mixed"]))
    return texts, qs, kw, form, p, backend, rng.choice([n, n, 1, rng.randint(1, n)]), opt, corpus


def note(ctx, a, key):
    if a is not None and (a > 0).any():
        ctx.nontrivial(key)


def case_processes(ctx, rng):
    texts, qs, kw, form, p, backend, k, opt, corpus = inputs(ctx, rng)
    opt["corpus"] = corpus
    d = ctx.scratch()
    runs = [("this process", ops.pipeline(texts, kw, form, p, backend, qs, k, save=d, **opt))]
    ps = peers(ctx)
    for x in ps:
        x.send("pipeline", texts, kw, form, p, backend, qs, k, **opt)
    for h, x in zip(SEEDS, ps):
        r = x.receive()
        ctx.check(r[0] == "ok", lambda: f"{form}, {p}: a process with hash seed {h} raised {r[1:]}")
        runs.append((f"a process with hash seed {h}", r[1]))
    if not ctx.numba and opt["sel"] == "numpy":  # (it has no jax, which does not survive a fork)
        r = fresh(ctx).call("pipeline", texts, kw, form, p, backend, qs, k, _fresh=True, **opt)
        ctx.check(r[0] == "ok", lambda: f"{form}, {p}: a new process raised {r[1:]}")
        runs.append(("a process that has done nothing else", r[1]))
        ctx.count("fresh_processes")
    what = f"{form}, {backend}, stemmer {kw['stem']}, {p['method']}/{p['idf_method']}, {len(texts)} documents, k={k}, {sorted(opt)}"
    (show, (docs, sc)) = runs[0][1]
    for name, (s2, (d2, c2)) in runs[1:]:
        ctx.check(freeze(s2) == freeze(show), lambda: f"{what}: {name} tokenizes {s2!r:.300}, this process {show!r:.300}")
        ctx.check(freeze(c2) == freeze(sc), lambda: f"{what}: {name} has the scores {c2.tolist()!r:.300}, this process {sc.tolist()!r:.300}")
        ctx.check(freeze(d2) == freeze(docs), lambda: f"{what}: {name} returns {d2!r:.300}, this process {docs!r:.300} (scores {sc.tolist()!r:.200})")
        ctx.count("processes")
        ctx.count("stemmed", kw["stem"] is not None)
        ctx.count("compared")
    # the directory written here, answered there
    q = [list(set(t.lower().split()))[:5] or ["cat"] for t in qs]
    rel = dict(opt)
    rel.pop("corpus")
    mm, lc = rng.random() < 0.5, rng.random() < 0.5
    a = ops.reload(d, mm, lc, q, k, **rel)
    for h, x in zip(SEEDS, ps):
        r = x.call("reload", d, rng.random() < 0.5, lc, q, k, **rel)
        ctx.check(r[0] == "ok", lambda: f"{what}: loading in a process with hash seed {h} raised {r[1:]}")
        ctx.check(freeze(r[1]) == freeze(a), lambda: f"{what}: loaded, a process with hash seed {h} answers {r[1]!r:.300}, this process {a!r:.300}")
        ctx.count("files_reloaded")
        ctx.count("compared")
    note(ctx, sc, ("processes", freeze(texts), freeze(qs), form))
    ctx.sample(dict(pipeline=what, queries=qs[:2], processes=[n for n, _ in runs]))


def retriever(ctx, rng, reload=True):
    """(retriever, queries in the form it takes, k, options)"""
    texts, qs, kw, form, p, backend, k, opt, corpus = inputs(ctx, rng)
    T = ctx.bm25s.tokenization

    def build():
        kws, stem = ops.stemmer(kw, False)
        kws.update(show_progress=False, stemmer=stem)
        ids = form.endswith("ids") or form.endswith("tuple")
        c = T.tokenize(list(texts), return_ids=ids, **kws)
        r = ctx.bm25s.BM25(backend=backend, corpus=corpus, **p)
        r.index(c, show_progress=False)
        return r, T.tokenize(list(qs), return_ids=ids, **kws)
    r, q = build()
    opt["corpus"] = None
    return r, q, k, opt, build, f"{form}, {backend}, {p['method']}/{p['idf_method']}, {len(texts)} documents, k={k}, {sorted(opt)}", (freeze(texts), freeze(qs), form)


def case_repeat(ctx, rng):
    r, q, k, opt, build, what, key = retriever(ctx, rng)
    if not ctx.numba and rng.random() < 0.1:
        activate(ctx, r)
    d = None
    if rng.random() < 0.4:
        d = ctx.scratch()
        r.save(d)
        r = ctx.bm25s.BM25.load(d, mmap=rng.random() < 0.7, load_corpus=rng.random() < 0.7)
        what += ", loaded"
    first = ops.results(r, q, k, **opt)
    others = [r]
    for i in range(6):
        step = rng.randrange(6)
        if step == 0:  # another retriever does something
            others.append(retriever(ctx, rng)[0])
        elif step == 1:  # other questions
            ops.results(r, q, 1, **dict(opt, mask=None))
        elif step == 2 and d is None:  # all of it again
            r2, q2 = build()
            again = ops.results(r2, q2, k, **opt)
            ctx.check(freeze(again) == freeze(first), lambda: f"{what}: built again from the same inputs, the answer is {again!r:.300}, before {first!r:.300}")
            ctx.count("compared")
        elif step == 3:
            try:
                r.retrieve(q, k=10 ** 9, show_progress=False)
            except ValueError:
                pass
        elif step == 4:
            r.get_scores(["cat", "dog"])
        elif step == 5 and d is not None:
            r2 = ctx.bm25s.BM25.load(d, mmap=rng.random() < 0.5, load_corpus=r.corpus is not None)
            again = ops.results(r2, q, k, **opt)
            ctx.check(freeze(again) == freeze(first), lambda: f"{what}: loaded again, the answer is {again!r:.300}, before {first!r:.300}")
            ctx.count("compared")
        again = ops.results(r, q, k, **opt)
        ctx.check(freeze(again) == freeze(first), lambda: f"{what}: asked again (repetition {i + 1}), the answer is {again!r:.300}, the first time {first!r:.300}")
        ctx.count("repetitions")
        ctx.count("compared")
    note(ctx, first[1], ("repeat",) + key)


def copied(ctx, obj, how):
    try:
        if how == "deepcopy":
            return copy.deepcopy(obj), None
        data = pickle.dumps(obj, protocol=how)
    except (TypeError, pickle.PicklingError, AttributeError):
        ctx.count("not_copied")
        return None, None
    return pickle.loads(data), data


def case_copies(ctx, rng):
    if rng.random() < 0.35 and not ctx.numba:
        return tokenizer_copies(ctx, rng)
    r, q, k, opt, build, what, key = retriever(ctx, rng)
    if rng.random() < 0.4:
        d = ctx.scratch()
        r.save(d)
        r = ctx.bm25s.BM25.load(d, mmap=rng.random() < 0.7, load_corpus=False)
        what += ", loaded"
    first = ops.results(r, q, k, **opt)
    how = rng.choice(["deepcopy", 2, 4, 5])
    c, data = copied(ctx, r, how)
    if c is None:
        return
    ctx.count("copies")
    got = ops.results(c, q, k, **opt)
    ctx.check(freeze(got) == freeze(first), lambda: f"{what}: a copy ({how}) answers {got!r:.300}, the original {first!r:.300}")
    ctx.count("compared")
    if data is not None and len(data) < 5e6 and not hasattr(q, "ids") and rng.random() < 0.5:
        x = rng.choice(peers(ctx))
        y = x.call("results_of", data, q, k, **opt)
        ctx.check(y[0] == "ok", lambda: f"{what}: a pickled copy in another process raised {y[1:]}")
        ctx.check(freeze(y[1]) == freeze(first), lambda: f"{what}: a pickled copy in another process answers {y[1]!r:.300}, the original {first!r:.300}")
        ctx.count("copies_sent")
        ctx.count("compared")
    # the copy is put to another use
    a, b = (c, r) if rng.random() < 0.5 else (r, c)
    if rng.random() < 0.5:
        a.index([["other", "words"], ["words"]] * rng.choice([1, 5]), show_progress=False)
    else:
        for v in a.scores.values():
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 0
        a.vocab_dict.clear()
    got = ops.results(b, q, k, **opt)
    ctx.check(freeze(got) == freeze(first), lambda: f"{what}: after its {'copy' if a is c else 'original'} ({how}) was used otherwise, the {'original' if a is c else 'copy'} answers {got!r:.300}, before {first!r:.300}")
    ctx.count("compared")
    note(ctx, first[1], ("copies", how) + key)


def tokenizer_copies(ctx, rng):
    T = ctx.bm25s.tokenization
    pieces = rng.choice([None, LANGUAGES])
    texts = [gen.text(rng, pieces=pieces) for _ in range(rng.randint(1, 8))]
    more = [gen.text(rng, pieces=pieces) for _ in range(4)] + texts[:2]
    kw = dict(lower=rng.random() < 0.7, stopwords=rng.choice([None, "en", ["a"]]), stemmer=rng.choice([None, textref.Lang(rng.choice(["english", "french"])), textref.prefix2, textref.upper]))
    how = rng.choice(["deepcopy", "deepcopy", 2, 4, 5])
    if how != "deepcopy" and isinstance(kw["stemmer"], textref.Lang):
        kw["stemmer"] = textref.prefix2

    def first():
        t = T.Tokenizer(**kw)
        t.tokenize(texts, show_progress=False)
        return t
    t = first()
    c, data = copied(ctx, t, how)
    if c is None:
        return
    ctx.count("copies")
    form, upd = rng.choice(["ids", "string", "tuple"]), rng.choice([True, False])
    show = lambda r: (r.ids, r.vocab) if hasattr(r, "ids") else r
    b1 = show(t.tokenize(texts, return_as=form, update_vocab=False, show_progress=False))
    a1 = show(c.tokenize(texts, return_as=form, update_vocab=False, show_progress=False))
    ctx.check(freeze(a1) == freeze(b1), lambda: f"a copy ({how}) of a tokenizer gives {a1!r:.300}, the original {b1!r:.300}")
    # one learns other words, which the other must not know
    a, b = (c, t) if rng.random() < 0.5 else (t, c)
    who = "copy" if b is t else "original"
    vocab = freeze(b.get_vocab_dict())
    a.tokenize(["entirely other words", "zzz yyy"] + more[::-1], update_vocab=True, show_progress=False)
    if rng.random() < 0.3:
        a.reset_vocab()
    ctx.check(freeze(b.get_vocab_dict()) == vocab, lambda: f"a tokenizer's vocabulary changed with that of its {who} ({how})")
    want = show(b.tokenize(more, return_as=form, update_vocab=upd, show_progress=False)), b.get_vocab_dict()
    twin = first()
    twin = show(twin.tokenize(more, return_as=form, update_vocab=upd, show_progress=False)), twin.get_vocab_dict()
    ctx.check(freeze(want) == freeze(twin), lambda: f"after its {who} ({how}) learned other words, a tokenizer ({kw['stemmer']!r:.40}) gives {want!r:.400}, one without copies {twin!r:.400}")
    ctx.count("twins")
    if data is not None:
        x = rng.choice(peers(ctx))
        y = x.call("retokenize", data, more, form, upd)
        ctx.check(y[0] == "ok", lambda: f"a pickled tokenizer in another process raised {y[1:]}")
        ctx.check(freeze(y[1]) == freeze(want), lambda: f"a pickled tokenizer in another process gives {y[1]!r:.400}, the original {want!r:.400}")
        ctx.count("copies_sent")
    ctx.count("compared", 3)
    ctx.nontrivial(("tokenizer", freeze(texts), freeze(more), how, form))


ALARM = 60


def child(fn):
    """fn() in a forked child; returns (pid, pipe)."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid:
        os.close(wr)
        return pid, rd
    try:
        signal.alarm(ALARM)
        os.close(rd)
        try:
            data = pickle.dumps(("ok", fn()))
        except BaseException as e:
            data = pickle.dumps(("raised", type(e).__name__, str(e)[:300]))
        data = struct.pack("<Q", len(data)) + data
        while data:
            data = data[os.write(wr, data):]
    finally:
        os._exit(0)


def answer_of(pid, rd):
    buf = b""
    while True:
        x = os.read(rd, 1 << 20)
        if not x:
            break
        buf += x
    os.close(rd)
    _, st, ru = os.wait4(pid, 0)
    if len(buf) < 8 or len(buf) != 8 + struct.unpack("<Q", buf[:8])[0]:
        return ("died", st, ru.ru_utime + ru.ru_stime)
    return pickle.loads(buf[8:])


def case_forks(ctx, rng):
    r, q, k, opt, build, what, key = retriever(ctx, rng)
    opt = dict(opt, n_threads=rng.choice([0, 2, 3]) if getattr(r, "backend", "") == "numpy" else 0, sel="numpy")
    mapped = rng.random() < 0.7
    if mapped:
        d = ctx.scratch()
        n = r.scores["num_docs"]
        # records long enough for reads of different children to overlap
        recs = [{"id": i, "text": f"document {i} " + "x" * rng.randint(0, 3000)} for i in range(n)]
        r.save(d, corpus=recs)
        r = ctx.bm25s.BM25.load(d, mmap=rng.random() < 0.8, load_corpus=True)
        what += ", loaded with corpus"
    first = ops.results(r, q, k, **opt)
    tok = ctx.bm25s.tokenization.Tokenizer()
    tok.tokenize(["the cats and dogs", "some words"], show_progress=False)
    texts = [gen.text(rng) for _ in range(5)]
    reps = 15

    def work():
        return [ops.results(r, q, k, **opt) for _ in range(reps)], tok.tokenize(texts, update_vocab=True, show_progress=False), tok.get_vocab_dict()
    m = rng.randint(2, 4)
    kids = [child(work) for _ in range(m)]
    t0 = time.monotonic()
    mine = [ops.results(r, q, k, **opt) for _ in range(reps)]
    took = time.monotonic() - t0
    rs = [answer_of(*x) for x in kids]
    mine_t = tok.tokenize(texts, update_vocab=True, show_progress=False), tok.get_vocab_dict()
    for x in rs:
        if x[0] == "died":
            if os.WIFSIGNALED(x[1]) and os.WTERMSIG(x[1]) in (signal.SIGALRM, signal.SIGKILL):
                if os.WTERMSIG(x[1]) == signal.SIGALRM and x[2] < 3 and took < 10:
                    ctx.fail(f"{what}: a forked child waited {ALARM} s without answering (the parent took {took:.1f} s; n_threads={opt['n_threads']})")
                raise Inconclusive("a forked child did not finish")
            ctx.fail(f"{what}: a forked child died with status {x[1]}")
        ctx.check(x[0] == "ok", lambda: f"{what}: a forked child raised {x[1:]}")
    for who, got in [("a forked child", x[1][0]) for x in rs] + [("the parent", mine)]:
        for i, a in enumerate(got):
            ctx.check(freeze(a) == freeze(first), lambda: f"{what}: {who}, with {m} children at work, answers {a!r:.300} (repetition {i + 1}), before the fork {first!r:.300}")
            ctx.count("compared")
    for x in rs:
        ctx.check(freeze(x[1][1:]) == freeze(mine_t), lambda: f"a tokenizer in a forked child gives {x[1][1:]!r:.300}, in the parent {mine_t!r:.300}")
    ctx.check(freeze(ops.results(r, q, k, **opt)) == freeze(first), lambda: f"{what}: the parent answers otherwise after its children have ended")
    ctx.count("children", m)
    ctx.count("mapped_children", m * mapped)
    note(ctx, first[1], ("forks",) + key)
