"""C29 optional packages: processes in which every subset of {orjson, numba, jax, tqdm} cannot be imported perform the same operations on the same inputs, and their results are compared with those of a process that has all four.

Files written by each process are read by the others. Explicit requests for an absent backend must fail and name it; automatic choices must not."""
import itertools
import os

import numpy as np

from .. import gen
from ..core import Inconclusive
from ..peer import Peer
from ..store import corpus_for
from ..util import *

LEVEL = "exploration"
PACKAGES = ("orjson", "numba", "jax", "tqdm")
SUBSETS = [",".join(c) for n in range(5) for c in itertools.combinations(PACKAGES, n)]
RULE = ("all 16 subsets of absent packages x tokenization (function and class, all output forms), indexing (5 methods, numpy and automatic backend), retrieval (automatic, numpy selection, 0-3 threads and as many as there are processors, masks, corpora, progress bars on and off), "
        "saving in one subset and loading in another (indexes, corpora, line indexes, tokenizers, stopwords), importing every module, and explicit requests. Non-trivial: a result of a subset compared with that of the full set; distinct by operation, input and subset.")
ASSUMPTIONS = ["equal scores may be returned in any order", "documents are JSON values both JSON libraries accept", "the absent package raises ModuleNotFoundError on import"]


def plan(tier):
    f = 1 if tier == "quick" else 40
    s = 100 if tier == "quick" else 2400
    c = [("modules", 1), ("tokenize", 20 * f), ("build", 30 * f), ("files", 30 * f), ("vocab", 20 * f), ("explicit", 1 * f)]
    # each group of workers looks at four subsets, the full set being the reference in all of them
    return [dict(cases=c, workers=1, env={"MON_GROUP": str(g), "MON_SIG": "float32,int32,0,none"}, soft=s) for g in range(4)]


def MIN(tier):
    return {"distinct": 800, "subsets_seen": 16, "tokenizations_compared": 200, "indexes_compared": 500, "answers_compared": 1000, "masked_answers": 10, "loaded_elsewhere": 200, "vocabularies_compared": 150, "explicit_failures": 20, "automatic_choices": 100, "modules_imported": 100}


def setup(ctx):
    g = int(os.environ["MON_GROUP"])
    # every group has processes with and without numba (the expensive one), and with it absent alone or together with others
    ctx.peers = [Peer(ctx, s) for i, s in enumerate(SUBSETS) if s and i % 4 == g]
    ctx.full = Peer(ctx, "")
    ctx.all = [ctx.full] + ctx.peers
    for p in ctx.all:
        p.absent = p.name.replace("without ", "").split(",") if p is not ctx.full else []
    # compile the numba kernels of all processes at the same time
    docs = [["a", "b"], ["b", "c"], ["c"]]
    for mask in (None, np.ones(3, dtype="float32")):
        everywhere(ctx, "build", docs, dict(method="lucene"), "auto", [["a"], ["b"]], 2, False, mask=mask)


def everywhere(ctx, op, *args, **kw):
    for p in ctx.all:
        p.send(op, *args, **kw)
    return [(p, p.receive()) for p in ctx.all]


def reference(ctx, rs, what):
    p, r = rs[0]
    ctx.check(r[0] == "ok", lambda: f"{what}: with all packages raised {r[1:]}")
    for p, x in rs[1:]:
        ctx.check(x[0] == "ok", lambda: f"{what}: {p.name} raised {x[1:]}, with all packages it succeeds")
    return r[1], [(p, x[1]) for p, x in rs[1:]]


def case_modules(ctx, rng):
    for p, r in everywhere(ctx, "modules"):
        ctx.check(r[0] == "ok", lambda: f"{p.name}: importing the modules of bm25s raised {r[1:]}")
        if r[1] != {x: x not in p.absent for x in PACKAGES}:
            raise Inconclusive(f"{p.name}: packages present are {r[1]}")
        ctx.count("modules_imported", 10)
        ctx.count("subsets_seen", p is not ctx.full or os.environ["MON_GROUP"] == "0")
        ctx.nontrivial(("modules", p.name))


def case_tokenize(ctx, rng):
    texts = [gen.text(rng) for _ in range(rng.randint(0, 8))]
    kw = dict(lower=rng.random() < 0.5, stopwords=rng.choice([None, "en", ["a", "the"]]), allow_empty=rng.random() < 0.5)
    if rng.random() < 0.3:
        kw["token_pattern"] = r"\S+"
    cls = dict(lower=rng.random() < 0.5, stopwords=rng.choice([None, "english", ["the"]]))
    progress = rng.random() < 0.5
    want, rest = reference(ctx, everywhere(ctx, "tokenizations", texts, kw, cls, progress), "tokenizing")
    for p, got in rest:
        for what, a, b in zip(("tokenize", "tokenize to strings", "Tokenizer", "its vocabulary", "its tables"), got, want):
            ctx.check(freeze(a) == freeze(b), lambda: f"{what} {p.name} gives {a!r:.400}, with all packages {b!r:.400}")
        ctx.count("tokenizations_compared")
        ctx.nontrivial(("tokenize", p.name, freeze(texts), freeze(kw)))


def compare(ctx, p, got, want, params, what, selection):
    ctx.check(freeze(got[0]) == freeze(want[0]), lambda: f"{what}: {p.name} has the vocabulary {got[0]!r:.300}, with all packages {want[0]!r:.300}")
    ctx.check(sorted(got[1]) == sorted(want[1]), lambda: f"{what}: {p.name} has {sorted(got[1])}")
    for a in want[1]:
        x, y = np.asarray(got[1][a]), np.asarray(want[1][a])
        ctx.check(x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes(), lambda: f"{what}: {p.name}, the {a} array is {x!r:.300}, with all packages {y!r:.300}")
    ctx.count("indexes_compared")
    answers(ctx, p, got[2], want[2], params, what)


def answers(ctx, p, got, want, params, what):
    gb, gfull, gdocs, gsc = got
    wb, wfull, wdocs, wsc = want
    if gb == "numba":
        ctx.check("numba" not in p.absent, lambda: f"{what}: {p.name} uses the numba backend")
    ctx.check(gsc.shape == wsc.shape and gsc.dtype == wsc.dtype, lambda: f"{what}: {p.name} returns scores of shape {gsc.shape} and type {gsc.dtype}, with all packages {wsc.shape}, {wsc.dtype}")
    for i, (a, b) in enumerate(zip(gfull, wfull)):
        tol = 1e-5 * max(1.0, float(np.abs(b).max()) if b.size else 1.0)
        ctx.check(a.dtype == b.dtype and a.shape == b.shape and bool((np.abs(a - b) <= tol).all()), lambda: f"{what}: get_scores {p.name} is {a!r:.300}, with all packages {b!r:.300}")
        ctx.check(bool((np.abs(np.sort(gsc[i])[::-1] - np.sort(wsc[i])[::-1]) <= tol).all()), lambda: f"{what}: {p.name} retrieves scores {gsc[i]!r:.300}, with all packages {wsc[i]!r:.300}")
        # a document with a score that is not tied is in both answers, in the same place
        for j in range(len(wdocs[i])):
            alone = (np.abs(b - wsc[i][j]) <= 3 * tol).sum() == 1
            if alone:
                ctx.check(freeze(norm(gdocs[i][j])) == freeze(norm(wdocs[i][j])), lambda: f"{what}: {p.name} has {gdocs[i]!r:.300} at rank {j}, with all packages {wdocs[i]!r:.300}")
                ctx.count("documents_compared")
        ctx.count("answers_compared")


def inputs(ctx, rng):
    docs = gen.corpus(rng, n_docs=rng.randint(1, 25))
    p = sig_params(rng)
    voc = gen.vocab_of(docs)
    qs = [gen.query(rng, voc, unknown=0.2) for _ in range(rng.randint(1, 4))]
    qs = [q for q in qs if q] or [voc[:1] or ["zzz"]]
    return docs, p, qs, rng.randint(1, len(docs))


def case_build(ctx, rng):
    docs, params, qs, k = inputs(ctx, rng)
    backend = rng.choice(["numpy", "auto", "auto"])
    opts = dict(n_threads=rng.choice([0, 0, 1, 2, 3, -1]), sel=rng.choice(["auto", "auto", "numpy"]))
    if rng.random() < 0.3:
        opts["mask"] = gen.mask(rng, len(docs), rng.choice(["float32", "float64", "bool", "int64"]))
        ctx.count("masked_answers")
    if backend == "auto":
        opts["sel"] = "auto"
    if rng.random() < 0.4:
        opts["corpus"] = rng.choice([[f"document {i}" for i in range(len(docs))], [{"id": i, "text": " ".join(d)} for i, d in enumerate(docs)]])
    what = f"{params['method']} backend={backend} {opts!r:.80}"
    want, rest = reference(ctx, everywhere(ctx, "build", docs, params, backend, qs, k, rng.random() < 0.4, **opts), what)
    for p, got in rest:
        compare(ctx, p, got, want, params, what, opts["sel"])
        if backend == "auto":
            ctx.check(got[2][0] == ("numpy" if "numba" in p.absent else want[2][0]), lambda: f"{p.name}: the automatic backend is {got[2][0]}")
            ctx.count("automatic_choices")
        ctx.nontrivial(("build", p.name, freeze(docs), freeze(qs), freeze(params), backend))


def case_files(ctx, rng):
    """One process writes, all read."""
    docs, params, qs, k = inputs(ctx, rng)
    backend = rng.choice(["numpy", "auto"])
    w = rng.choice(ctx.all)
    d = ctx.scratch()
    corpus, exp = corpus_for(rng, len(docs))
    r = w.call("build", docs, params, backend, qs, k, False, save=d, save_corpus=corpus)
    ctx.check(r[0] == "ok", lambda: f"{w.name}: building and saving with backend={backend} raised {r[1:]}")
    mmap = rng.random() < 0.4
    load_corpus = exp is not None and rng.random() < 0.7
    what = f"saved by a process {w.name} with backend={backend}, loaded with mmap={mmap}, load_corpus={load_corpus}"
    opts = dict(n_threads=rng.choice([0, 0, 2, -1]), sel=rng.choice(["auto", "numpy"] if backend == "numpy" else ["auto"]))
    if rng.random() < 0.2:
        opts["mask"] = gen.mask(rng, len(docs), "float32")
    what += f", {opts!r:.100}"
    want, rest = reference(ctx, everywhere(ctx, "search", d, mmap, load_corpus, qs, k, rng.random() < 0.3, **opts), what)
    # with all packages the loaded index answers like the one that was saved
    ctx.check(freeze(want[0]) == freeze(r[1][0]) and all(np.array_equal(want[1][a], r[1][1][a]) for a in want[1]), lambda: f"{what}: with all packages the loaded index differs from the saved one")
    for p, got in rest:
        compare(ctx, p, got, want, params, what, "auto")
        if load_corpus:
            known = {repr(freeze(norm(x))) for x in exp}
            for row in got[2][2]:
                for x in row:
                    ctx.check(repr(freeze(norm(x))) in known, lambda: f"{what}: {p.name} returned {x!r:.300}, which was not saved")
        ctx.count("loaded_elsewhere", p is not w)
        ctx.nontrivial(("files", w.name, p.name, freeze(docs), freeze(qs)))
    if exp is not None:
        path = os.path.join(d, "corpus.jsonl")
        for reader in ctx.all:
            got = reader.call("read_jsonl", path)
            ctx.check(got[0] == "ok", lambda: f"{what}: reading the corpus {reader.name} raised {got[1:]}")
            ctx.check(freeze(norm(got[1])) == freeze(norm(exp)), lambda: f"{what}: {reader.name} reads the records {got[1]!r:.400} instead of {exp!r:.400}")
            ctx.count("corpora_read")
        x = rng.choice(ctx.all).call("write_mmindex", path)
        for reader in ctx.all:
            y = reader.call("read_mmindex", path)
            ctx.check(x[0] == "ok" and y[0] == "ok" and list(map(int, x[1])) == list(map(int, y[1])), lambda: f"{what}: {reader.name} reads the line index {y!r:.300} instead of {x!r:.300}")


def case_vocab(ctx, rng):
    texts = [gen.text(rng) for _ in range(rng.randint(1, 6))]
    stop = rng.choice([[], ["the", "a"], ["\u00fcber"], "en"])
    w = rng.choice(ctx.all)
    d = ctx.scratch()
    kw = dict(lower=rng.random() < 0.5)
    r = w.call("save_tokenizer", d, texts, stop, kw)
    ctx.check(r[0] == "ok", lambda: f"{w.name}: saving a tokenizer raised {r[1:]}")
    for p in ctx.all:
        got = p.call("load_tokenizer", d, kw)
        ctx.check(got[0] == "ok", lambda: f"{p.name}: loading the tokenizer saved by a process {w.name} raised {got[1:]}")
        ctx.check(freeze(norm(got[1])) == freeze(norm(r[1])), lambda: f"{p.name} loads {got[1]!r:.400}, saved by a process {w.name} was {r[1]!r:.400}")
        ctx.count("vocabularies_compared")
        ctx.nontrivial(("vocab", w.name, p.name, freeze(texts)))


def case_explicit(ctx, rng):
    for p, r in everywhere(ctx, "explicit", [["a", "b"], ["b", "c"], ["a"]], ["a"]):
        ctx.check(r[0] == "ok", lambda: f"{p.name}: {r[1:]}")
        for name, err in r[1].items():
            want = name.split()[0]
            if want in p.absent:
                ctx.check(err is not None, lambda: f"{p.name}: the request for the {name} succeeded")
                ctx.check(want in err[1].lower(), lambda: f"{p.name}: the error of the request for the {name} does not name {want}: {err}")
                ctx.count("explicit_failures")
            else:
                ctx.check(err is None, lambda: f"{p.name}: the request for the {name} raised {err}")
                ctx.count("automatic_choices", name.startswith("auto"))
        ctx.nontrivial(("explicit", p.name))
