import contextlib
import copy
import io
import os

import numpy as np

from . import gen
from .oracle import METHODS, Ref

Q = dict(show_progress=False)


def make(ctx, docs, p, backend="numpy", corpus=None, **kw):
    r = ctx.bm25s.BM25(backend=backend, corpus=corpus, **p)
    r.index(docs, show_progress=False, **kw)
    return r


def sig():
    """Configuration a numba worker is restricted to (each type signature costs a compilation)."""
    s = os.environ.get("MON_SIG", "float32,int32,0,none").split(",")
    return dict(dtype=s[0], int_dtype=s[1], nonocc=s[2] == "1", mask=None if s[3] == "none" else s[3])


def sig_params(rng, s=None):
    s = s or sig()
    method = rng.choice(["bm25l", "bm25+"] if s["nonocc"] else ["robertson", "lucene", "atire"])
    return gen.params(rng, method=method, dtype=s["dtype"], int_dtype=s["int_dtype"])


def variant(rng, i):
    """Parameters whose (method, idf_method) pair cycles through all 25 combinations."""
    return gen.params(rng, method=METHODS[i % 5], idf_method=METHODS[(i // 5) % 5])


def rows(res):
    return np.asarray(res.documents), np.asarray(res.scores)


def freeze(x):
    """A comparable deep snapshot of nested containers and arrays (order of dictionaries included)."""
    if isinstance(x, dict):
        return ("dict", tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tobytes() if x.dtype != object else tuple(freeze(v) for v in x.ravel().tolist()))
    return (type(x).__name__, x if not isinstance(x, float) or x == x else "nan")


def raises(fn, *a, **k):
    """The exception fn raises, or None."""
    try:
        fn(*a, **k)
    except Exception as e:
        return e
    return None


def tokenized(ctx, docs, rng, extra=0):
    """The same documents as ids with a vocabulary in random order, with unused tokens."""
    voc = gen.vocab_of(docs)
    voc += ["__extra%d__" % j for j in range(extra)]
    rng.shuffle(voc)
    d = {t: i for i, t in enumerate(voc)}
    return [[d[t] for t in doc] for doc in docs], d


def probe_corpus(ctx, rng, r):
    """Whether a probe has to name the documents: yes if the index has a corpus, at random otherwise."""
    return r.corpus is not None or rng.random() < 0.4


def probe(ctx, rng, r, ref, p, what, sel=("numpy",), n=2, vocab=None, scores=True, docs_expected=None):
    """Compare answers of the retriever on random queries with the reference."""
    from .oracle import check_topk, compare_scores
    voc = vocab if vocab is not None else sorted(ref.post)
    for _ in range(n):
        q = gen.query(rng, voc, unknown=0.3)
        full, m = ref.scores(q)
        tol = ref.tol(q, m, p["dtype"])
        if scores:
            compare_scores(ctx, r.get_scores(list(q)), full, tol, f"{what}: get_scores {q!r:.100}", params=p)
        k = rng.choice([ref.n, rng.randint(1, ref.n)])
        if docs_expected is None:
            d, s = r.retrieve([list(q)], k=k, show_progress=False, backend_selection=rng.choice(sel), **(dict(corpus=list(range(ref.n))) if probe_corpus(ctx, rng, r) else {}))
            ctx.check(np.issubdtype(d.dtype, np.integer), lambda: f"{what}: documents {d.tolist()!r:.200} returned by an index without corpus")
            idx = d[0]
        else:
            # documents are unique, so each tells the index it was returned for
            d, s = r.retrieve([list(q)], k=k, show_progress=False, backend_selection=rng.choice(sel))
            where = {repr(freeze(norm(x))): i for i, x in enumerate(docs_expected)}
            got = d[0].tolist()
            idx = np.array([where.get(repr(freeze(norm(x))), -1) for x in got])
            ctx.check(bool((idx >= 0).all()), lambda: f"{what}: returned {[x for x, i in zip(got, idx) if i < 0]!r:.300}, which is no document of the corpus ({docs_expected!r:.300})")
            ctx.count("documents_checked", len(got))
        check_topk(ctx, full, tol, idx, s[0], k, True, f"{what}: retrieve {q!r:.100}", params=p)
        ctx.count("probes")


def norm(x):
    """Tuples as lists (what JSON makes of them)."""
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, dict):
        return {k: norm(x[k]) for k in sorted(x)}
    return x


def same(a, b):
    """Equality that tells 1 from True and lists from tuples no more than JSON does."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def activate(ctx, r):
    """Activate the compiled scorer; the compiled function is shared between retrievers when it is a plain function of its arguments (each compilation costs seconds)."""
    name = "_compute_relevance_from_scores"
    if "scorer" in ctx.cache and hasattr(r, name):
        setattr(r, name, ctx.cache["scorer"])
        return
    r.activate_numba_scorer()
    f = r.__dict__.get(name)
    if f is not None and hasattr(f, "py_func") and f.py_func.__closure__ is None:
        ctx.cache["scorer"] = f
