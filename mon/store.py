"""Shared pieces of the persistence checks."""
import json
import os

from . import gen
from .util import *

NAMES = ["data_name", "indices_name", "indptr_name", "vocab_name", "params_name", "nnoc_name", "corpus_name"]
ARRAY = {"data_name", "indices_name", "indptr_name", "nnoc_name"}


def names(rng, custom=None):
    """Random custom file names (a subset of the name arguments of save and load)."""
    if custom is None:
        custom = rng.random() < 0.5
    if not custom:
        return {}
    tag = rng.choice(["x", "my index", "\u00fcber", "a.b", "v1.2.3"])
    out = {"allow_pickle": True} if rng.random() < 0.2 else {}
    for n in NAMES:
        if rng.random() < 0.7:
            base = f"{tag}.{n[:-5]}" if rng.random() < 0.7 else f"{n[:-5]}-{tag}"
            out[n] = base + (".npy" if n in ARRAY else rng.choice(["", ".json", ".txt"]) if n != "corpus_name" else rng.choice(["", ".jsonl", ".json"]))
    return out


def scores_only(nm):
    return {k: v for k, v in nm.items() if k in ("data_name", "indices_name", "indptr_name")}


def corpus_for(rng, n, kind=None):
    """(corpus given to save, records expected from load), records distinct."""
    kind = kind or rng.choice(["none", "str", "dict", "list", "tuple", "mixed", "tuple of"])
    if kind == "none":
        return None, None
    out, exp = [], []
    for i in range(n):
        k = kind if kind not in ("mixed", "tuple of") else rng.choice(["str", "dict", "list", "tuple"])
        t = gen.unicode_string(rng, rng.choice([0, 5, 40])) + f"#{i}"
        if k == "str":
            out.append(t)
            exp.append({"id": i, "text": t})
        elif k == "dict":
            d = {"_id": i, t: gen.json_value(rng, 2), "text": t}
            out.append(d)
            exp.append(d)
        elif k == "list":
            d = [i, t, gen.json_value(rng, 1)]
            out.append(d)
            exp.append(d)
        else:
            out.append((i, t))
            exp.append([i, t])
    return (tuple(out) if kind == "tuple of" else out), exp


PARAMS = ["k1", "b", "delta", "method", "idf_method", "dtype", "int_dtype", "backend"]


def check_params(ctx, r, p, backend, what):
    want = dict(p, backend=backend)
    want["idf_method"] = p.get("idf_method") or p["method"]
    for k in PARAMS:
        if k in want:
            ctx.check(hasattr(r, k) and getattr(r, k) == want[k], lambda: f"{what}: parameter {k} is {getattr(r, k, None)!r} instead of {want[k]!r}")
    ctx.count("parameters_compared", len(want))


def same_answers(ctx, rng, a, b, voc, n, what, sel=("numpy",), int_map=None, scores=True):
    """Two retrievers with the same arrays answer bit for bit the same."""
    for _ in range(3):
        q = gen.query(rng, voc, unknown=0.3)
        k = rng.choice([n, rng.randint(1, n)])
        se = rng.choice(sel)
        if int_map is not None:
            q = [int_map.get(t, 10 ** 9 + 7) for t in q]
        elif scores:
            x, y = a.get_scores(list(q)), b.get_scores(list(q))
            ctx.check(freeze(x) == freeze(y), lambda: f"{what}: get_scores({q!r:.100}) is {y!r:.200} instead of {x!r:.200}")
        x = a.retrieve([list(q)], k=k, backend_selection=se, show_progress=False, corpus=list(range(n)))
        y = b.retrieve([list(q)], k=k, backend_selection=se, show_progress=False, corpus=list(range(n)))
        ctx.check(freeze(x.documents) == freeze(y.documents) and freeze(x.scores) == freeze(y.scores),
                  lambda: f"{what}: retrieve({q!r:.100}, k={k}) gives {y!r:.300} instead of {x!r:.300}")
        ctx.count("answers_compared")


def read_records(corpus):
    return [norm(corpus[i]) for i in range(len(corpus))]
