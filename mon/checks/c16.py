"""C16 corpus alignment: every record of every loaded form of a saved corpus is compared with the document at its position, with documents that cannot be stored in between, and each document is found by a token of its own.

The oracle is the corpus given to save; the record of a document that cannot be stored is not judged, all others are."""
import collections
import datetime
import glob
import itertools
import json

import numpy as np

from .. import gen
from ..store import *
from ..util import *

LEVEL = "exploration"
RULE = ("corpora of strings, dictionaries, lists, tuples (and subclasses of them) and mixtures with all kinds of text, with numbers, None, bytes, sets, objects and containers of them in between, as list, tuple, iterator, array or on-disk corpus, given at construction, "
        "as attribute or to save, into new and used directories; read back in memory, memory-mapped, with the line index kept, deleted or recomputed, orjson present and absent. Non-trivial: a loaded corpus compared; distinct by corpus.")
ASSUMPTIONS = ["integers beyond 64 bits and nesting deeper than 200 cannot be stored by every JSON library and are not generated as storable"]


def plan(tier):
    f = 1 if tier == "quick" else 50
    c = [("mixed", 400 * f), ("resave", 80 * f), ("more", 60 * f), ("none", 50 * f), ("large", 4 * f)]
    s = 60 if tier == "quick" else 2400
    return [dict(cases=c, workers=4, soft=s), dict(cases=c, workers=3, env={"MON_BLOCK": "orjson"}, soft=s)]


def MIN(tier):
    return {"distinct": 600, "records_compared": 30000, "unstorable_documents": 1000, "mmap_corpora": 800, "more_entries_than_documents": 100, "no_corpus": 80, "string_arrays": 60, "found_by_own_token": 5000}


class Obj:
    pass


class Sub(str):
    pass


class SubList(list):
    pass


class SubDict(dict):
    pass


Pair = collections.namedtuple("Pair", "a b")


def plain(x):
    """What JSON makes of it."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, float):
        return float(x) if np.isfinite(x) else None
    return x


def unstorable(rng):
    return rng.choice([
        lambda: rng.randint(0, 9), lambda: None, lambda: 1.5, lambda: b"bytes", lambda: {1, 2}, lambda: Obj(), lambda: {"a": {1, 2}}, lambda: [Obj()], lambda: True,
        lambda: {"x": b"y"}, lambda: (Obj(), 1), lambda: {"n": {"m": [complex(1, 2)]}}, lambda: np.int64(3), lambda: (1 for _ in "ab"),
        lambda: "lone \ud83d surrogate", lambda: {"\udfff": 1}, lambda: ["x", {"y": "\ud800"}], lambda: {(1, 2): 3},
    ])()


def storable(rng, i):
    u = lambda m=20: gen.unicode_string(rng, m)
    k = rng.randrange(10)
    if k == 9 and rng.random() < 0.3:
        d = rng.choice([Pair(i, u()), {"p": Pair(u(), None), "f": np.float64(0.5 * i)}, [np.float64(i), np.float64("nan"), u()], {"missing": float("nan"), "x": [float("inf")]}])
        return d, plain(d)
    if k == 9:
        # the keys of a JSON object are strings
        d = {rng.choice([np.str_, Sub])(a): b for a, b in {"k" + u(4).rstrip("\0"): u(), "x": [1]}.items()} if rng.random() < 0.5 else {rng.randint(-9, 10 ** 12): u(), 2.5: {7: None}}
        return d, json.loads(json.dumps(d))
    if k <= 1:
        t = rng.choice([u(), u(), "", " ", "line\nbreak", "null", "{}", '{"a": 1}', u(300), "\u2028\u2029\x85\x0b\x0c\r", "x" * rng.choice([8191, 8192, 70000])])
        r = rng.random()
        if r < 0.2:
            t = (Sub if r < 0.1 else np.str_)(t)
        return t, {"id": i, "text": str(t)}
    if k == 2:
        d = {"id": rng.choice([i, i + 1, "x", None]), "text": u(), u(4): gen.json_value(rng, 2)}
        if rng.random() < 0.5:
            # the form that documents given as strings are stored in, with ids of the caller's
            d = {"id": rng.choice([i, i + 1, rng.randint(-5, 10 ** 9), "x", None]), "text": rng.choice([u(), u(), None, ["t"]])}
            d = d if rng.random() < 0.7 else {"text": d["text"], "id": d["id"]}
        return d, d
    if k == 3:
        d = rng.choice([{}, {"": ""}, {"text": "t"}, {"id": -1}])
        return d, d
    if k == 4:
        d = [gen.json_value(rng, 1) for _ in range(rng.randint(0, 4))]
        return (SubList(d) if rng.random() < 0.2 else d), d
    if k == 5:
        d = tuple(gen.json_value(rng, 1) for _ in range(rng.randint(0, 4)))
        return d, d
    if k == 6:
        d = rng.choice([collections.OrderedDict, SubDict, lambda x: collections.defaultdict(list, x)])([("z", u()), ("a", (1, [2, (3,)]))])
        return d, dict(d)
    if k == 7:
        d = {"nested": {"list": [u(), {"deep": [u(), None, True, 0.1]}]}, "tuple": (u(), 2)}
        return d, d
    d = [[i, u()], {"k": u()}]
    return d, d


ANY = object()


def corpus_mixed(rng, n, p_bad):
    out, exp = [], []
    for i in range(n):
        if rng.random() < p_bad:
            out.append(unstorable(rng))
            exp.append(ANY)
        else:
            a, b = storable(rng, i)
            out.append(a)
            exp.append(norm(b))
    return out, exp


def contain(ctx, rng, corpus):
    k = rng.randrange(6)
    if k == 0:
        return tuple(corpus), "tuple"
    if k == 1:
        return iter(list(corpus)), "iterator"
    if k == 2:
        a = np.empty(len(corpus), dtype=object)
        for i, x in enumerate(corpus):
            a[i] = x
        return a, "array"
    if k == 3:
        return collections.deque(corpus), "deque"
    return list(corpus), "list"


def compare(ctx, got, exp, what):
    ctx.check(len(got) == len(exp), lambda: f"{what}: {len(got)} records for {len(exp)} documents")
    for i, (a, b) in enumerate(zip(got, exp)):
        if b is ANY:
            ctx.count("unstorable_documents")
            continue
        ctx.check(same(norm(a), b), lambda: f"{what}: record {i} is {a!r:.200} instead of {b!r:.200}")
        ctx.count("records_compared")


def loaded(ctx, rng, d, nm, exp, what, n_find=6):
    out = {}
    cname = nm.get("corpus_name", "corpus.jsonl")
    for mm in (False, True):
        r = ctx.bm25s.BM25.load(d, mmap=mm, load_corpus=True, **nm)
        got = r.corpus[:] if mm and rng.random() < 0.5 else [r.corpus[i] for i in range(len(r.corpus))]
        compare(ctx, got, exp, f"{what}, loaded with mmap={mm}")
        out[mm] = norm(got)
        ctx.count("mmap_corpora", mm)
        # each document is found by a token only it has
        for i in rng.sample(range(len(exp)), min(len(exp), n_find)):
            res = r.retrieve([[f"own{i}"]], k=1, show_progress=False, backend_selection="numpy")
            if exp[i] is not ANY:
                ctx.check(same(norm(res.documents[0][0]), exp[i]), lambda: f"{what}, loaded with mmap={mm}: searching the own token of document {i} returns {res.documents[0][0]!r:.200} instead of {exp[i]!r:.200}")
                ctx.count("found_by_own_token")
        if mm:
            r.corpus.close()
    ctx.check(freeze(out[False]) == freeze(out[True]), lambda: f"{what}: the memory-mapped corpus differs from the one in memory")
    if rng.random() < 0.4:
        # without the stored line index
        for f in glob.glob(os.path.join(glob.escape(d), "*mmindex*")):
            os.unlink(f)
        c = ctx.bm25s.utils.corpus.JsonlCorpus(os.path.join(d, cname), show_progress=False, save_index=rng.random() < 0.5, verbosity=0)
        compare(ctx, [c[i] for i in range(len(c))], exp, f"{what}, line index recomputed")
        c.close()
    # by any JSON-lines reader
    with open(os.path.join(d, cname), "rb") as f:
        lines = f.read().split(b"\n")
    ctx.check(lines[-1] == b"" and len(lines) == len(exp) + 1, lambda: f"{what}: the file has {len(lines) - 1} lines for {len(exp)} documents")
    return out[False]


def index_of(ctx, n, rng, corpus=None):
    r = ctx.bm25s.BM25(corpus=corpus, method=rng.choice(["lucene", "bm25+"]))
    r.index([[f"own{i}"] + ["common"] * rng.randint(0, 3) for i in range(n)], show_progress=False)
    return r


def case_mixed(ctx, rng):
    n = rng.choice([1, 2, 3, 8, 20, 60])
    corpus, exp = corpus_mixed(rng, n, rng.choice([0, 0, 0.2, 0.6]))
    texts = rng.random() < 0.12
    if texts:  # an array of strings, a column of a table
        corpus = np.array([gen.unicode_string(rng, 30) + "." for _ in range(n)])
        exp = [norm({"id": i, "text": str(t)}) for i, t in enumerate(corpus)]
        ctx.count("string_arrays")
    d = ctx.scratch()
    nm = names(rng, rng.random() < 0.3)
    if rng.random() < 0.3:  # a used directory: a longer or shorter corpus before, same names
        m = rng.choice([1, 5, 40, 100])
        index_of(ctx, m, rng).save(d, corpus=corpus_mixed(rng, m, 0)[0], **nm)
    c, how = (corpus, "array of strings") if texts else contain(ctx, rng, corpus)
    where = rng.randrange(3)
    before = freeze([x for x in corpus if not isinstance(x, Obj)][:5]) if how != "iterator" else None
    if where == 0:
        index_of(ctx, n, rng).save(d, corpus=c, **nm)
    elif where == 1:
        r = index_of(ctx, n, rng)
        r.corpus = c
        r.save(d, **nm)
    else:
        r = index_of(ctx, n, rng, corpus=c if how != "iterator" else list(corpus))
        if r.corpus is None:  # only lists and tuples of documents are accepted at construction
            r.corpus = corpus
        r.save(d, **nm)
    if before is not None:
        ctx.check(freeze([x for x in corpus if not isinstance(x, Obj)][:5]) == before, "save changed the caller's documents")
    what = f"{how} of {n}, way {where}, names {nm}"
    loaded(ctx, rng, d, nm, exp, what)
    ctx.nontrivial((repr(corpus)[:3000], how, where))
    ctx.sample(dict(corpus=[repr(x)[:60] for x in corpus[:6]], container=how))


def case_resave(ctx, rng):
    """The loaded corpus (in memory or on disk) saved again elsewhere, several times."""
    n = rng.choice([2, 6, 30])
    corpus, exp = corpus_mixed(rng, n, 0.1)
    r = index_of(ctx, n, rng)
    d = ctx.scratch()
    r.save(d, corpus=corpus)
    for g in range(3):
        mm = rng.random() < 0.6
        r = ctx.bm25s.BM25.load(d, mmap=mm, load_corpus=True)
        exp = [ANY if e is ANY or r.corpus[i] is None else e for i, e in enumerate(exp)]
        d2 = ctx.scratch()
        if rng.random() < 0.5:
            r.save(d2)
        else:
            r2 = index_of(ctx, n, rng)
            r2.save(d2, corpus=r.corpus)
        loaded(ctx, rng, d2, {}, exp, f"generation {g} from mmap={mm}")
        d = d2
    ctx.nontrivial(("resave", repr(corpus)[:2000]))


def case_none(ctx, rng):
    """What cannot be iterated is no corpus: the index is saved without one, and a corpus saved before is still there."""
    n = rng.choice([1, 3, 10])
    d = ctx.scratch()
    nm = names(rng, rng.random() < 0.3)
    cname = nm.get("corpus_name", "corpus.jsonl")
    kept = rng.random() < 0.5
    corpus, exp = corpus_mixed(rng, n, 0.1)
    r = index_of(ctx, n, rng)
    if kept:
        index_of(ctx, n, rng).save(d, corpus=corpus, **nm)
    bad = rng.choice([5, 1.5, Obj(), np.array(3), len, object()])
    if rng.random() < 0.5:
        r.corpus = bad
        r.save(d, **nm)
    else:
        r.save(d, corpus=bad, **nm)
    what = f"saved with {bad!r:.60} as corpus"
    new = ctx.bm25s.BM25.load(d, mmap=rng.random() < 0.5, load_corpus=kept, **nm)
    for i in range(n):
        ctx.check(int(new.retrieve([[f"own{i}"]], corpus=list(range(n)), k=1, show_progress=False, backend_selection="numpy").documents[0][0]) == i, f"{what}: document {i} is not found by its own token")
    if kept:
        compare(ctx, [new.corpus[i] for i in range(len(new.corpus))], exp, what)
    else:
        ctx.check(not os.path.exists(os.path.join(d, cname)), f"{what}: a corpus file was written")
    ctx.count("no_corpus")
    ctx.nontrivial(("none", repr(bad)[:30], n, kept, repr(corpus)[:300]))


def case_more(ctx, rng):
    """A corpus with entries beyond the documents of the index, over another or in a new directory."""
    n = rng.choice([1, 3, 10])
    m = n + rng.choice([1, 2, 15])
    corpus, exp = corpus_mixed(rng, m, rng.choice([0, 0.2]))
    d = ctx.scratch()
    nm = names(rng, False)
    before = rng.choice([0, n, m, 40])
    if before:
        index_of(ctx, before, rng).save(d, corpus=corpus_mixed(rng, before, 0)[0], **nm)
    index_of(ctx, n, rng).save(d, corpus=corpus, **nm)
    cname = nm.get("corpus_name", "corpus.jsonl")
    what = f"{m} entries for {n} documents, over {before}, names {nm}"
    for mm in (True, False):
        r = ctx.bm25s.BM25.load(d, mmap=mm, load_corpus=True, **nm)
        compare(ctx, [r.corpus[i] for i in range(len(r.corpus))], exp, f"{what}, loaded with mmap={mm}")
        for i in range(n):
            res = r.retrieve([[f"own{i}"]], k=1, show_progress=False, backend_selection="numpy")
            if exp[i] is not ANY:
                ctx.check(same(norm(res.documents[0][0]), exp[i]), lambda: f"{what}, loaded with mmap={mm}: searching the own token of document {i} returns {res.documents[0][0]!r:.200} instead of {exp[i]!r:.200}")
        if mm:
            r.corpus.close()
    ctx.count("more_entries_than_documents")
    ctx.nontrivial(("more", repr(corpus)[:2000], n, before))


def case_large(ctx, rng):
    """Lines and files larger than every buffer; many lines."""
    n = rng.choice([3000, 6000])
    corpus, exp = [], []
    for i in range(n):
        if i % 997 == 5:
            t = (gen.unicode_string(rng, 50) or "x") * (rng.choice([200, 3000]) if i > 997 else 70000)
        elif i % 501 == 7:
            corpus.append({1, i})
            exp.append(ANY)
            continue
        else:
            t = gen.unicode_string(rng, 12)
        a = t if i % 2 else {"k": t, "i": i}
        corpus.append(a)
        exp.append({"id": i, "text": t} if i % 2 else a)
    d = ctx.scratch()
    index_of(ctx, n, rng).save(d, corpus=corpus)
    loaded(ctx, rng, d, {}, exp, f"large corpus of {n}", n_find=40)
    ctx.maximum("corpus_bytes", os.path.getsize(os.path.join(d, "corpus.jsonl")))
    ctx.nontrivial(("large", n, ctx.index))
