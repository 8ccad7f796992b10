"""C20 tokenizer files: a tokenizer with a random history is saved and loaded into a new one (or over one with another history); both then go through the same further random calls and every id, string and vocabulary is compared exactly.

The same runs in processes without orjson and with a POSIX locale.
"""
import json
import os
import re
from pathlib import Path

from .. import gen, textref
from ..util import *

LEVEL = "exploration"
RULE = ("histories on one tokenizer (all splitters, stemmers, stopword forms, languages, any Unicode), saved to default or custom names, alone or next to a saved index, over older files, loaded up to 3 generations deep; "
        "then 5-20 identical calls in all update modes, forms and streams on original and copy. Non-trivial: a compared call with at least one token; distinct by (texts, mode, configuration).")
POSIX = {"LC_ALL": "POSIX", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
LANGUAGES = ["english", "en", "english_plus", "german", "dutch", "french", "spanish", "portuguese", "italian", "russian", "swedish", "norwegian", "chinese", "zh", "ru"]


def plan(tier):
    f = 1 if tier == "quick" else 80
    s = 60 if tier == "quick" else 2400
    c = [("copy", 700 * f)]
    return [dict(cases=c + [("damaged", 150 * f)], workers=4, soft=s), dict(cases=c, workers=1, env={"MON_BLOCK": "orjson"}, soft=s), dict(cases=[("copy", 400 * f)], workers=1, env=POSIX, soft=s)]


def MIN(tier):
    return {"distinct": 3000, "calls_compared": 8000, "loads": 1500, "vocabularies_compared": 8000, "loaded_over_another": 300, "next_to_index": 200, "saved_again": 500, "cut_files": 250, "failures_survived": 600, "failed_saves": 150}


class Word(str):
    """A word of a type of the splitter's."""


def typed_words(pat):
    return lambda text: [Word(w) for w in re.compile(pat).findall(text)]


def plain(x):
    """Words are compared as text, whatever subclass of str the splitter makes."""
    if isinstance(x, Word):
        return str(x)
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(plain(v) for v in x) if type(x) in (list, tuple) else x
    return x


def stops(t):
    s = t.stopwords
    return sorted(s) if isinstance(s, (set, frozenset)) else list(s)


def same_stops(a, b):
    """The order of a set is no one's."""
    if isinstance(a.stopwords, (set, frozenset)) or isinstance(b.stopwords, (set, frozenset)):
        return sorted(a.stopwords) == sorted(b.stopwords)
    return list(a.stopwords) == list(b.stopwords)


def config(rng, pool):
    stem, _, cls = textref.stemmer(rng)
    pat = rng.choice(textref.PATTERNS)
    k = rng.random()
    if k < 0.35:
        stop = rng.choice(LANGUAGES)
    elif k < 0.45:
        stop = rng.choice([None, False, True])
    else:
        stop = [gen.unicode_string(rng, 5) for _ in range(rng.randint(0, 4))] + [w.lower() for w in rng.sample(pool, min(2, len(pool)))]
        stop = rng.choice([list, tuple, list, tuple, set, frozenset])(stop)
    return dict(lower=rng.random() < 0.7, splitter=pat if rng.random() < 0.7 else re.compile(pat).findall if rng.random() < 0.7 else typed_words(pat), stemmer=cls), stop


def texts(rng, pool):
    return [rng.choice([" ", " ", ", "]).join(rng.choice(pool) for _ in range(rng.choice([0, 1, 3, 8]))) for _ in range(rng.choice([1, 2, 5]))]


def step(t, call):
    tx, update, form, allow = call
    kw = dict(show_progress=False)
    if update is not None:
        kw["update_vocab"] = update
    if allow is not None:
        kw["allow_empty"] = allow
    out = t.tokenize(list(tx), return_as=form, **kw)
    return list(out) if form == "stream" else (freeze(out.ids), freeze(plain(dict(out.vocab)))) if form == "tuple" else plain(out)


def random_call(rng, pool):
    return texts(rng, pool), rng.choice([True, False, "if_empty", "never", None]), rng.choice(["ids", "string", "tuple", "stream"]), rng.choice([None, True, False])


def tnames(rng):
    if rng.random() < 0.5:
        return {}, {}
    base = rng.choice(["v", "my vocab", "a.b", "voc.json"])
    return dict(vocab_name=base + rng.choice(["", ".json", ".txt"])), dict(stopwords_name="stop-" + base)


def case_copy(ctx, rng):
    T = ctx.bm25s.tokenization.Tokenizer
    pool = rng.sample(gen.TEXT_PIECES + ["run", "runs", "running", "cats", "cat", "theme"], rng.choice([5, 20])) + [gen.unicode_string(rng, 5) for _ in range(rng.choice([0, 5]))]
    kw, stop = config(rng, pool)
    a = T(stopwords=stop, **kw)
    what = f"Tokenizer({str(kw)[:150]}, stopwords={str(stop)[:60]})"
    for _ in range(rng.choice([0, 1, 3, 8])):
        step(a, random_call(rng, pool))
    d = ctx.scratch()
    vn, sn = tnames(rng)
    if rng.random() < 0.3:
        # older files of another tokenizer, longer or shorter
        o = T(stopwords=rng.choice(LANGUAGES))
        o.tokenize([" ".join(gen.words(rng, rng.choice([1, 60])))], show_progress=False)
        o.save_vocab(d, **vn)
        o.save_stopwords(d, **sn)
    index = None
    if rng.random() < 0.25:
        docs = gen.corpus(rng, n_docs=4)
        index = ctx.bm25s.BM25()
        index.index(docs, show_progress=False)
        ctx.count("next_to_index")
        if rng.random() < 0.5:
            index.save(d, corpus=["x"] * len(docs))
            index = (index, docs, None)
        else:
            index = (index, docs, "later")
    live = [a]
    for g in range(rng.choice([1, 1, 2, 3])):
        src = rng.choice(live)
        path = rng.choice([str, Path])(d)
        state = (freeze(dict(src.get_vocab_dict())), freeze(stops(src)))
        if rng.random() < 0.5:
            src.save_vocab(path, **vn)
            src.save_stopwords(path, **sn)
        else:
            src.save_stopwords(path, **sn)
            src.save_vocab(path, **vn)
        ctx.check(state == (freeze(dict(src.get_vocab_dict())), freeze(stops(src))), f"{what}: saving changed the tokenizer")
        if index and index[2] == "later":
            index[0].save(d)
        b = T(stopwords=rng.choice([stop, None, "german", ["zzz"]]), **kw)
        if rng.random() < 0.4:
            # loading over another vocabulary
            for _ in range(2):
                step(b, random_call(rng, pool + gen.words(rng, 5)))
            ctx.count("loaded_over_another")
        b.load_vocab(path, **vn)
        b.load_stopwords(path, **sn)
        ctx.count("loads")
        live.append(b)
        if rng.random() < 0.5:
            # saved again at once: the same files
            d2 = ctx.scratch()
            b.save_vocab(d2)
            b.save_stopwords(d2)
            for x, y in ((vn.get("vocab_name", "vocab.tokenizer.json"), "vocab.tokenizer.json"), (sn.get("stopwords_name", "stopwords.tokenizer.json"), "stopwords.tokenizer.json")):
                u, w = [json.loads((Path(z)).read_text(encoding="utf-8")) for z in (os.path.join(d, x), os.path.join(d2, y))]
                ctx.check(u == w, lambda: f"{what}, generation {g}: saved again, {y} holds {w!r:.300} instead of {u!r:.300}")
            ctx.count("saved_again")
        ctx.check(same_stops(b, src), lambda: f"{what}: stopwords loaded as {b.stopwords!r:.300} instead of {src.stopwords!r:.300}")
        for c in range(rng.choice([1, 5, 12])):
            call = random_call(rng, pool + ([gen.words(rng, 1)[0]] if rng.random() < 0.3 else []))
            outs = [step(t, call) for t in live]
            for o in outs[1:]:
                ctx.check(freeze(o) == freeze(outs[0]), lambda: f"{what}, generation {g}, names {vn}, call {call!r:.300}: the loaded tokenizer gives {o!r:.300} instead of {outs[0]!r:.300}")
                ctx.count("calls_compared")
            vs = [freeze(plain(dict(t.get_vocab_dict()))) for t in live]
            ctx.check(all(sorted(v[1]) == sorted(vs[0][1]) for v in vs), lambda: f"{what}, generation {g}: after {call!r:.300} the vocabularies differ: {[t.get_vocab_dict() for t in live]!r:.400}")
            ctx.count("vocabularies_compared")
            if any(o for o in outs[0]):
                ctx.nontrivial((freeze(call[0]), call[1], call[2], what))
    if index:
        # the index next to it still loads and answers
        r = ctx.bm25s.BM25.load(d)
        for t in {t for x in index[1] for t in x}:
            ctx.check(freeze(r.get_scores([t])) == freeze(index[0].get_scores([t])), f"{what}: an index saved next to the tokenizer loads differently")
    ctx.sample(dict(config=what, vocabulary=list(a.get_vocab_dict())[:10]))


def case_damaged(ctx, rng):
    """A file cut short anywhere, of another kind or missing is no vocabulary and no list of stopwords: loading it raises and changes nothing; a save that fails changes nothing either."""
    T = ctx.bm25s.tokenization.Tokenizer
    pool = rng.sample(gen.TEXT_PIECES + ["run", "runs", "cats", "cat"], rng.choice([5, 20]))
    kw, stop = config(rng, pool)
    a, b, twin = T(stopwords=stop, **kw), T(stopwords=stop, **kw), T(stopwords=stop, **kw)
    for _ in range(rng.choice([1, 3])):
        step(a, random_call(rng, pool + gen.words(rng, 20)))
    for _ in range(rng.choice([0, 1, 3])):
        call = random_call(rng, pool)
        step(b, call)
        step(twin, call)
    d = ctx.scratch()
    a.save_vocab(d)
    a.save_stopwords(d)
    for _ in range(6):
        which = rng.choice(["vocab", "stopwords"])
        p = Path(d) / f"{which}.tokenizer.json"
        data = p.read_bytes()
        how = rng.choice(["cut", "cut", "cut", "missing", "unwritable", "other"])
        other = None
        if how == "cut":
            n = rng.choice([0, 1, len(data) - 1, len(data) - 2, rng.randrange(len(data)), rng.randrange(len(data))])
            p.write_bytes(data[:n])
            e = raises(getattr(b, "load_" + which), d)
            ctx.count("cut_files")
        elif how == "missing":
            p.unlink()
            e = raises(getattr(b, "load_" + which), d)
        elif how == "other":
            # the vocabulary of an index is no vocabulary of a tokenizer
            which = "vocab"
            other = Path(d) / "vocab.index.json"
            other.write_text('{"a": 0, "b": 1, "": 2}')
            e = raises(b.load_vocab, d, vocab_name="vocab.index.json")
        else:
            p.unlink()
            p.mkdir()
            e = raises(getattr(b, "save_" + which), d)
            p.rmdir()
        what = f"Tokenizer({str(kw)[:150]}): {which} file {how}"
        ctx.check(e is not None, lambda: f"{what} ({len(data)} bytes): accepted, now {b.get_vocab_dict()!r:.200}, {b.stopwords!r:.200}")
        (other or p).write_bytes(data)
        ctx.check(same_stops(b, twin) and freeze(dict(b.get_vocab_dict())) == freeze(dict(twin.get_vocab_dict())), lambda: f"{what}: the call that raised {e!r:.100} changed the tokenizer")
        call = random_call(rng, pool)
        x, y = step(b, call), step(twin, call)
        ctx.check(freeze(x) == freeze(y), lambda: f"{what}: after the call that raised {e!r:.100}, {call!r:.200} gives {x!r:.200} instead of {y!r:.200}")
        ctx.count("failures_survived")
    # words and stopwords no file can hold: the files saved before stay as they are
    bad = T(stopwords=["ok", rng.choice(["\ud83d", object()])], splitter=str.split)
    bad.tokenize(["fine x\ud83d y"], update_vocab=True, show_progress=False)
    for which in ("vocab", "stopwords"):
        f = Path(d) / f"{which}.tokenizer.json"
        data = f.read_bytes()
        e = raises(getattr(bad, "save_" + which), d)
        ctx.check(e is not None or which == "stopwords", "a word with a lone surrogate was saved")
        if e is None:
            f.write_bytes(data)
        else:
            ctx.check(f.read_bytes() == data, lambda: f"saving {which} failed with {e!r:.100} and left {f.read_bytes()[:100]!r} of {data[:100]!r}")
            ctx.count("failed_saves")
    c = T(stopwords=stop, **kw)
    c.load_vocab(d)
    c.load_stopwords(d)
    ctx.check(freeze(plain(dict(c.get_vocab_dict()))) == freeze(plain(dict(a.get_vocab_dict()))) and same_stops(c, a), "restored files load differently")
    ctx.nontrivial(("damaged", str(kw), len(data)))
