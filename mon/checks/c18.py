"""C18 tokenize(): every output form of every call is compared with an independent tokenizer and with the algebra of its vocabulary (one-to-one onto 0..V-1, exactly the occurring tokens).

Known finding allow-empty-inverted: with allow_empty=False the function yields the empty-string token for a text without any match; only this exact mechanism is set aside."""
from .. import gen, textref
from ..util import *

LEVEL = "exploration"
RULE = ("batches of 0-40 texts (any Unicode, every case mapping, no word at all) as list, tuple, iterator or one string, over 14 patterns, named and custom stopwords, PyStemmer, colliding and emptying stemmers, lower on and off, ids and strings. "
        "Non-trivial: a text with at least one token; distinct by (text, options).")


def plan(tier):
    f = 1 if tier == "quick" else 80
    s = 60 if tier == "quick" else 2400
    return [dict(cases=[("random", 9000 * f), ("duplicates", 900 * f), ("big", 18 if f == 1 else 300)], workers=6, soft=s)]


def MIN(tier):
    return {"distinct": 8000, "tokens_compared": 100000, "texts_without_match": 800, "stopwords_removed": 5000, "stemmed_calls": 500, "string_calls": 500}


def judge(ctx, given, texts, p, what):
    T = ctx.bm25s.tokenization
    kw = dict(lower=p["lower"], token_pattern=p["pattern"], stopwords=p["stop_arg"], stemmer=p["stem_arg"], show_progress=p["progress"], leave=p["progress"] and len(texts) % 3 == 0, allow_empty=p["allow_empty"])
    for d in ("lower", "token_pattern", "stopwords"):
        if p["defaults"] and kw[d] == {"lower": True, "token_pattern": gen.DEFAULT_PATTERN, "stopwords": "english"}[d]:
            del kw[d]
    outs = {}
    for form in p["forms"]:
        g = given()
        if form == "ids":
            r = T.tokenize(g, return_ids=True, **kw)
            ids, vocab = r.ids, r.vocab
            ctx.check(sorted(vocab.values()) == list(range(len(vocab))), lambda: f"{what}: vocabulary values are not 0..V-1: {vocab!r:.300}")
            rev = {i: t for t, i in vocab.items()}
            ctx.check(all(type(i) is int and i in rev for d in ids for i in d), lambda: f"{what}: ids outside the vocabulary")
            occ = {i for d in ids for i in d}
            ctx.check(occ == set(rev), lambda: f"{what}: vocabulary entries that do not occur: {[rev[i] for i in set(rev) - occ][:5]!r}")
            outs[form] = [[rev[i] for i in d] for d in ids]
        else:
            outs[form] = T.tokenize(g, return_ids=False, **kw)
            ctx.count("string_calls")
        got = outs[form]
        ctx.check(len(got) == len(texts), lambda: f"{what}: {len(got)} outputs for {len(texts)} texts")
        for t, toks in zip(texts, got):
            want, matched = textref.tokens(t, p["lower"], p["pattern"], p["stop"], p["stem"])
            if not matched:
                ctx.count("texts_without_match")
                empty = p["stem"]("") if p["stem"] else ""
                if toks == [empty] and "" not in p["stop"]:
                    if not p["allow_empty"]:
                        ctx.record_known("allow-empty-inverted", f"{what}: text {t!r:.60} without any match yields {toks!r} although allow_empty is False")
                    continue
                ctx.check(toks == [], lambda: f"{what}: text {t!r:.100} without any match gives {toks!r:.200}")
                continue
            ctx.check(list(toks) == want, lambda: f"{what} ({form}): text {t!r:.150} gives {toks!r:.250} instead of {want!r:.250}")
            ctx.count("tokens_compared", len(want))
            if want:
                ctx.nontrivial((t, p["pattern"], p["lower"], str(p["stop_arg"]), str(p["stem"])))
    ctx.count("stemmed_calls", p["stem"] is not None)
    return outs


def options(rng, pieces=None):
    stop_arg, stop = textref.stopwords(rng, pieces)
    stem, sfun, _ = textref.stemmer(rng)
    return dict(lower=rng.random() < 0.7, pattern=rng.choice(textref.PATTERNS), stop_arg=stop_arg, stop=stop, stem=stem, stem_arg=sfun, progress=rng.random() < 0.15,
                allow_empty=rng.random() < 0.75, forms=["ids", "str"] if rng.random() < 0.6 else [rng.choice(["ids", "str"])], defaults=rng.random() < 0.5)


def case_random(ctx, rng):
    p = options(rng)
    pool = [gen.text(rng) for _ in range(rng.choice([0, 1, 2, 5, 20]))]
    if rng.random() < 0.3:
        pool += [gen.unicode_string(rng, 30) for _ in range(3)]
    if rng.random() < 0.3 and p["stop"]:
        pool += [" ".join(rng.choice(p["stop"]) for _ in range(4)), rng.choice(p["stop"]).upper()]
    texts = [rng.choice(pool) for _ in range(rng.choice([0, 1, len(pool), 2 * len(pool)]))] if pool else []
    if texts and rng.random() < 0.15:
        texts = texts[:1]
        given, how = (lambda: texts[0]), "one string"
    else:
        how = rng.choice(["list", "list", "tuple", "iterator"])
        given = {"list": lambda: texts, "tuple": lambda: tuple(texts), "iterator": lambda: iter(texts)}[how]
    before = list(texts)
    stop_before = freeze(p["stop_arg"])
    what = f"tokenize({how} of {len(texts)}, pattern={p['pattern']!r}, lower={p['lower']}, stopwords={str(p['stop_arg'])[:40]}, stemmer={p['stem']}, allow_empty={p['allow_empty']})"
    judge(ctx, given, texts, p, what)
    ctx.check(texts == before and freeze(p["stop_arg"]) == stop_before, f"{what}: the caller's texts or stopwords changed")
    low = set(p["stop"])
    ctx.count("stopwords_removed", sum(1 for t in texts for w in (t.lower() if p["lower"] else t).split() if w in low))
    ctx.sample(dict(text=texts[:2], options=str({k: p[k] for k in ("pattern", "lower", "stop_arg", "stem")})[:200]))


def case_duplicates(ctx, rng):
    """Many texts with few words: numbering across texts, repeated words, words equal after stemming or lower-casing."""
    p = options(rng)
    words = rng.sample(gen.TEXT_PIECES + ["running", "runs", "run", "runner", "Runs", "cats", "Cat", "thee", "them", "theme"], rng.randint(2, 8))
    texts = [" ".join(rng.choice(words) for _ in range(rng.randint(0, 30))) for _ in range(rng.choice([2, 10, 40]))]
    judge(ctx, lambda: texts, texts, p, f"tokenize(words {words}, {p['pattern']!r}, lower={p['lower']}, stopwords={str(p['stop_arg'])[:40]}, stemmer={p['stem']}, allow_empty={p['allow_empty']})")


def case_big(ctx, rng):
    """Long texts, many texts, large vocabularies."""
    p = options(rng)
    shape = ctx.index % 3
    p["pattern"] = rng.choice([gen.DEFAULT_PATTERN, r"\S+", r"\w+(?:-\w+)*"])
    words = ["w%s" % rng.choice("abcxyz") * rng.randint(1, 3) + str(i) for i in range([500, 20000, 90000][shape])]
    if shape == 0:
        texts = [" ".join(rng.choices(words, k=rng.choice([1001, 5000, 70000]))) for _ in range(3)]
    elif shape == 1:
        texts = [" ".join(rng.choices(words, k=rng.randint(0, 5))) for _ in range(rng.choice([10001, 40000]))]
    else:
        texts = [" ".join(words[i::7]) for i in range(7)] + [" ".join(words[::11])]
    judge(ctx, lambda: texts, texts, p, f"tokenize({len(texts)} texts of {sum(map(len, texts))} characters, {len(words)} words, {p['pattern']!r}, lower={p['lower']}, stopwords={str(p['stop_arg'])[:40]}, stemmer={p['stem']}, allow_empty={p['allow_empty']})")
    ctx.count("big")
