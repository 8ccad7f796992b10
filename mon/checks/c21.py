"""C21 stopwords: for every language name and alias, in both tokenizers, the set of words removed out of the union of all lists, case variants, near misses and random words is compared with the published list (a committed snapshot).

The enumeration of names, forms and words of the lists is complete; near misses, custom lists and unknown names are sampled."""
import json

from .. import gen, textref
from ..util import *

LEVEL = "exploration"
RULE = ("every language name and alias (and True) x function/class x output form x lower x stemmer, on texts of every word of every list with its case variants and edits, one word per text and all in one; None, False, empty and custom lists (edited between calls too); lists loaded into a tokenizer from another's saved list; "
        "unknown names. Non-trivial: a word judged; distinct by (language argument, form, word set).")
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
DATA = json.load(open(os.path.join(HERE, "data", "stopwords.json")))
SPLIT = r"[^\x1f]+"
ARGS = [(a, n) for n in DATA for a in [n] + DATA[n]["aliases"]] + [(True, "english")]


def plan(tier):
    f = 1 if tier == "quick" else 30
    s = 60 if tier == "quick" else 2400
    return [dict(cases=[("language", len(ARGS) * 8 * f), ("none", 40 * f), ("custom", 250 * f), ("unknown", 200 * f), ("default", 20 * f), ("sequence", 60 * f), ("loaded", 150 * f), ("edited", 40 * f)], workers=6, soft=s)]


def MIN(tier):
    return {"distinct": 150, "words_judged": 500000, "words_removed": 50000, "unknown_rejected": 2000, "arguments_covered": 150, "lists_loaded": 300, "edited_lists": 100}


def edits(rng, w):
    out = [w.upper(), w.capitalize(), w.title(), w + w[-1], w + "s", "x" + w, w + "'", "_" + w, w[:-1], w[1:], w[::-1], w + "\u0301", w.replace("\u00e9", "e"), w + " ", " " + w, w.swapcase()]
    return [o for o in rng.sample(out, 3) if o]


def universe(rng, listed, extra=60):
    pool = {w for n in DATA for w in DATA[n]["words"]} | set(listed)
    ed = {e for w in rng.sample(sorted(listed), min(len(listed), 60)) for e in edits(rng, w)}
    pool |= ed | {gen.unicode_string(rng, 6) for _ in range(extra)} | set(gen.words(rng, extra))
    pool = [w for w in sorted(pool) if w and "\x1f" not in w]
    rng.shuffle(pool)
    return pool


def kept(ctx, rng, words, form, lower, stop):
    """The words (after lower-casing) left of a text of the words, by one form of tokenization; what was given as stopwords is passed on."""
    T = ctx.bm25s.tokenization
    kw = {} if stop is ARGS else dict(stopwords=stop)
    each = rng.random() < 0.3
    texts = list(words) if each else ["\x1f".join(words)]
    if form in ("fids", "fstr"):
        r = T.tokenize(texts, lower=lower, token_pattern=SPLIT, return_ids=form == "fids", show_progress=False, **kw)
        docs = r if form == "fstr" else [[{i: t for t, i in r.vocab.items()}[x] for x in d] for d in r.ids] if each and len(texts) < 50 else decode(r.ids, r.vocab)
    else:
        t = T.Tokenizer(lower=lower, splitter=SPLIT, **kw)
        if form == "cstr":
            docs = t.tokenize(texts, return_as="string", show_progress=False)
        elif form == "cstream":
            docs = t.decode(list(t.tokenize(texts, update_vocab=True, return_as="stream")))
        else:
            r = t.tokenize(texts, return_as="tuple", show_progress=False)
            docs = decode(r.ids, r.vocab)
    return [w for d in docs for w in d if w != ""]


def decode(ids, vocab):
    rev = {i: t for t, i in vocab.items()}
    return [[rev[x] for x in d] for d in ids]


FORMS = ["fids", "fstr", "cids", "cstr", "cstream"]


def judge(ctx, rng, words, form, lower, stop, listed, what):
    got = kept(ctx, rng, words, form, lower, stop)
    seen = [w.lower() if lower else w for w in words]
    want = [w for w in seen if w not in listed]
    if got != want:
        g, s = set(got), set(seen)
        ctx.fail(f"{what}, {form}, lower={lower}: kept stopwords {sorted(g & listed)[:8]!r}, removed other words {sorted(set(want) - g)[:8]!r}, {len(got)} words instead of {len(want)}")
    ctx.count("words_judged", len(seen))
    ctx.count("words_removed", len(seen) - len(want))
    ctx.nontrivial((str(stop) if stop is not ARGS else "default", form, lower, tuple(words)))


def case_language(ctx, rng):
    arg, lang = ARGS[ctx.index % len(ARGS)]
    listed = set(DATA[lang]["words"])
    words = universe(rng, listed)
    ctx.count("arguments_covered")
    for form in FORMS:
        for lower in (True, False):
            judge(ctx, rng, words, form, lower, arg, listed, f"stopwords={arg!r}")
    # with a stemmer the words are compared before stemming
    T = ctx.bm25s.tokenization
    f = textref.prefix2
    some = rng.sample(words, 80)
    want = [f(w) for w in some if w not in listed]
    got = T.tokenize("\x1f".join(some), lower=False, token_pattern=SPLIT, stopwords=arg, stemmer=textref.ListOf(f), return_ids=False, show_progress=False)[0]
    ctx.check(list(got) == want, lambda: f"stopwords={arg!r} with a stemmer (function): {got!r:.200} instead of {want!r:.200}")
    t = T.Tokenizer(lower=False, splitter=SPLIT, stopwords=arg, stemmer=f)
    got = t.tokenize(["\x1f".join(some)], return_as="string", show_progress=False)[0]
    ctx.check(list(got) == want, lambda: f"stopwords={arg!r} with a stemmer (class): {got!r:.200} instead of {want!r:.200}")
    ctx.sample(dict(stopwords=str(arg), words=len(words), listed=len(listed)))


def case_none(ctx, rng):
    words = universe(rng, set())
    for form in FORMS:
        judge(ctx, rng, words, form, rng.random() < 0.5, rng.choice([None, False, [], ()]), set(), "no stopwords")


def case_default(ctx, rng):
    words = universe(rng, set(DATA["english"]["words"]))
    for form in FORMS:
        judge(ctx, rng, words, form, rng.random() < 0.5, ARGS, set(DATA["english"]["words"]), "default stopwords")


def case_custom(ctx, rng):
    words = universe(rng, set(), extra=20)
    listed = rng.sample(words, rng.choice([1, 3, 50])) + [gen.unicode_string(rng, 4)] + rng.choice([[], ["english", "en", "de"]])
    listed = rng.choice([list, tuple])(listed)
    before = freeze(listed)
    for form in FORMS:
        judge(ctx, rng, words, form, rng.random() < 0.5, listed, set(listed), f"custom stopwords {listed[:5]!r}")
    ctx.check(freeze(listed) == before, "the caller's stopwords were changed")


def case_edited(ctx, rng):
    """A custom list that its owner edits between two calls: each call removes the words the list then has."""
    words = rng.sample(universe(rng, set(), extra=20), 200)
    listed = rng.sample(words, rng.choice([1, 4, 30]))
    other = rng.sample(words, len(listed))
    form, lower = rng.choice(FORMS), rng.random() < 0.3
    for step in range(6):
        judge(ctx, rng, words, form if rng.random() < 0.7 else rng.choice(FORMS), lower, listed, set(listed), f"custom list as edited, step {step}: {listed[:5]!r}")
        k = rng.randrange(5)
        if k == 0:
            listed[rng.randrange(len(listed))] = rng.choice(words)
        elif k == 1:
            listed[:] = other
        elif k == 2:
            listed.append(rng.choice(words))
        elif k == 3 and len(listed) > 1:
            listed.pop(rng.randrange(len(listed)))
        else:
            # another list of the same length, often at the address of the one it replaces
            n = len(listed)
            del listed
            listed = rng.sample(words, n)
        ctx.count("edited_lists")


def case_unknown(ctx, rng):
    T = ctx.bm25s.tokenization
    known = {a for a, _ in ARGS if isinstance(a, str)}
    for _ in range(10):
        k = rng.randrange(5)
        base = rng.choice(sorted(known))
        name = [base + rng.choice("sx_ -"), rng.choice(["", "klingon", "xx", "e", "all", "none", "true", "stopwords", "latin", "jp", "ja", "ko", "ar", "pl", "tr", "zz", "en-US", "pt_BR", "zh-cn"]),
                gen.unicode_string(rng, 8), base[:-1], base[::-1]][k]
        if name.strip().lower() in known:
            continue
        for what, fn in (("tokenize", lambda: T.tokenize(["a b the"], stopwords=name, show_progress=False)), ("Tokenizer", lambda: T.Tokenizer(stopwords=name).tokenize(["a b the"], show_progress=False))):
            try:
                r = fn()
            except Exception:
                ctx.count("unknown_rejected")
                continue
            ctx.fail(f"{what}(stopwords={name!r}) is accepted: {r!r:.200}")


def case_sequence(ctx, rng):
    """Languages in turn in one process: no call affects another, not even one that edits what it got."""
    T = ctx.bm25s.tokenization
    words = universe(rng, set(), extra=10)
    words = rng.sample(words, 600)
    ts = []
    for _ in range(8):
        arg, lang = rng.choice(ARGS)
        listed = set(DATA[lang]["words"])
        judge(ctx, rng, words, rng.choice(FORMS), rng.random() < 0.5, arg, listed, f"in sequence, stopwords={arg!r}")
        t = T.Tokenizer(splitter=SPLIT, stopwords=arg, lower=False)
        ts.append((t, listed, arg))
        if rng.random() < 0.3 and isinstance(t.stopwords, list):
            t.stopwords.append(words[0])
            ts.pop()
        for t, l, a in ts:
            got = [w for w in t.tokenize(["\x1f".join(words)], update_vocab=True, return_as="string", show_progress=False)[0] if w]
            ctx.check(got == [w for w in words if w not in l], lambda: f"Tokenizer(stopwords={a!r}) used next to others removes other words")
            ctx.count("words_judged", len(words))


def case_loaded(ctx, rng):
    """A tokenizer that loads a saved list removes exactly that list; neither the list its caller gave it, nor the published ones, nor other tokenizers change."""
    T = ctx.bm25s.tokenization
    words = rng.sample(universe(rng, set(), extra=20), 300)

    def given():
        k = rng.randrange(4)
        if k == 0:
            a, lang = rng.choice(ARGS)
            return a, set(DATA[lang]["words"])
        if k == 1:
            return None, set()
        l = rng.sample(words, rng.choice([1, 5, 40]))
        return (l if k == 2 else tuple(l)), set(l)

    def check(t, listed, what):
        got = [w for w in t.tokenize(["\x1f".join(words)], update_vocab=True, return_as="string", show_progress=False)[0] if w]
        want = [w for w in words if w not in listed]
        ctx.check(got == want, lambda: f"{what}: kept {sorted(set(got) & listed)[:6]!r}, removed {sorted(set(want) - set(got))[:6]!r}")
        ctx.count("words_judged", len(words))

    ts = []
    for i in range(rng.choice([3, 5])):
        stop, listed = given() if not ts or rng.random() < 0.7 else ts[-1][1:3]
        t = T.Tokenizer(splitter=SPLIT, stopwords=stop, lower=False)
        ts.append([t, stop, listed, freeze(stop)])
    for step in range(4):
        a, b = rng.choice(ts), rng.choice(ts)
        d = ctx.scratch()
        kw = rng.choice([{}, dict(stopwords_name="my stop.json")])
        a[0].save_stopwords(d, **kw)
        if rng.random() < 0.3:
            a[0].save_stopwords(d, **kw)
        b[0].load_stopwords(d, **kw)
        b[0].reset_vocab()  # words of the vocabulary are not compared with the stopwords again
        b[2] = a[2]
        ctx.count("lists_loaded")
        for j, (t, stop, listed, before) in enumerate(ts):
            ctx.check(freeze(stop) == before, lambda: f"the stopwords the caller gave were changed by loading a list: {stop!r:.200}")
            check(t, listed, f"tokenizer {j} (made with {stop!r:.60}) after a list was loaded into tokenizer {ts.index(b)} from {ts.index(a)}, step {step}")
        judge(ctx, rng, words, rng.choice(FORMS), False, *(lambda x: (x[0], set(DATA[x[1]]["words"])))(rng.choice(ARGS)), "after loading lists")
    ctx.nontrivial(("loaded", tuple(str(t[3])[:50] for t in ts), tuple(words[:5])))
