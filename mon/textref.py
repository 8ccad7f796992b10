"""An independent tokenizer: pattern matches, stopwords, stems."""
import re

import Stemmer

from . import gen

PATTERNS = [gen.DEFAULT_PATTERN, gen.DEFAULT_PATTERN, gen.DEFAULT_PATTERN, r"\S+", r"(?u)\b\w+\b", r"[a-z]+", r"[A-Za-z0-9_]+", r"(\w)\w*", r"\w*", r"(?u)[^\W\d_]+", r"(?s).", r"\w+(?:-\w+)*", r"x(?=y)|\d+", r"(?i)[aeiou]+"]
LANGS = ["english", "german", "french", "spanish", "russian", "porter"]


def prefix2(w):
    return w[:2]


def to_empty(w):
    return "" if len(w) > 4 else w


def constant(w):
    return "same" if w else ""


def upper(w):
    return w.upper()


def strange(w):
    return {"": "", "the": "a", "cat": "cats", "cats": "cat"}.get(w, w + "!")


class Lang:
    def __init__(self, lang):
        self.stemmer = Stemmer.Stemmer(lang)

    def __call__(self, w):
        return self.stemmer.stemWord(w)


class ListOf:
    """A callable on a list of words (the function's form)."""

    def __init__(self, f):
        self.f = f

    def __call__(self, words):
        return [self.f(w) for w in words]


class Both:
    """An object with the methods of a stemmer whose call does something else (a pipeline over whole texts, say)."""

    def __init__(self, f):
        self.f = f

    def stemWord(self, w):
        return self.f(w)

    def stemWords(self, words):
        return [self.f(w) for w in words]

    def __call__(self, x):
        return ["called"] * len(x) if isinstance(x, list) else "called"


def stemmer(rng):
    """(function of one word or None, form for tokenize(), form for Tokenizer)"""
    k = rng.randrange(10)
    if k <= 2:
        return None, None, None
    if k <= 5:
        lang = rng.choice(LANGS)
        f = Lang(lang)
        s = Stemmer.Stemmer(lang)
        return f, s if rng.random() < 0.7 else ListOf(f), s if rng.random() < 0.7 else f
    f = rng.choice([prefix2, to_empty, constant, upper, strange])
    if k == 9:
        return f, Both(f), Both(f)
    return f, ListOf(f), f


def stopwords(rng, pieces=None):
    """(argument, words)"""
    from bm25s.stopwords import STOPWORDS_EN
    k = rng.randrange(10)
    if k <= 2:
        return rng.choice([None, False]), []
    if k <= 4:
        return rng.choice(["english", "en", True]), list(STOPWORDS_EN)
    pieces = pieces or gen.TEXT_PIECES
    ws = [w.lower() if rng.random() < 0.8 else w for w in rng.sample(pieces, rng.randint(0, 6))] + (["", " "] if rng.random() < 0.1 else [])
    return rng.choice([list, tuple])(ws), ws


def tokens(text, lower, pattern, stop, stem):
    """(tokens of the text, whether the pattern matched at all)"""
    if lower:
        text = text.lower()
    m = [x.group(1) if x.re.groups else x.group() for x in re.finditer(pattern, text)]
    s = set(stop)
    out = [t for t in m if t not in s]
    return [stem(t) for t in out] if stem else out, bool(m)
