"""Workload generators: corpora, queries, parameters, texts, masks. Everything is drawn from the given random.Random."""
import numpy as np

from .oracle import METHODS

WEIRD = ["", " ", "\u00e9t\u00e9", "na\u00efve", "\u4e2d\u6587", "\U0001f600", 'quo"te', "back\\slash", "new\nline", "tab\t", "\u2028sep", "\x7f",
         "\x00nul", "a" * 300, "null", "0", "1", "-1", "None", "\u0130", "\u00df", "e\u0301", "\ufeffbom", "<b>", "'", "\x85", "\x1f"]


def words(rng, n, weird=0.15):
    out, seen = [], set()
    i = 0
    while len(out) < n:
        if rng.random() < weird:
            w = rng.choice(WEIRD[1:])
            if w in seen:
                w = w + str(i)
        else:
            w = "".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(rng.randint(1, 7)))
        i += 1
        if w not in seen:
            seen.add(w)
            out.append(w)
    return out


def zipf_choice(rng, items, k, skew):
    n = len(items)
    return [items[min(n - 1, int(n * (rng.random() ** skew)))] for _ in range(k)]


def corpus(rng, n_docs=None, vocab=None, max_len=None, empties=True, weird=0.15):
    """A list of token lists with varied shapes."""
    style = rng.randrange(10)
    if n_docs is None:
        n_docs = rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 8, 11, 13, 16, 20, 29, 33, 48, 64, 100])
    if vocab is None:
        vocab = words(rng, rng.choice([1, 2, 3, 5, 8, 13, 21, 40, 80]), weird)
    if max_len is None:
        max_len = rng.choice([1, 2, 4, 8, 16, 40])
    skew = rng.choice([1, 1, 2, 3])
    p_empty = rng.choice([0, 0, 0.1, 0.4]) if empties else 0
    docs = []
    for i in range(n_docs):
        if rng.random() < p_empty:
            docs.append([])
            continue
        L = rng.randint(1, max_len)
        d = zipf_choice(rng, vocab, L, skew)
        docs.append(d)
    if style == 0 and n_docs > 1:  # a token in every document
        for d in docs:
            d.append(vocab[0])
    elif style == 1:  # identical documents: only ties
        docs = [list(docs[0]) for _ in docs]
    elif style == 2:  # one very long document
        docs[rng.randrange(n_docs)] = zipf_choice(rng, vocab, rng.choice([300, 1000, 3000]), skew)
    elif style == 3:  # one token repeated more often than a byte or a short can count
        docs[rng.randrange(n_docs)] = [vocab[0]] * rng.choice([255, 256, 257, 300, 1000]) + [vocab[-1]]
    elif style == 4 and n_docs > 2:  # disjoint documents
        docs = [[w] * rng.randint(1, 3) for w in words(rng, n_docs, weird)]
    if not empties:
        docs = [d or [vocab[0]] for d in docs]
    return docs


def vocab_of(docs):
    return sorted({t for d in docs for t in d})


def query(rng, vocab, max_len=8, unknown=0.2):
    style = rng.random()
    if not vocab:
        return [rng.choice(["zzz", "qqq"]) for _ in range(rng.randint(0, 2))]
    if style < 0.06:
        return []
    if style < 0.12:
        return ["__unknown%d__" % rng.randrange(5) for _ in range(rng.randint(1, 4))]
    if style < 0.22:
        return [rng.choice(vocab)] * rng.randint(1, 6)
    if style < 0.26:
        return [rng.choice(vocab) for _ in range(rng.choice([50, 130, 300, 300, 1100, 5000]))]
    q = [rng.choice(vocab) for _ in range(rng.randint(1, max_len))]
    if rng.random() < unknown:
        q.insert(rng.randint(0, len(q)), "__unknown%d__" % rng.randrange(5))
    return q


def params(rng, method=None, idf_method="?", dtype=None, int_dtype=None):
    method = method or rng.choice(METHODS)
    if idf_method == "?":
        idf_method = rng.choice([None, None] + METHODS)
    nonocc = method in ("bm25l", "bm25+")
    k1 = rng.choice([1.5, 1.5, 1.2, 0.9, 2.0, 0.01, 10.0, 100.0, rng.uniform(0.1, 3)] + ([] if nonocc else [0.0]))
    b = rng.choice([0.75, 0.75, 0.0, 1.0, 0.4, rng.random()])
    delta = rng.choice([0.5, 0.5, 0.0, 1.0, 2.5, rng.random()])
    if method == "bm25l" and delta == 0.0 and k1 == 0:
        k1 = 1.5
    return dict(k1=k1, b=b, delta=delta, method=method, idf_method=idf_method,
                dtype=dtype or rng.choice(["float32", "float32", "float64"]),
                int_dtype=int_dtype or rng.choice(["int32", "int32", "int64"]))


def mask(rng, n, dtype=None, wide=False):
    dtype = dtype or rng.choice(["float32", "float64", "bool", "int64", "int32", "uint8"] + (["int64", "uint64", "uint32", "int8", "int16", "float16", "float64"] if wide else []))
    style = rng.randrange(8 if wide else 5)
    vals = [rng.choice([0, 1]) for _ in range(n)]
    if style == 0:
        vals = [0] * n
    elif style == 1:
        vals = [1] * n
    elif style >= 3 and dtype != "bool":
        if dtype.startswith("float"):
            vals = [rng.choice([0.0, 0.5, 1.0, 2.0, 1e-3, 100.0, rng.random()] + ([-1.0, -0.5] if style == 4 else [])) for _ in range(n)]
        else:
            vals = [rng.choice([0, 1, 2, 3, 7]) for _ in range(n)]
    if style == 5:
        # the whole range of the type
        if dtype in ("float32", "float64"):
            vals = [rng.choice([0.0, 1e-12, 1e12, -1e10, 1e20, 3e-8]) for _ in range(n)]
        elif dtype != "bool" and dtype != "float16":
            i = np.iinfo(dtype)
            vals = [rng.choice([0, 1, i.max, i.max // 3, i.min, i.min // 2, i.max >> 1]) for _ in range(n)]
    elif style == 6 and dtype.startswith("float"):
        vals = [rng.choice([0.0, 0.25, 0.5, 1.0, 0.75]) for _ in range(n)]
    elif style == 7 and dtype != "bool":
        # one weight unlike all others
        vals = [1] * n
        vals[rng.randrange(n)] = rng.choice([0, 2, 5])
    return np.array(vals, dtype=dtype)


DEFAULT_PATTERN = r"(?u)\b\w\w+\b"
TEXT_PIECES = ["the", "a", "of", "cat", "dogs", "running", "ran", "Friend", "FISH", "caf\u00e9", "na\u00efve", "\u0130stanbul", "Stra\u00dfe", "\u4e2d\u6587\u5b57", "\u0441\u043e\u0431\u0430\u043a\u0430",
               "it's", "don't", "x", "y2", "42", "3.14", "foo_bar", "semi-final", "e\u0301clair", "\U0001f600", "\u2028", "\u00a0", "U.S.A", "C++",
               "\ud55c\uad6d\uc5b4", "\u0905\u0928\u0941", "\u00df\u00df", "\ufb01ne", "\u212a", "\u01c4", "O\u2019Neil", "and", "\u00fcber", "los", "und", "le", "\u043d\u0435"]
PUNCT = [" ", " ", " ", "  ", ", ", ". ", "\n", "\t", "-", "/", "; ", "!", "\u3000", "\u2014", "\x00", "_", "'", "\"", "\r\n"]


def text(rng, max_words=12, pieces=None):
    r = rng.random()
    if r < 0.05:
        return ""
    if r < 0.1:
        return rng.choice([" ", "!!!", "a", "\n", ". , ;", "\U0001f600", "x y z", "\u3000"])
    pieces = pieces or TEXT_PIECES
    out = []
    for _ in range(rng.randint(1, max_words)):
        q = rng.random()
        if q < 0.8:
            out.append(rng.choice(pieces))
        elif q < 0.9:
            out.append("".join(rng.choice("abcdeghilmnorst") for _ in range(rng.randint(1, 6))))
        else:
            out.append("".join(chr(rng.choice([rng.randint(32, 126), rng.randint(0xA0, 0x24F), rng.randint(0x370, 0x5FF), rng.randint(0x4E00, 0x4E50), rng.randint(0x1F600, 0x1F64F), 0x301])) for _ in range(rng.randint(1, 5))))
        out.append(rng.choice(PUNCT))
    return "".join(out)


JSON_LIKE = ['"id"', '{"id": 7}', '"text": ', '{"_id": "1", "text": "a"}', "null", "NaN", "\\n", "\\u0041", "\\", '"', "]", "}, {", ",", "[", '\\"', "true", "1e5", "//", "\\ud83d", "-Infinity", "__class__", "$ref", "%s", "{}", "{0}"]


def unicode_string(rng, max_len=20):
    """Any valid Unicode text (no lone surrogates)."""
    n = rng.randint(0, max_len)
    if max_len > 8 and rng.random() < 0.12:
        return "".join(rng.choice(JSON_LIKE) + rng.choice(["", " ", "x", "\u00e9"]) for _ in range(rng.randint(1, 4)))
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            c = rng.randint(32, 126)
        elif r < 0.45:
            c = rng.choice([0, 1, 8, 9, 10, 11, 12, 13, 27, 31, 34, 39, 47, 92, 127, 128, 133, 160, 173])
        elif r < 0.6:
            c = rng.randint(0x80, 0x7FF)
        elif r < 0.75:
            c = rng.choice([rng.randint(0x800, 0xD7FF), rng.randint(0xE000, 0xFFFF)])
        elif r < 0.85:
            c = rng.choice([0x2028, 0x2029, 0xFEFF, 0xFFFE, 0xFFFF, 0xFFFD, 0x200B, 0x202E, 0x85])
        else:
            c = rng.randint(0x10000, 0x10FFFF)
        out.append(chr(c))
    return "".join(out)


def json_value(rng, depth=3, floats=True):
    r = rng.random()
    if depth <= 0 or r < 0.45:
        return rng.choice([unicode_string(rng), unicode_string(rng), rng.randint(-10, 10), rng.randint(-2 ** 53, 2 ** 53), 2 ** 63 - 1, -2 ** 63,
                           True, False, None, "", rng.random() * 10 ** rng.randint(-5, 5) if floats else 0, 0.1, -0.0, 1e300, 5e-324])
    if r < 0.72:
        return [json_value(rng, depth - 1, floats) for _ in range(rng.randint(0, 4))]
    return {unicode_string(rng, 8): json_value(rng, depth - 1, floats) for _ in range(rng.randint(0, 4))}
