"""C15 JSON paths: everything written is parsed from the raw bytes by independent strict parsers and read back by two live processes, one with orjson and one without, in both directions, also under a POSIX locale.

The oracle is the value itself; Python's json (duplicate keys rejected) and orjson both have to read every text written."""
import collections
import json

from .. import gen
from ..peer import Peer
from ..util import *

LEVEL = "exploration"
RULE = ("random JSON values (nested, all of Unicode except surrogates, control characters, line separators, noncharacters, astral characters, 64-bit integers, extreme floats, NaN and infinities, keys that are no plain strings) through dumps/loads with every ensure_ascii setting, "
        "and files (vocabulary, corpus, line index, tokenizer vocabulary, stopwords) written by one process and read by the other. Non-trivial: a value with a character outside ASCII letters or nested; distinct by value.")
ASSUMPTIONS = ["lone surrogates and integers beyond 64 bits are not JSON values here"]
POSIX = {"LC_ALL": "POSIX", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}


def plan(tier):
    f = 1 if tier == "quick" else 60
    c = [("values", 900 * f), ("beyond", 120 * f), ("files", 200 * f), ("chars", 17)]
    s = 60 if tier == "quick" else 2400
    return [dict(cases=c, workers=2, soft=s), dict(cases=c, workers=2, env={"MON_BLOCK": "orjson"}, soft=s),
            dict(cases=c, workers=1, env=POSIX, soft=s), dict(cases=c, workers=1, env=dict(POSIX, MON_BLOCK="orjson"), soft=s)]


def MIN(tier):
    return {"distinct": 1500, "texts_parsed": 5000, "files_parsed": 1000, "cross_reads": 1000, "beyond_json": 3000, "characters_covered": 60000}


def setup(ctx):
    ctx.blocked = "orjson" in os.environ.get("MON_BLOCK", "")
    ctx.peer = Peer(ctx, "" if ctx.blocked else "orjson")
    from .. import ops
    ctx.ops = ops
    st, pk = ctx.peer.call("packages")
    ctx.check(ops.packages()["orjson"] != pk["orjson"], f"the two processes do not differ in orjson: {pk}")


def strict(text):
    def pairs(p):
        d = dict(p)
        if len(d) != len(p):
            raise ValueError(f"duplicate keys in {p!r:.200}")
        return d

    def const(c):
        raise ValueError(f"not JSON: {c}")
    return json.loads(text, object_pairs_hook=pairs, parse_constant=const)


def same_strict(a, b):
    """Equal as JSON values: the same types (an integer is not a float, 1 is not true), signed zeros included."""
    if isinstance(a, tuple):
        a = list(a)
    if isinstance(b, tuple):
        b = list(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same_strict, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_strict(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def written(ctx, text, value, what, ascii_only=False):
    ctx.check(isinstance(text, str), lambda: f"{what}: {type(text)} instead of text")
    if ascii_only:
        ctx.check(text.isascii(), lambda: f"{what}: ASCII-only output contains {[c for c in text if ord(c) > 127][:5]!r}")
    ctx.check("\n" not in text, lambda: f"{what}: line break in the text written")
    text.encode("utf-8")
    try:
        v = strict(text)
    except ValueError as e:
        ctx.fail(f"{what}: not valid JSON ({e}): {text!r:.300}")
    ctx.check(same_strict(v, value), lambda: f"{what}: {text!r:.200} reads as {v!r:.200} instead of {value!r:.200}")
    ctx.count("texts_parsed")


def through(ctx, v, what):
    for kw in ({}, {"ensure_ascii": True}, {"ensure_ascii": False}):
        t = ctx.ops.dumps(v, **kw)
        written(ctx, t, v, f"{what}, dumps({kw})", ascii_only=kw.get("ensure_ascii", False))
        back = ctx.ops.loads(t)
        ctx.check(same_strict(back, v), lambda: f"{what}: dumps({kw}) then loads gives {back!r:.200} instead of {v!r:.200}")
        st = ctx.peer.call("loads", t)
        ctx.check(st[0] == "ok" and same_strict(st[1], v), lambda: f"{what}: dumps({kw}) read by the other process ({ctx.peer.name}) gives {st!r:.200} instead of {v!r:.200}")
        ctx.count("cross_reads")
        if hasattr(ctx.bm25s.utils.json_functions, "dumps_with_builtin"):
            written(ctx, ctx.bm25s.utils.json_functions.dumps_with_builtin(v, **kw), v, f"{what}, dumps_with_builtin({kw})", ascii_only=kw.get("ensure_ascii", False))
    # JSON written by anybody else reads equal
    for kw in (dict(ensure_ascii=True), dict(ensure_ascii=False), dict(indent=2), dict(separators=(",", ":"))):
        back = ctx.ops.loads(json.dumps(v, **kw))
        ctx.check(same_strict(back, v), lambda: f"{what}: loads of json.dumps({kw}) gives {back!r:.200} instead of {v!r:.200}")


class Sub(str):
    pass


class IntSub(int):
    pass


Pair = collections.namedtuple("Pair", "a b")


def beyond(rng, depth):
    """(a value Python can hold but JSON cannot, the JSON value that stands for it)"""
    r = rng.random()
    if depth <= 0 or r < 0.4:
        if rng.random() < 0.4:
            return rng.choice([float("nan"), float("inf"), float("-inf"), np.float64("nan"), np.float64("-inf")]), None
        if rng.random() < 0.1:
            return rng.choice([(np.float64(0.5), 0.5), (np.float64(-1e300), -1e300), (Pair("x", np.float64(0.25)), ["x", 0.25]), (Pair(None, float("nan")), [None, None]), (Sub("t"), "t"), (IntSub(7), 7)])
        v = gen.json_value(rng, 1)
        return v, v
    n = rng.randint(0, 4)
    kids = [beyond(rng, depth - 1) for _ in range(n)]
    if r < 0.6:
        return (tuple if rng.random() < 0.3 else list)(a for a, _ in kids), [b for _, b in kids]
    keys = [(k, j) for k, j in [(None, "null"), (True, "true"), (False, "false")] + [(i, str(i)) for i in rng.sample(range(2, 10 ** 6), 3)] + [(-2 ** 63, str(-2 ** 63)), (2.5, "2.5"), (-0.25, "-0.25")]
            + [(t, str(t)) for t in map(Sub, {"s" + gen.unicode_string(rng, 3) for _ in range(2)})] + [(np.str_("n\u00e9"), "n\u00e9")]]
    keys = rng.sample(keys, n)
    return {k: a for (k, _), (a, _) in zip(keys, kids)}, {j: b for (_, j), (_, b) in zip(keys, kids)}


def case_beyond(ctx, rng):
    """Numbers and keys that JSON does not have: written as null and as strings, by either library, and read by both."""
    for _ in range(5):
        v, want = beyond(rng, rng.choice([0, 1, 2, 3]))
        for kw in ({}, {"ensure_ascii": True}, {"ensure_ascii": False}):
            t = ctx.ops.dumps(v, **kw)
            written(ctx, t, want, f"dumps({v!r:.200}, {kw})", ascii_only=kw.get("ensure_ascii", False))
            st = ctx.peer.call("loads", t)
            ctx.check(st[0] == "ok" and same_strict(st[1], want), lambda: f"dumps({v!r:.200}, {kw}) read by the other process ({ctx.peer.name}) gives {st!r:.200} instead of {want!r:.200}")
            ctx.count("beyond_json")
        ctx.nontrivial(("beyond", repr(v)))


def case_values(ctx, rng):
    v = gen.json_value(rng, rng.choice([0, 1, 2, 4]))
    if rng.random() < 0.1:
        v = {"deep": v}
        for i in range(rng.choice([10, 60])):
            v = [v] if i % 2 else {gen.unicode_string(rng, 3): v}
    if rng.random() < 0.1:
        v = [v, 2 ** 64 - 1]
    through(ctx, v, "value")
    ctx.nontrivial(freeze(v))
    ctx.sample(v)


def case_chars(ctx, rng):
    """Every character of one plane (sampled above the first), as text, key and next to others."""
    plane = ctx.index
    step = 1 if plane == 0 or ctx.thorough else 61
    for lo in range(0, 0x10000, 0x1000):
        chars = [chr(plane * 0x10000 + c) for c in range(lo, lo + 0x1000, step) if not (plane == 0 and 0xD800 <= c < 0xE000)]
        if not chars:
            continue
        s = "".join(chars)
        through(ctx, {"all": s, "each": chars, "keys": {c: 0 for c in chars}, "pairs": ["\\" + c + '"' for c in chars[:50]]}, f"characters U+{plane * 0x10000 + lo:X}...")
        ctx.count("characters_covered", len(chars))
    ctx.nontrivial(("plane", plane))


def raw(path):
    with open(path, "rb") as f:
        return f.read()


def case_files(ctx, rng):
    d = ctx.scratch()
    writer = rng.choice(["self", "peer"])

    def do(who, op, *a, **k):
        if who == "peer":
            st = ctx.peer.call(op, *a, **k)
            ctx.check(st[0] == "ok", lambda: f"{op} in the process {ctx.peer.name} raised {st}")
            return st[1]
        return getattr(ctx.ops, op)(*a, **k)

    what = f"written by {'this' if writer == 'self' else 'the other'} process, orjson {'absent' if ctx.blocked == (writer == 'self') else 'present'}"
    # an index with a hostile vocabulary and corpus
    voc = list({gen.unicode_string(rng, rng.choice([1, 3, 12])) for _ in range(rng.choice([2, 10, 40]))} - {""}) or ["x"]
    docs = [[rng.choice(voc) for _ in range(rng.randint(0, 6))] for _ in range(rng.randint(1, 8))]
    docs[0].append(voc[0])
    corpus = [gen.json_value(rng, 3) for _ in docs]
    corpus = [c if isinstance(c, (str, dict, list)) else {"v": c} for c in corpus]
    exp = [{"id": i, "text": c} if isinstance(c, str) else c for i, c in enumerate(corpus)]
    p = dict(k1=rng.choice([1.5, 0.1, 1 / 3, 2]), b=rng.random(), method=rng.choice(["lucene", "bm25+"]))
    do(writer, "save_index", d, docs, p, corpus)
    files = {f: raw(os.path.join(d, f)) for f in os.listdir(d) if f.endswith((".json", ".jsonl"))}
    for f, b in files.items():
        try:
            t = b.decode("utf-8")
        except UnicodeDecodeError as e:
            ctx.fail(f"{f} {what} is not UTF-8: {e}")
        if f.endswith(".jsonl"):
            lines = b.split(b"\n")
            ctx.check(lines[-1] == b"" and len(lines) == len(exp) + 1, lambda: f"{f} {what}: {len(lines) - 1} lines for {len(exp)} documents")
            for line, e in zip(lines, exp):
                written(ctx, line.decode("utf-8"), e, f"{f} {what}")
        else:
            try:
                strict(t)
            except ValueError as e:
                ctx.fail(f"{f} {what} is not valid JSON: {e}: {t!r:.300}")
        ctx.count("files_parsed")
    res = [do(w, "load_index", d, mm, True) for w in ("self", "peer") for mm in (False, True)]
    for v, arrays, par, rec in res:
        ctx.check(set(v) >= {t for x in docs for t in x}, lambda: f"vocabulary {what}: tokens lost: {sorted({t for x in docs for t in x} - set(v))!r:.300}")
        ctx.check(freeze(v) == freeze(res[0][0]) and freeze(arrays) == freeze(res[0][1]) and par == res[0][2], lambda: f"an index {what} loads differently in the two processes")
        ctx.check(len(rec) == len(exp) and all(map(same_strict, rec, map(norm, exp))), lambda: f"corpus {what} reads as {rec!r:.300} instead of {exp!r:.300}")
        ctx.check(all(par[k] == x for k, x in p.items()), lambda: f"parameters {what}: {par} instead of {p}")
        ctx.count("cross_reads")
    # tokenizer files
    t2 = ctx.scratch()
    kw = dict(lower=rng.random() < 0.5, splitter=rng.choice([r"(?u)\b\w\w+\b", r"(?s).{1,3}"]))
    sw = [gen.unicode_string(rng, 6) for _ in range(rng.randint(0, 6))]
    if rng.random() < 0.3:
        sw = tuple(sw)
    texts = [gen.unicode_string(rng, 30) for _ in range(rng.randint(1, 6))]
    saved = do(writer, "save_tokenizer", t2, texts, sw, kw)
    for f in os.listdir(t2):
        b = raw(os.path.join(t2, f))
        try:
            v = strict(b.decode("utf-8"))
        except ValueError as e:
            ctx.fail(f"{f} {what} is not valid UTF-8 JSON: {e}: {b[:200]!r}")
        if isinstance(v, list):
            ctx.check(v == list(sw), lambda: f"{f} {what}: {v!r:.200} instead of {sw!r:.200}")
        ctx.count("files_parsed")
    for w in ("self", "peer"):
        got = do(w, "load_tokenizer", t2, kw)
        ctx.check(freeze(got) == freeze(saved), lambda: f"tokenizer {what} loads as {got!r:.300} instead of {saved!r:.300}")
        ctx.count("cross_reads")
    # a JSON-lines file of another program, its line index written here and there
    path = os.path.join(ctx.scratch(), "x.jsonl")
    vals = [gen.json_value(rng, 2) for _ in range(rng.randint(1, 8))]
    with open(path, "w", encoding="utf-8", newline="\n") as f:
        f.write("\n".join(json.dumps(v, ensure_ascii=rng.random() < 0.5) for v in vals) + rng.choice(["", "\n"]))
    # str.splitlines-style separators inside strings are no line ends of the file
    idx = do(writer, "write_mmindex", path)
    for w in ("self", "peer"):
        got = do(w, "read_mmindex", path)
        ctx.check(got == idx, lambda: f"line index {what} loads as {got!r:.200} instead of {idx!r:.200}")
        got = do(w, "read_jsonl", path)
        ctx.check(len(got) == len(vals) and all(same_strict(a, norm(b)) for a, b in zip(got, vals)), lambda: f"lines read with the line index {what}: {got!r:.300} instead of {vals!r:.300}")
        ctx.count("cross_reads")
    ctx.nontrivial((freeze(corpus), writer))

