"""C17 random access: histories of reads (every kind of index), closings, reopenings, index rebuilds and second readers on JSON-lines files; each answer is compared with the values of the lines of the file.

The lines are split from the raw bytes by the monitor and parsed by Python's json."""
import json
import mmap as mmap_module
from pathlib import Path

import numpy as np

from .. import gen
from ..util import *

LEVEL = "exploration"
RULE = ("JSON-lines files with any JSON values, spacing, escaping, LF or CRLF, with and without final newline, short and very long lines, in names with and without extension and dots, read by histories of 10-60 operations: integers of any type, negative, slices, "
        "lists, tuples, arrays of any shape and integer type, out of range, close, load, second corpus, saved, reloaded or rebuilt line index, get_line alone. Non-trivial: an entry compared; distinct by (file, operation).")
ASSUMPTIONS = ["empty files, blank lines and lone carriage returns are not one JSON value per line"]


def plan(tier):
    f = 1 if tier == "quick" else 60
    c = [("history", 350 * f), ("big", 3 * f), ("beside", 15 * f)]
    s = 60 if tier == "quick" else 2400
    return [dict(cases=c, workers=4, soft=s), dict(cases=c, workers=2, env={"MON_BLOCK": "orjson"}, soft=s),
            dict(cases=[("history", 150 * f)], workers=1, env={"LC_ALL": "POSIX", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, soft=s)]


def MIN(tier):
    return {"distinct": 5000, "entries_compared": 60000, "out_of_range": 1500, "reopened": 500, "array_reads": 1500}


def value(rng):
    v = gen.json_value(rng, rng.choice([0, 1, 2]))
    k = rng.randrange(12)
    if k == 0:
        v = gen.unicode_string(rng, 30) * rng.choice([1, 100, 1000])
    elif k == 1:
        v = {"text": "\u2028\u2029\x85\x0c\x1c\x1d\x1e" + gen.unicode_string(rng)}
    return v


def make_file(rng, path, n, homogeneous=None):
    h = homogeneous or rng.choice([None, None, "int", "str", "list", "dict", "float"])
    mk = {None: lambda i: value(rng), "int": lambda i: rng.randint(-5, 10 ** rng.randint(0, 15)), "str": lambda i: gen.unicode_string(rng, 10) + rng.choice(["", "\x00"]),
          "list": lambda i: [i, rng.randint(0, 3)], "dict": lambda i: {"_id": i, "t": gen.unicode_string(rng, 10)}, "float": lambda i: rng.random()}[h]
    eol = rng.choice(["\n", "\n", "\n", "\r\n"])
    out = []
    for i in range(n):
        kw = dict(ensure_ascii=rng.random() < 0.4)
        if rng.random() < 0.2:
            kw["separators"] = (",", ":")
        t = json.dumps(mk(i), **kw)
        if rng.random() < 0.1:
            t = rng.choice([" ", "\t", "  "]) + t
        if rng.random() < 0.1:
            t = t + rng.choice([" ", "\t", "  "])
        out.append(t)
    s = eol.join(out) + (eol if rng.random() < 0.7 else "")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(s.encode("utf-8"))
    with open(path, "rb") as f:
        lines = f.read().split(b"\n")
    if lines[-1] == b"":
        lines.pop()
    return [json.loads(b.decode("utf-8")) for b in lines]


def plain(x):
    return x.item() if isinstance(x, np.generic) else x


def eq(ctx, got, want, what, loose=False):
    got = plain(got)
    ok = (got == want) if loose else same(got, want)
    ctx.check(ok, lambda: f"{what} is {got!r:.200} instead of {want!r:.200}")
    ctx.count("entries_compared")


INTS = [int, np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64]


def as_int(rng, i, n):
    t = rng.choice(INTS)
    if t is int or (i < 0 and "uint" in t.__name__) or not (np.iinfo(t).min <= i <= np.iinfo(t).max):
        return int(i)
    return t(i)


def read(ctx, rng, c, vals, what):
    n = len(vals)
    k = rng.randrange(9)
    ctx.check(len(c) == n, lambda: f"{what}: length {len(c)} instead of {n}")
    anyi = lambda: rng.randrange(-n, n)
    if k <= 1:
        i = anyi()
        eq(ctx, c[as_int(rng, i, n)], vals[i], f"{what}: entry {i} of {n}")
    elif k == 2:
        b = lambda: rng.choice([None, rng.randint(-n - 3, n + 3)])
        s = slice(b(), b(), rng.choice([None, None, 1, 2, 3, -1, -2]))
        got = c[s]
        ctx.check(isinstance(got, list) and len(got) == len(vals[s]), lambda: f"{what}: {s} gives {len(got)} entries instead of {len(vals[s])}")
        for a, v in zip(got, vals[s]):
            eq(ctx, a, v, f"{what}: {s}")
    elif k <= 4:
        idx = [anyi() for _ in range(rng.choice([0, 1, 3, 10, 40]))]
        given = [as_int(rng, i, n) for i in idx]
        if rng.random() < 0.5:
            given = tuple(given)
        got = c[given]
        ctx.check(len(got) == len(idx), lambda: f"{what}: {len(got)} entries for {len(idx)} indices")
        for i, a in zip(idx, got):
            eq(ctx, a, vals[i], f"{what}: entry {i} of the list {given!r:.100}")
        if idx and isinstance(got[0], (dict, list)):
            # what was read is the reader's own
            got[0].clear()
            for i, a in list(zip(idx, got))[1:]:
                eq(ctx, a, vals[i], f"{what}: entry {i} of the list {given!r:.100}, after its first entry was changed")
            eq(ctx, c[idx[0]], vals[idx[0]], f"{what}: entry {idx[0]}, after it was read before and changed")
            ctx.count("changed_by_reader")
    elif k <= 7:
        shape = rng.choice([(0,), (1,), (5,), (1, 1), (2, 3), (3, 1), (0, 4), (2, 2, 2), (7, 1, 2), ()])
        dt = rng.choice([np.int64, np.int32, np.int16, np.uint32, np.int8, np.uint8])
        info = np.iinfo(dt)
        size = int(np.prod(shape))
        flat = [max(info.min, min(info.max, anyi() if info.min < 0 else rng.randrange(n))) for _ in range(size)]
        arr = np.array(flat, dtype=dt).reshape(shape)
        if rng.random() < 0.3 and arr.ndim == 2:
            arr = np.asfortranarray(arr)
        elif rng.random() < 0.2 and arr.ndim == 1:
            arr = arr[::-1]
        got = c[arr]
        ctx.check(isinstance(got, np.ndarray) and got.shape == arr.shape, lambda: f"{what}: an array of indices of shape {arr.shape} gives {type(got)} of shape {getattr(got, 'shape', None)}")
        for pos in np.ndindex(*arr.shape):
            eq(ctx, got[pos], vals[int(arr[pos])], f"{what}: position {pos} (entry {int(arr[pos])}) of an array", loose=True)
        ctx.count("array_reads")
    else:
        bad = rng.choice([n, n + 1, n + rng.randint(2, 10 ** 6), -n - 1, -n - rng.randint(2, 1000), 2 ** 40])
        form = rng.choice([lambda b: b, lambda b: np.int64(b), lambda b: [0, b], lambda b: (b,), lambda b: np.array([[0, b]])])(bad)
        try:
            got = c[form]
        except Exception:
            ctx.count("out_of_range")
            return
        ctx.fail(f"{what}: index {form!r} of a corpus of {n} entries gives {got!r:.200} instead of raising")


def case_history(ctx, rng):
    C = ctx.bm25s.utils.corpus
    d = ctx.scratch()
    sub = rng.choice(["", "sub.dir", "v1.0/x", "with space"])
    name = rng.choice(["corpus.jsonl", "corpus", "c.json", "a.b.c.jsonl", ".hidden", "\u00fcn\u00ef.jsonl" if os.environ.get("LC_ALL") != "POSIX" else "uni.jsonl", "x."])
    path = os.path.join(d, sub, name)
    n = rng.choice([1, 1, 2, 3, 7, 20, 64])
    vals = make_file(rng, path, n)
    gpath = rng.choice([str, Path])(path)
    if rng.random() < 0.2:
        os.chdir(os.path.dirname(path))
        gpath = rng.choice([str, Path])(name)
    try:
        live = []
        log = []

        def open_one():
            kw = dict(show_progress=rng.random() < 0.3, leave_progress=rng.random() < 0.5, verbosity=rng.choice([0, 1]))
            if rng.random() < 0.5:
                kw["save_index"] = rng.random() < 0.6
            live.append(C.JsonlCorpus(gpath, **kw))
            log.append(f"open {kw}")

        before = open(path, "rb").read()
        open_one()
        for step in range(rng.choice([10, 30, 60])):
            r = rng.random()
            what = f"{name!r}, {n} lines, after {log[-4:]}"
            if r < 0.72 and live:
                c = rng.choice(live)
                read(ctx, rng, c, vals, what)
                ctx.nontrivial((repr(vals)[:500], step, ctx.index))
            elif r < 0.78 and live:
                c = rng.choice(live)
                how = rng.randrange(3)
                if how == 0:
                    c.load()
                    log.append("load")
                else:
                    c.close()
                    if how == 2:
                        c.close()
                    c.load()
                    log.append("close, load")
                ctx.count("reopened")
                for i in range(n):
                    eq(ctx, c[i], vals[i], f"{what}, reopened: entry {i}")
            elif r < 0.84:
                open_one()
                if len(live) > 3:
                    c = live.pop(rng.randrange(3))
                    if rng.random() < 0.5:
                        c.close()
                    del c
                    log.append("dropped one")
            elif r < 0.9:
                idx = C.find_newline_positions(gpath, show_progress=rng.random() < 0.3)
                ctx.check(len(idx) == n, lambda: f"{what}: {len(idx)} lines found instead of {n}")
                if rng.random() < 0.6:
                    C.save_mmindex(idx, gpath)
                    got = C.load_mmindex(gpath)
                    ctx.check(list(got) == list(idx), lambda: f"{what}: line index reloaded as {got!r:.200} instead of {idx!r:.200}")
                    log.append("saved index")
            elif r < 0.97:
                # without an open corpus
                idx = C.find_newline_positions(gpath, show_progress=False)
                i = rng.randrange(-n, n)
                kw = {}
                how = rng.randrange(4)
                fo = open(gpath, "r", encoding="utf-8") if how in (1, 3) else None
                mo = None
                if how in (2, 3):
                    with open(gpath, "rb") as f:
                        mo = mmap_module.mmap(f.fileno(), 0, access=mmap_module.ACCESS_READ)
                if fo is not None:
                    kw["file_obj"] = fo
                if mo is not None:
                    kw["mmap_obj"] = mo
                for _ in range(2):
                    line = C.get_line(gpath, i, idx, **kw)
                    eq(ctx, json.loads(line), vals[i], f"{what}: get_line({i}, {sorted(kw)})")
                bad = rng.choice([n, n + 5, -n - 1])
                ctx.check(raises(C.get_line, gpath, bad, idx, **kw) is not None, lambda: f"{what}: get_line({bad}) of {n} lines does not raise")
                ctx.count("out_of_range")
                for o in (fo, mo):
                    if o is not None:
                        o.close()
            else:
                for f in os.listdir(os.path.dirname(path)):
                    if "mmindex" in f:
                        os.unlink(os.path.join(os.path.dirname(path), f))
                log.append("index removed")
        after = [f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f))]
        ctx.check(open(path, "rb").read() == before, f"{name!r}: reading changed the file")
        if sub:
            ctx.check(not after, lambda: f"{name!r} in {sub!r}: files {after} appeared outside the directory of the corpus")
        for c in live:
            c.close()
    finally:
        os.chdir(ctx.job["scratch"])
    ctx.sample(dict(name=name, lines=n, log=log[:10]))


def case_big(ctx, rng):
    """A file of several megabytes, offsets beyond every buffer."""
    C = ctx.bm25s.utils.corpus
    path = os.path.join(ctx.scratch(), "big.jsonl")
    n = 20000
    pad = gen.unicode_string(rng, 40)
    vals = [{"i": i, "t": pad[: i % 40] * (1 if i % 1000 else 5000 if i != 4000 else 1) + ("y" * 3000001 if i == 4000 else "")} for i in range(n)]
    with open(path, "w", encoding="utf-8", newline="\n") as f:
        for v in vals:
            f.write(json.dumps(v, ensure_ascii=False) + "\n")
    c = C.JsonlCorpus(path, show_progress=False, verbosity=0)
    c2 = C.JsonlCorpus(path, show_progress=False, verbosity=0)
    order = rng.sample(range(n), 3000) + [0, n - 1, 1000, 999, 1001]
    for i in order:
        eq(ctx, rng.choice([c, c2])[i], vals[i], f"big file, entry {i}")
    arr = np.array(order[:600]).reshape(20, 30)
    got = c[arr]
    for pos in np.ndindex(20, 30):
        eq(ctx, got[pos], vals[arr[pos]], f"big file, position {pos}")
    ctx.maximum("file_bytes", os.path.getsize(path))
    c.close()
    c2.close()
    ctx.nontrivial(("big", ctx.index, pad))


def case_beside(ctx, rng):
    """A line index of other lines lies where that of the file would: of a file with the same stem, or of the file's former content."""
    C = ctx.bm25s.utils.corpus
    d = ctx.scratch()
    a = os.path.join(d, "docs" + rng.choice([".jsonl", ".json", ""]))
    rewritten = rng.random() < 0.4
    b = a if rewritten else os.path.join(d, "docs" + rng.choice([e for e in (".jsonl", ".json", ".txt", "") if "docs" + e != os.path.basename(a)]))
    n = rng.choice([1, 2, 5, 20])
    va = make_file(rng, a, n, "dict")
    C.JsonlCorpus(a, show_progress=False, verbosity=0).close()
    old = C.find_newline_positions(a, show_progress=False)
    vb = make_file(rng, b, rng.choice([n, n, n + 3]), "dict")
    raw = open(b, "rb").read()
    what = f"{os.path.basename(b)} of {len(vb)} lines, " + ("rewritten after its line index was saved" if rewritten else f"next to {os.path.basename(a)} of {n} lines")
    c = C.JsonlCorpus(b, show_progress=False, verbosity=0)
    ok = len(c) == len(vb)
    for i in range(len(c)):
        try:
            got = c[i]
        except Exception as e:
            got = e
        if i < len(vb) and same(plain(got), vb[i]):
            ctx.count("entries_compared")
            continue
        ok = False
        # what the other file's offsets give in this one
        end = raw.find(b"\n", old[i]) if i < len(old) else -1
        piece = raw[old[i]:end + 1 if end >= 0 else len(raw)] if i < len(old) else None
        try:
            want = json.loads(piece.decode("utf-8"))
        except Exception as e:
            want = e
        mech = i < len(old) and (isinstance(got, Exception) and isinstance(want, Exception) or not isinstance(got, Exception) and not isinstance(want, Exception) and same(plain(got), want))
        ctx.check(mech, lambda: f"{what}: entry {i} is {got!r:.200}")
    if not ok:
        ctx.check(len(c) == len(old), lambda: f"{what}: {len(c)} entries")
        ctx.record_known("foreign-line-index", f"{what}: the line index found there is used although it belongs to other lines")
    c.close()
    # without the saved index, and for the first file (if it is still there), everything is as it should be
    os.unlink([os.path.join(d, f) for f in os.listdir(d) if "mmindex" in f][0])
    for p, v in [(b, vb)] + ([] if rewritten else [(a, va)]):
        c = C.JsonlCorpus(p, show_progress=False, verbosity=0, save_index=False)
        ctx.check(len(c) == len(v), lambda: f"{what}: without a saved index, {p} has {len(c)} entries instead of {len(v)}")
        for i in range(len(v)):
            eq(ctx, c[i], v[i], f"{what}: without a saved index, entry {i}")
        c.close()
    ctx.nontrivial(("beside", repr(vb)[:300], ctx.index))
