"""C25 dataset loaders: generated BEIR files are loaded in list and dictionary form and compared record by record and judgement by judgement with what was written.

The files are written by independent code as Unicode text; the same runs in processes without orjson and with a POSIX locale."""
import json
import os
import sys
from pathlib import Path

from .. import gen
from ..store import same
from ..util import *

LEVEL = "exploration"
RULE = ("corpora and queries (any Unicode text and ids, missing or null titles, with, without and with nested metadata, extra fields, several JSON styles, CRLF, no final newline), relevance files (0-20 judgements per query, graded and negative, "
        "all splits), dataset names and save_dir forms; list and dictionary form; missing files and bad splits. Non-trivial: a loaded record or judgement; distinct by content.")
ASSUMPTIONS = ["ids are unique within a file, contain no tab or line break", "files have no blank lines and no byte order mark"]
POSIX = {"LC_ALL": "POSIX", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}


def plan(tier):
    f = 1 if tier == "quick" else 100
    s = 60 if tier == "quick" else 2400
    c = [("records", 300 * f), ("qrels", 300 * f), ("errors", 40 * f)]
    return [dict(cases=c, workers=4, soft=s), dict(cases=c, workers=1, env={"MON_BLOCK": "orjson"}, soft=s), dict(cases=c, workers=1, env=POSIX, soft=s)]


def MIN(tier):
    return {"distinct": 800, "records_compared": 20000, "judgements_compared": 20000, "several_per_query": 1000, "without_metadata": 1000, "errors_reported": 200, "posix_files": 10 if tier else 0}


def ident(rng, i):
    k = rng.randrange(6)
    base = [str(i), f"MED-{i}", f"doc {i}", f"\u00fc{i}\u4e2d", "".join(c for c in gen.unicode_string(rng, 6) if c not in "\t\n\r") + f"#{i}", f"{i}@x/\\\"'"][k]
    if rng.random() < 0.03:
        base = rng.choice([" ", "\u00a0", "\u3000"]) + base
    if rng.random() < 0.03:
        base += rng.choice([" ", "  ", "\u00a0", "\u2028", "\x1f", "\x0c"])
    return base


def dump(rng, rec):
    k = rng.randrange(4)
    if k == 0:
        return json.dumps(rec)
    if k == 1:
        return json.dumps(rec, ensure_ascii=False)
    if k == 2:
        return json.dumps(rec, ensure_ascii=False, separators=(",", ":"))
    return " " + json.dumps(rec, ensure_ascii=False, separators=(" , ", " : ")) + " "


def write_jsonl(rng, path, recs):
    nl = rng.choice(["\n", "\n", "\n", "\r\n"])
    text = nl.join(dump(rng, r) for r in recs)
    if recs and rng.random() < 0.8:
        text += nl
    with open(path, "wb") as f:
        f.write(text.encode("utf-8"))


def record(rng, i, extra=True):
    items = [("_id", ident(rng, i))]
    k = rng.random()
    if k < 0.6:
        items.append(("title", gen.unicode_string(rng, 15)))
    elif k < 0.7:
        items.append(("title", rng.choice(["", None])))
    items.append(("text", gen.unicode_string(rng, rng.choice([0, 10, 60]))))
    k = rng.random()
    if k < 0.5:
        items.append(("metadata", {}))
    elif k < 0.7:
        items.append(("metadata", gen.json_value(rng, 2)))
    if extra and rng.random() < 0.2:
        items.append((rng.choice(["url", "lang", "\u00e4", "id", "doc_id", ""]), gen.json_value(rng, 2)))
    rng.shuffle(items)
    return dict(items)


def dataset(rng, ctx):
    name = rng.choice(["nq", "scifact", "my data", "a.b", "\u00fcber" if sys.getfilesystemencoding() == "utf-8" else "u", "cqadupstack/android", "jsonl"])
    root = ctx.scratch()
    os.makedirs(os.path.join(root, name, "qrels"))
    return name, root, os.path.join(root, name)


def case_records(ctx, rng):
    beir = ctx.bm25s.utils.beir
    name, root, d = dataset(rng, ctx)
    n = rng.choice([0, 1, 2, 5, 30, 80])
    recs = [record(rng, i) for i in range(n)]
    if rng.random() < 0.15:
        # ids that are numbers, and strings of the same digits
        for i, r in enumerate(recs):
            if rng.random() < 0.5:
                r["_id"] = 1000 + i // 2 if i % 2 else str(1000 + i // 2)
                ctx.count("number_ids")
    which = rng.choice(["corpus", "queries", "jsonl"])
    fname = {"corpus": "corpus.jsonl", "queries": "queries.jsonl"}.get(which) or rng.choice(["other.jsonl", "x", "queries.jsonl"])
    write_jsonl(rng, os.path.join(d, fname), recs)
    ctx.count("posix_files", os.environ.get("LC_ALL") == "POSIX")
    kw = {}
    remove, force = ["metadata"], which == "corpus"
    if which == "jsonl":
        kw["fname"] = fname
        remove = rng.choice([None, [], ["metadata"], ["text"]])
        force = rng.random() < 0.5
        kw.update(remove=remove, force_title=force)
        load = beir.load_jsonl
    else:
        load = getattr(beir, "load_" + which)
    expect = []
    for r in recs:
        e = dict(r)
        for k in remove or []:
            e.pop(k, None)
        ctx.count("without_metadata", "metadata" not in r)
        if force:
            e.setdefault("title", None)
        expect.append(e)
    sd = rng.choice([str, Path])(root)
    what = f"{load.__name__} of {n} records ({fname})"
    for form in rng.sample(["list", "dict", "default"], 3):
        k2 = dict(kw) if form == "default" else dict(kw, return_dict=form == "dict")
        got = load(name, save_dir=sd, show_progress=rng.random() < 0.1, **k2)
        if form == "list":
            ctx.check(isinstance(got, list) and len(got) == n, lambda: f"{what}: {len(got)} records returned")
            for i, (a, b) in enumerate(zip(got, expect)):
                ctx.check(same(a, b), lambda: f"{what}: record {i} returned as {a!r:.400} instead of {b!r:.400}")
        else:
            ctx.check(isinstance(got, dict) and len(got) == n, lambda: f"{what}: {len(got)} records returned in dictionary form")
            for b in expect:
                rest = {k: v for k, v in b.items() if k != "_id"}
                ctx.check(b["_id"] in got, lambda: f"{what}: no record {b['_id']!r} in {list(got)[:10]!r}")
                a = dict(got[b["_id"]])
                a.pop("_id", None)
                ctx.check(same(a, rest), lambda: f"{what}: {b['_id']!r} is {a!r:.400} instead of {rest!r:.400}")
            ctx.check(list(got) == [b["_id"] for b in expect], f"{what}: the order of the records changed")
        ctx.count("records_compared", n)
    for b in expect:
        ctx.nontrivial((which, b["_id"], repr(b)))
    ctx.sample(dict(what=what, first=expect[:1]))


def case_qrels(ctx, rng):
    beir = ctx.bm25s.utils.beir
    name, root, d = dataset(rng, ctx)
    content = {}
    for split in rng.sample(["train", "dev", "test"], rng.randint(1, 3)):
        q = []
        for i in range(rng.choice([0, 1, 2, 5, 30])):
            qid = ident(rng, i)
            for j in rng.sample(range(60), rng.choice([1, 1, 2, 3, 20])):
                q.append((qid, rng.choice([f"{j}.", ""]) + ident(rng, j), rng.choice([0, 1, 1, 2, 3, -1, 10])))
        if rng.random() < 0.5:
            rng.shuffle(q)
        nl = rng.choice(["\n", "\n", "\r\n"])
        text = nl.join([rng.choice(["query-id\tcorpus-id\tscore"] * 3 + ["query_id\tdoc_id\trelevance", "q\td\ts"])] + [f"{a}\t{b}\t{c}" for a, b, c in q]) + rng.choice([nl, nl, ""])
        if not q and rng.random() < 0.3:
            text = ""
        with open(os.path.join(d, "qrels", split + ".tsv"), "wb") as f:
            f.write(text.encode("utf-8"))
        content[split] = q
    sd = rng.choice([str, Path])(root)
    for split, q in content.items():
        kw = {} if split == "test" and rng.random() < 0.5 else dict(split=split)
        what = f"load_qrels({kw}) of {len(q)} judgements"
        got = beir.load_qrels(name, save_dir=sd, show_progress=False, return_dict=False, **kw)
        ctx.check([tuple(x) for x in got] == q and all(type(x[2]) is int for x in got), lambda: f"{what}: {got!r:.400} instead of {q!r:.400}")
        got = beir.load_qrels(name, save_dir=sd, show_progress=False, **(kw if rng.random() < 0.5 else dict(kw, return_dict=True)))
        want = {}
        for a, b, c in q:
            want.setdefault(a, {})[b] = c
        ctx.check(got == want, lambda: f"{what}: dictionary differs for queries {[k for k in set(got) | set(want) if got.get(k) != want.get(k)][:5]!r}: {got!r:.300} instead of {want!r:.300}")
        ctx.count("judgements_compared", 2 * len(q))
        ctx.count("several_per_query", sum(len(v) > 1 for v in want.values()))
        ctx.nontrivial((split, tuple(q)))
    ctx.count("posix_files", os.environ.get("LC_ALL") == "POSIX")
    # a split that is not there is not answered with another
    for split in {"train", "dev", "test"} - set(content):
        ctx.check(raises(beir.load_qrels, name, save_dir=sd, split=split) is not None, f"load_qrels: split {split} does not exist, but was loaded")
        ctx.count("errors_reported")


def case_errors(ctx, rng):
    beir = ctx.bm25s.utils.beir
    name, root, d = dataset(rng, ctx)
    write_jsonl(rng, os.path.join(d, "corpus.jsonl"), [record(rng, 0)])
    for fn in (lambda: beir.load_queries(name, save_dir=root), lambda: beir.load_corpus("absent", save_dir=root), lambda: beir.load_corpus(name, save_dir=root + "/absent"),
               lambda: beir.load_qrels(name, save_dir=root), lambda: beir.load_qrels(name, save_dir=root, split="validation"), lambda: beir.load_jsonl(name, "absent.jsonl", save_dir=root)):
        ctx.check(raises(fn) is not None, "a file that does not exist was loaded")
        ctx.count("errors_reported")
    before = sorted(os.listdir(d))
    beir.load_corpus(name, save_dir=root, show_progress=False)
    ctx.check(sorted(os.listdir(d)) == before, f"loading changed the dataset directory: {os.listdir(d)}")
