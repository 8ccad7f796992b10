"""C26 CQADupStack merge: generated sub-forums are merged and the merged files compared, as multisets of records, with independently computed ones; every file operation of merges is interrupted (death, failing and partial writes) and exceptions are raised at its lines, after which the next merge must complete.

Interruptions are process deaths and failing system calls injected by an interposed library in forked children; power loss is not modelled. Also without orjson and with a POSIX locale."""
import json
import os
from collections import Counter
from pathlib import Path

from .. import fault, gen
from ..store import same
from ..util import *
from . import c25

LEVEL = "exploration"
RULE = ("1-8 sub-forums of 0-40 records (shared ids, any Unicode, any fields, empty files, no final newline, CRLF), merged by call or by download_dataset's entry point, repeated; every file operation (sampled above 60) x kill, failing once, failing from then on, "
        "partial writes; exceptions at random lines; several interruptions in a row. Non-trivial: a merged record compared or an interruption; distinct by content and interruption.")
ASSUMPTIONS = ["sub-forum names contain no underscore (the prefix would be ambiguous)", "ids as in C25; process death, not power loss"]
POSIX = {"LC_ALL": "POSIX", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
prepare = fault.prepare


def plan(tier):
    f = 1 if tier == "quick" else 60
    s = 100 if tier == "quick" else 2400
    return [dict(cases=[("merge", 80 * f), ("crash", 40 * f), ("lines", 40 * f)], workers=4, soft=s), dict(cases=[("merge", 60 * f)], workers=1, env={"MON_BLOCK": "orjson"}, soft=s),
            dict(cases=[("merge", 60 * f)], workers=1, env=POSIX, soft=s)]


def MIN(tier):
    return {"distinct": 800, "records_compared": 10000, "judgements_compared": 5000, "merges_repeated": 150, "interruptions": 600, "completed_after_interruption": 600, "judgements_resolved": 2500, "exceptions_injected": 80, "killed": 150, "repeated_records": 60}


FORUMS = ["android", "english", "gaming", "gis", "mathematica", "physics", "programmers", "stats", "tex", "unix", "webmasters", "wordpress"]


def alike(rng, recs, forum):
    """Ids that look like prefixed ones, or differ from each other in one respect only."""
    style = rng.randrange(5)
    for i, r in enumerate(recs):
        if style == 0:
            r["_id"] = rng.choice([forum, forum + "_", rng.choice(FORUMS) + "_", forum + "_" + forum + "_"]) + str(i)
        elif style == 1:  # case
            r["_id"] = "".join(c.upper() if i >> b & 1 else c for b, c in enumerate("abcdefgh"))
        elif style == 2:  # leading zeros, blanks
            r["_id"] = "0" * (i % 7) + "1" + "  "[:i // 7 % 3] + "." * (i // 21)
        elif style == 3:  # composed and decomposed, full width
            r["_id"] = ["\u00e9", "e\u0301", "\u212a", "K", "k", "\uff2b"][i % 6] + str(i // 6)
        else:
            r["_id"] = ["1", "1.0", "01", "+1", "1e0", "True", "None", "nan", "-0", "0", "_", "__", "_1", "1_"][i % 14] + "x" * (i // 14)


def make(ctx, rng, small=False):
    """(directory, expected corpus, queries, judgements)"""
    d = os.path.join(ctx.scratch(), "cqadupstack")
    os.makedirs(d)
    corpus, queries, qrels = [], [], []
    for f in rng.sample(FORUMS, rng.choice([1, 2, 3] if small else [1, 2, 3, 5, 8])):
        p = os.path.join(d, f)
        os.makedirs(os.path.join(p, "qrels"))
        nc, nq = rng.choice([0, 1, 3] if small else [0, 1, 5, 40]), rng.choice([0, 1, 2] if small else [0, 1, 3, 10])
        cs, qs = [c25.record(rng, i) for i in range(nc)], [c25.record(rng, i) for i in range(nq)]
        if rng.random() < 0.3:
            alike(rng, cs, f)
        if rng.random() < 0.3:
            alike(rng, qs, f)
        # a sub-forum may lack any of the files
        lacks = [n for n in ("corpus", "queries", "qrels") if rng.random() < 0.06]
        if "corpus" in lacks:
            cs = []
        if "queries" in lacks:
            qs = []
        for r in cs + qs:
            r["_id"] = r["_id"] or "x"
            if rng.random() < 0.02:
                r["_id"] = int(rng.random() * 1e6)
        # records that stand in a file more than once, next to each other or not
        cs2, qs2 = list(cs), list(qs)
        if rng.random() < 0.15:
            for x in (cs2, qs2):
                for _ in range(rng.randint(0, 2) if x else 0):
                    x.insert(rng.randrange(len(x) + 1), rng.choice(x))
                    ctx.count("repeated_records")
        if "corpus" not in lacks:
            c25.write_jsonl(rng, os.path.join(p, "corpus.jsonl"), cs2)
        if "queries" not in lacks:
            c25.write_jsonl(rng, os.path.join(p, "queries.jsonl"), qs2)
        lines = []
        ctx.count("files_lacking", len(lacks))
        for q in qs if "qrels" not in lacks else []:
            for c in rng.sample(cs, min(len(cs), rng.choice([1, 2, 5]))):
                lines.append((q["_id"], c["_id"], rng.choice([0, 1, 1, 2])))
        nl = rng.choice(["\n", "\n", "\r\n"])
        text = nl.join([rng.choice(["query-id\tcorpus-id\tscore"] * 3 + ["query_id\tdoc_id\trelevance", "q\td\ts"])] + ["%s\t%s\t%d" % l for l in lines]) + rng.choice([nl, nl, ""])
        if not lines and rng.random() < 0.3:
            text = ""
        if "qrels" not in lacks:
            with open(os.path.join(p, "qrels", "test.tsv"), "wb") as fh:
                fh.write(text.encode("utf-8"))
        corpus += [dict(r, _id=f"{f}_{r['_id']}") for r in cs2]
        queries += [dict(r, _id=f"{f}_{r['_id']}") for r in qs2]
        qrels += [(f"{f}_{a}", f"{f}_{b}", s) for a, b, s in lines]
    if rng.random() < 0.2:
        os.makedirs(os.path.join(d, "empty-directory"))
        with open(os.path.join(d, "README.txt"), "w") as fh:
            fh.write("x")
    return d, corpus, queries, qrels


def read_jsonl(path):
    with open(path, "rb") as f:
        text = f.read().decode("utf-8")
    return [json.loads(l) for l in text.split("\n") if l.strip()]


def key(r):
    return json.dumps(r, sort_keys=True)


def snapshot(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), "rb") as fh:
                out[os.path.relpath(os.path.join(p, f), d)] = fh.read()
    return out


def verify(ctx, d, corpus, queries, qrels, what):
    for name, want in (("corpus.jsonl", corpus), ("queries.jsonl", queries)):
        p = os.path.join(d, name)
        ctx.check(os.path.exists(p), f"{what}: {name} does not exist")
        got = {}
        raw = read_jsonl(p)
        for r in raw:
            got.setdefault(r.get("_id"), []).append(r)
        ctx.check(len(raw) == len(want), lambda: f"{what}: {name} holds {len(raw)} records instead of {len(want)}")
        times = Counter(r["_id"] for r in want)
        for r in want:
            ctx.check(len(got.get(r["_id"], [])) == times[r["_id"]] and all(same(x, r) for x in got[r["_id"]]), lambda: f"{what}: {name}: {r['_id']!r} is {got.get(r['_id'])!r:.300} instead of {r!r:.300}")
        ctx.count("records_compared", len(want))
    with open(os.path.join(d, "qrels", "test.tsv"), "rb") as f:
        lines = f.read().decode("utf-8").split("\n")
    ctx.check(len(lines[0].split("\t")) == 3 and not lines[0].split("\t")[2].strip().lstrip("-").isdigit(), lambda: f"{what}: the merged judgements start with {lines[0]!r} instead of a header")
    got = Counter((a, b, int(c)) for a, b, c in (l.rstrip("\r").split("\t") for l in lines[1:] if l.strip()))
    ctx.check(got == Counter(qrels), lambda: f"{what}: judgements differ: {list((got - Counter(qrels)).items())[:3]!r} too many, {list((Counter(qrels) - got).items())[:3]!r} missing")
    ctx.count("judgements_compared", len(qrels))


def load(ctx, d, corpus, queries, qrels, what):
    beir = ctx.bm25s.utils.beir
    root = os.path.dirname(d)
    c, q = beir.load_corpus("cqadupstack", save_dir=root, show_progress=False), beir.load_queries("cqadupstack", save_dir=root, show_progress=False)
    j = beir.load_qrels("cqadupstack", save_dir=root, show_progress=False)
    ctx.check(set(c) == {r["_id"] for r in corpus} and set(q) == {r["_id"] for r in queries}, f"{what}: the merged dataset loads with other ids")
    ctx.check(sum(map(len, j.values())) == len(qrels), f"{what}: the merged dataset loads with {sum(map(len, j.values()))} judgements instead of {len(qrels)}")
    for a in j:
        ctx.check(a in q, lambda: f"{what}: judgements of {a!r}, which is no query")
        for b in j[a]:
            ctx.check(b in c, lambda: f"{what}: judgement of {b!r}, which is no document")
            ctx.count("judgements_resolved")


def case_merge(ctx, rng):
    merge = ctx.bm25s.utils.beir.merge_cqa_dupstack
    d, *exp = make(ctx, rng)
    before = snapshot(d)
    for i in range(rng.choice([2, 3])):
        merge(rng.choice([str, Path])(d))
        what = f"merge {i + 1} of {len(exp[0])} documents, {len(exp[1])} queries, {len(exp[2])} judgements"
        verify(ctx, d, *exp, what)
        now = snapshot(d)
        if i == 0:
            first = now
        else:
            ctx.check(now == first, lambda: f"{what} changed {[k for k in set(now) | set(first) if now.get(k) != first.get(k)]}")
            ctx.count("merges_repeated")
        for k in before:
            ctx.check(now.get(k) == before[k], lambda: f"{what} changed {k}")
    load(ctx, d, *exp, what)
    for r in exp[0] + exp[1]:
        ctx.nontrivial(key(r))
    # losing one merged file only brings it back
    victim = rng.choice(["corpus.jsonl", "queries.jsonl", "qrels/test.tsv"])
    os.remove(os.path.join(d, victim))
    merge(d)
    verify(ctx, d, *exp, f"merge after {victim} was removed")
    ctx.sample(dict(what=what, files=sorted(first)))


def state(ctx, rng, d):
    """Some of the work may have been done before."""
    k = rng.randrange(4)
    if k == 1:
        ctx.bm25s.utils.beir.merge_cqa_dupstack(d)
        os.remove(os.path.join(d, rng.choice(["corpus.jsonl", "queries.jsonl", "qrels/test.tsv"])))
    return k == 1


def case_crash(ctx, rng):
    merge = ctx.bm25s.utils.beir.merge_cqa_dupstack
    d, *exp = make(ctx, rng, small=rng.random() < 0.7)
    state(ctx, rng, d)
    base = os.path.realpath(d)
    import shutil
    keep = base + "-start"
    shutil.copytree(base, keep)

    def reset():
        shutil.rmtree(base)
        shutil.copytree(keep, base)
    rep = fault.inject(base, lambda: None, lambda st: merge(base), None)
    ctx.check(rep["error"] is None and rep["killed"] is None, lambda: f"merge failed: {rep}")
    verify(ctx, d, *exp, "merge in a child")
    total = rep["seen"]
    todo = [(n, m) for n in range(1, total + 1) for m in (fault.KILL, fault.FAIL_ONCE, fault.FAIL_STICKY)]
    lim = 60 if not ctx.thorough else 400
    if len(todo) > lim:
        todo = sorted(rng.sample(todo, lim))
    for n, mode in todo:
        reset()
        times = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            frac = rng.choice([0, 1, 50, 99])
            rep = fault.inject(base, lambda: None, lambda st: merge(base), None, n=n, mode=mode, frac=frac, err=rng.choice(fault.ERRORS))
            times.append((n, mode, frac, rep["killed"], rep["error"]))
            ctx.count("interruptions", bool(rep["killed"] or rep["fired"]))
            ctx.count("killed", bool(rep["killed"]))
            if not rep["killed"] and rep["error"] is None:
                verify(ctx, d, *exp, f"merge that reported success although operations failed {times}")
            n = rng.randint(1, total)
        merge(d)
        what = f"merge after interruptions {times} of a merge of {len(exp[0])}+{len(exp[1])}+{len(exp[2])} records"
        verify(ctx, d, *exp, what)
        ctx.count("completed_after_interruption")
        ctx.nontrivial(("crash", tuple(times), len(exp[0]), ctx.index))
    load(ctx, d, *exp, what)
    shutil.rmtree(keep)


def case_lines(ctx, rng):
    """Exceptions (also KeyboardInterrupt) raised between any two lines."""
    merge = ctx.bm25s.utils.beir.merge_cqa_dupstack
    d, *exp = make(ctx, rng, small=True)
    import shutil
    keep = d + "-start"
    shutil.copytree(d, keep)
    total, err = fault.trace_raise(lambda: merge(d), os.path.join(ctx.repo, "bm25s"), 0, None)
    ctx.check(err is None, lambda: f"merge raised {err!r}")
    for n in sorted({rng.randint(1, total) for _ in range(6 if not ctx.thorough else 30)}):
        shutil.rmtree(d)
        shutil.copytree(keep, d)
        e = rng.choice([KeyboardInterrupt("injected"), SystemExit("injected"), RuntimeError("injected"), MemoryError("injected")])
        _, err = fault.trace_raise(lambda: merge(d), os.path.join(ctx.repo, "bm25s"), n, e)
        ctx.count("exceptions_injected")
        ctx.count("interruptions")
        if err is None:
            verify(ctx, d, *exp, f"merge in which {e!r} at line event {n} was swallowed")
        merge(d)
        verify(ctx, d, *exp, f"merge after {e!r} at line event {n}")
        ctx.count("completed_after_interruption")
        ctx.nontrivial(("lines", n, repr(e), ctx.index))
