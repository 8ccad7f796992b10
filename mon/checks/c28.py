"""C28 evaluation metrics: evaluate() is compared with NDCG, MAP, recall and precision computed by independent code in exact rational (and float64) arithmetic, and the conversion of retrieval output with the pairs it was given.

Caller's judgements and results must be unchanged; results come from generated rankings and from real retrievals. Ties in the score are ranked by descending document id (the convention of trec_eval)."""
import math
from fractions import Fraction

import numpy as np

from .. import gen
from ..util import *

LEVEL = "exploration"
RULE = ("judgements (graded, zero, negative, 0-40 per query, queries without results), results (0-200 documents, ties, negative scores, without judgements, the query's own id among them), 1-8 cutoffs in any order and repeated, ignore_identical_ids "
        "default/True/False; retrieval output as Results, tuples, arrays and lists, also from real retrievals. Non-trivial: a metric value with at least one relevant document; distinct by judgements, results and cutoffs.")
ASSUMPTIONS = ["scores are finite and exactly representable in float32 (trec_eval compares float32)", "at least one query has both judgements and results", "documents of a result are distinct", "grades are at least -1 (below, pytrec_eval itself reads out of bounds)",
               "a query is evaluated when it has judgements and an entry in the results, which may be empty"]


def plan(tier):
    f = 1 if tier == "quick" else 150
    s = 60 if tier == "quick" else 2400
    return [dict(cases=[("metrics", 700 * f), ("convert", 200 * f), ("endtoend", 60 * f)], workers=5, soft=s)]


def MIN(tier):
    return {"distinct": 500, "metrics_compared": 12000, "metrics_between_0_and_1": 6000, "own_id_ranked": 300, "own_id_matters": 100, "graded": 200, "repeated_cutoffs": 50, "unjudged_queries": 300, "unanswered_queries": 300, "conversions": 300, "inputs_unchanged": 700, "ties": 300, "long_conversions": 3}


def ident(rng, i, what):
    return rng.choice([f"{what}{i}", str(i), f"MED-{i}", f"{what} {i}", f"\u00e9\u4e2d{i}", f"test@{i}" if rng.random() < 0.2 else f"x{i}"]) + f".{i}"


def lookalikes(rng, ids):
    """As many ids, differing from each other in case, blanks, zeros or composition only."""
    k = rng.randrange(4)
    new = [[x, x.upper(), x.lower(), x.title()][i % 4] if k == 0 else [x, x + " ", " " + x][i % 3] if k == 1 else ["%d", "%d.0", "0%d", "+%d", "%d_"][i % 5] % (i // 5) if k == 2 else ["\u00e9", "e\u0301", "\u212a", "K", "k"][i % 5] + str(i // 5)
           for i, x in enumerate(ids[i // 4 * 4] for i in range(len(ids)))]
    return list(dict.fromkeys(new + ids))[:len(ids)]


def reference(qrels, results, ks, ignore):
    """{metric@k: Fraction or float}, the number of evaluated queries, and whether a document of the query's own id was skipped."""
    ks = set(ks)
    out = {f"{m}@{k}": 0.0 for m in ("NDCG", "MAP", "Recall", "P") for k in ks}
    for k in ks:
        for m in ("MAP", "Recall", "P"):
            out[f"{m}@{k}"] = Fraction(0)
    n = 0
    for qid in results:
        if qid not in qrels or not qrels[qid]:
            continue
        n += 1
        rel = qrels[qid]
        docs = [d for d in results[qid] if not (ignore and d == qid)]
        docs.sort(key=lambda d: (results[qid][d], d.encode("utf-8")), reverse=True)
        relevant = {d for d, g in rel.items() if g > 0}
        ideal = sorted((g for g in rel.values() if g > 0), reverse=True)
        for k in ks:
            top = docs[:k]
            hits, ap = 0, Fraction(0)
            dcg = 0.0
            for i, d in enumerate(top, 1):
                if d in relevant:
                    hits += 1
                    ap += Fraction(hits, i)
                    dcg += rel[d] / math.log2(i + 1)
            idcg = math.fsum(g / math.log2(i + 1) for i, g in enumerate(ideal[:k], 1))
            out[f"P@{k}"] += Fraction(hits, k)
            if relevant:
                out[f"Recall@{k}"] += Fraction(hits, len(relevant))
                out[f"MAP@{k}"] += ap / len(relevant)
                out[f"NDCG@{k}"] += dcg / idcg
    return {m: float(v / n) for m, v in out.items()} if n else None, n


def judge(ctx, qrels, results, ks, kw):
    ignore = kw.get("ignore_identical_ids", True)
    want, n = reference(qrels, results, ks, ignore)
    if want is None:
        ctx.count("nothing_to_evaluate")
        return None
    before = freeze(qrels), freeze(results), list(ks)
    from bm25s.utils.beir import evaluate
    got = evaluate(qrels, results, ks, **kw)
    ctx.check(freeze(qrels) == before[0], "evaluate changed the caller's judgements", before=qrels)
    ctx.check(freeze(results) == before[1], lambda: f"evaluate changed the caller's results to {results!r:.600}")
    ctx.check(list(ks) == before[2], "evaluate changed the caller's cutoffs")
    ctx.count("inputs_unchanged")
    ctx.check(isinstance(got, tuple) and len(got) == 4, lambda: f"evaluate returned {got!r:.200}")
    for part, m in zip(got, ("NDCG", "MAP", "Recall", "P")):
        ctx.check(set(part) == {f"{m}@{k}" for k in ks}, lambda: f"{m}: cutoffs {list(part)} instead of {ks}")
        for name, v in part.items():
            w = want[name]
            ctx.check(abs(v - w) <= 0.5e-5 + 1e-9, lambda: f"{name} is {v!r}, the definition gives {w!r} over {n} queries", qrels=qrels, results=results, ks=ks, kw=kw)
            ctx.check(abs(v * 1e5 - round(v * 1e5)) < 1e-6, lambda: f"{name} = {v!r} is not rounded to five digits")
            ctx.count("metrics_compared")
            ctx.count("metrics_between_0_and_1", 0 < w < 1)
    if any(want.values()):
        ctx.nontrivial((freeze(qrels), freeze(results), tuple(ks), ignore))
    return want


def cutoffs(rng, ctx):
    ks = [rng.choice([1, 2, 3, 5, 10, 20, 100, 1000, 5000, rng.randint(1, 60)]) for _ in range(rng.randint(1, 8))]
    if rng.random() < 0.4:
        ks = sorted(set(ks))
    if len(set(ks)) < len(ks):
        ctx.count("repeated_cutoffs")
    return ks


def case_metrics(ctx, rng):
    nq, nd = rng.randint(1, 12), rng.choice([1, 4, 12, 40, 250])
    wide = rng.random() < 0.03  # more results and judgements than any usual limit
    if wide:
        nq, nd = rng.randint(1, 3), rng.choice([1100, 3000])
    qids = list(dict.fromkeys(ident(rng, i, "q") for i in range(nq)))
    pool = list(dict.fromkeys(ident(rng, i, "d") for i in range(nd)))
    if rng.random() < 0.15:
        pool, qids = lookalikes(rng, pool), lookalikes(rng, qids)
    qrels, results = {}, {}
    for i, q in enumerate(qids):
        docs = pool + ([q] if rng.random() < 0.5 else [])
        if rng.random() < 0.85 or i == 0:
            g = rng.choice([[1], [0, 1], [0, 1, 2], [-1, 0, 1, 2, 3], [1, 2, 3, 4], [0], [-1, 5], [1, 300]])
            qrels[q] = {d: rng.choice(g) for d in rng.sample(docs, rng.randint(1, min(len(docs), 2000 if wide else rng.choice([1, 3, 40]))))}
            ctx.count("graded", len(set(qrels[q].values())) > 2)
        if rng.random() < 0.85 or i == 0:
            n = rng.randint(len(docs) // 2, len(docs)) if wide else rng.randint(0, min(len(docs), 200))
            grid = rng.choice([1, 4, 1 << 12])
            picked = rng.sample(docs, n)
            if q in docs and q not in picked and rng.random() < 0.5:
                picked.append(q)
            rng.shuffle(picked)
            r = {d: float(np.float32(rng.randint(-grid if rng.random() < 0.2 else 0, 8 * grid) / 4)) for d in picked}
            if q in r and rng.random() < 0.5:
                r[q] = float(np.float32(8.0 * grid))
            results[q] = r
            ctx.count("ties", len(set(r.values())) < len(r))
            if q in r:
                ctx.count("own_id_ranked")
    if rng.random() < 0.4:
        order = list(results)
        rng.shuffle(order)
        results = {q: results[q] for q in order}
    if rng.random() < 0.1:
        qrels[rng.choice(qids)] = {}
    ctx.count("unjudged_queries", len(set(results) - set(qrels)))
    ctx.count("unanswered_queries", len(set(qrels) - set(results)))
    ks = cutoffs(rng, ctx)
    seen = []
    for kw in rng.sample([{}, dict(ignore_identical_ids=True), dict(ignore_identical_ids=False)], 2):
        seen.append((kw.get("ignore_identical_ids", True), judge(ctx, qrels, results, ks, kw)))
    if seen[0][0] != seen[1][0] and seen[0][1] != seen[1][1]:
        ctx.count("own_id_matters")
    ctx.sample(dict(qrels=qrels, results=results, ks=ks))


def case_convert(ctx, rng):
    from bm25s.utils.beir import clean_results_keys, postprocess_results_for_eval
    nq, nd, k = rng.randint(0, 12), rng.choice([1, 5, 50]), rng.randint(1, 30)
    if rng.random() < 0.06:
        nq, nd, k = rng.randint(1, 3), 3000, rng.choice([1001, 1025, 2000, 3000])
        ctx.count("long_conversions")
    k = min(k, nd)
    qids = list(dict.fromkeys(rng.choice([ident(rng, i, "q"), i]) for i in range(nq)))
    pool = list(dict.fromkeys(ident(rng, i, "d") for i in range(nd)))
    if rng.random() < 0.2:
        pool = lookalikes(rng, pool)
    hits = [rng.sample(pool, k) for _ in qids]
    sc = [sorted((float(np.float32(rng.uniform(-3, 30))) for _ in range(k)), reverse=True) for _ in qids]
    form = rng.randrange(4)
    dt = rng.choice(["float32", "float64"])
    if form == 0:
        a, b = hits, sc
    elif form == 1:
        a, b = np.array(hits, dtype=object).reshape(len(qids), k), np.array(sc, dtype=dt).reshape(len(qids), k)
    elif form == 2:
        a, b = np.array(hits).reshape(len(qids), k), np.array(sc, dtype=dt).reshape(len(qids), k)
    else:
        a, b = [tuple(h) for h in hits], [np.array(s, dtype=dt) for s in sc]
    before = freeze([np.asarray(a).tolist() if form in (1, 2) else a, np.asarray(b).tolist() if form in (1, 2) else [list(map(float, x)) for x in b], qids])
    ids = rng.choice([list, tuple, lambda x: np.array(x, dtype=object)])(qids)
    got = postprocess_results_for_eval(a, b, ids)
    want = {q: {d: float(np.dtype(dt).type(s)) if form else s for d, s in zip(h, x)} for q, h, x in zip(qids, hits, sc)}
    ctx.check(list(got) == qids, lambda: f"queries {list(got)!r:.300} instead of {qids!r:.300}")
    for q in qids:
        ctx.check(dict(got[q]) == want[q], lambda: f"query {q!r} has {got[q]!r:.400} instead of {want[q]!r:.400}")
        ctx.check(all(isinstance(s, float) for s in got[q].values()), lambda: f"scores of {q!r} are no floats: {list(got[q].values())[:3]!r}")
        ctx.count("conversions")
        ctx.nontrivial((q, freeze(want[q])))
    after = freeze([np.asarray(a).tolist() if form in (1, 2) else a, np.asarray(b).tolist() if form in (1, 2) else [list(map(float, x)) for x in b], qids])
    ctx.check(before == after, "the conversion changed its arguments")
    # keys of the form "<anything>@<query id>" are the query ids
    plain = [q for q in map(str, qids) if "@" not in q]
    pre = {rng.choice(["", "run@", "a@b@", "\u00e9@"]) + q: want[x] for q, x in zip(plain, qids)} if len(plain) == len(qids) else {}
    got = clean_results_keys(pre)
    ctx.check(list(got) == (plain if pre else []) and all(got[q] == want[x] for q, x in zip(plain, qids) if pre), lambda: f"clean_results_keys gave {got!r:.300} for {pre!r:.300}")
    ctx.count("keys_cleaned", len(pre))


def case_endtoend(ctx, rng):
    from bm25s.utils.beir import postprocess_results_for_eval
    docs = gen.corpus(rng, n_docs=rng.randint(3, 40))
    p = gen.params(rng)
    voc = gen.vocab_of(docs)
    if not voc:
        return
    pool = [f"D{i}" for i in range(len(docs))]
    rng.shuffle(pool)
    r = make(ctx, docs, p)
    qs = [gen.query(rng, voc, unknown=0.1) for _ in range(rng.randint(1, 6))]
    qids = [f"Q{i}" if rng.random() < 0.6 else rng.choice(pool) for i in range(len(qs))]
    if len(set(qids)) < len(qids):
        return
    k = rng.randint(1, len(docs))
    src = pool if rng.random() < 0.5 else np.array(pool)
    res = r.retrieve([list(q) for q in qs], corpus=src, k=k, show_progress=False)
    got = postprocess_results_for_eval(*(res if rng.random() < 0.5 else (res.documents, res.scores)), qids)
    for i, q in enumerate(qids):
        full = np.asarray(r.get_scores(list(qs[i])))
        ctx.check(len(got[q]) == k, lambda: f"query {q} keeps {len(got[q])} of {k} documents")
        for d, s in got[q].items():
            ctx.check(float(full[pool.index(str(d))]) == s, lambda: f"document {d} of query {q} has score {s!r}, the index gives {full[pool.index(str(d))]!r}")
        ctx.count("conversions")
    results = {str(q): {str(d): float(np.float32(s)) for d, s in v.items()} for q, v in got.items()}
    qrels = {q: {d: rng.choice([0, 1, 2]) for d in rng.sample(pool, rng.randint(1, len(pool)))} for q in qids}
    judge(ctx, qrels, results, cutoffs(rng, ctx), {})
