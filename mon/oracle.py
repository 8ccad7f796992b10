"""Independent reference implementations (no bm25s code is used here)."""
import math
from collections import Counter

import numpy as np

METHODS = ["robertson", "lucene", "atire", "bm25l", "bm25+"]
EPS = {"float32": 2.0 ** -23, "float64": 2.0 ** -52}


def ref_idf(method, df, n):
    if method == "robertson":
        return max(0.0, math.log((n - df + 0.5) / (df + 0.5)))
    if method == "lucene":
        return math.log(1.0 + (n - df + 0.5) / (df + 0.5))
    if method == "atire":
        return math.log(n / df)
    if method == "bm25l":
        return math.log((n + 1.0) / (df + 0.5))
    if method == "bm25+":
        return math.log((n + 1.0) / df)
    raise KeyError(method)


def ref_tfc(method, tf, dl, avgdl, k1, b, delta):
    """tf may be an array (float64)."""
    norm = 1.0 - b + b * (dl / avgdl)
    if method in ("robertson", "lucene"):
        return tf / (tf + k1 * norm)
    if method == "atire":
        return tf * (k1 + 1.0) / (tf + k1 * norm)
    if method == "bm25l":
        c = tf / norm
        return (k1 + 1.0) * (c + delta) / (k1 + c + delta)
    if method == "bm25+":
        return tf * (k1 + 1.0) / (tf + k1 * norm) + delta
    raise KeyError(method)


def ref_tfc_zero(method, k1, delta):
    """term-frequency component of a document that does not contain the token."""
    if method == "bm25l":
        return (k1 + 1.0) * delta / (k1 + delta)
    if method == "bm25+":
        return delta
    return 0.0


class Ref:
    """Brute-force BM25 over a list of token lists, in double precision."""

    def __init__(self, docs, method="lucene", idf_method=None, k1=1.5, b=0.75, delta=0.5, **_):
        self.n = len(docs)
        self.method, self.idf_method = method, idf_method or method
        self.k1, self.b, self.delta = float(k1), float(b), float(delta)
        self.dl = np.array([len(d) for d in docs], dtype=np.float64)
        self.avgdl = float(sum(len(d) for d in docs)) / self.n
        post = {}
        for i, d in enumerate(docs):
            for t, c in Counter(d).items():
                post.setdefault(t, ([], []))
                post[t][0].append(i)
                post[t][1].append(c)
        self.post = {t: (np.array(i, dtype=np.int64), np.array(c, dtype=np.float64)) for t, (i, c) in post.items()}
        self._cache = {}

    def token(self, t):
        if t not in self._cache:
            idx, tf = self.post[t]
            idf = ref_idf(self.idf_method, len(idx), self.n)
            vals = idf * ref_tfc(self.method, tf, self.dl[idx], self.avgdl, self.k1, self.b, self.delta)
            self._cache[t] = (idx, vals, idf * ref_tfc_zero(self.method, self.k1, self.delta))
        return self._cache[t]

    def scores(self, query, mask=None):
        """(scores, magnitude) of every document; magnitude bounds the intermediate values."""
        s = np.zeros(self.n)
        m = np.zeros(self.n)
        for t, c in Counter(query).items():
            if t not in self.post:
                continue
            idx, vals, zero = self.token(t)
            if zero:
                s += c * zero
                m += c * 2 * abs(zero)
                s[idx] += c * (vals - zero)
            else:
                s[idx] += c * vals
            m[idx] += c * (np.abs(vals) + abs(zero))
        if mask is not None:
            w = np.asarray(mask, dtype=np.float64)
            s = s * w
            m = m * np.abs(w)
        return s, m

    def tol(self, query, magnitude, dtype="float32", slack=16):
        return (slack + len(query)) * EPS[dtype] * magnitude + 1e-300


def compare_scores(ctx, got, ref, tol, what, **detail):
    got = np.asarray(got, dtype=np.float64)
    ctx.check(got.shape == ref.shape, lambda: f"{what}: {got.shape} scores instead of {ref.shape}", **detail)
    ctx.count("scores_compared", got.size)
    bad = ~(np.abs(got - ref) <= tol)
    if bad.any():
        i = int(np.argmax(bad))
        ctx.fail(f"{what}: document {i} scores {got[i]!r}, the reference is {ref[i]!r} (tolerance {float(np.broadcast_to(tol, ref.shape)[i])!r}); "
                 f"{int(bad.sum())} of {bad.size} differ", **detail)


def check_topk(ctx, full, tol, idx, sc, k, sorted_, what, **detail):
    """idx/sc: one result row; full: every document's score; tol: per-document tolerance."""
    idx = np.asarray(idx)
    sc = np.asarray(sc, dtype=np.longdouble if full.dtype == np.longdouble else np.float64)
    n = len(full)
    ctx.count("rows_checked")
    ctx.check(idx.shape == (k,) and sc.shape == (k,), lambda: f"{what}: row of shape {idx.shape}/{sc.shape} instead of ({k},)", **detail)
    ctx.check(np.issubdtype(idx.dtype, np.integer), lambda: f"{what}: indices of type {idx.dtype}", **detail)
    il = idx.astype(np.int64)
    ctx.check(bool(((il >= 0) & (il < n)).all()), lambda: f"{what}: index out of range in {il[:20]} (n={n})", **detail)
    ctx.check(len(np.unique(il)) == k, lambda: f"{what}: repeated document in {il[:20]}", **detail)
    tol = np.broadcast_to(np.asarray(tol, dtype=np.float64), full.shape)
    d = np.abs(sc - full[il])
    # equal values include infinities
    ok = (d <= tol[il]) | (sc == full[il])
    if not ok.all():
        j = int(np.argmin(ok))
        ctx.fail(f"{what}: position {j}, document {il[j]} reported with score {sc[j]!r}, its score is {full[il[j]]!r}", **detail)
    if sorted_:
        ctx.check(bool((sc[:-1] >= sc[1:]).all()), lambda: f"{what}: scores not in non-increasing order: {sc[:20]}", **detail)
    if k < n:
        rest = np.ones(n, dtype=bool)
        rest[il] = False
        worst = int(il[np.argmin(full[il])])
        cand = np.flatnonzero(rest)
        best = int(cand[np.argmax(full[cand])])
        slack = tol[worst] + tol[best]
        ctx.check(full[best] <= full[worst] or full[best] - full[worst] <= slack,
                  lambda: f"{what}: document {best} with score {full[best]!r} left out, document {worst} with {full[worst]!r} returned", **detail)
