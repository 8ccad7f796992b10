"""An independent writer and reader of the on-disk layout (no bm25s code is used here)."""
import json
import os

import numpy as np

FILES = dict(data="data.csc.index.npy", indices="indices.csc.index.npy", indptr="indptr.csc.index.npy", vocab="vocab.index.json", params="params.index.json", nnoc="nonoccurrence_array.index.npy", corpus="corpus.jsonl")


def write_arrays(d, data, indices, indptr, nnoc=None):
    np.save(os.path.join(d, FILES["data"]), data)
    np.save(os.path.join(d, FILES["indices"]), indices)
    np.save(os.path.join(d, FILES["indptr"]), indptr)
    if nnoc is not None:
        np.save(os.path.join(d, FILES["nnoc"]), nnoc)


def write_json(path, value, **kw):
    with open(path, "w", encoding="utf-8") as f:
        json.dump(value, f, **kw)


def read(d, names=FILES):
    """What is in the directory, read without any code of bm25s."""
    p = lambda k: os.path.join(d, names[k])
    out = {k: np.load(p(k), allow_pickle=False) for k in ("data", "indices", "indptr")}
    out["vocab"] = json.loads(open(p("vocab"), "rb").read().decode("utf-8"))
    out["params"] = json.loads(open(p("params"), "rb").read().decode("utf-8"))
    out["nnoc"] = np.load(p("nnoc"), allow_pickle=False) if os.path.exists(p("nnoc")) else None
    if os.path.exists(p("corpus")):
        raw = open(p("corpus"), "rb").read()
        out["lines"] = raw.split(b"\n")
        if out["lines"] and out["lines"][-1] == b"":
            out["lines"].pop()
        out["corpus"] = [json.loads(x.decode("utf-8")) for x in out["lines"]]
        mm = os.path.join(d, names["corpus"].rsplit(".", 1)[0] + ".mmindex.json")
        out["mmindex"] = json.loads(open(mm, "rb").read()) if os.path.exists(mm) else None
    return out


def dense(x, n):
    """The documents x columns matrix of scores (float64), occurrence of postings included."""
    v = len(x["indptr"]) - 1
    m = np.zeros((n, v))
    seen = np.zeros((n, v), dtype=bool)
    for c in range(v):
        a, b = int(x["indptr"][c]), int(x["indptr"][c + 1])
        for i in range(a, b):
            r = int(x["indices"][i])
            if seen[r, c]:
                raise ValueError(f"two values for document {r} in column {c}")
            seen[r, c] = True
            m[r, c] = float(x["data"][i])
    if x["nnoc"] is not None:
        m += np.asarray(x["nnoc"], dtype=np.float64)[None, :v]
    return m
