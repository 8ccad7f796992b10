"""C14 interrupted saves: fault enumeration with an interposed C library (kill before or inside, fail once, fail from then on, at every file operation of a save) and exceptions raised at traced lines; an oracle on what the directory loads as afterwards.

Every file operation below the directory is interrupted in every mode (sampled above 70 operations); process death, not power loss, is injected, so page-cache durability is not decided."""
import resource
import shutil

from .. import fault, gen
from ..fault import prepare
from ..oracle import Ref
from ..store import *
from ..util import *

LEVEL = "fault_enumeration"
RULE = ("an old state of the directory (empty, absent, an index with or without corpus, the same documents under other parameters) and a new save (fresh retriever, retriever loaded from there memory-mapped or not, custom names); "
        "every file operation of the save is interrupted. Non-trivial: an injected fault; distinct by (operation interrupted, mode, old state, saver).")
ASSUMPTIONS = ["an interrupted save is a process kill, a failing operation or an exception; operations already done stay visible"]


def plan(tier):
    f = 1 if tier == "quick" else 40
    return [dict(cases=[("ops", 70 * f), ("lines", 60 * f), ("twice", 30 * f), ("limit", 40 * f)], workers=7, soft=45 if tier == "quick" else 2400)]


def MIN(tier):
    return {"distinct": 300, "faults_fired": 3000, "kills": 1000, "failed_saves_probed": 500, "limits_hit": 200, "loads_judged": 6000}


def snapshot(ctx, d, nm, voc):
    """What the directory loads as: one outcome per way of loading it."""
    out = {}
    for mm in (False, True):
        for lc in (False, True):
            try:
                r = ctx.bm25s.BM25.load(d, mmap=mm, load_corpus=lc, **nm)
            except Exception as e:
                out[mm, lc] = ("raised", type(e).__name__)
                continue
            try:
                out[mm, lc] = ("loaded", answers(r, voc), None if not lc or r.corpus is None else freeze(read_records(r.corpus)))
            except Exception as e:
                out[mm, lc] = ("broken", f"{type(e).__name__}: {e}"[:200])
            if getattr(r, "corpus", None) is not None and hasattr(r.corpus, "close"):
                r.corpus.close()
    return out


def answers(r, voc):
    n = r.scores["num_docs"]
    a = [freeze({k: getattr(r, k) for k in PARAMS if hasattr(r, k)}), n]
    for t in voc:
        a.append(freeze(r.get_scores([t])))
    if n:
        a.append(freeze(r.retrieve([list(voc[:4])], k=n, corpus=list(range(n)), show_progress=False, backend_selection="numpy")))
    return tuple(a)


def scenario(ctx, rng):
    """Old and new save functions and the loadable outcomes each gives when complete."""
    B = ctx.bm25s.BM25
    nm = names(rng, rng.random() < 0.25)
    docs = gen.corpus(rng, n_docs=rng.choice([None, None, 2, 200 if ctx.index % 10 == 0 else 8]))
    p = variant(rng, rng.randrange(25))
    rel = rng.choice(["params", "params", "permuted", "extended", "other", "shrunk"])
    docs2, p2 = list(docs), dict(p)
    if rel == "params":
        p2 = variant(rng, rng.randrange(25))
    elif rel == "permuted":
        rng.shuffle(docs2)
    elif rel == "extended":
        docs2 = docs2 + [rng.choice(docs)]
    elif rel == "shrunk":
        docs2 = docs2[: max(1, len(docs2) // 2)]
    else:
        docs2 = gen.corpus(rng)
    voc = sorted(set(gen.vocab_of(docs)) | set(gen.vocab_of(docs2)) | {"__unknown__"})
    voc = rng.sample(voc, min(12, len(voc)))
    old_kind = rng.choice(["absent", "empty", "index", "index", "index+corpus", "index+corpus", "index+corpus"])
    saver = "fresh"
    if old_kind == "index+corpus" and rng.random() < 0.4:
        saver = rng.choice(["mmap", "memory"])
    r1 = B(**p)
    r1.index(docs, show_progress=False)
    r2 = B(**p2)
    r2.index(docs2, show_progress=False)
    c1 = corpus_for(rng, len(docs), rng.choice(["str", "dict", "list"]))[0] if old_kind == "index+corpus" else None
    c2 = corpus_for(rng, len(docs2), rng.choice(["str", "dict", "list"]))[0] if rng.random() < 0.6 or old_kind == "index+corpus" else None
    base = ctx.scratch()
    old = os.path.join(base, "old")
    if old_kind != "absent":
        os.mkdir(old)
    if old_kind.startswith("index"):
        r1.save(old, corpus=c1, **nm)
    d = os.path.join(base, "live", "index") if old_kind == "absent" else os.path.join(base, "index")

    def reset():
        shutil.rmtree(d, ignore_errors=True)
        if old_kind != "absent":
            shutil.copytree(old, d)
        else:
            shutil.rmtree(os.path.dirname(d), ignore_errors=True)

    def before():
        """(retriever, corpus argument) that is going to be saved into d."""
        if saver == "fresh":
            return r2, c2
        return B.load(d, mmap=saver == "mmap", load_corpus=True, **nm), None

    def save(state):
        state[0].save(d, corpus=state[1], **nm)

    return dict(nm=nm, voc=voc, old_kind=old_kind, saver=saver, d=d, reset=reset, before=before, save=save, rel=rel, base=base, p=p, p2=p2,
                expected=answers(r2 if saver == "fresh" else r1, voc))


def judge(ctx, sc, allowed, what):
    """The directory loads as one of the complete states in every way of loading, or raises."""
    got = snapshot(ctx, sc["d"], sc["nm"], sc["voc"])
    for key, g in got.items():
        ctx.count("loads_judged")
        if g[0] == "raised":
            ctx.count("loads_raised")
            continue
        ok = any(g == a[key] for a in allowed)
        ctx.check(ok, lambda: f"{what}: loading (mmap={key[0]}, load_corpus={key[1]}) gives {g[0]} {g[1] if g[0] == 'broken' else ''} which is no completely saved index "
                  f"({'only its corpus differs' if g[0] == 'loaded' and any(a[key][:2] == g[:2] for a in allowed) else 'its answers differ'})", got=g, allowed=[a[key] for a in allowed])
        ctx.count("loads_complete")


def complete(ctx, sc):
    """A dry run: counts the operations and gives the outcome of the complete save."""
    sc["reset"]()
    old = snapshot(ctx, sc["d"], sc["nm"], sc["voc"])
    sc["reset"]()
    rep = fault.inject(sc["base"], sc["before"], sc["save"], lambda st, e: answers(st[0], sc["voc"]))
    ctx.check(rep["killed"] is None and rep["error"] is None, lambda: f"complete save failed: {rep}")
    new = snapshot(ctx, sc["d"], sc["nm"], sc["voc"])
    for key, g in new.items():
        ctx.check(g[0] == "loaded" and g[1] == sc["expected"], lambda: f"a completed save loads (mmap={key[0]}) as {g!r:.300} instead of the index saved {sc['expected']!r:.300}")
    ctx.check(rep["after"] == sc["expected"], lambda: "the retriever saved answers differently afterwards")
    return old, new, rep


MODES = [(fault.KILL, 0), (fault.KILL, 50), (fault.KILL, 100), (fault.FAIL_STICKY, 0), (fault.FAIL_STICKY, 40), (fault.FAIL_ONCE, 0), (fault.FAIL_ONCE, 60)]


def one_fault(ctx, sc, n, mode, frac, err, allowed, op):
    rep = fault.inject(sc["base"], sc["before"], sc["save"], lambda st, e: answers(st[0], sc["voc"]), n=n, mode=mode, frac=frac, err=err)
    what = f"save over {sc['old_kind']} ({sc['rel']}, saver {sc['saver']}), {'killed at' if mode == fault.KILL else 'failure at'} operation {n} ({op}), part {frac}%"
    if rep["killed"]:
        ctx.check(rep["killed"] == 9 and mode == fault.KILL, lambda: f"{what}: process died of signal {rep['killed']}")
        ctx.count("kills")
        ctx.count("faults_fired")
    elif rep["fired"]:
        ctx.count("faults_fired")
        ctx.check("after_error" not in rep, lambda: f"{what}: after {rep['error']} the retriever raises {rep.get('after_error')}")
        ctx.check(rep["after"] == sc["expected"], lambda: f"{what}: after {rep['error']} the retriever answers differently than before")
        ctx.count("failed_saves_probed")
        if rep["error"] is None:
            ctx.count("faults_absorbed")
    judge(ctx, sc, allowed if rep["killed"] or rep["error"] else allowed[-1:], what)
    ctx.nontrivial((op, mode, frac, sc["old_kind"], sc["saver"]))


def case_ops(ctx, rng):
    sc = scenario(ctx, rng)
    old, new, rep = complete(ctx, sc)
    ops = rep["trace"]
    ctx.count("operations_seen", len(ops))
    ctx.maximum("operations_of_one_save", len(ops))
    pts = list(range(1, len(ops) + 1))
    if len(pts) > 70:
        pts = sorted(rng.sample(pts, 50) + pts[:10] + pts[-10:])
    for n in pts:
        modes = [MODES[0], rng.choice(MODES[1:3]), rng.choice(MODES[3:5]), rng.choice(MODES[5:])]
        if ctx.thorough:
            modes = MODES
        for mode, frac in modes:
            sc["reset"]()
            one_fault(ctx, sc, n, mode, frac, rng.choice(fault.ERRORS), [old, new], ops[n - 1])
        if rng.random() < 0.2:
            # a later complete save puts everything right
            save_complete(ctx, sc, new, f"complete save after an interruption at {ops[n - 1]}")
    ctx.sample(dict(old=sc["old_kind"], saver=sc["saver"], relation=sc["rel"], names=sc["nm"], ops=ops[:40]))


def save_complete(ctx, sc, new, what):
    if sc["saver"] != "fresh":
        return
    st = sc["before"]()
    sc["save"](st)
    got = snapshot(ctx, sc["d"], sc["nm"], sc["voc"])
    for key in got:
        # a corpus that a save without one leaves in place is that of an earlier save
        if st[1] is None and key[1]:
            continue
        ctx.check(got[key] == new[key], lambda: f"{what}: loads as {got[key]!r:.300} instead of {new[key]!r:.300}")
    ctx.count("recoveries")


def case_lines(ctx, rng):
    """An interruption (KeyboardInterrupt, SystemExit) at a line of the save, in-process."""
    sc = scenario(ctx, rng)
    old, new, rep = complete(ctx, sc)
    sc["reset"]()
    total, err = fault.trace_raise(lambda: sc["save"](sc["before"]()), os.path.join(ctx.repo, "bm25s"), 0, None)
    pts = sorted(rng.sample(range(1, total + 1), min(total, 40 if not ctx.thorough else 300)))
    for n in pts:
        sc["reset"]()
        st = sc["before"]()
        # not an Exception: save stores null for a document whose serialisation raises one, with a warning
        e = rng.choice([KeyboardInterrupt("injected"), SystemExit("injected")])
        _, err = fault.trace_raise(lambda: sc["save"](st), os.path.join(ctx.repo, "bm25s"), n, e)
        what = f"save over {sc['old_kind']} ({sc['rel']}, saver {sc['saver']}), {type(e).__name__} at line event {n}/{total}"
        ctx.count("faults_fired")
        ctx.count("exceptions_injected")
        ctx.check(answers(st[0], sc["voc"]) == sc["expected"], lambda: f"{what}: the retriever answers differently afterwards")
        ctx.count("failed_saves_probed")
        judge(ctx, sc, [old, new] if err is not None else [new], what)
        ctx.nontrivial(("line", n, type(e).__name__, sc["old_kind"], sc["saver"]))


def case_twice(ctx, rng):
    """Several interrupted saves of different indexes in a row."""
    B = ctx.bm25s.BM25
    nm = names(rng, rng.random() < 0.25)
    docs = gen.corpus(rng, n_docs=rng.choice([None, 3, 8]))
    voc = sorted(gen.vocab_of(docs) + ["__unknown__"])
    voc = rng.sample(voc, min(10, len(voc)))
    base = ctx.scratch()
    d = os.path.join(base, "index")
    cands, states = [], []
    for j in range(3):
        dd = list(docs) + [rng.choice(docs) for _ in range(rng.choice([0, 0, 1]))]
        rng.shuffle(dd)
        r = B(**variant(rng, rng.randrange(25)))
        r.index(dd, show_progress=False)
        c = corpus_for(rng, len(dd), rng.choice(["str", "dict", "list"]))[0]
        full = os.path.join(base, f"full{j}")
        r.save(full, corpus=c, **nm)
        cands.append((r, c))
        states.append(snapshot(ctx, full, nm, voc))
    sc = dict(d=d, nm=nm, voc=voc)
    allowed = []
    for step in range(rng.choice([3, 5, 8])):
        j = rng.randrange(3)
        r, c = cands[j]
        if states[j] not in allowed:
            allowed.append(states[j])
        if rng.random() < 0.25:
            r.save(d, corpus=c, **nm)
            judge(ctx, sc, [states[j]], f"complete save {step} after interrupted ones")
            allowed = [states[j]]
            continue
        n = rng.randint(1, 45)
        mode, frac = rng.choice(MODES)
        rep = fault.inject(base, lambda: None, lambda st: r.save(d, corpus=c, **nm), None, n=n, mode=mode, frac=frac)
        if rep["killed"] or rep["fired"]:
            ctx.count("faults_fired")
        if rep["killed"]:
            ctx.count("kills")
        done = not rep["killed"] and rep["error"] is None
        judge(ctx, sc, [states[j]] if done else allowed, f"interruption {step} (operation {n}, mode {mode}, {frac}%)")
        if done:
            allowed = [states[j]]
        ctx.nontrivial(("twice", n, mode, frac, step))


def case_limit(ctx, rng):
    """A real limit on file size (RLIMIT_FSIZE), at every size of interest: writes, also those buffered by the C library, fail at that byte."""
    sc = scenario(ctx, rng)
    old, new, rep = complete(ctx, sc)
    sizes = sorted(os.path.getsize(os.path.join(sc["d"], f)) for f in os.listdir(sc["d"]))
    limits = set()
    for s in sizes:
        limits |= {s - 1, s // 2, max(0, s - rng.randrange(1, 9)), rng.randrange(s + 1)}
    limits = sorted(limits | {0, 1, 64, 127, 128, 129})
    for lim in rng.sample(limits, min(len(limits), 25 if not ctx.thorough else 200)):
        sc["reset"]()

        def before():
            st = sc["before"]()
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY))
            return st

        rep = fault.inject(sc["base"], before, sc["save"], lambda st, e: answers(st[0], sc["voc"]))
        what = f"save over {sc['old_kind']} ({sc['rel']}, saver {sc['saver']}) with files limited to {lim} bytes"
        ctx.check(rep["killed"] is None, lambda: f"{what}: died of signal {rep['killed']}")
        ctx.check("after_error" not in rep and rep["after"] == sc["expected"], lambda: f"{what}: after {rep['error']} the retriever answers differently: {rep.get('after_error')}")
        judge(ctx, sc, [old, new] if rep["error"] else [new], what)
        ctx.count("limits_hit", bool(rep["error"]))
        ctx.count("failed_saves_probed", bool(rep["error"]))
        if not rep["error"]:
            ctx.count("limits_unreported", lim < sizes[-1])
        ctx.nontrivial(("limit", lim, sc["old_kind"], sc["saver"]))
