"""C30 benchmark timer: random histories of timer operations on many names run on a virtual clock, and a model of which timers run predicts every elapsed time, return value and rejection.

Some histories run on the real clock, bracketed by readings of it."""
import contextlib
import importlib
import io
import re
import sys
import time as real_time

from .. import gen
from ..util import *

LEVEL = "exploration"
RULE = ("histories of 1-60 operations (start, pause, resume, stop with and without show, elapsed with any precision, to_dict in 4 forms, show, show_all) on 1-6 names of 1-3 timers, with clock steps of 0 to 10^6 s, from any clock value, also 0 and negative, while the wall clock is set back and forth; "
        "operations on unknown names and double starts. Non-trivial: an elapsed time compared; distinct by the history of that name.")
ASSUMPTIONS = ["the monotonic clocks do not go backwards", "names remain distinct when lower-cased and with spaces replaced"]
CLOCKS = ("monotonic", "perf_counter", "time", "process_time", "thread_time")


def plan(tier):
    f = 1 if tier == "quick" else 400
    s = 60 if tier == "quick" else 1800
    return [dict(cases=[("history", 1500 * f), ("realtime", 32 * (1 if tier == "quick" else 40))], workers=4, soft=s)]


def MIN(tier):
    return {"distinct": 3000, "elapsed_compared": 10000, "rejections": 1500, "double_starts": 500, "stopped_while_paused": 500, "resumed_while_running": 500, "stopped_twice": 300, "restarted_after_stop": 300, "dicts_compared": 1000, "real_compared": 40, "shown_compared": 300, "short_times_shown": 50, "states_told": 20000}


def setup(ctx):
    clock = ctx.cache["clock"] = dict(on=False, now=0.0, set=0.0)
    # each clock has its own zero; the wall clock is set now and then, and the CPU clocks stand still while the process sleeps
    virtual = {"monotonic": lambda: clock["now"], "perf_counter": lambda: clock["now"] + 777.25, "time": lambda: clock["now"] + clock["set"],
               "process_time": lambda: clock["now"] / 8, "thread_time": lambda: clock["now"] / 8}

    def fake(real, get, scale):
        return lambda: (get() if scale == 1 else int(get() * scale)) if clock["on"] else real()
    for c in CLOCKS:
        setattr(real_time, c, fake(getattr(real_time, c), virtual[c], 1))
        setattr(real_time, c + "_ns", fake(getattr(real_time, c + "_ns"), virtual[c], 10 ** 9))
    name = "bm25s.utils.benchmark"
    m = importlib.reload(sys.modules[name]) if name in sys.modules else importlib.import_module(name)
    ctx.cache["Timer"] = m.Timer


class Model:
    """What the statement says about one name."""

    def __init__(self):
        self.total, self.since, self.stopped, self.log = 0.0, None, False, []
        self.mode = "running"

    def running(self):
        return self.since is not None

    def halt(self, now):
        if self.since is not None:
            self.total += now - self.since
            self.since = None


def step(rng):
    return rng.choice([0.0, 2.0 ** -30, 2.0 ** -12, 0.5, 1.0, 3.25, 1000.0, 2.0 ** 20, rng.randrange(1 << 20) / 1024])


def names(rng):
    pool = ["Indexing", "a", "B b", "", "x y z", "\u00dcber Zeit", "total", "query 1", "query 12", "q"]
    out = rng.sample(pool, rng.randint(1, 6))
    if rng.random() < 0.25:
        # names that are easily taken for each other, though not in any form of to_dict
        out = out[:2] + rng.sample(["a ", " a", "a\n", "a\t", "a\x00", "a.", "query", "query 2", "query 02", "\u00e9", "e\u0301", "x" * 70 + "1", "x" * 70 + "2", "\u212a2"], 5)
        out = list({s.replace(" ", "_").lower(): s for s in out}.values())
    return out


def case_history(ctx, rng):
    Timer, clock = ctx.cache["Timer"], ctx.cache["clock"]
    timers = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        prec = rng.choice([None, 0, 2, 6, 12])
        timers.append((Timer(rng.choice(["", "[x]"])) if prec is None else Timer(prefix="p", precision=prec), {}, 4 if prec is None else prec))
    ns = names(rng)
    clock.update(now=rng.choice([0.0, 0.0, 1.0, -5.0, 12345.5, 2.0 ** 22]), quick=rng.random() < 0.15, on=True)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            play(ctx, rng, clock, timers, ns, rng.randint(1, 60))
    finally:
        clock["on"] = False


def elapsed(ctx, m, name, got, want, what):
    ctx.check(isinstance(got, (int, float)) and abs(got - want) <= 1e-9 * max(1.0, abs(want)), lambda: f"{what} of {name!r} is {got!r}, it ran for {want!r} s: {m.log}")
    ctx.count("elapsed_compared")
    ctx.nontrivial(tuple(m.log))


def printed(fn, *a, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn(*a, **kw)
    return out.getvalue()


def shown(ctx, out, name, m, t, total, exact=None):
    """The time as rounded, and the throughput of the exact time (a short time is rounded to nothing)."""
    want = f" {name}: {t:.4f}s" + (" (" if total is not None else "")
    ctx.check(want in out, lambda: f"what is shown of {name!r}, {out!r:.300}, lacks {want!r}: {m.log}")
    ctx.count("shown_compared")
    if total is not None:
        rate = re.search(re.escape(want) + r"(\S+)/s\)", out)
        ctx.check(rate is not None, lambda: f"what is shown of {name!r}, {out!r:.300}, lacks a throughput")
        rate = float(rate.group(1))
        if exact > 1e-9:
            ctx.check(abs(rate - total / exact) <= 0.005001 + 1e-6 * total / exact, lambda: f"{total} in {exact!r} s of {name!r} are shown as {out!r:.300}: {m.log}")
            ctx.count("short_times_shown", t == 0)


def told(ctx, t, m, name):
    """What the timer says of its state."""
    if m is None:
        ctx.check(not any(f(name) for f in (t.has_started, t.has_stopped, t.is_paused, t.is_resumed)), lambda: f"{name!r} was never started, but counts as started, stopped, paused or resumed")
    elif m.stopped:
        ctx.check(bool(t.has_stopped(name) or m.running()), lambda: f"{name!r} counts as not stopped: {m.log}")
        ops = [o for o, _ in m.log]
        if not m.running():
            # whatever it counts as after a pause, it cannot be paused or resumed without one
            ctx.check("pause" in ops or not t.is_paused(name), lambda: f"{name!r} was never paused, but counts as paused: {m.log}")
            ctx.check("resume" in ops or not t.is_resumed(name), lambda: f"{name!r} was never resumed, but counts as resumed: {m.log}")
    else:
        got = (bool(t.has_started(name)), bool(t.has_stopped(name)), bool(t.is_paused(name)), bool(t.is_resumed(name)))
        ctx.check(got == (True, False, m.mode == "paused", m.mode == "resumed"), lambda: f"{name!r} is {m.mode}, but counts as (started, stopped, paused, resumed) {got}: {m.log}")
    ctx.count("states_told")


def play(ctx, rng, clock, timers, ns, n):
    for _ in range(n):
        t, model, prec = rng.choice(timers)
        if rng.random() < 0.7:
            clock["now"] += rng.choice([0.0, 2.0 ** -30, 2.0 ** -20, 2.0 ** -15]) if clock["quick"] else step(rng)
            if rng.random() < 0.2:
                clock["set"] = rng.choice([0.0, -3600.0, 1.5, 86400.0])
        now = clock["now"]
        name = rng.choice(ns)
        m = model.get(name)
        told(ctx, t, m, name)
        op = rng.choices(["start", "pause", "resume", "stop", "elapsed", "dict", "show", "all"], [5 if m is None else 1.5, 3, 3, 3, 2, 1, 0.5, 0.3])[0]
        if m is not None:
            m.log.append((op, now - m.origin))
        if op == "start":
            if m is None:
                got = t.start(name)
                ctx.check(got == name, lambda: f"start returned {got!r}")
                m = model[name] = Model()
                m.origin = now
                m.since = now
                m.log.append(("start", 0))
            elif m.running():
                e = raises(t.start, name)
                ctx.check(e is not None, lambda: f"starting the running timer {name!r} again was accepted: {m.log}")
                ctx.count("double_starts")
                ctx.count("rejections")
        elif op in ("pause", "resume"):
            if m is None:
                raises(getattr(t, op), name)
                continue
            getattr(t, op)(name)
            if op == "pause":
                m.mode = "paused"
                m.halt(now)
            elif m.running():
                ctx.count("resumed_while_running")
            else:
                m.since = now
                m.mode = "resumed"
                ctx.count("restarted_after_stop", m.stopped)
        elif op == "stop":
            if m is None:
                e = raises(t.stop, name)
                ctx.check(e is not None, f"stopping {name!r}, never started, was accepted")
                ctx.count("rejections")
                continue
            ctx.count("stopped_while_paused", not m.running() and not m.stopped)
            ctx.count("stopped_twice", not m.running() and m.stopped)
            show = rng.random() < 0.2
            m.halt(now)
            m.stopped = True
            tot = rng.choice([None, 100, 7])
            if show:
                got = []
                out = printed(lambda: got.append(t.stop(name, show=True, n_total=tot)))
                shown(ctx, out, name, m, round(m.total, prec), tot, m.total)
                got = got[0]
            else:
                got = t.stop(name, n_total=tot)
            elapsed(ctx, m, name, got, m.total, "the result of stop")
        elif op == "elapsed":
            if m is None:
                e = raises(t.elapsed, name)
                ctx.check(e is not None, f"the elapsed time of {name!r}, never started, was given")
                ctx.count("rejections")
                continue
            if not m.stopped or m.running():
                raises(t.elapsed, name)
                continue
            p = rng.choice([None, 0, 1, 3, 9])
            got = t.elapsed(name) if p is None else t.elapsed(name, precision=p)
            elapsed(ctx, m, name, got, round(m.total, prec if p is None else p), f"elapsed (precision {p}, default {prec})")
        elif op == "dict":
            kw = dict(rng.sample([("underscore", True), ("lowercase", True), ("lowercase", False)], rng.randint(0, 2)))
            d = t.to_dict(**kw)
            key = lambda s: (s.replace(" ", "_") if kw.get("underscore") else s)
            key2 = lambda s: key(s).lower() if kw.get("lowercase") else key(s)
            ctx.check(sorted(d) == sorted(key2(s) for s in model), lambda: f"to_dict({kw}) has {list(d)}, started were {list(model)}")
            for s, x in model.items():
                if x.stopped and not x.running():
                    elapsed(ctx, x, s, d[key2(s)]["elapsed"], x.total, f"to_dict({kw})")
            for v in d.values():  # the copy is the caller's
                v["elapsed"] = -1e9
                v.clear()
            d.clear()
            ctx.count("dicts_compared")
        elif op == "show":
            if m is not None and m.stopped:
                off, tot = rng.choice([0, 0, 1.5]), rng.choice([None, 100, 7])
                out = printed(t.show, name, n_total=tot, **({"offset": off} if off or rng.random() < 0.5 else {}))
                if not m.running():
                    shown(ctx, out, name, m, round(m.total, prec) + off, tot, m.total + off)
        else:
            out = printed(t.show_all)
            for s, x in model.items():
                if x.stopped and not x.running():
                    shown(ctx, out, s, x, round(x.total, prec), None)
    for t, model, prec in timers:
        for s, m in model.items():
            ctx.check(t.has_started(s), lambda: f"{s!r} counts as not started: {m.log}")
            m.halt(clock["now"])
            elapsed(ctx, m, s, t.stop(s), m.total, "the final stop")
            elapsed(ctx, m, s, t.elapsed(s), round(m.total, prec), "the final elapsed")
        for s in set(ns) - set(model):
            ctx.check(raises(t.stop, s) is not None, f"stopping {s!r}, never started, was accepted")
            ctx.check(raises(t.elapsed, s) is not None, f"the elapsed time of {s!r}, never started, was given")
            ctx.count("rejections", 2)
    ctx.sample(dict(history=[(i, s, m.log) for i, (t, model, _) in enumerate(timers) for s, m in model.items()]))


def case_realtime(ctx, rng):
    t = ctx.cache["Timer"](precision=9)
    lo, hi, run = {}, {}, {}
    ns = names(rng)[-3:]

    def call(fn, name, begins, ends):
        a = real_time.monotonic()
        fn(name)
        b = real_time.monotonic()
        if ends and name in run:
            x, y = run.pop(name)
            lo[name] += max(0.0, a - y)
            hi[name] += b - x
        if begins and name not in run:
            run[name] = (a, b)
    for name in ns:
        lo[name] = hi[name] = 0.0
        call(t.start, name, True, False)
    for _ in range(rng.randint(2, 12)):
        real_time.sleep(rng.choice([0, 0.0005, 0.002]))
        name = rng.choice(ns)
        if rng.random() < 0.5:
            call(t.pause, name, False, True)
        else:
            call(t.resume, name, True, False)
    for name in ns:
        call(t.stop, name, False, True)
        got = t.elapsed(name)
        ctx.check(lo[name] - 1e-6 <= got <= hi[name] + 1e-6, lambda: f"{name!r} ran between {lo[name]:.7f} and {hi[name]:.7f} s, elapsed is {got!r}")
        ctx.count("real_compared")
        ctx.nontrivial((name, got))
