"""C19 Tokenizer histories: random sequences of calls (all update modes and output forms, interleaved and abandoned streams, failing stemmers and splitters, resets) are followed by a reference model; after every call the vocabulary is checked to be a growing bijection onto 0..V-1 and every id ever returned to still decode to its token.

The model is an independent description of which words and stems are known; ids themselves are only required to be stable and one-to-one."""
import re

from .. import gen, textref
from ..tokmodel import Boom, Model
from ..util import *

LEVEL = "exploration"
RULE = ("histories of 5-40 calls on one Tokenizer over small and large word sets; string and callable splitters, PyStemmer, colliding and emptying stemmers, stopwords, lower, allow_empty; update modes true, false, if_empty, never; forms ids, string, tuple, stream. "
        "Non-trivial: a call that returned at least one id; distinct by (texts, mode, form, configuration, step).")
ASSUMPTIONS = ["stopwords do not contain the empty string, stemmers map the empty string to itself"]


def plan(tier):
    f = 1 if tier == "quick" else 80
    s = 60 if tier == "quick" else 2400
    return [dict(cases=[("history", 6000 * f), ("unicode", 1200 * f), ("big", 24 if f == 1 else 300), ("lazy", 300 * f)], workers=6, soft=s)]


def MIN(tier):
    return {"distinct": 10000, "calls": 15000, "stream_steps": 10000, "ids_decoded": 200000, "failures_survived": 300, "kept_by_stem": 1000, "dropped_unknown": 5000, "resets": 300, "kept_tuples": 2000, "lazy_steps": 1500}


def config(rng):
    stem, _, cls = textref.stemmer(rng)
    k = rng.randrange(8)
    if k <= 4:
        pat = rng.choice(textref.PATTERNS)
        split_arg, split = pat, re.compile(pat).findall
    elif k == 5:
        split_arg = split = str.split
    elif k == 6:
        split_arg = split = lambda s: s.split(" ")  # yields empty strings
    else:
        split_arg = lambda s: (w for w in s.split())
        split = str.split
    stop_arg, stop = textref.stopwords(rng)
    if "" in stop:
        stop_arg, stop = None, []
    return stem, cls, split_arg, split, stop_arg, stop


class Fail:
    """A stemmer or splitter that fails on one word."""

    def __init__(self, f):
        self.f, self.word = f, None

    def __repr__(self):
        return "failing"

    def __call__(self, w):
        if self.word is not None and self.word in w:
            raise Boom(w)
        return self.f(w)


class Run:
    def __init__(self, ctx, rng, words):
        self.ctx, self.rng, self.words = ctx, rng, words
        stem, cls, split_arg, split, stop_arg, stop = config(rng)
        self.fail = None
        if stem and rng.random() < 0.3:
            self.fail = Fail(stem)
            cls, stem = self.fail, self.fail
        elif rng.random() < 0.15:
            self.fail = Fail(split)
            split_arg, split = self.fail, self.fail
        lower = rng.random() < 0.7
        self.desc = f"Tokenizer(lower={lower}, splitter={split_arg if isinstance(split_arg, str) else 'callable'}, stopwords={str(stop_arg)[:40]}, stemmer={stem})"
        self.t = ctx.bm25s.tokenization.Tokenizer(lower=lower, splitter=split_arg, stopwords=stop_arg, stemmer=cls)
        self.m = Model(lower, split, stop, stem)
        self.streams = []
        self.kept = []  # Tokenized objects given earlier, with their tokens
        self.log = []

    def text(self):
        r = self.rng
        if r.random() < 0.08:
            return r.choice(["", " ", "!!", "the", "of the"])
        return r.choice([" ", " ", ", ", "-"]).join(r.choice(self.words) for _ in range(r.choice([1, 3, 8])))

    def what(self):
        return f"{self.desc} after {self.log[-6:]!r:.700}"

    def vocab_check(self, exact=True):
        ctx, m = self.ctx, self.m
        v = self.t.get_vocab_dict()
        ctx.check(sorted(v.values()) == list(range(len(v))), lambda: f"{self.what()}: vocabulary is not one-to-one onto 0..V-1: {v!r:.400}")
        ctx.check(set(v) == m.tokens or not exact, lambda: f"{self.what()}: vocabulary has {sorted(set(v) - m.tokens)!r:.200} too many and lacks {sorted(m.tokens - set(v))!r:.200}")
        rev = {i: k for k, i in v.items()}
        for i, tok in m.ids.items():
            ctx.check(rev.get(i) == tok, lambda: f"{self.what()}: id {i} stood for {tok!r} and now decodes to {rev.get(i)!r}")
        for i in rev:
            m.ids[i] = rev[i]
        ctx.count("ids_decoded", len(m.ids))
        if self.kept and (self.rng.random() < 0.2 or self.log[-1:] == ["reset"]):
            # what was returned keeps its meaning, also after the tokenizer forgot its words
            for out, want in self.kept:
                own = {i: k for k, i in out.vocab.items()}
                got = [[own.get(i) for i in x] for x in out.ids]
                ctx.check(got == want, lambda: f"{self.what()}: the tuple returned earlier now stands for {got!r:.300} instead of {want!r:.300}")
                ctx.count("kept_tuples")
        if m.ids and self.rng.random() < 0.3:
            ids = list(m.ids)
            got = self.t.decode([ids, []])
            ctx.check(got == [[m.ids[i] for i in ids], []], lambda: f"{self.what()}: decode gives {got!r:.300}")

    def decoded(self, ids):
        rev = {i: k for k, i in self.t.get_vocab_dict().items()}
        self.ctx.check(all(type(i) is int and i in rev for i in ids), lambda: f"{self.what()}: returned ids {ids!r:.100} of which some are not in the vocabulary")
        return [rev[i] for i in ids]

    def compare(self, ids, want, text, upd):
        got = self.decoded(ids)
        self.ctx.check(got == want, lambda: f"{self.what()}: text {text!r:.200} (effective update {upd}) gives {got!r:.300} instead of {want!r:.300}")
        if not upd or upd == "never":
            ref = [w for w in self.m.split(text.lower() if self.m.lower else text) if w not in self.m.stop]
            self.ctx.count("dropped_unknown", max(0, len(ref) - len(want)))

    def call(self, step):
        r, ctx, m = self.rng, self.ctx, self.m
        texts = [self.text() for _ in range(r.choice([0, 1, 2, 6]))]
        update = r.choice([True, True, False, "if_empty", "never", None])
        form = r.choice(["ids", "ids", "string", "tuple", "stream"])
        allow = r.random() < 0.7
        kw = {} if update is None else dict(update_vocab=update)
        upd = m.mode("if_empty" if update is None else update)
        if not (allow and r.random() < 0.5):
            kw["allow_empty"] = allow
        how = r.choice(["list", "list", "tuple", "iterator"])
        given = {"list": texts, "tuple": tuple(texts), "iterator": iter(list(texts))}[how]
        if how == "iterator" and form != "stream":
            kw["length"] = len(texts)
        self.log.append((texts, update, form, allow))
        ctx.count("calls")
        if form == "stream":
            if r.random() < 0.5:
                g = self.t.tokenize(given, return_as="stream", **kw)
            else:
                k2 = {k: v for k, v in kw.items() if k in ("allow_empty",)}
                g = self.t.streaming_tokenize(given, update_vocab=upd, **k2)
            self.streams.append([g, list(texts), upd, allow, False])
            self.vocab_check()
            return
        fail_at = None
        if self.fail is not None and r.random() < 0.3:
            self.fail.word = r.choice(self.words).lower()
            ctx.count("failures_injected")
        known_stem = sum(1 for w in m.word)
        try:
            out = self.t.tokenize(given, return_as=form, show_progress=r.random() < 0.1, **kw)
        except Boom as e:
            # how far the call came is not judged; what it left must be sound, and the same texts then be known
            self.fail.word = None
            self.log.append("failed")
            ctx.count("failures_survived")
            self.vocab_check(exact=False)
            m.begin(True, True)
            want = [m.step(t, True, True) for t in texts]
            for x, w, t in zip(self.t.tokenize(texts, update_vocab=True, show_progress=False), want, texts):
                self.compare(x, w, t, True)
            self.vocab_check()
            return
        if self.fail is not None:
            self.fail.word = None
        m.begin(upd, allow)
        want = [m.step(t, upd, allow) for t in texts]
        ids = None
        if out is not None:
            if form == "ids":
                ids = out
            elif form == "tuple":
                ids = out.ids
                ctx.check(dict(out.vocab) == dict(self.t.get_vocab_dict()), lambda: f"{self.what()}: the tuple's vocabulary is not the tokenizer's")
                self.kept.append((out, [list(x) for x in want]))
                self.kept = self.kept[-4:]
            else:
                ctx.check([list(x) for x in out] == want, lambda: f"{self.what()}: strings {out!r:.300} instead of {want!r:.300}")
            if ids is not None:
                ctx.check(len(ids) == len(texts), lambda: f"{self.what()}: {len(ids)} outputs for {len(texts)} texts")
                for x, w, t in zip(ids, want, texts):
                    self.compare(x, w, t, upd)
            if upd is False and m.stem:
                ctx.count("kept_by_stem", max(0, len(m.word) - known_stem))
            if any(want):
                ctx.nontrivial((tuple(texts), update, form, allow, self.desc, step))
        self.vocab_check()

    def advance(self):
        r = self.rng
        st = r.choice(self.streams)
        for _ in range(r.choice([1, 1, 2, 5])):
            g, texts, upd, allow, begun = st
            self.log.append(("next", upd, texts[:1]))
            if not begun:
                self.m.begin(upd, allow)
                st[4] = True
            if not texts:
                rest = list(g)
                self.ctx.check(rest == [], lambda: f"{self.what()}: a stream gives more outputs than texts: {rest!r:.200}")
                self.streams.remove(st)
                break
            t = texts.pop(0)
            want = self.m.step(t, upd, allow)
            try:
                ids = next(g)
            except StopIteration:
                self.ctx.fail(f"{self.what()}: a stream ended before its texts did")
            self.compare(ids, want, t, upd)
            self.ctx.count("stream_steps")
        self.vocab_check()

    def run(self):
        for step in range(self.rng.choice([5, 15, 40])):
            r = self.rng.random()
            if self.streams and r < 0.4:
                self.advance()
            elif self.streams and r < 0.44:
                st = self.streams.pop(self.rng.randrange(len(self.streams)))
                st[0].close()
            elif r < 0.46 and not self.streams:
                self.t.reset_vocab()
                self.m.reset()
                self.log.append("reset")
                self.ctx.count("resets")
                self.vocab_check()
            else:
                self.call(step)
        self.ctx.sample(dict(config=self.desc, log=str(self.log[:4])))


def case_history(ctx, rng):
    words = rng.sample(gen.TEXT_PIECES + ["run", "runs", "running", "runner", "cats", "cat", "catty", "the", "theme", "dog", "doggy", "them"], rng.choice([4, 10, 30]))
    Run(ctx, rng, words).run()


def case_unicode(ctx, rng):
    words = [gen.unicode_string(rng, 6) for _ in range(rng.choice([5, 30]))] + ["a", "bc"]
    Run(ctx, rng, words).run()


def case_big(ctx, rng):
    """Long texts, many texts and large vocabularies, with the same model."""
    shape = ctx.index % 2
    words = ["%s%d" % (rng.choice(["ab", "Xy", "run", "thé"]), i) for i in range([70000, 300][shape])]
    x = Run(ctx, rng, words)
    x.fail = None
    x.text = lambda: " ".join(rng.choices(words, k=rng.choice([0, 3, 1500, 20000][shape * 2:] + [40000 if shape == 0 else 2500])))
    x.words = words
    if shape == 0:
        big = [" ".join(words[i::5]) for i in range(5)]
        x.m.begin(True, True)
        want = [x.m.step(t, True, True) for t in big]
        for a, w, t in zip(x.t.tokenize(big, update_vocab=True, show_progress=False), want, big):
            x.compare(a, w, t, True)
        x.vocab_check()
    for step in range(4):
        if x.streams and rng.random() < 0.5:
            x.advance()
        else:
            x.call(step)
    ctx.count("big")


def case_lazy(ctx, rng):
    """A stream takes one text for each list of ids it gives: endless sources, sources that depend on earlier answers, and sources that fail."""
    stem, cls, split_arg, split, stop_arg, stop = config(rng)
    lower = rng.random() < 0.7
    t = ctx.bm25s.tokenization.Tokenizer(lower=lower, splitter=split_arg, stopwords=stop_arg, stemmer=cls)
    m = Model(lower, split, stop, stem)
    words = rng.sample(gen.TEXT_PIECES + ["run", "runs", "cats", "cat"], 8)
    kind = rng.choice(["endless", "echo", "fails", "ends"])
    limit = rng.randrange(0, 12)
    taken, got = [], []

    def source():
        while True:
            if len(taken) >= limit:
                if kind == "fails":
                    raise Boom("source")
                if kind == "ends":
                    return
            x = " ".join(rng.choices(words, k=rng.choice([0, 1, 3])))
            if kind == "echo" and got:
                # the next text is made of the last answer
                rev = {i: k for k, i in t.get_vocab_dict().items()}
                x += " " + " ".join(rev[i] for i in got[-1])
                x = x[-200:]
            taken.append(x)
            yield x
    upd, allow = rng.choice([True, True, False, "never"]), rng.random() < 0.7
    how = rng.choice(["tokenize", "streaming"])
    f = (lambda src: t.tokenize(src, return_as="stream", update_vocab=upd, allow_empty=allow, show_progress=rng.random() < 0.3)) if how == "tokenize" else (lambda src: t.streaming_tokenize(src, update_vocab=upd, allow_empty=allow))
    g = f(source())
    what = f"{how}, {kind} source of {limit}, update {upd}, splitter {split_arg if isinstance(split_arg, str) else 'callable'}"
    ctx.check(taken == [], lambda: f"{what}: {len(taken)} texts taken before the first list of ids was asked for")
    m.begin(upd, allow)
    n = limit if kind in ("fails", "ends") else rng.randrange(1, 30)
    for i in range(n):
        ids = next(g)
        ctx.check(len(taken) == i + 1, lambda: f"{what}: {len(taken)} texts were taken for {i + 1} lists of ids")
        want = m.step(taken[i], upd, allow)
        rev = {j: k for k, j in t.get_vocab_dict().items()}
        ctx.check([rev.get(j) for j in ids] == want, lambda: f"{what}: text {taken[i]!r:.200} gives {[rev.get(j) for j in ids]!r:.300} instead of {want!r:.300}")
        got.append(ids)
        ctx.count("lazy_steps")
    if kind in ("fails", "ends"):
        e = raises(next, g)
        ctx.check(isinstance(e, Boom if kind == "fails" else StopIteration), lambda: f"{what}: after {n} texts the stream gave {e!r}")
    v = dict(t.get_vocab_dict())
    ctx.check(set(v) == m.tokens and sorted(v.values()) == list(range(len(v))), lambda: f"{what}: the vocabulary is {v!r:.300}")
    if n:
        ctx.nontrivial((what, tuple(taken)))
