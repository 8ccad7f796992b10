"""C23 hub round trip: indexes, corpora and tokenizers are pushed to and loaded from a stand-in hub that keeps branches, tokens and visibility as the real one does; the loaded object is compared bit for bit with the pushed one and the hub's log with the request.

The stand-in replaces the methods of huggingface_hub.HfApi; downloads are read-only symlinked snapshots or a local directory, as with the real client. Also in processes without orjson and with a POSIX locale."""
import os
import re
from pathlib import Path

from .. import gen, hub, textref
from ..oracle import Ref
from ..store import *
from ..util import *
from . import c20

LEVEL = "exploration"
RULE = ("random indexes (25 variants), corpora of every record form, tokenizers with histories; pushed to new and existing repositories, public and private, with tokens, branches, commit messages, further options, over prior content of "
        "other variants; loaded from cache or a local directory, with/without corpus, mapped or not. Non-trivial: a loaded object whose answers were compared; distinct by content and options.")
ASSUMPTIONS = ["the hub behaves as the stand-in (huggingface_hub is present but there is no network)", "an index pushed without corpus onto a repository that holds another corpus is not asked for its corpus"]
POSIX = {"LC_ALL": "POSIX", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}


def plan(tier):
    f = 1 if tier == "quick" else 60
    s = 60 if tier == "quick" else 2400
    c = [("index", 150 * f), ("tokenizer", 150 * f), ("options", 150 * f), ("card_code", 12 * f)]
    return [dict(cases=c, workers=4, soft=s), dict(cases=c, workers=1, env={"MON_BLOCK": "orjson"}, soft=s), dict(cases=c, workers=1, env=POSIX, soft=s)]


def MIN(tier):
    return {"distinct": 400, "pushes": 900, "loads": 700, "answers_compared": 1500, "records_compared": 1000, "cards_checked": 300, "calls_compared": 1500, "requests_checked": 500, "over_prior": 150, "refused": 50, "blocks_run": 100}


def access(rng):
    """(token, whether the repository is private or None for the default)"""
    return rng.choice([None, "hf_tokenA", "hf_tokenB"]), rng.choice([True, False, None])


def contain(rng, corpus):
    """The same documents in another kind of container."""
    k = rng.randrange(6)
    if k == 0:
        return tuple(corpus)
    if k == 1:
        return (x for x in list(corpus))
    if k == 2:
        a = np.empty(len(corpus), dtype=object)
        for i, x in enumerate(corpus):
            a[i] = x
        return a
    return corpus


def card(ctx, text, p, n, what):
    def value(label):
        m = re.search(r"^\|\s*" + label + r"\s*\|\s*`?(.*?)`?\s*\|\s*$", text, re.M | re.I)
        ctx.check(m is not None, lambda: f"{what}: the card does not state '{label}'")
        return m.group(1)
    ctx.check(int(value("Number of documents")) == n, lambda: f"{what}: the card states {value('Number of documents')} documents instead of {n}")
    for k in ("k1", "b", "delta"):
        ctx.check(float(value(k)) == float(p[k]), lambda: f"{what}: the card states {k} = {value(k)} instead of {p[k]}")
    ctx.check(value("method") == p["method"], lambda: f"{what}: the card states method {value('method')} instead of {p['method']}")
    ctx.check(value("idf method") == (p["idf_method"] or p["method"]), lambda: f"{what}: the card states idf method {value('idf method')} instead of {p['idf_method'] or p['method']}")
    ctx.count("cards_checked")


def case_index(ctx, rng):
    from bm25s.hf import BM25HF
    with hub.Hub(ctx.scratch()) as h:
        token, private = access(rng)
        repo = rng.choice(["user/my-index", "org.x/bm25s_u-1", "user/a"])
        load_kw = {} if token is None else dict(token=token)
        for g in range(rng.choice([1, 1, 2, 3])):
            p = variant(rng, rng.randrange(25))
            docs = gen.corpus(rng, n_docs=rng.choice([1, 2, 5, 20]))
            n = len(docs)
            corpus, exp = corpus_for(rng, n)
            r = BM25HF(**p)
            r.index(docs, show_progress=False)
            kw = dict(load_kw)
            if private is not None:
                kw["private"] = private
            if corpus is not None:
                if rng.random() < 0.5:
                    r.corpus = corpus
                else:
                    kw["corpus"] = contain(rng, corpus)
            readme = rng.random() < 0.8
            if not readme or rng.random() < 0.3:
                kw["include_readme"] = readme
            rev = rng.choice([None, None, "dev", "v1.0"])
            if rev:
                kw["revision"] = rev
            ld = rng.choice([None, None, "local"])
            if ld:
                kw["local_dir"] = ctx.scratch() + "/x/y"
            if rng.random() < 0.2:
                kw["commit_message"] = "version %d" % g
            before = h.repos.get(repo, {}).get("branches", {}).get(rev or "main", {})
            what = f"push {g} of {p['method']}/{p['idf_method']} to {repo}@{rev}, {sorted(kw)}"
            r.save_to_hub(repo, **kw)
            ctx.count("pushes")
            ctx.count("over_prior", len(before) > 1)
            check_params(ctx, r, p, "numpy", what + ": the pushed index")
            tree = h.repos[repo]["branches"][rev or "main"]
            ctx.check(h.repos[repo]["private"] == (True if private is None else private), lambda: f"{what}: the repository is {'private' if h.repos[repo]['private'] else 'public'}")
            for b in ("main", "dev", "v1.0"):
                if g == 0 and b != (rev or "main"):
                    ctx.check(list(h.repos[repo]["branches"][b]) == [".gitattributes"], lambda: f"{what}: files {sorted(h.repos[repo]['branches'][b])} were pushed to revision {b}")
            c = h.repos[repo]["commits"][-1]
            if readme:
                ctx.check("README.md" in tree, f"{what}: no card")
                card(ctx, tree["README.md"].decode("utf-8"), p, n, what)
            elif "README.md" not in before:
                ctx.check("README.md" not in tree, f"{what}: a card was pushed although not asked for")
            if rng.random() < 0.3:
                t = ctx.bm25s.hf.TokenizerHF()
                t.tokenize(["a cat", "dogs %d" % g], show_progress=False)
                t.save_vocab_to_hub(repo, revision=rev, **load_kw)
            voc = gen.vocab_of(docs)
            for _ in range(2):
                mm, lc = rng.random() < 0.5, corpus is not None and rng.random() < 0.7
                lkw = dict(load_kw)
                if rev:
                    lkw["revision"] = rev
                if rng.random() < 0.4:
                    lkw["local_dir"] = rng.choice([str, Path])(ctx.scratch())
                    if rng.random() < 0.3:
                        # an older download of something else
                        o = ctx.bm25s.BM25(method="bm25+")
                        o.index([["old"], ["x", "y"]], show_progress=False)
                        o.save(lkw["local_dir"], corpus=["1", "2"])
                        if corpus is None:
                            lc = False
                new = BM25HF.load_from_hub(repo, mmap=mm, load_corpus=lc, **lkw)
                ctx.count("loads")
                w = f"{what}, loaded with mmap={mm}, corpus={lc}, {sorted(lkw)}"
                check_params(ctx, new, p, "numpy", w)
                ctx.check(new.scores["num_docs"] == n, lambda: f"{w}: {new.scores['num_docs']} documents instead of {n}")
                same_answers(ctx, rng, r, new, voc, n, w)
                probe(ctx, rng, new, Ref(docs, **p), p, w, n=1, docs_expected=exp if lc else None)
                if lc:
                    got = read_records(new.corpus)
                    ctx.check(len(got) == n and all(same(a, norm(b)) for a, b in zip(got, exp)), lambda: f"{w}: corpus {got!r:.300} instead of {exp!r:.300}")
                    ctx.count("records_compared", n)
                ctx.nontrivial((repo, rev, mm, lc, sorted(p.items(), key=str), n, voc[:8]))
            if g == 0 and h.repos[repo]["private"]:
                e = raises(BM25HF.load_from_hub, repo, token="wrong")
                ctx.check(e is not None, f"{what}: a private repository was loaded with another token")
                ctx.count("refused")
    ctx.sample(dict(what=what, files=sorted(tree)))


def case_tokenizer(ctx, rng):
    from bm25s.hf import TokenizerHF as T
    with hub.Hub(ctx.scratch()) as h:
        token, private = access(rng)
        repo = "user/tok"
        load_kw = {} if token is None else dict(token=token)
        for g in range(rng.choice([1, 2])):
            pool = rng.sample(gen.TEXT_PIECES + ["run", "runs", "running", "cats", "cat"], rng.choice([5, 20])) + [gen.unicode_string(rng, 5) for _ in range(rng.choice([0, 5]))]
            kw, stop = c20.config(rng, pool)
            a = T(stopwords=stop, **kw)
            what = f"Tokenizer({str(kw)[:150]}, stopwords={str(stop)[:60]})"
            for _ in range(rng.choice([0, 1, 4])):
                c20.step(a, c20.random_call(rng, pool))
            rev = rng.choice([None, None, "dev"])
            pk = dict(load_kw, **({} if private is None else dict(private=private)), **(dict(revision=rev) if rev else {}))
            if rng.random() < 0.3:
                pk["local_dir"] = ctx.scratch() + "/t"
            state = (freeze(c20.plain(dict(a.get_vocab_dict()))), freeze(c20.stops(a)))
            todo = [a.save_vocab_to_hub, a.save_stopwords_to_hub]
            rng.shuffle(todo)
            for f in todo:
                f(repo, **pk)
                ctx.count("pushes")
            ctx.count("over_prior", g > 0)
            ctx.check(state == (freeze(c20.plain(dict(a.get_vocab_dict()))), freeze(c20.stops(a))), f"{what}: pushing changed the tokenizer")
            ctx.check(h.repos[repo]["private"] == (True if private is None else private), f"{what}: wrong visibility")
            b = T(stopwords=rng.choice([stop, None, "german", ["zzz"]]), **kw)
            if rng.random() < 0.4:
                c20.step(b, c20.random_call(rng, pool + gen.words(rng, 5)))
            lk = dict(load_kw, **(dict(revision=rev) if rev else {}))
            if rng.random() < 0.4:
                lk["local_dir"] = ctx.scratch()
            todo = [b.load_vocab_from_hub, b.load_stopwords_from_hub]
            rng.shuffle(todo)
            for f in todo:
                f(repo, **lk)
                ctx.count("loads")
            ctx.check(c20.same_stops(b, a), lambda: f"{what}: stopwords loaded as {b.stopwords!r:.300} instead of {a.stopwords!r:.300}")
            for _ in range(rng.choice([2, 8])):
                call = c20.random_call(rng, pool + gen.words(rng, 1))
                x, y = c20.step(a, call), c20.step(b, call)
                ctx.check(freeze(c20.plain(x)) == freeze(c20.plain(y)), lambda: f"{what}, call {call!r:.300}: the loaded tokenizer gives {y!r:.300} instead of {x!r:.300}")
                ctx.check(sorted(freeze(c20.plain(dict(a.get_vocab_dict())))[1]) == sorted(freeze(c20.plain(dict(b.get_vocab_dict())))[1]), lambda: f"{what}: after {call!r:.300} the vocabularies differ")
                ctx.count("calls_compared")
                ctx.nontrivial((what, freeze(call[0]), call[1:]))


def case_card_code(ctx, rng):
    """The code that a pushed card shows runs against the repository, and does what the card says."""
    from bm25s.hf import BM25HF
    bm = ctx.bm25s
    with hub.Hub(ctx.scratch()) as h:
        user, name = rng.choice([("user", "my-index"), ("org.x", "bm25s_u-1")])
        repo = user + "/" + name
        docs = gen.corpus(rng, n_docs=rng.choice([3, 5, 20]))
        docs[0] = list(docs[0]) + ["cat", "feline"]
        p = variant(rng, rng.randrange(25))
        r = BM25HF(**p)
        r.index(docs, show_progress=False)
        owner = rng.choice([None, "hf_tokenA"])
        r.save_to_hub(repo, token=owner, private=False)
        h.default = owner or h.default
        text = h.repos[repo]["branches"]["main"]["README.md"].decode("utf-8")
        blocks = re.findall(r"```python\n(.*?)```", text, re.S)
        what = f"the code on the card of {repo}"
        ctx.check(len(blocks) >= 3, lambda: f"{what}: only {len(blocks)} blocks of code")
        ns, seen, old = {}, None, os.getcwd()
        os.chdir(ctx.scratch())
        try:
            for i, b in enumerate(blocks):
                b = b.replace('"/path/to/dir"', repr(ctx.scratch())).replace('"your_hugging_face_token"', repr(h.default))
                ctx.check("{" not in re.sub(r"#.*", "", b), lambda: f"{what}: block {i} has an unfilled place: {b!r:.500}")
                if "token=token" in b and "token" not in ns and "token =" not in b:
                    ns["token"] = h.default
                n0 = len(h.calls)
                e = raises(exec, compile(b, f"card block {i}", "exec"), ns)
                ctx.check(e is None, lambda: f"{what}: block {i} raises {e!r:.300}: {b!r:.900}")
                ctx.check(all(a.get("repo_id") in (repo, None) for _, a in h.calls[n0:]), lambda: f"{what}: block {i} asks for another repository: {h.calls[n0:]!r:.400}")
                ctx.count("blocks_run")
                if "results" in ns and seen is None:
                    seen = ns["results"]
                    want = r.retrieve([["cat", "feline"]], k=3, show_progress=False)
                    ctx.check(same(norm(seen.scores.tolist()), norm(want.scores.tolist())), lambda: f"{what}: block {i} answers {seen!r:.300} instead of {want!r:.300}")
                if "corpus" in ns and "retriever" in ns and isinstance(ns["corpus"], list):
                    got = BM25HF.load_from_hub(repo, load_corpus=True)
                    ctx.check(norm([x["text"] if isinstance(x, dict) else x for x in read_records(got.corpus)]) == norm(list(ns["corpus"])), lambda: f"{what}: after block {i} the repository holds the corpus {read_records(got.corpus)!r:.400}")
                    ctx.count("records_compared", len(ns["corpus"]))
        finally:
            os.chdir(old)
        t = ns.get("tokenizer")
        ctx.check(t is not None and seen is not None, f"{what}: no tokenizer or no results")
        want = bm.tokenization.Tokenizer(stopwords="english")
        want.tokenize(ns["corpus"], show_progress=False)
        ctx.check(dict(t.get_vocab_dict()) == dict(want.get_vocab_dict()) and list(t.stopwords) == list(want.stopwords), lambda: f"{what}: the loaded tokenizer has {t.get_vocab_dict()!r:.400} and {t.stopwords!r:.200}")
        ctx.nontrivial((repo, sorted(p.items(), key=str), len(docs), owner))


def case_options(ctx, rng):
    """Every option of the request reaches the hub."""
    import bm25s.hf as H
    with hub.Hub(ctx.scratch()) as h:
        what = rng.choice(["index", "vocab", "stopwords"])
        if what == "index":
            r = H.BM25HF()
            r.index([["a", "b"], ["c"]], show_progress=False)
            push, load = r.save_to_hub, H.BM25HF.load_from_hub
        else:
            t = H.TokenizerHF()
            t.tokenize(["a cat"], show_progress=False)
            push, load = (t.save_vocab_to_hub, H.TokenizerHF().load_vocab_from_hub) if what == "vocab" else (t.save_stopwords_to_hub, H.TokenizerHF().load_stopwords_from_hub)
        repo = rng.choice(["u/one", "some-org/two", "u/a.b_c"])
        token = rng.choice([None, "hf_A", "hf_B"])
        kw, extra = {}, {}
        if token:
            kw["token"] = token
        if rng.random() < 0.6:
            kw["private"] = rng.random() < 0.5
        if rng.random() < 0.6:
            kw["commit_message"] = rng.choice(["first", "\u00fcber \U0001f600\nlong", ""])
        if rng.random() < 0.5:
            extra["revision"] = rng.choice(["dev", "v1.0", "main"])
        if rng.random() < 0.3:
            extra["commit_description"] = "because"
        if rng.random() < 0.2:
            extra["path_in_repo"] = "sub/dir"
        if rng.random() < 0.2:
            extra["ignore_patterns"] = ["*.md"]
        if rng.random() < 0.1:
            extra["create_pr"] = True
        existing = rng.random() < 0.5
        if existing:
            h.create_repo(token or h.default, repo, private=rng.random() < 0.5)
            was = h.repos[repo]["private"]
        url = push(repo, **kw, **extra)
        ctx.count("pushes")
        d = f"pushing the {what} with {kw} {extra}"
        ctx.check(list(h.repos) == [repo], lambda: f"{d}: repositories {list(h.repos)}")
        R = h.repos[repo]
        ctx.check(R["owner"] == (token or h.default), lambda: f"{d}: repository created with token {R['owner']}")
        if not existing:
            ctx.check(R["private"] == kw.get("private", True), lambda: f"{d}: private is {R['private']}")
        else:
            ctx.check(R["private"] == was, lambda: f"{d}: visibility changed")
        ups = [c for c in h.calls if c[0].startswith("upload")]
        ctx.check(len(R["commits"]) >= 1, f"{d}: nothing was uploaded")
        for c, (_, a) in zip(R["commits"], ups):
            ctx.check(c["revision"] == extra.get("revision", "main"), lambda: f"{d}: uploaded to revision {c['revision']}")
            ctx.check(c["token"] == (token or h.default), lambda: f"{d}: uploaded with token {c['token']}")
            if "commit_message" in kw:
                ctx.check(c["message"] == kw["commit_message"], lambda: f"{d}: the commit message is {c['message']!r}")
            for k, v in extra.items():
                if k in a or k not in ("path_in_repo",):
                    ctx.check(a.get(k) == v, lambda: f"{d}: option {k} reached the hub as {a.get(k)!r}")
            ctx.count("requests_checked")
        ctx.check(getattr(url, "repo_id", repo) == repo, lambda: f"{d}: returned {url!r}")
        if "path_in_repo" in extra:
            ctx.check(all(f.startswith("sub/dir/") for c in R["commits"] for f in c["files"]), f"{d}: files outside path_in_repo")
            return
        h.calls.clear()
        lkw = {}
        if rng.random() < 0.5:
            lkw["local_dir"] = ctx.scratch()
        rev = extra.get("revision")
        if rev:
            lkw["revision"] = rev
        good = rng.random() < 0.6 or not R["private"]
        lkw["token"] = token if good else rng.choice(["intruder", False])
        if not R["private"] and rng.random() < 0.4:
            # token=False: nothing stored on the machine may be sent
            lkw["token"] = False
        token = lkw["token"] if good else token
        e = raises(load, repo, **lkw)
        ctx.count("loads")
        if good:
            ctx.check(e is None, lambda: f"{d}: loading with {lkw} raised {e!r:.300}")
            downs = [a for n, a in h.calls if n in ("snapshot_download", "hf_hub_download")]
            ctx.check(bool(downs), f"{d}: nothing was downloaded")
            for a in downs:
                ctx.check(a.get("revision") == rev and a["given_token"] == token, lambda: f"{d}: loading with {lkw} asked for revision {a.get('revision')!r} with token {a['given_token']!r}")
                if "local_dir" in lkw:
                    ctx.check(str(a.get("local_dir")) == str(lkw["local_dir"]), lambda: f"{d}: loading with {lkw} downloaded to {a.get('local_dir')!r}")
                ctx.count("requests_checked")
        else:
            ctx.check(e is not None, f"{d}: a private repository was loaded with another token")
            ctx.count("refused")
        for bad in (dict(repo="u/absent"), dict(repo=repo, revision="no-such-branch")):
            e = raises(load, bad.pop("repo"), token=token, **bad)
            ctx.check(e is not None, lambda: f"{d}: loading {bad or 'an absent repository'} succeeded")
            ctx.count("refused")
        ctx.nontrivial((what, repo, sorted(kw.items()), sorted(map(str, extra.items())), existing))
