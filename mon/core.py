import collections
import errno
import hashlib
import json
import logging
import os
import random
import shutil
import sys
import time
import traceback
import warnings


class Violation(Exception):
    def __init__(self, message, key=None, **detail):
        super().__init__(message)
        self.message, self.key, self.detail = message, key, detail


class Inconclusive(Exception):
    pass


class _Blocker:
    def __init__(self, names):
        self.names = tuple(names)

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] in self.names:
            raise ModuleNotFoundError(f"No module named {fullname!r} (blocked by the monitor)", name=fullname)
        return None


def block_imports(names):
    sys.meta_path.insert(0, _Blocker(names))


def short(x, n=400):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:  # pragma: no cover
        s = f"<unprintable {type(x)}: {e}>"
    return s if len(s) <= n else s[: n - 20] + f"...({len(s)} chars)"


class Ctx:
    def __init__(self, job):
        self.job = job
        self.pid, self.seed, self.tier = job["pid"], job["seed"], job["tier"]
        self.repo = job["repo"]
        self.thorough = self.tier == "thorough"
        self.counters = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.errors = []
        self.cache = {}
        self.kind, self.index = None, None
        self._cur = os.open(job["cur"], os.O_CREAT | os.O_WRONLY, 0o600)
        self._scratch = None

    # -- observation -----------------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] += int(n)

    def maximum(self, name, v):
        name = "max_" + name
        self.counters[name] = max(self.counters[name], int(v))

    def evaluation(self, n=1):
        self.counters["evaluations"] += n

    def nontrivial(self, key):
        self.distinct.add(hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(short(obj, 600))

    # -- decision --------------------------------------------------------------------
    def check(self, cond, message, key=None, **detail):
        self.counters["assertions"] += 1
        if not cond:
            raise Violation(message() if callable(message) else message, key=key, **detail)

    def fail(self, message, key=None, **detail):
        raise Violation(message, key=key, **detail)

    def record_known(self, key, message):
        self.known.setdefault(key, dict(kind=self.kind, index=self.index, key=key, message=short(message, 1500),
                                        env=self.job["env"], shard=self.job["shard"]))

    # -- resources -------------------------------------------------------------------
    def scratch(self):
        """A fresh directory, removed after the case."""
        if self._scratch is None:
            self._scratch = os.path.join(self.job["scratch"], "case")
            os.makedirs(self._scratch)
        n = len(os.listdir(self._scratch))
        d = os.path.join(self._scratch, f"d{n}")
        os.makedirs(d)
        return d

    def rng(self, *extra):
        return random.Random("|".join(map(str, (self.seed, self.pid, self.kind, self.index) + tuple(f"{k}={v}" for k, v in sorted(self.job["env"].items())) + extra)))

    def write(self):
        tmp = self.job["out"] + ".tmp"
        with open(tmp, "w") as f:
            json.dump(dict(counters=dict(self.counters), distinct=sorted(self.distinct), samples=self.samples,
                           violations=self.violations, known=self.known, errors=self.errors), f, default=repr)
        os.replace(tmp, self.job["out"])


ENV_ERRNO = {errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.ENOMEM, errno.EDQUOT}


def import_bm25s(ctx):
    """Import the code under test from the tree being checked, and nothing else."""
    warnings.filterwarnings("ignore")
    import bm25s

    p = os.path.realpath(bm25s.__file__)
    if not p.startswith(os.path.realpath(ctx.repo) + os.sep):
        raise Inconclusive(f"bm25s imported from {p}, not from {ctx.repo}")
    logging.getLogger("bm25s").setLevel(logging.CRITICAL)
    logging.getLogger().setLevel(logging.CRITICAL)
    return bm25s


def run(ctx, chk):
    if getattr(chk, "IMPORT", True):
        ctx.bm25s = import_bm25s(ctx)
    if hasattr(chk, "setup"):
        chk.setup(ctx)
    t0 = time.monotonic()
    soft = ctx.job.get("soft", 1e9)
    for kind, index in ctx.job["cases"]:
        if time.monotonic() - t0 > soft:
            ctx.count("soft_stops")
            break
        ctx.kind, ctx.index = kind, index
        rec = json.dumps(dict(kind=kind, index=index)).encode()
        os.pwrite(ctx._cur, rec.ljust(200), 0)
        try:
            ctx.evaluation()
            ctx.count("cases_" + kind)
            getattr(chk, "case_" + kind)(ctx, ctx.rng())
        except Violation as v:
            record(ctx, v.message, v.key, dict(v.detail))
        except Inconclusive as e:
            ctx.errors.append(f"{kind}[{index}]: inconclusive: {e}")
        except MemoryError:
            ctx.errors.append(f"{kind}[{index}]: MemoryError")
        except OSError as e:
            if e.errno in ENV_ERRNO:
                ctx.errors.append(f"{kind}[{index}]: {e}")
            else:
                unexpected(ctx, e)
        except Exception as e:
            if "can't start new thread" in str(e):
                ctx.errors.append(f"{kind}[{index}]: {e}")
            else:
                unexpected(ctx, e)
        finally:
            if ctx._scratch:
                shutil.rmtree(ctx._scratch, ignore_errors=True)
                ctx._scratch = None
        if len([v for v in ctx.violations]) >= 4:
            break
        if len(ctx.errors) >= 4:
            break


def unexpected(ctx, e):
    """An exception nothing in the property allows: the code raised on valid input (or returned something
    the monitor could not even read)."""
    tb = traceback.extract_tb(e.__traceback__)
    where = [f"{os.path.relpath(f.filename, ctx.repo)}:{f.lineno}" for f in tb if f.filename.startswith(ctx.repo)]
    own = [f for f in tb if "/mon/" in f.filename]
    step = f"{os.path.basename(own[-1].filename)}:{own[-1].lineno}" if own else "?"
    record(ctx, f"unexpected {type(e).__name__}: {short(str(e), 300)} (in {where[-1] if where else 'monitor'}, at {step})",
           None, dict(traceback="".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]))


def record(ctx, message, key, detail):
    ctx.violations.append(dict(kind=ctx.kind, index=ctx.index, key=key, message=short(message, 1500),
                               env=ctx.job["env"], shard=ctx.job["shard"],
                               detail={k: short(v, 4000) for k, v in detail.items()}))
