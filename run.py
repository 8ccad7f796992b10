#!/usr/bin/env python3
"""Supervisor of one check: spawns workers, collects what their monitors observed, decides.

usage: run.py C01 [--replay FILE] [--scale X]

exit 0: held on everything explored;  exit 1: "VIOLATION property=<id> replay=<path>";
exit 2: inconclusive (harness error, watchdog, a deciding monitor that observed too little).
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP, signal.SIGSYS}
if os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(PY))) and os.environ.get("MON_REEXEC") != "1":
    os.environ["MON_REEXEC"] = "1"
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
MAXPROC = int(os.environ.get("VERIF_PROCS", "7"))


def known_findings(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("known: ") and f"property={pid} " in line:
                rest = line.split(f"property={pid} ", 1)[1]
                key = rest.split()[0].split("=", 1)[1]
                out[key] = rest.split(" ", 1)[1].strip()
    return out


def main():
    args = sys.argv[1:]
    pid = args[0]
    if pid == "--setup":
        importlib.import_module("mon.setup_check")
        return
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    scale = float(args[args.index("--scale") + 1]) if "--scale" in args else 1.0
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = importlib.import_module("mon.checks." + pid.lower())
    t0 = time.monotonic()
    watchdog = float(os.environ.get("VERIF_WATCHDOG", "780" if tier == "quick" else "14000"))
    soft = getattr(chk, "SOFT", {"quick": 240, "thorough": 3000})[tier]
    cap = float(os.environ.get("VERIF_SOFT", "1e9"))  # shorter thorough runs: seconds per worker

    outdir = os.path.join(HERE, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"bm25s-verif-{pid}-")

    # what the check needs built (a compiled shim, a fixture), before any worker starts
    prep = chk.prepare(scratch) if hasattr(chk, "prepare") else {}

    jobs = []
    if replay:
        r = json.load(open(replay))
        seed, tier = r["seed"], r["tier"]
        jobs.append(dict(cases=[[r["kind"], r["index"]]], env=r.get("env", {}), shard=r.get("shard", 0)))
    else:
        shard = 0
        for spec in chk.plan(tier):
            env = {k: str(v) for k, v in spec.get("env", {}).items()}
            cases = []
            lists = [[[kind, i] for i in range(max(1, int(n * scale)))] for kind, n in spec["cases"]]
            # interleave the kinds proportionally, so that every soft stop leaves a mix
            total = max(len(l) for l in lists)
            pos = sorted((((j + 0.5) / len(l)), li, j) for li, l in enumerate(lists) for j in range(len(l)))
            cases = [lists[li][j] for _, li, j in pos]
            w = max(1, min(spec.get("workers", MAXPROC), len(cases)))
            for s in range(w):
                jobs.append(dict(cases=cases[s::w], env=env, shard=shard, soft=min(cap, max(spec.get("soft", soft), 400 if tier == "quick" else 0))))
                shard += 1
    for j, job in enumerate(jobs):
        job.update(pid=pid, seed=seed, tier=tier, scratch=os.path.join(scratch, f"w{j}"), repo=REPO, replay=bool(replay))

    def start(j, job):
        os.makedirs(job["scratch"], exist_ok=True)
        jf = os.path.join(scratch, f"job{j}.json")
        job["out"] = os.path.join(scratch, f"out{j}.json")
        job["cur"] = os.path.join(scratch, f"cur{j}")
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "LC_ALL", "USER")}
        env.update(
            PYTHONPATH=REPO + ":" + HERE, JAX_PLATFORMS="cpu", HF_HUB_OFFLINE="1", HF_HUB_DISABLE_TELEMETRY="1",
            PYTHONDONTWRITEBYTECODE="1", TMPDIR=job["scratch"], NUMBA_NUM_THREADS="8",
            HF_HOME=os.path.join(scratch, "hf"), OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1",
            TF_CPP_MIN_LOG_LEVEL="3",
            PYTHONHASHSEED=str((seed * 7919 + job["shard"] * 131 + 1) % 4294967295),
        )
        env.setdefault("LANG", "C.UTF-8")
        env.update(prep)
        env.update(job["env"])
        json.dump(job, open(jf, "w"))
        log = open(os.path.join(scratch, f"log{j}"), "wb")
        p = subprocess.Popen([PY, "-X", "faulthandler", "-m", "mon.worker", jf], env=env, cwd=job["scratch"],
                             stdout=log, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True)
        return p

    results, violations, errors, known = [], [], [], {}
    pending = list(enumerate(jobs))
    running = {}
    rc = 2
    try:
        while pending or running:
            while pending and len(running) < MAXPROC:
                j, job = pending.pop(0)
                running[j] = (start(j, job), job)
            done = [j for j, (p, _) in running.items() if p.poll() is not None]
            for j in done:
                p, job = running.pop(j)
                code = p.returncode
                res = None
                if os.path.exists(job["out"]):
                    try:
                        res = json.load(open(job["out"]))
                    except ValueError:
                        res = None
                if code == 0 and res is not None:
                    results.append(res)
                elif code < 0 and -code in CRASH:
                    if res is not None:
                        results.append(res)
                    cur = open(job["cur"]).read().strip("\0 \n") if os.path.exists(job["cur"]) else ""
                    c = json.loads(cur) if cur else {"kind": "startup", "index": 0}
                    violations.append(dict(kind=c["kind"], index=c["index"], key="crash", env=job["env"], shard=job["shard"],
                                           message=f"process killed by signal {signal.Signals(-code).name}",
                                           detail={"log": tail(scratch, j)}))
                else:
                    if res is not None:
                        results.append(res)
                    errors.append(f"worker {j} ended with {code}: {tail(scratch, j)}")
            if time.monotonic() - t0 > watchdog:
                errors.append("watchdog: the check did not finish in time")
                pending = []
                for p, _ in running.values():
                    killpg(p)
                for p, _ in running.values():
                    p.wait()
                running = {}
            if running:
                time.sleep(0.02)
        cov, distinct, samples, counters = {}, set(), [], {}
        for r in results:
            for v in r["violations"]:
                violations.append(v)
            for k, v in r["known"].items():
                known.setdefault(k, v)
            errors += r["errors"]
            distinct.update(r["distinct"])
            samples += r["samples"][:2]
            for k, v in r["counters"].items():
                if k.startswith("max_"):
                    counters[k] = max(counters.get(k, 0), v)
                else:
                    counters[k] = counters.get(k, 0) + v
        listed = known_findings(pid)
        real = []
        for v in violations:
            if v.get("key") in listed:
                known.setdefault(v["key"], v["message"])
            else:
                real.append(v)
        for k in list(known):
            if k not in listed:
                # a monitor classified something as known, but the file does not list it
                real.append(known[k] if isinstance(known[k], dict) else dict(kind="known", index=0, key=k, message=str(known[k]), env={}, shard=0))
        if not replay and not real:
            mins = chk.MIN(tier) if callable(getattr(chk, "MIN", None)) else getattr(chk, "MIN", {})
            for k, m in mins.items():
                got = len(distinct) if k == "distinct" else counters.get(k, 0)
                if got < m * min(1, scale):
                    errors.append(f"too few observations: {k}={got} < {m}")
        wall = round(time.monotonic() - t0, 2)
        cov = dict(evaluations=counters.pop("evaluations", 0), distinct_nontrivial=len(distinct), rule=chk.RULE,
                   samples=samples[:6] or ["(none)"], observed=dict(sorted(counters.items())), workers=len(jobs))
        ev = dict(property=pid, tier=tier, seed=seed, level=chk.LEVEL, coverage=cov,
                  assumptions=list(getattr(chk, "ASSUMPTIONS", [])), wall_s=wall, violations=len(real))
        if not replay:
            with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
                json.dump(ev, f, indent=1)
        for k in known:
            if k in listed:
                print(f"KNOWN-FINDING: property={pid} {listed[k]}")
        if real:
            seen = set()
            for n, v in enumerate(real):
                sig = (v["kind"], v.get("key") or v["message"][:60])
                if sig in seen and n:
                    continue
                seen.add(sig)
                if len(seen) > 5:
                    break
                path = os.path.join(outdir, f"replay-{len(seen)}.json")
                json.dump(dict(v, property=pid, seed=seed, tier=tier), open(path, "w"), indent=1, default=repr)
                print(f"VIOLATION property={pid} replay={path}")
                print(f"  {v['kind']}[{v['index']}]: {v['message']}"[:1500])
            rc = 1
        elif errors:
            print(f"INCONCLUSIVE property={pid}")
            for e in errors[:5]:
                print("  " + e[-3000:])
            rc = 2
        else:
            print(f"HELD property={pid} tier={tier} seed={seed} evaluations={cov['evaluations']} distinct={len(distinct)} wall={wall}s")
            if os.environ.get("VERIF_VERBOSE"):
                print(json.dumps(cov["observed"], indent=1))
            rc = 0
    finally:
        for p, _ in running.values():
            killpg(p)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def tail(scratch, j, n=2500):
    try:
        return open(os.path.join(scratch, f"log{j}"), "rb").read()[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


if __name__ == "__main__":
    main()
