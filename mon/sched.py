"""Schedule perturbation: yields and delays injected between the lines of the code under test, in every thread, with a log of the thread switches seen."""
import os
import random
import sys
import threading
import time

TOOL = 4


class Perturb:
    """Use as a context manager around the concurrent part. Only lines of files under `root` are perturbed."""

    def __init__(self, root, seed, rate=0.15, sleep=2e-4, opcodes=False):
        self.root = os.path.realpath(root) + os.sep
        self.seed, self.rate, self.sleep = seed, rate, sleep
        self.local = threading.local()
        self.last = None
        self.events = 0
        self.switches = set()
        self.n_switch = 0
        self.nth = 0
        self.sites = {}

    def _line(self, code, line):
        ok = self.sites.get(code)
        if ok is None:
            ok = self.sites[code] = os.path.realpath(code.co_filename).startswith(self.root)
        if not ok:
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        here = (code.co_name, line)
        last = self.last
        self.events += 1
        if last is not None and last[0] != me:
            self.n_switch += 1
            self.switches.add((last[1], here))
        self.last = (me, here)
        rng = getattr(self.local, "rng", None)
        if rng is None:
            self.nth += 1
            rng = self.local.rng = random.Random(f"{self.seed}|{self.nth}")
        x = rng.random()
        if x < self.rate:
            # long enough for another thread to run, often at 0
            time.sleep(0 if x < self.rate * 0.6 else self.sleep * rng.random())

    def __enter__(self):
        m = sys.monitoring
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        m.use_tool_id(TOOL, "perturb")
        m.register_callback(TOOL, m.events.LINE, self._line)
        m.set_events(TOOL, m.events.LINE)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)
        sys.setswitchinterval(self.old)
        return False


def run_threads(jobs, timeout=120):
    """Run each list of thunks in its own thread, released together; returns results or exceptions in order."""
    n = len(jobs)
    barrier = threading.Barrier(n)
    out = [[None] * len(j) for j in jobs]

    def work(t):
        barrier.wait()
        for i, f in enumerate(jobs[t]):
            try:
                out[t][i] = ("ok", f())
            except BaseException as e:
                out[t][i] = ("raised", e)

    ths = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(n)]
    for t in ths:
        t.start()
    end = time.monotonic() + timeout
    for t in ths:
        t.join(max(0.1, end - time.monotonic()))
    return out, not any(t.is_alive() for t in ths)
