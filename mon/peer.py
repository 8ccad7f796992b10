"""A persistent second process with other optional packages (or another locale) that performs operations of bm25s on request."""
import os
import pickle
import struct
import subprocess
import sys


class Peer:
    def __init__(self, ctx, block="", env=None, preload=""):
        e = dict(os.environ)
        e.pop("MON_BLOCK", None)
        if block:
            e["MON_BLOCK"] = block
        e.update(env or {})
        self.log = open(os.path.join(ctx.job["scratch"], f"peer-{block or 'all'}.log"), "wb")
        self.p = subprocess.Popen([sys.executable, "-m", "mon.peer", ctx.repo], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env=e)
        self.name = f"without {block}" if block else "all packages"

    def call(self, op, *args, **kw):
        """The result of the operation, or the exception it raised as ("raised", type name, text)."""
        self.send(op, *args, **kw)
        return self.receive()

    def send(self, op, *args, **kw):
        data = pickle.dumps((op, args, kw))
        self.p.stdin.write(struct.pack("<Q", len(data)) + data)
        self.p.stdin.flush()

    def receive(self):
        head = self.p.stdout.read(8)
        if len(head) < 8:
            raise RuntimeError(f"peer ({self.name}) died: {open(self.log.name, 'rb').read()[-1500:].decode('utf-8', 'replace')}")
        (n,) = struct.unpack("<Q", head)
        return pickle.loads(self.p.stdout.read(n))

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def serve():
    out, own = os.fdopen(os.dup(1), "wb"), os.getpid()
    os.dup2(2, 1)
    from mon import core
    if os.environ.get("MON_BLOCK"):
        core.block_imports(os.environ["MON_BLOCK"].split(","))

    class C:
        repo = sys.argv[1]
    broken = None
    try:
        core.import_bm25s(C)
        from mon import ops
    except Exception as e:
        broken = ("raised", type(e).__name__, f"importing bm25s: {e}"[:500])
    while True:
        head = sys.stdin.buffer.read(8)
        if len(head) < 8:
            return
        (n,) = struct.unpack("<Q", head)
        op, args, kw = pickle.loads(sys.stdin.buffer.read(n))
        if kw.pop("_fresh", False):  # in a process of its own, which has done nothing before
            pid = os.fork()
            if pid:
                if os.waitpid(pid, 0)[1]:
                    data = pickle.dumps(("raised", "Died", "the process died"))
                    out.write(struct.pack("<Q", len(data)) + data)
                    out.flush()
                continue
        try:
            r = broken or ("ok", getattr(ops, op)(*args, **kw))
        except Exception as e:
            r = ("raised", type(e).__name__, str(e)[:500])
        data = pickle.dumps(r)
        out.write(struct.pack("<Q", len(data)) + data)
        out.flush()
        if os.getpid() != own:
            os._exit(0)


if __name__ == "__main__":
    serve()
    os._exit(0)
