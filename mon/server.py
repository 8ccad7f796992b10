"""A loopback HTTP server whose answers are scripted byte by byte, recording every request."""
import socket
import struct
import threading


class Server:
    def __init__(self):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(32)
        self.port = self.s.getsockname()[1]
        self.requests, self.script, self.body = [], [], b""
        self.dead = False
        self.lock = threading.Lock()
        self.t = threading.Thread(target=self.loop, daemon=True, name="mon-server")
        self.t.start()

    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            if self.dead:
                c.close()
                return
            try:
                self.one(c)
            except OSError:
                pass
            finally:
                try:
                    c.close()
                except OSError:
                    pass

    def one(self, c):
        c.settimeout(20)
        data = b""
        while b"\r\n\r\n" not in data:
            b = c.recv(65536)
            if not b:
                return
            data += b
        path = data.split(b" ")[1].decode()
        self.requests.append(path)
        act = self.script.pop(0) if self.script else ("ok",)
        getattr(self, "do_" + act[0])(c, path, *act[1:])

    def reset(self, c):
        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        c.close()

    def head(self, c, status="200 OK", length=None, extra="", version="1.1"):
        h = f"HTTP/{version} {status}\r\nContent-Type: application/zip\r\nConnection: close\r\n{extra}"
        if length is not None:
            h += f"Content-Length: {length}\r\n"
        c.sendall((h + "\r\n").encode())

    # -- complete answers
    def do_ok(self, c, path):
        self.head(c, length=len(self.body))
        c.sendall(self.body)

    def do_pieces(self, c, path, n):
        self.head(c, length=len(self.body))
        for i in range(0, len(self.body), n):
            c.sendall(self.body[i:i + n])

    def do_chunked(self, c, path, n):
        self.head(c, extra="Transfer-Encoding: chunked\r\n")
        for i in range(0, len(self.body), n):
            p = self.body[i:i + n]
            c.sendall(b"%x\r\n" % len(p) + p + b"\r\n")
        c.sendall(b"0\r\n\r\n")

    def do_closed(self, c, path, version):
        self.head(c, version=version)
        c.sendall(self.body)

    def do_redirect(self, c, path, status):
        self.head(c, status, length=0, extra=f"Location: http://127.0.0.1:{self.port}{path}?to\r\n")

    # -- failures
    def do_status(self, c, path, status):
        page = b"<html>error</html>" * 3
        self.head(c, status, length=len(page))
        c.sendall(page)

    def do_drop(self, c, path):
        pass

    def do_rst(self, c, path):
        self.reset(c)

    def do_garbage(self, c, path):
        c.sendall(b"\x00\x01 garbage\r\n\r\n")

    def do_cut(self, c, path, n, rst):
        self.head(c, length=len(self.body))
        c.sendall(self.body[:n])
        if rst:
            self.reset(c)

    def do_cut_chunked(self, c, path, n):
        self.head(c, extra="Transfer-Encoding: chunked\r\n")
        b = self.body
        if n:
            c.sendall(b"%x\r\n" % len(b) + b[:n])

    def do_cut_closed(self, c, path, n, version):
        self.head(c, version=version)
        c.sendall(self.body[:n])

    def do_cut_head(self, c, path):
        c.sendall(b"HTTP/1.1 200 OK\r\nContent-Ty")

    def close(self):
        self.dead = True
        try:
            socket.create_connection(("127.0.0.1", self.port), 2).close()
        except OSError:
            pass
        self.t.join(30)
        self.s.close()
