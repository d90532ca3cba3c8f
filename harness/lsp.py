"""Minimal JSON-RPC-over-stdio client for the language server (stdlib only).

The client never interprets the server's answers; it only frames, sends and
collects messages, with a generous per-wait timeout.
"""
import json
import os
import selectors
import subprocess
import tempfile
import time


class ServerDied(Exception):
    pass


class ServerHung(Exception):
    pass


class Server:
    def __init__(self, binary, timeout=60.0, env=None):
        e = dict(os.environ)
        e.pop("RUST_LOG", None)
        e["RUST_BACKTRACE"] = "0"
        if env:
            e.update(env)
        self.errfile = tempfile.TemporaryFile()
        self.p = subprocess.Popen(
            [binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=self.errfile, env=e, bufsize=0)
        os.set_blocking(self.p.stdout.fileno(), False)
        os.set_blocking(self.p.stdin.fileno(), False)
        self.buf = b""
        self.timeout = timeout
        self.eof = False
        self.outq = b""

    # -- low level -----------------------------------------------------------
    def send(self, msg):
        body = json.dumps(msg).encode("utf-8")
        self.send_raw(b"Content-Length: %d\r\n\r\n" % len(body) + body)

    def send_raw(self, data):
        self.outq += data
        self._flush_some()

    def _flush_some(self):
        while self.outq:
            try:
                n = os.write(self.p.stdin.fileno(), self.outq[:65536])
                self.outq = self.outq[n:]
            except BlockingIOError:
                return
            except (BrokenPipeError, ValueError):
                self.outq = b""
                return

    def _parse(self):
        i = self.buf.find(b"\r\n\r\n")
        if i < 0:
            return None
        n = None
        for h in self.buf[:i].split(b"\r\n"):
            if h.lower().startswith(b"content-length:"):
                n = int(h.split(b":")[1])
        if n is None:
            raise ServerDied("malformed frame header %r" % self.buf[:i])
        if len(self.buf) < i + 4 + n:
            return None
        body = self.buf[i + 4:i + 4 + n]
        self.buf = self.buf[i + 4 + n:]
        return json.loads(body)

    def recv(self, timeout=None):
        """Next message from the server; raises ServerDied/ServerHung."""
        t0 = time.time()
        deadline = t0 + (self.timeout if timeout is None else timeout)
        sel = selectors.DefaultSelector()
        sel.register(self.p.stdout, selectors.EVENT_READ)
        try:
            while True:
                m = self._parse()
                if m is not None:
                    return m
                if self.eof:
                    raise ServerDied(self.stderr_tail())
                self._flush_some()
                left = deadline - time.time()
                if left <= 0:
                    if self.panicked():
                        raise ServerDied(self.stderr_tail())
                    raise ServerHung()
                # a panic may end the server's main task but not the process
                if time.time() - t0 > 1.0 and self.panicked():
                    raise ServerDied(self.stderr_tail())
                left = min(left, 1.0)
                if self.outq:
                    left = min(left, 0.01)
                if sel.select(left):
                    try:
                        d = os.read(self.p.stdout.fileno(), 1 << 20)
                    except BlockingIOError:
                        continue
                    if not d:
                        self.eof = True
                    self.buf += d
        finally:
            sel.close()

    def panicked(self):
        return "panicked at" in self.stderr_tail()

    def stderr_tail(self):
        try:
            # (pread: the child shares the file offset)
            n = os.fstat(self.errfile.fileno()).st_size
            k = min(n, 4000)
            return os.pread(self.errfile.fileno(), k, n - k).decode("utf-8", "replace")[-2000:]
        except Exception:
            return ""

    def close_stdin(self):
        deadline = time.time() + 10
        while self.outq and time.time() < deadline:
            self._flush_some()
            time.sleep(0.001)
        try:
            self.p.stdin.close()
        except Exception:
            pass

    def kill(self):
        if self.p.stdout.closed:
            return
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.kill()
        except Exception:
            pass
        self.p.wait()
        self.p.stdout.close()
        self.errfile.close()
