"""A pristine reference: every request is evaluated by fresh objects in a process forked
from one in which the code under test was imported but never called."""

import os
import pickle
import socket
import struct
import importlib
import traceback


def _send(sock, data):
    sock.sendall(struct.pack("<Q", len(data)) + data)


def _recv(sock):
    head = b""
    while len(head) < 8:
        part = sock.recv(8 - len(head))
        if not part:
            raise EOFError
        head += part
    n = struct.unpack("<Q", head)[0]
    out = bytearray()
    while len(out) < n:
        part = sock.recv(min(1 << 20, n - len(out)))
        if not part:
            raise EOFError
        out += part
    return bytes(out)


def run_forked(fn, *args):
    """Evaluate fn(*args) in a forked child; returns the pickled ('ok'|'err', ...)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = ("ok", fn(*args))
                data = pickle.dumps(out, protocol=5)
            except BaseException as e:
                data = pickle.dumps(
                    ("err", type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
                )
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        data = pickle.dumps(("err", "ChildDied", "", ""))
    return data


class RefServer:
    """Fork it before the first call into the code under test.

    ``reset`` starts a new process for the next run; inside it every request is evaluated
    by a freshly executed copy of the package, so that neither objects, classes nor
    modules of the code under test carry anything from one request to the next.
    """

    def __init__(self):
        a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                a.close()
                self._serve(b)
            finally:
                os._exit(0)
        b.close()
        self.sock = a

    def _serve(self, sock):
        """Parent of the per-run processes: never evaluates anything itself."""
        while True:
            pid = os.fork()
            if pid == 0:
                os._exit(self._serve_run(sock))
            _, status = os.waitpid(pid, 0)
            if os.waitstatus_to_exitcode(status) != 7:
                return

    def _serve_run(self, sock):
        from . import boot

        memo = {}
        while True:
            try:
                data = _recv(sock)
            except EOFError:
                return 0
            if data == b"reset":
                return 7
            if data == b"quit":
                return 0
            if data not in memo:
                mod, fn, args = pickle.loads(data)
                try:
                    func = getattr(importlib.import_module(mod), fn)
                    boot.fresh()
                    out = pickle.dumps(("ok", func(*args)), protocol=5)
                except BaseException as e:
                    out = pickle.dumps(
                        ("err", type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
                    )
                memo[data] = out
            _send(sock, memo[data])

    def reset(self):
        _send(self.sock, b"reset")

    def call(self, mod, fn, *args):
        _send(self.sock, pickle.dumps((mod, fn, args), protocol=5))
        return pickle.loads(_recv(self.sock))

    def close(self):
        try:
            _send(self.sock, b"quit")
        except OSError:
            pass
        self.sock.close()
        try:
            os.kill(self.pid, 9)
        except OSError:
            pass
        os.waitpid(self.pid, 0)
