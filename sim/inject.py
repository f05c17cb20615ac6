"""Fault points: an exception raised at the n-th line or bytecode of the library."""

import ast
import os
import sys

from . import boot

_CLEAN = {}


def cleanup_lines(path):
    """Lines on which asynchronous faults are not injected: those of ``with`` headers,
    ``finally`` bodies and exception handlers (their execution is clean-up, which
    CPython cannot be made atomic against, and which no Python code can guard)."""
    if path not in _CLEAN:
        lines = set()
        try:
            with open(path) as f:
                tree = ast.parse(f.read())
            for node in ast.walk(tree):
                if isinstance(node, (ast.With, ast.AsyncWith)):
                    lines.update(range(node.lineno, node.body[0].lineno))
                    lines.add(node.lineno)
                if isinstance(node, ast.Try):
                    for body in [node.finalbody] + [h.body for h in node.handlers]:
                        for n in body:
                            lines.update(range(n.lineno, n.end_lineno + 1))
                    lines.add(node.lineno)
                # a simple statement right before ``try`` is the acquisition of the pair
                for name in ("body", "orelse", "finalbody"):
                    block = getattr(node, name, None)
                    if not isinstance(block, list):
                        continue
                    for a, b in zip(block[:-1], block[1:]):
                        if isinstance(b, ast.Try) and isinstance(
                            a, (ast.Assign, ast.Expr, ast.AnnAssign, ast.AugAssign)
                        ):
                            lines.update(range(a.lineno, a.end_lineno + 1))
        except (OSError, SyntaxError):
            pass
        _CLEAN[path] = lines
    return _CLEAN[path]


def in_cleanup(frame):
    """Whether the library is in clean-up code, here or in a calling frame."""
    while frame is not None:
        name = frame.f_code.co_filename
        if name.startswith(boot.PKG) and frame.f_lineno in cleanup_lines(name):
            return True
        frame = frame.f_back
    return False


class Injector:
    """Trace a call, raise ``exc`` at fault point ``at`` (counted from 1)."""

    def __init__(self, exc, at, opcode=False, skip=()):
        self.exc = exc
        self.at = at
        self.opcode = opcode
        self.skip = tuple(skip)
        self.seen = 0
        self.fired = False
        self.where = None

    def call(self, fn, *args, **kwargs):
        sys.settrace(self._global)
        try:
            return fn(*args, **kwargs)
        finally:
            sys.settrace(None)

    def _global(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(boot.PKG):
            return None
        rel = name[len(boot.PKG) :]
        if rel.startswith(self.skip) and self.skip:
            return None
        frame.f_trace_opcodes = self.opcode
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcode else "line"):
            if in_cleanup(frame):
                return self._local
            self.seen += 1
            if self.seen == self.at and not self.fired:
                self.fired = True
                self.where = (
                    os.path.basename(frame.f_code.co_filename),
                    frame.f_code.co_name,
                    frame.f_lineno,
                )
                raise self.exc
        return self._local
