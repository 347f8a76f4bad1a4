"""Deterministic fault injection: raise an exception at the k-th executed opcode (or line) of repository code."""
import os, sys
from .core import REPO

ROOT = os.path.realpath(REPO) + os.sep + "blueqat" + os.sep


class Injector:
    def __init__(self, at=None, exc=KeyboardInterrupt, opcodes=True):
        self.at, self.exc, self.opcodes = at, exc, opcodes
        self.n = 0
        self.where = None
        self._ok = {}

    def _mine(self, fn):
        r = self._ok.get(fn)
        if r is None:
            r = self._ok[fn] = os.path.realpath(fn).startswith(ROOT)
        return r

    def _global(self, frame, event, arg):
        if not self._mine(frame.f_code.co_filename):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.n += 1
            if self.n == self.at:
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} in {frame.f_code.co_name}"
                sys.settrace(None)
                raise self.exc("injected")
        return self._local

    def run(self, fn):
        """-> (result, exception)"""
        old = sys.gettrace()
        sys.settrace(self._global)
        try:
            r = fn()
            return r, None
        except BaseException as ex:
            sys.settrace(old)
            if self.where is None:
                raise
            return None, ex
        finally:
            sys.settrace(old)
