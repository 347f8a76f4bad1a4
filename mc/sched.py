"""Cooperative scheduler: two real threads, exactly one runs at a time, switches only at traced lines of repository code."""
import os, sys, threading
from .core import REPO

ROOT = os.path.realpath(REPO) + os.sep + "blueqat" + os.sep
_mine = {}


def mine(fn):
    r = _mine.get(fn)
    if r is None:
        r = _mine[fn] = os.path.realpath(fn).startswith(ROOT)
    return r


class Two:
    """plan: list of (thread, steps); after the plan the threads finish one after the other (last planned other thread first)"""
    def __init__(self, fns, plan):
        self.fns = fns
        self.plan = list(plan)
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * len(fns)
        self.res = [None] * len(fns)
        self.exc = [None] * len(fns)
        self.steps = [0] * len(fns)
        self.left = None
        self.finished = threading.Semaphore(0)
        self.switches = 0

    def _next(self, me):
        """hand over to the next segment's thread; returns True if me continues"""
        while True:
            if self.plan:
                th, n = self.plan.pop(0)
                self.left = n
            else:
                alive = [i for i in range(len(self.fns)) if not self.done[i]]
                if not alive:
                    self.finished.release()
                    return False
                th = next((i for i in alive if i != me), alive[0])
                self.left = None
            if self.done[th]:
                continue
            if th == me:
                return True
            self.switches += 1
            self.sem[th].release()
            return False

    def _body(self, i):
        self.sem[i].acquire()

        def local(frame, event, arg):
            if event == "line":
                self.steps[i] += 1
                if self.left is not None:
                    if self.left <= 0:
                        if not self._next(i):
                            self.sem[i].acquire()
                    if self.left is not None:
                        self.left -= 1
            return local

        def glob(frame, event, arg):
            return local if mine(frame.f_code.co_filename) else None
        sys.settrace(glob)
        try:
            self.res[i] = self.fns[i]()
        except BaseException as ex:
            self.exc[i] = ex
        finally:
            sys.settrace(None)
            self.done[i] = True
            self._next(i)

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ts:
            t.start()
        th, n = self.plan.pop(0)
        self.left = n
        self.sem[th].release()
        if not self.finished.acquire(timeout=60):
            raise RuntimeError("schedule did not finish (deadlock)")
        for t in ts:
            t.join(10)
        return self.res, self.exc
