"""Generated thread switches: one of n threads runs at a time, and passes the turn on after a generated number of lines of the code under test."""
import os
import sys
import threading

from vh import env


class Turns:
    """A thread that waits for something a parked one holds (a lock, say) makes no progress: then all run freely."""

    def __init__(self, n, runs):
        self.cond, self.alive, self.now, self.runs = threading.Condition(), set(range(n)), 0, runs
        self.at, self.left, self.free, self.count, self.switches = 0, runs[0], False, 0, 0

    def _next(self):
        later = [i for i in sorted(self.alive) if i > self.now] or sorted(self.alive)
        if later:
            self.switches += later[0] != self.now
            self.now = later[0]
        self.at += 1
        self.left = self.runs[self.at % len(self.runs)]
        self.cond.notify_all()

    def _wait(self, i):
        while self.now != i and not self.free:
            seen = self.count
            if not self.cond.wait(2) and seen == self.count:
                self.free = True
                self.cond.notify_all()

    def line(self, i):
        with self.cond:
            self.count += 1
            if self.free:
                return
            if self.now == i:
                self.left -= 1
                if self.left <= 0:
                    self._next()
            self._wait(i)

    def end(self, i):
        with self.cond:
            self.alive.discard(i)
            if self.now == i:
                self._next()

    def tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.line(i)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(env.REPO + os.sep) else None
        return glob


def run(fns, runs=None, timeout=50):
    """Calls every function in a thread of its own. Returns the results (an exception if one was raised, None if it did not end) and the
    Turns (None without generated switches)."""
    res = [None] * len(fns)
    start = threading.Barrier(len(fns))
    turns = Turns(len(fns), runs) if runs else None

    def go(i, fn):
        try:
            start.wait(30)
            if turns:
                sys.settrace(turns.tracer(i))
            res[i] = fn()
        except BaseException as e:
            res[i] = e
        finally:
            sys.settrace(None)
            if turns:
                turns.end(i)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=go, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(timeout)
    finally:
        sys.setswitchinterval(old)
    return res, turns
