"""Two (or more) real OS threads under a controlled schedule: exactly one runs at a time; hand-overs happen only at chosen
source-line events inside the code under test."""
import os
import sys
import threading

from .env import REPO

PREFIX = os.path.realpath(os.path.join(REPO, "saltchannel")) + os.sep


class Threads:
    """run([f0, f1], preempt) where preempt is a list of (thread, line_event_index): when the running thread reaches its
    event number, the token goes to the next live thread. -> (results, events per thread, real switches)."""

    def __init__(self, funcs, preempt, start=0, stall_s=2.0):
        self.funcs, self.start, self.stall = funcs, start, stall_s
        self.points = [set(k for t, k in preempt if t == i) for i in range(len(funcs))]
        self.sem = [threading.Semaphore(0) for _ in funcs]
        self.done = [False] * len(funcs)
        self.events = [0] * len(funcs)
        self.results = [None] * len(funcs)
        self.switches = 0
        self.progress = 0

    def _next(self, i):
        n = len(self.funcs)
        for d in range(1, n):
            j = (i + d) % n
            if not self.done[j]:
                return j
        return None

    def _event(self, i):
        k = self.events[i]
        self.events[i] += 1
        self.progress += 1
        if k in self.points[i]:
            j = self._next(i)
            if j is not None:
                self.switches += 1
                self.sem[j].release()
                self.sem[i].acquire()

    def _tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self._event(i)
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(PREFIX) or os.path.realpath(fn).startswith(PREFIX):
                return local
            return None
        return glob

    def _body(self, i):
        self.sem[i].acquire()
        try:
            sys.settrace(self._tracer(i))
            try:
                self.results[i] = ("ok", self.funcs[i]())
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.results[i] = ("exc", e)
        self.done[i] = True
        j = self._next(i)
        if j is not None:
            self.sem[j].release()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.funcs))]
        for t in ts:
            t.start()
        self.sem[self.start].release()
        stuck = 0
        for t in ts:
            while True:
                p = self.progress
                t.join(self.stall)
                if not t.is_alive():
                    break
                if self.progress == p:   # the running thread waits for one we paused: give up the token for it
                    stuck += 1
                    for i, s in enumerate(self.sem):
                        if not self.done[i]:
                            s.release()
                    if stuck > 40:
                        return None
        return self.results
