"""Controlled scheduler: threads run one at a time and change places at chosen executed lines (or bytecodes) of pyage."""
import os
import sys
import threading

from mon.core import AGE_DIR

INF = 1 << 60


class Stuck(Exception):
    """the operations did not finish although nothing held them back"""


class Run:
    """run thunks under a schedule: a list of (thread, events), then everybody to the end in order.

    If the thread whose turn it is does not report within `patience` seconds (it may wait for a lock that a paused
    thread holds) all threads are set free: such a schedule is infeasible, not wrong."""

    def __init__(self, thunks, schedule, opcodes=False, patience=3.0, limit=60.0):
        self.thunks, self.schedule, self.opcodes = thunks, list(schedule), opcodes
        self.patience, self.limit = patience, limit
        n = len(thunks)
        self.results = [None] * n
        self.events = [0] * n
        self.budget = [0] * n
        self.done = [False] * n
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.ready = threading.Semaphore(0)
        self.free = False
        self.switches = 0
        self.trail = []
        self.places = None  # a list, to record where thread 0 has its events

    # --- in the threads
    def _event(self, i, frame):
        self.events[i] += 1
        if self.places is not None and i == 0:
            self.places.append((frame.f_code, frame.f_lasti if self.opcodes else frame.f_lineno))
        if self.free:
            return
        self.budget[i] -= 1
        if self.budget[i] <= 0:
            self.back.release()
            self.go[i].acquire()

    def _tracer(self, i):
        opcodes = self.opcodes
        want = "opcode" if opcodes else "line"

        def local(frame, event, arg):
            if event == want:
                self._event(i, frame)
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(AGE_DIR):
                return None
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        return glob

    def _thread(self, i):
        # all threads trace before the first one runs: nothing is instrumented anew while one is paused
        sys.settrace(self._tracer(i))
        self.ready.release()
        self.go[i].acquire()
        try:
            r = self.thunks[i]()
        except BaseException as e:
            r = ("raised", type(e).__name__, str(e)[:200])
        finally:
            sys.settrace(None)
        self.results[i] = r
        self.done[i] = True
        self.back.release()

    # --- the controller
    def _turn(self, i, events):
        self.budget[i] = events
        self.switches += 1
        before = self.events[i]
        self.go[i].release()
        if not self.back.acquire(timeout=self.patience):
            self._release()
        else:
            self.trail.append((i, self.events[i] - before))

    def _release(self):
        self.free = True
        for g in self.go:
            g.release()
            g.release()

    def run(self):
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.thunks))]
        if self.opcodes:
            _arm()
        for t in ts:
            t.start()
        for t in ts:
            self.ready.acquire()
        for i, k in self.schedule:
            if self.free:
                break
            if not self.done[i]:
                self._turn(i, k)
        for i in range(len(ts)):
            if not self.free and not self.done[i]:
                self._turn(i, INF)
        for t in ts:
            t.join(self.limit)
            if t.is_alive():
                raise Stuck(self.trail)
        return self.results


def _arm():
    """without this the first trace function of a process gets no opcode events (Python 3.12)"""
    sys._getframe().f_trace_opcodes = True


class local_urandom:
    """os.urandom as a function of (current task, number of the call): a task sees the same bytes alone and in company"""

    def __init__(self, seed):
        self.seed, self.tl = seed, threading.local()

    def enter(self, name):
        import random

        self.tl.rng = random.Random(f"{self.seed}|{name}")

    def leave(self):
        self.tl.rng = None

    def __enter__(self):
        self.real = os.urandom
        os.urandom = self.gen
        return self

    def __exit__(self, *a):
        os.urandom = self.real

    def gen(self, n):
        r = getattr(self.tl, "rng", None)
        return self.real(n) if r is None else r.randbytes(n)
