"""Runs functions in threads under a given schedule.  Only one thread runs at a time; control passes at calls into
the library, or (fine) at the instructions of the library, so that a schedule (list of (thread, number of them))
fixes the interleaving."""
import os
import sys
import threading

import pddl

ROOT = os.path.dirname(os.path.realpath(pddl.__file__)) + os.sep
STUCK_S = 0.5        # a thread waiting for another one gives up its turn
DEAD_S = 20.0


class Sched:
    def __init__(self, fns, turns, fine=False, quota_all=10 ** 9):
        """turns: list of (thread, calls); afterwards the threads run to their end one after another."""
        self.fns = fns
        self.fine = fine
        self.turns = list(turns) + [(i, quota_all) for i in range(len(fns))]
        self.cv = threading.Condition()
        self.pos = 0
        self.left = self.turns[0][1]
        self.done = [False] * len(fns)
        self.beat = 0
        self.results = [None] * len(fns)
        self.calls = [0] * len(fns)
        self.where = [[] for _ in fns]      # the places of the steps of each thread

    def _advance(self):
        """The next turn of a thread that is not finished (lock held)."""
        self.pos += 1
        while self.pos < len(self.turns) and self.done[self.turns[self.pos][0]]:
            self.pos += 1
        if self.pos < len(self.turns):
            self.left = self.turns[self.pos][1]
        self.beat += 1
        self.cv.notify_all()

    def _mine(self, i):
        return self.pos >= len(self.turns) or self.turns[self.pos][0] == i

    def _wait(self, i):
        while not self._mine(i):
            seen = self.beat
            if not self.cv.wait(STUCK_S) and seen == self.beat:
                self._advance()       # the thread in turn is blocked on something another thread holds

    def _step(self, i, frame):
        with self.cv:
            self.calls[i] += 1
            self.where[i].append((frame.f_code.co_qualname, frame.f_lasti))
            self.beat += 1
            if self.pos >= len(self.turns):
                return
            self._wait(i)
            self.left -= 1
            if self.left < 0 and self._mine(i):
                self._advance()
                self._wait(i)
                self.left -= 1

    def _body(self, i):
        def prof(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(ROOT):
                self._step(i, frame)

        def local(frame, event, arg):
            if event == "opcode":
                self._step(i, frame)
            return local

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(ROOT):
                return None
            frame.f_trace_lines = False
            frame.f_trace_opcodes = True
            return local
        with self.cv:
            self._wait(i)
        if self.fine:
            sys.settrace(trace)
        else:
            sys.setprofile(prof)
        try:
            try:
                self.results[i] = ("value", self.fns[i]())
            except BaseException as e:
                self.results[i] = ("raised", e)
        finally:
            sys.setprofile(None)
            sys.settrace(None)
            with self.cv:
                self.done[i] = True
                if self._mine(i):
                    self._advance()

    def run(self):
        """Results of the functions, or None when some thread does not end."""
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(DEAD_S)
        return None if any(t.is_alive() for t in ts) else self.results


def point(rng, where):
    """A number of steps after which to switch: any step, or one at some place of some function, however rare."""
    n = len(where)
    if n < 2 or rng.random() < 0.4:
        return rng.randrange(1, n + 2)
    f = rng.choice(sorted({w[0] for w in where}))
    at = rng.choice(sorted({w[1] for w in where if w[0] == f}))
    return rng.choice([k for k, w in enumerate(where) if w == (f, at)]) + rng.choice([0, 1])


def again(result):
    """A function with the outcome of an earlier call."""
    def f():
        if result[0] == "raised":
            raise result[1]
        return result[1]
    return f
