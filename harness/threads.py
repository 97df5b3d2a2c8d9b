"""Run two pieces of work in two real threads under a given schedule.

One thread runs at a time.  A thread is stopped where the schedule says: before a call, or at a
line of the code under test inside a call.  The lines are counted with the interpreter's trace
facility, so a schedule can be repeated exactly.
"""
import os
import sys
import threading

from rec import REPO, Timeout

WATCH = tuple(os.path.join(os.path.realpath(REPO), d) + os.sep for d in ('src', 'scripts'))
MANY = 3000000                       # lines in one call: it does not end


def watched(name, known={}):
    if name not in known:
        known[name] = os.path.realpath(name).startswith(WATCH)
    return known[name]


class Lines:
    """Calls a function at every line of the code under test."""

    def __init__(self, at_line):
        self.at_line = at_line

    def __call__(self, frame, what, arg):
        if not watched(frame.f_code.co_filename):
            return None
        return self.inner

    def inner(self, frame, what, arg):
        if what == 'line':
            self.at_line(frame)
        return self.inner


def footprint(calls):
    """The work alone: for every call the places (file, line) it passes, in order."""
    out = []
    for f in calls:
        here = []
        old = sys.gettrace()
        sys.settrace(Lines(lambda fr: here.append((fr.f_code.co_filename, fr.f_lineno)) if len(here) < MANY else None))
        try:
            f()
        finally:
            sys.settrace(old)
        out.append(here)
    return out


class Thread(threading.Thread):
    def __init__(self, calls, stops):
        """stops: call number -> sorted line counts at which the other thread gets the processor."""
        super().__init__(daemon=True)
        self.calls, self.stops = calls, stops
        self.turn = threading.Semaphore(0)
        self.done = False
        self.other = None
        self.error = None

    def hand_over(self):
        if self.other.done:
            return
        self.other.turn.release()
        self.turn.acquire(timeout=20)      # the other may wait for something held here: go on then

    def line(self, frame):
        self.count += 1
        if self.pending and self.count >= self.pending[0]:
            self.pending.pop(0)
            self.hand_over()
        if self.count > MANY:
            raise Timeout()

    def run(self):
        self.turn.acquire()
        try:
            for i, f in enumerate(self.calls):
                self.count, self.pending = 0, list(self.stops.get(i, ()))
                while self.pending and self.pending[0] == 0:
                    self.pending.pop(0)
                    self.hand_over()
                sys.settrace(Lines(self.line))
                try:
                    f()
                finally:
                    sys.settrace(None)
                for _ in self.pending:     # the call was shorter than foreseen
                    self.hand_over()
        except BaseException as e:
            self.error = e
        finally:
            self.done = True
            self.other.turn.release()


def together(works, stops, first):
    """Both pieces of work to their end; True if they got there."""
    ts = [Thread(w, s) for w, s in zip(works, stops)]
    ts[0].other, ts[1].other = ts[1], ts[0]
    for t in ts:
        t.start()
    ts[first].turn.release()
    for t in ts:
        t.join(timeout=120)
    return all(t.done and t.error is None for t in ts)
