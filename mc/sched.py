"""Runs two or more functions in threads under a controlled scheduler.

Every line of the tool executed by a thread is a scheduling point. A schedule is a list
of (thread, steps): run that thread for that many points (None: until it ends), then
switch. Threads not finished at the end of the list run to their ends one after another.
"""

import os
import sys
import threading

from .core import REPO

PREFIX = REPO + os.sep


def stack(frame):
    out = []
    while frame is not None and frame.f_code.co_filename.startswith(PREFIX):
        out.append((id(frame.f_code), frame.f_lineno))
        frame = frame.f_back
    return tuple(out)


class Run:
    def __init__(self, functions, schedule, opcodes=False, light=False):
        self.light = light  # stop counting points where no switch can come any more
        self.fs = functions
        self.n = len(functions)
        self.sched = list(schedule) + [(t, None) for t in range(self.n)]
        self.at = -1
        self.left = None
        self.done = [False] * self.n
        self.sems = [threading.Semaphore(0) for _ in functions]
        self.results = [None] * self.n
        self.points = [0] * self.n
        self.free = False
        self.switches = 0
        self.opcodes = opcodes
        self.places = None  # a list: record where (call stack) each point is

    def next(self, me):
        """Move to the next segment; returns the thread that runs it (None: all ended)."""
        while self.at + 1 < len(self.sched):
            self.at += 1
            t, steps = self.sched[self.at]
            if self.done[t] or steps == 0:
                continue
            self.left = steps
            if t != me:
                self.switches += 1
            return t
        return None

    def wait(self, me):
        # a thread that waits for something the other holds (a lock) ends the control
        if not self.sems[me].acquire(timeout=5):
            self.free = True
            for s in self.sems:
                s.release()

    def last(self, me):
        """Nothing is left to decide for this thread: it runs to its end."""
        return self.light and (self.free or self.left is None and not any(t == me and steps for t, steps in self.sched[self.at + 1 :]))

    def point(self, me):
        self.points[me] += 1
        if self.free or self.left is None:
            if self.last(me):
                sys.settrace(None)
            return
        if self.left:
            self.left -= 1
            return
        t = self.next(me)
        if t is not None and t != me:
            self.sems[t].release()
            self.wait(me)

    def body(self, me):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                if self.places is not None:
                    self.places.append(stack(frame))
                self.point(me)
            return local

        def top(frame, event, arg):
            if not frame.f_code.co_filename.startswith(PREFIX):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local

        self.wait(me)
        if not self.last(me):
            sys.settrace(top)
        try:
            r = ("ok", self.fs[me]())
        except BaseException as e:
            r = ("failed", f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
        self.results[me] = r
        self.done[me] = True
        t = self.next(me)
        if t is not None:
            self.sems[t].release()

    def go(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sems[self.next(None)].release()
        for t in ts:
            t.join()
        return self.results
