"""A controlled scheduler for python threads: one thread runs at a time, and switches happen where a plan says.

A step is one executed line of the library.  A plan is a list of (thread, steps or None); None runs the thread to its
end.  What the plan leaves over runs to its end in the order of the threads.
"""
import os
import sys
import threading

from . import lib

ROOT = os.path.dirname(os.path.realpath(lib.pyuff.__file__)) + os.sep
_OURS = {}


def ours(code):
    r = _OURS.get(code)
    if r is None:
        r = _OURS[code] = os.path.realpath(code.co_filename).startswith(ROOT)
    return r


class Controlled(threading.Thread):
    def __init__(self, program):
        super().__init__(daemon=True)
        self.program = program
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.left = None            # steps until the next switch; None: to the end
        self.steps = 0
        self.count = False
        self.result, self.error, self.over = None, None, False

    def run(self):
        self.go.acquire()
        if self.left is not None or self.count:
            sys.settrace(self.trace)
        try:
            self.result = self.program()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.over = True
            self.back.release()

    def trace(self, frame, event, arg):
        if not ours(frame.f_code):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            if self.left is None and not self.count:
                # the rest runs without being watched
                sys.settrace(None)
                frame.f_trace = None
                return None
            self.steps += 1
            if self.left is not None:
                self.left -= 1
                if self.left <= 0:
                    self.back.release()
                    self.go.acquire()
        return self.line


def steps(program):
    """The number of steps of a program alone."""
    t = Controlled(program)
    t.count = True
    t.start()
    t.go.release()
    t.back.acquire()
    t.join()
    if t.error:
        raise t.error
    return t.steps


def run(programs, plan, patience=3.0):
    """Runs the programs by the plan.  Returns the threads; one that does not end has over False."""
    threads = [Controlled(p) for p in programs]
    blocked = set()
    for t in threads:
        t.start()
    for i, k in list(plan) + [(i, None) for i in range(len(threads))]:
        t = threads[i]
        if t.over or (i in blocked and not t.back.acquire(timeout=0.01)):
            continue
        blocked.discard(i)
        if t.over:
            continue
        t.left = k
        t.go.release()
        if not t.back.acquire(timeout=patience):
            blocked.add(i)          # waits for something another thread holds
    for i in sorted(blocked):
        threads[i].left = None
        if not threads[i].over and threads[i].back.acquire(timeout=patience) and not threads[i].over:
            threads[i].go.release()
    for t in threads:
        t.join(patience)
    return threads
