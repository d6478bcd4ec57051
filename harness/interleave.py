"""Runs functions in threads of which one runs at a time, switched at chosen places inside the package.

A schedule is a list of [steps, shift]: after that many lines (or instructions) of the package's code the thread `shift` places
further goes on.  After the last entry it starts again if `again`, else threads run to their end.
"""
import os
import sys
import threading
import time
from harness.core import REPO

ROOT = os.path.join(os.path.realpath(REPO), 'segeval') + os.sep
PATIENCE = 0.5          # a thread that gets no further for this long is taken to wait for another one
STALLS = 3              # from then on threads run to their end
LIMIT = 90              # seconds for all threads together


class Endless(Exception):
    """The threads did not end."""


class Scheduler(object):
    def __init__(self, schedule, again, instructions):
        self.schedule, self.again, self.instructions = [list(x) for x in schedule], again, instructions
        self.at = 0
        self.left = self.schedule[0][0] if self.schedule else None
        self.locks, self.alive, self.current = [], [], 0
        self.progress, self.switches, self.stalls, self.inside = 0, 0, 0, {}
        self.deadline = time.time() + LIMIT

    # -- in the threads ---------------------------------------------------------
    def wait(self, k):
        while not self.locks[k].acquire(True, PATIENCE):
            before = self.progress
            if self.current == k:
                return
            if self.locks[k].acquire(True, PATIENCE):
                break
            if self.progress == before:
                # the running thread waits for something one of us holds
                self.current = k
                self.stalls += 1
                if self.stalls >= STALLS:
                    self.left = None
                return
            if time.time() > self.deadline:
                raise Endless()
        self.current = k

    def hand_over(self, k, shift):
        others = [j for j in self.alive if j != k]
        if not others:
            return False
        after = [j for j in others if j > k] + [j for j in others if j < k]
        target = after[(shift - 1) % len(after)]
        self.current = target
        self.switches += 1
        try:
            self.locks[target].release()
        except RuntimeError:
            pass            # it went on without being told to
        return True

    def step(self, k):
        self.progress += 1
        if self.current != k:
            self.wait(k)
        if self.left is None or self.stalls >= STALLS:
            return
        self.left -= 1
        if self.left > 0:
            return
        shift = self.schedule[self.at][1]
        self.at += 1
        if self.at == len(self.schedule):
            self.at = 0
            if not self.again:
                self.left = None
        if self.left is not None:
            self.left = self.schedule[self.at][0]
        if self.hand_over(k, shift):
            self.wait(k)

    def tracer(self, k):
        known = self.inside

        def trace(frame, event, arg):
            name = frame.f_code.co_filename
            mine = known.get(name)
            if mine is None:
                mine = known[name] = os.path.realpath(name).startswith(ROOT)
            if not mine:
                return None
            if self.instructions:
                frame.f_trace_opcodes = True
            self.step(k)
            return trace
        return trace

    def body(self, k, task, results):
        sys.settrace(None)
        try:
            self.wait(k)
            sys.settrace(self.tracer(k))
            try:
                results[k] = ('done', task())
            finally:
                sys.settrace(None)
        except Endless:
            results[k] = ('endless', None)
        except BaseException as e:
            results[k] = ('error', repr(e))
        finally:
            self.alive.remove(k)
            if self.current == k:
                self.hand_over(k, 1)

    def run(self, tasks):
        """What each task returned, and the number of switches."""
        results = [None] * len(tasks)
        self.locks = [threading.Lock() for _ in tasks]
        for lock in self.locks:
            lock.acquire()
        self.alive = list(range(len(tasks)))
        threads = [threading.Thread(target=self.body, args=(k, t, results)) for k, t in enumerate(tasks)]
        for t in threads:
            t.daemon = True
            t.start()
        self.current = 0
        self.locks[0].release()
        for t in threads:
            t.join(max(0.1, self.deadline + 5 - time.time()))
        if any(t.is_alive() for t in threads) or any(r is None or r[0] == 'endless' for r in results):
            raise Endless()
        return results, self.switches
