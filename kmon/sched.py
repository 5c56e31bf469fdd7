"""Cooperative scheduler that preempts threads at lines of the code under test.

Only the thread that holds the baton runs. At every executed line of kajiki or of a compiled
template (seen through sys.settrace) the baton may go to another thread, as a seeded random
generator says. A thread that blocks (on a lock of the code under test) while it has the
baton loses it after a short time without progress, so no schedule can get stuck.
"""
import hashlib
import os
import random
import sys
import threading
import time

GRACE = .01


class Scheduler(object):
    def __init__(self, seed, rate, prefix, kind='random', budget=400):
        self.rng = random.Random(seed)
        self.rate = rate
        self.prefix = prefix
        self.cond = threading.Condition()
        self.current = None
        self.alive = []
        self.steps = 0
        self.switches = 0
        self.budget = budget
        self.trail = hashlib.sha1()
        self.stuck = 0
        self.blocked = set()    # threads that wait for a lock of the code under test

    def wants(self, filename):
        return filename.startswith(self.prefix) or filename.startswith('<string') or \
            filename.startswith('/tmp/kmon')

    def trace(self, frame, event, arg):
        if not self.wants(frame.f_code.co_filename):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.point(frame)
        return self.local

    def point(self, frame=None):
        me = threading.get_ident()
        if me in self.blocked:
            self.blocked.discard(me)
        if self.current == me:
            self.steps += 1
            if self.switches >= self.budget or self.rng.random() >= self.rate:
                return
            with self.cond:
                others = [t for t in self.alive if t != me and t not in self.blocked]
                if not others or self.current != me:
                    return
                self.current = self.rng.choice(others)
                self.switches += 1
                if frame is not None:
                    self.trail.update(('%s:%d>%d;' % (
                        os.path.basename(frame.f_code.co_filename), frame.f_lineno,
                        self.order.index(self.current))).encode())
                self.cond.notify_all()
        self.wait(me)

    def wait(self, me):
        with self.cond:
            while self.current != me:
                before = self.steps, self.switches, self.current
                if not self.cond.wait(GRACE) and before == (
                        self.steps, self.switches, self.current):
                    # the holder makes no progress: it waits for a lock
                    self.stuck += 1
                    self.blocked.add(self.current)
                    self.current = me
                    self.cond.notify_all()

    def run(self, jobs):
        """Run the functions in threads of their own; returns [(result, exception)]."""
        results = [None] * len(jobs)
        started = threading.Barrier(len(jobs) + 1)

        def body(i, job):
            me = threading.get_ident()
            with self.cond:
                self.alive.append(me)
                slots[i] = me
            started.wait()
            begin.wait()
            self.wait(me)
            sys.settrace(self.trace)
            try:
                results[i] = (job(), None)
            except BaseException as e:
                results[i] = (None, e)
            finally:
                sys.settrace(None)
                with self.cond:
                    self.alive.remove(me)
                    self.blocked.clear()    # it may have released a lock
                    if self.current == me and self.alive:
                        self.current = self.rng.choice(
                            [t for t in self.order if t in self.alive])
                    self.cond.notify_all()
        slots = [None] * len(jobs)
        begin = threading.Event()
        threads = [threading.Thread(target=body, args=(i, j)) for i, j in enumerate(jobs)]
        for t in threads:
            t.daemon = True
            t.start()
        started.wait()
        self.order = list(slots)
        with self.cond:
            self.alive = list(slots)
            self.current = self.rng.choice(self.alive)
        begin.set()
        for t in threads:
            t.join(120)
            if t.is_alive():
                raise RuntimeError('a thread did not finish')
        return results

    def schedule(self):
        return self.trail.hexdigest()[:16]
