"""Caller threads under a seeded scheduler.

The threads are real, but only one of them runs at a time; at a line (or an instruction) of the library the
scheduler may take the processor away from it and give it to another one.  Locks that the library makes are
replaced (see `install_locks`), so that waiting for one is a scheduling decision too, and a deadlock is seen."""

import _thread
import os
import signal
import sys
import zlib

from sim import env
from sim.env import ENTROPY

CURRENT = None
raw_lock = _thread.allocate_lock


class Deadlock(Exception):
    pass


class SimLock:
    """A lock that hands the processor over while it waits, when it is used by a scheduled thread."""

    def __init__(self):
        self._l = raw_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or not s.inside():
            return self._l.acquire(blocking, timeout)
        tries = 0
        while not self._l.acquire(False):
            if not blocking:
                return False
            tries += 1
            if timeout is not None and timeout >= 0 and tries > 50:
                return False
            s.wait(self, timeout is not None and timeout >= 0)
        return True

    def release(self):
        self._l.release()
        s = CURRENT
        if s is not None:
            s.released(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = raw_lock()

    acquire_lock, release_lock, locked_lock = acquire, release, locked


def install_locks():
    """Locks that are made from now on are simulated ones (before the library is imported)."""
    import threading

    if threading.Lock is not SimLock:
        threading.Lock = threading._allocate_lock = SimLock
        threading.RLock = threading._PyRLock


class Task:
    def __init__(self, sched, name, fn):
        self.s, self.name, self.fn = sched, name, fn
        self.go = raw_lock()
        self.go.acquire()
        self.done = False
        self.steps = 0
        self.blocked = None
        self.error = None
        self.cur = ENTROPY.cur

    def body(self):
        self.go.acquire()
        s = self.s
        s.ids.add(_thread.get_ident())
        try:
            sys.settrace(s.trace)
            try:
                self.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.error = e
        self.done = True
        s.finished(self)


class Scheduler:
    """`gap`: preemptions are up to that many points apart; with `focus` (k, n, functions), instead, threads are
    stopped where the place in the code (line or function) falls into the k-th of n classes, so that they meet there."""

    def __init__(self, ctx, prefix, gap, opcodes=False, focus=None):
        self.ctx, self.ch = ctx, ctx.ch
        self.prefix = prefix
        self.gap = gap
        self.opcodes = opcodes
        self.focus = focus
        self.places = {}
        self.tasks = []
        self.ids = set()
        self.dead = False
        self.left = 0
        self.switches = 0
        self.events = 0
        self.main = raw_lock()
        self.main.acquire()
        self.known = {}

    def add(self, name, fn):
        self.tasks.append(Task(self, name, fn))

    def inside(self):
        return _thread.get_ident() in self.ids

    # -- where the processor may be taken away

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        ours = self.known.get(f)
        if ours is None:
            ours = self.known[f] = os.path.realpath(f).startswith(self.prefix)
        if not ours:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.line

    def line(self, frame, event, arg):
        if event == "line" or event == "opcode":
            if self.focus is None:
                self.point(frame)
            else:
                self.place(frame)
        return self.line

    def place(self, frame):
        k = (frame.f_code.co_filename, frame.f_code.co_name, frame.f_lineno)
        hit = self.places.get(k)
        if hit is None:
            n = "%s:%s:%s" % (os.path.basename(k[0]), k[1], "" if self.focus[2] else k[2])
            hit = self.places[k] = zlib.crc32(n.encode()) % self.focus[1] == self.focus[0]
        self.events += 1
        if self.dead:
            self._park()
        if hit and self.switches < 3000 and self.ch.draw(3):
            self.give_way(frame)

    def point(self, frame=None):
        if self.dead:
            self._park()
        self.events += 1
        self.left -= 1
        if self.left > 0:
            return
        self.refill()
        self.give_way(frame)

    def give_way(self, frame):
        others = [t for t in self.tasks if t is not self.cur and not t.done and t.blocked is None]
        if others:
            where = "between calls" if frame is None else "%s:%s" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            self.switch(others[self.ch.draw(len(others))], where)

    def refill(self):
        v = self.ch.draw(64 * self.gap)
        self.left = 1 + v % self.gap if v else 1 << 60

    def step(self, together):
        """Between two calls; with `together`, those who are behind go first."""
        if self.dead:
            self._park()
        me = self.cur
        me.steps += 1
        if together:
            behind = [t for t in self.tasks if t is not me and not t.done and t.blocked is None and t.steps < me.steps]
            if behind:
                self.switch(behind[self.ch.draw(len(behind))], "between calls")
        else:
            self.point()

    def _park(self):
        """The run is over; never come back."""
        l = raw_lock()
        l.acquire()
        l.acquire()

    def switch(self, to, where):
        me = self.cur
        self.switches += 1
        self.ctx.event("switch", "%s>%s %s" % (me.name, to.name, where))
        me.cur = ENTROPY.cur
        self.cur = to
        ENTROPY.cur = to.cur
        to.go.release()
        me.go.acquire()

    # -- locks

    def wait(self, lock, timed):
        me = self.cur
        if not timed:
            me.blocked = lock
        others = [t for t in self.tasks if t is not me and not t.done and t.blocked is None]
        if not others:
            if timed:
                return
            self.dead = True
            self.stuck = True
            self.main.release()
            self._park()
        self.ctx.probe("waited-for-a-lock")
        self.switch(others[self.ch.draw(len(others))], "lock")

    def released(self, lock):
        for t in self.tasks:
            if t.blocked is lock:
                t.blocked = None

    # -- the whole

    stuck = False

    def finished(self, task):
        if self.dead:
            self._park()
        if task.error is not None:
            self.dead = True
            self.main.release()
            return
        rest = [t for t in self.tasks if not t.done]
        if not rest:
            self.main.release()
            return
        ready = [t for t in rest if t.blocked is None]
        if not ready:
            self.dead = self.stuck = True
            self.main.release()
            return
        to = ready[self.ch.draw(len(ready))]
        self.ctx.event("done", "%s>%s" % (task.name, to.name))
        self.cur = to
        ENTROPY.cur = to.cur
        self.left = 0
        self.refill()
        to.go.release()

    def run(self, cpu=90.0):
        """Run all threads to their end; raises what the first failing one raised."""
        global CURRENT
        from sim.host import Hang, _alarm

        prev = ENTROPY.cur
        _thread.stack_size(256 << 20)
        for t in self.tasks:
            _thread.start_new_thread(t.body, ())
        CURRENT = self
        self.refill()
        self.cur = self.tasks[self.ch.draw(len(self.tasks))]
        ENTROPY.cur = self.cur.cur
        signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, cpu)
        try:
            self.cur.go.release()
            self.main.acquire()
        except Hang:
            self.dead = True
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            CURRENT = None
            ENTROPY.cur = prev
        if self.stuck:
            raise Deadlock()
        for t in self.tasks:
            if t.error is not None:
                raise t.error
