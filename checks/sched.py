"""Threads run one at a time under a symbolic schedule.

Real threads, real locks: the only thing controlled is who runs.  A thread can
lose the processor before any line of pyclibrary it executes, inside the C
function, and wherever it would block on a lock.
"""

import sys
import threading

_RLock, _Lock = threading.RLock, threading.Lock
CURRENT = None  # the running schedule


class SchedLock:
    """A lock made by the code under test: blocks by giving up the processor."""

    made = 0

    def __init__(self, real):
        self._real = real
        SchedLock.made += 1

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or s.me() is None:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            if not blocking or timeout >= 0:
                return False
            s.block(self)
        return True

    def release(self):
        self._real.release()
        if CURRENT is not None:
            CURRENT.unblock(self)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._real.locked()

    def __getattr__(self, n):
        return getattr(self._real, n)


def patch_threading():
    """Locks created by pyclibrary from now on are scheduled ones."""
    threading.RLock = lambda: SchedLock(_RLock())
    threading.Lock = lambda: SchedLock(_Lock())


def unpatch_threading():
    threading.RLock, threading.Lock = _RLock, _Lock


SPLITS = (0, 12, 24, 36, 48, 60, 80, 110)


class Dead(BaseException):
    """The run is over: threads unwind."""


class Schedule:
    def __init__(self, x, bodies, preemptions, steps, watch, fixed_first=False, split=None):
        self.x = x
        self.n = len(bodies)
        self.bodies = bodies
        self.watch = watch  # file name suffixes whose lines are switch points
        self.step = 0
        self.turn = [threading.Semaphore(0) for _ in bodies]
        self.main = threading.Semaphore(0)
        self.state = ["ready"] * self.n
        self.waits = [None] * self.n
        self.error = None
        self.dead = False
        self.ids = {}
        # the schedule: the steps at which the running thread is interrupted,
        # and which of the others goes on then
        self.points = [x.int("at%d" % i, 0, steps) for i in range(preemptions)]
        for a, b in zip(self.points, self.points[1:]):
            x.assume(a < b)
        if split is not None:
            # a slice of the schedules, so that slices run side by side
            w = SPLITS.index(split)
            x.assume(self.points[0] >= split)
            if w + 1 < len(SPLITS):
                x.assume(self.points[0] < SPLITS[w + 1])
        self.next_point = 0
        self.fixed_first = fixed_first
        self.picks = 0

    def me(self):
        return self.ids.get(threading.get_ident())

    # ---- called by the threads
    def switch(self):
        """A point where the running thread may be interrupted."""
        me = self.me()
        if me is None or self.dead:
            if self.dead and me is not None:
                raise Dead()
            return
        self.step += 1
        if self.next_point < len(self.points) and bool(self.points[self.next_point] == self.step):
            self.next_point += 1
            if any(self.state[i] == "ready" for i in range(self.n) if i != me):
                self.give_up(me)

    def give_up(self, me):
        self.main.release()
        self.turn[me].acquire()
        if self.dead:
            raise Dead()

    def block(self, lock):
        me = self.me()
        self.state[me], self.waits[me] = "blocked", lock
        self.give_up(me)

    def unblock(self, lock):
        for i in range(self.n):
            if self.waits[i] is lock:
                self.state[i], self.waits[i] = "ready", None

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.watch):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            self.switch()
        return self._line

    def _thread(self, i):
        self.turn[i].acquire()
        self.ids[threading.get_ident()] = i
        try:
            if not self.dead:
                sys.settrace(self._trace)
                try:
                    self.bodies[i]()
                finally:
                    sys.settrace(None)
        except Dead:
            pass
        except BaseException as e:
            self.error = self.error or e
        finally:
            self.state[i] = "done"
            self.main.release()

    # ---- called by the harness
    def run(self):
        global CURRENT
        CURRENT = self
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        last = None
        try:
            while self.error is None:
                ready = [i for i in range(self.n) if self.state[i] == "ready"]
                if not ready:
                    break
                others = [i for i in ready if i != last] or ready
                i = others[0]
                if len(others) > 1 and not (last is None and self.fixed_first):
                    i = others[self.x.choose("next%d" % self.picks, len(others))]
                    self.picks += 1
                last = i
                self.turn[i].release()
                self.main.acquire()
        finally:
            self.dead = True
            for i in range(self.n):
                self.turn[i].release()
            for t in ts:
                t.join(5)
            CURRENT = None
        if self.error is not None:
            raise self.error
        return [s == "done" for s in self.state] if all(s == "done" for s in self.state) else None
