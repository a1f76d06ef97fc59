"""A scheduler whose choices are symbolic.

Workers run the real code in threads that hand a baton to each other, so exactly one runs
at a time.  Every access to shared state (lock acquisition, unlocked read or write of a
shared value, event query or set, queue/pipe operation) is a scheduling point at which the
engine forks over which enabled worker continues, with a bound on preemptions."""
import threading

from .common import *


class Killed(BaseException):
    pass


class _Unwind(BaseException):
    pass


class Sched:
    def __init__(self, S, preemptions, delays=False):
        """preemptions: bound on switches away from a worker that could go on; with delays, also on
        deviations from round-robin order when the running worker blocks."""
        self.S, self.left, self.delays = S, preemptions, delays
        self.workers = {}
        self.cur = None
        self.n_switch = 0
        self.dead = False

    # ---- worker side
    def yield_(self, blocked=None):
        """Scheduling point of the running worker; blocked: callable, true while the worker cannot go on."""
        w = self.cur
        if w is None:  # the main thread, before or after the workers run
            return
        w.blocked = blocked
        self.back.release()
        w.baton.acquire()
        if self.dead:
            raise _Unwind()
        w.blocked = None

    @property
    def me(self):
        return self.cur.idx if self.cur is not None else None

    # ---- main side
    def spawn(self, f):
        """Add a worker (before or while the others run)."""
        w = type("W", (), {})()
        w.idx, w.baton, w.done, w.blocked, w.exc = len(self.ws), threading.Semaphore(0), False, None, None

        def body():
            w.baton.acquire()
            try:
                if not self.dead:
                    f()
            except _Unwind:
                pass
            except BaseException as e:
                w.exc = e
            w.done = True
            self.back.release()

        w.th = threading.Thread(target=body, daemon=True)
        w.th.start()
        self.ws.append(w)
        return w

    def run(self, fns, start_order=None):
        self.back = threading.Semaphore(0)
        ws = self.ws = []
        for f in fns:
            self.spawn(f)
        fatal = None
        last = None
        while fatal is None:
            en = [w for w in ws if not w.done and (w.blocked is None or not w.blocked())]
            if not en:
                break
            if self.left is None:  # one fixed schedule
                pick = en[0]
            elif last in en and self.left <= 0:
                pick = last
            elif self.delays and last is not None and last not in en:
                en = [w for w in en if w.idx > last.idx] + [w for w in en if w.idx < last.idx]
                k = self.S.choice("sched%d" % self.n_switch, min(len(en), 1 + self.left)) if len(en) > 1 and self.left > 0 else 0
                self.left -= k
                pick = en[k]
                self.n_switch += 1
            else:
                if last in en:
                    en.remove(last)
                    en.insert(0, last)
                k = self.S.choice("sched%d" % self.n_switch, len(en)) if len(en) > 1 else 0
                pick = en[k]
                if last in en and pick is not last:
                    self.left -= 1
                self.n_switch += 1
            self.cur = last = pick
            pick.baton.release()
            self.back.acquire()
            self.cur = None
            if pick.done and pick.exc is not None and not isinstance(pick.exc, Exception) and not isinstance(pick.exc, (KeyboardInterrupt, SystemExit)):
                fatal = pick.exc
        self.stuck = [w.idx for w in ws if not w.done] if fatal is None else []
        self.dead = True
        for w in ws:
            if not w.done:
                self.cur = w
                w.baton.release()
                self.back.acquire()
                w.th.join()
        self.cur = None
        if fatal is not None:
            raise fatal
        return [w.exc for w in ws]


class Lock:
    def __init__(self, sched, recursive=True):
        self.s, self.owner, self.depth = sched, None, 0

    def acquire(self, block=True, timeout=None):
        if not self.mine():
            self.s.yield_(lambda: self.owner is not None)
        return self._take()

    def _take(self):
        me = self.s.me if self.s.me is not None else "main"
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.depth, self.owner = 0, None

    def mine(self):
        return self.owner is not None and self.owner == (self.s.me if self.s.me is not None else "main")

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class Value:
    def __init__(self, sched, v, log=None):
        self.s, self.v, self.lock = sched, v, Lock(sched)

    def get_lock(self):
        return self.lock

    def acquire(self, *a, **k):
        return self.lock.acquire()

    def release(self):
        self.lock.release()

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        self.lock.release()

    @property
    def value(self):
        if not self.lock.mine():
            self.s.yield_()
        return self.v

    @value.setter
    def value(self, x):
        if not self.lock.mine():
            self.s.yield_()
        self.v = x


class Event:
    def __init__(self, sched, on_set=None):
        self.s, self.f, self.on_set = sched, False, on_set

    def is_set(self):
        self.s.yield_()
        return self.f

    def set(self):
        self.s.yield_()
        if not self.f and self.on_set:
            self.on_set()
        self.f = True

    def clear(self):
        self.s.yield_()
        self.f = False

    def wait(self, timeout=None):
        if timeout is None:
            self.s.yield_(lambda: not self.f)
        else:
            self.s.yield_()
        return self.f
