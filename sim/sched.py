"""Threads under a simulated scheduler.

Exactly one thread runs at a time.  At every step of library code (source line,
or bytecode instruction when grain is 'op') the scheduler may park the running
thread and release another one; when it does so is part of the plan.  Locks the
library creates are simulated, so that a thread waiting for a parked one gives
way, and a state in which nobody can run is seen as a deadlock.
"""
import os
import random
import sys
import threading
import _thread

_real_lock = _thread.allocate_lock
_real = dict(Lock=threading.Lock, RLock=threading.RLock, alloc=threading._allocate_lock)
STEP_LIMIT = 4000000
current = None          # the active scheduler


class Deadlock(BaseException):
    pass


class Stop(BaseException):
    """ends a parked thread when the run is given up"""


class SimLock(object):
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0
        self.real = _real['RLock']() if self.reentrant else _real_lock()
        self.pid = os.getpid()

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        s = current
        t = s.mine() if s else None
        if t is None:
            ok = self.real.acquire(blocking, timeout) if self.owner is None else self._outside(blocking)
            if ok:
                self.owner, self.count = self._me(), self.count + 1
            return ok
        s.step(t, None)
        while not (self.owner is None or (self.reentrant and self.owner == self._me())):
            if not blocking:
                return False
            t.timed = timeout is not None and timeout >= 0
            if not s.block(t, self) and t.timed:
                return False
        self.owner, self.count = self._me(), self.count + 1
        return True

    def _outside(self, blocking):
        if self.reentrant and self.owner == self._me():
            return True
        if not blocking:
            return False
        raise Deadlock('a lock of the library is still held after the threads ended')

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != self._me()):
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if current is None or current.mine() is None:
                try:
                    self.real.release()
                except RuntimeError:
                    pass
        s = current
        if s:
            t = s.mine()
            if t is not None:
                s.wake()        # those who wait may go on from here
                s.step(t, None)
                s.handover(t)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # what threading.Condition asks for
    def _is_owned(self):
        return self.owner == self._me()

    def _release_save(self):
        n, self.count, self.owner = self.count, 0, None
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimRLock(SimLock):
    reentrant = True


def install(root):
    """locks created by code below root (directly or through threading and
    queue) become simulated ones"""
    root = os.path.realpath(root) + os.sep

    def ours():
        f = sys._getframe(2)
        while f is not None and (f.f_code.co_filename.endswith(('/threading.py', '/queue.py'))
                                 or f.f_code.co_filename == __file__):
            f = f.f_back
        return f is not None and os.path.realpath(f.f_code.co_filename).startswith(root)

    def make(cls, real):
        def factory(*a, **k):
            return cls() if ours() else real(*a, **k)
        return factory
    threading.Lock = make(SimLock, _real['Lock'])
    threading.RLock = make(SimRLock, _real['RLock'])
    threading._allocate_lock = make(SimLock, _real['alloc'])


def place(co):
    return os.path.basename(co.co_filename) + ':' + co.co_name


class Task(object):
    def __init__(self, n, fn):
        self.n, self.fn = n, fn
        self.sem = _real_lock()
        self.sem.acquire()
        self.state = 'ready'
        self.lock = None
        self.timed = False
        self.result = self.error = None
        self.steps = 0


class Scheduler(object):
    """switches: [[step, target], ...] ascending by step; a thread runs until
    the next switch, blocks or ends."""

    def __init__(self, root, fns, switches, grain='line', log=None, focus=None):
        self.root = os.path.realpath(root) + os.sep
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.switches = switches
        self.nsw = 0
        self.grain = grain
        self.steps = 0
        self.log = log or (lambda *a: None)
        self.byid = {}
        self.main = _real_lock()
        self.main.acquire()
        self.failure = None
        self.taken = 0
        self.contended = 0
        self.files = {}
        # focus: [function, chance of a switch at a step of it, seed, first, last]
        self.focus = focus
        self.frng = random.Random(focus[2]) if focus else None
        self.nfocus = 0
        self.seen = {}

    def mine(self):
        return self.byid.get(_thread.get_ident())

    # -- tracing
    def _ours(self, co):
        r = self.files.get(co.co_filename)
        if r is None:
            r = self.files[co.co_filename] = os.path.realpath(co.co_filename).startswith(self.root)
        return r

    def _tracer(self, t):
        ops = self.grain == 'op'
        event_wanted = 'opcode' if ops else 'line'
        step = self.step

        def local(frame, event, arg):
            if event == event_wanted:
                step(t, frame)
            return local

        def tracer(frame, event, arg):
            if self._ours(frame.f_code):
                if ops:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
        return tracer

    # -- scheduling; all of this runs with one thread awake
    def step(self, t, frame):
        self.steps += 1
        t.steps += 1
        if self.steps > STEP_LIMIT:
            self.fail('no-progress', 'no progress: more than %d steps' % STEP_LIMIT)
        if self.nsw < len(self.switches) and self.steps >= self.switches[self.nsw][0]:
            to = self.switches[self.nsw][1]
            self.nsw += 1
            self.to(t, self.pick(to), frame)
        elif frame is not None:
            co = frame.f_code
            if self.focus is None:
                self.seen[co] = self.seen.get(co, 0) + 1
            elif self.focus[0] == '*' or place(co) == self.focus[0]:
                hit, to = self.frng.random() < self.focus[1], self.frng.randrange(12)
                if hit:
                    self.nfocus += 1
                    if self.focus[3] <= self.nfocus <= self.focus[4]:
                        self.to(t, self.pick(to if len(self.tasks) > 2 else t.n + 1), frame)

    def handover(self, t):
        """a lock was released: the focus '@release' is for what is done after that"""
        if self.focus is None or self.focus[0] != '@release':
            return
        hit, to = self.frng.random() < self.focus[1], self.frng.randrange(12)
        if hit:
            self.nfocus += 1
            if self.focus[3] <= self.nfocus <= self.focus[4]:
                self.to(t, self.pick(to if len(self.tasks) > 2 else t.n + 1))

    def pick(self, k):
        r = [x for x in self.tasks if x.state == 'ready']
        return r[k % len(r)] if r else None

    def to(self, t, u, frame=None):
        if u is None or u is t:
            return
        self.taken += 1
        self.log('switch', self.steps, t.n, u.n, frame.f_code.co_name if frame is not None else '-')
        u.sem.release()
        self.park(t)

    def park(self, t):
        t.sem.acquire()
        if self.failure:
            raise Stop()

    def block(self, t, lock):
        """-> False when the wait timed out"""
        self.contended += 1
        t.state, t.lock = 'blocked', lock
        u = None
        for x in self.tasks:            # the lock may be free by now
            if x.state == 'blocked' and x.lock.owner is None:
                x.state = 'ready'
        u = self.pick(self.steps)
        if u is None:
            w = [x for x in self.tasks if x.state == 'blocked' and x.timed]
            if not w:
                self.fail('deadlock', 'deadlock: threads %s wait for each other'
                          % [x.n for x in self.tasks if x.state == 'blocked'])
            u = w[0]
            u.state = 'ready'
            if u is t:
                return False
        if u is not t:
            self.to(t, u)
        return True

    def wake(self):
        for x in self.tasks:
            if x.state == 'blocked' and (x.lock.owner is None):
                x.state = 'ready'

    def fail(self, key, msg):
        self.failure = (key, msg)
        self.main.release()
        raise Stop()

    def _body(self, t):
        t.sem.acquire()
        try:
            if self.failure:
                return
            sys.settrace(self._tracer(t))
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except Stop:
            return
        except BaseException as e:
            t.error = e
        finally:
            if not self.failure:
                t.state = 'done'
                self.wake()
                u = self.pick(self.steps)
                if u is not None:
                    self.log('end', self.steps, t.n, u.n)
                    u.sem.release()
                elif all(x.state == 'done' for x in self.tasks):
                    self.main.release()
                else:
                    w = [x for x in self.tasks if x.state == 'blocked' and x.timed]
                    if w:
                        w[0].state = 'ready'
                        w[0].sem.release()
                    else:
                        self.failure = ('deadlock', 'deadlock: threads %s wait for a lock that a finished thread holds'
                                        % [x.n for x in self.tasks if x.state == 'blocked'])
                        self.main.release()

    def run(self):
        """-> failure or None; results in .tasks"""
        global current
        current = self
        started = _real_lock()
        for t in self.tasks:
            started.acquire()

            def body(t=t):
                self.byid[_thread.get_ident()] = t
                started.release()
                self._body(t)
            _thread.start_new_thread(body, ())
            started.acquire()
            started.release()
        self.tasks[0].sem.release()
        self.main.acquire()
        current = None
        return self.failure
