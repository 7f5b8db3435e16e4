"""
Stand-ins for multiprocessing, threading and time: the code under test runs on
them unmodified; when a child finishes, which thread runs next and how long
anything takes is decided by the solver (or by a script, in replays).
"""
import multiprocessing
import queue as _queue
import threading
import time

from symx import core
from symx.core import S


class Deadlock(Exception):
    pass


class Fake:
    """a module of which only the named attributes exist"""

    def __init__(self, name, **k):
        self.__dict__.update(k)
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise core.Unsupported(f"{self._name}.{k}")


class patched:
    """the globals of a module that come from these libraries, replaced"""

    def __init__(self, module, fakes):
        self.m, self.fakes = module, fakes

    def __enter__(self):
        self.old = {}
        for k, v in list(vars(self.m).items()):
            for real, fake in self.fakes:
                if v is real:
                    self.old[k] = v
                    setattr(self.m, k, fake)
                elif not k.startswith("__") and getattr(v, "__name__", None) and not isinstance(v, type(self.m)):
                    if getattr(real, v.__name__, None) == v and v.__name__ in vars(fake):
                        self.old[k] = v
                        setattr(self.m, k, getattr(fake, v.__name__))
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.m, k, v)


INF = 1e9


# -- one parent, one child, any timing ------------------------------------------------


class Timing:
    """
    outcome ok: the child's function runs `work` after the start; its result is
    visible at once, the child exits `linger` later (with `big`, not before the
    result was taken).  die: it exits after `work` without a result.  hang: never.
    delays: how much time passes before each operation of the parent.
    """

    def __init__(self, outcome, work, linger, big, delay):
        self.now = 0.0
        self.outcome, self.work, self.linger, self.big = outcome, work, linger, big
        self.delay = delay
        self.procs = []
        self.queues = []

    def tick(self):
        d = self.delay()
        if isinstance(d, S) or d:
            self.now = self.now + d
        for p in self.procs:
            p._sync()

    def fakes(self):
        w = self

        class Lock:
            def __init__(self, *a):
                self.held = False

            def acquire(self, *a, **k):
                w.tick()
                if self.held:
                    raise Deadlock("a lock is acquired twice")
                self.held = True
                return True

            def release(self):
                w.tick()
                if not self.held:
                    raise RuntimeError("release unlocked lock")
                self.held = False

            __enter__ = acquire

            def __exit__(self, *a):
                self.release()

        class Queue:
            def __init__(self, *a, **k):
                self.items = []
                self.puts = 0
                w.queues.append(self)

            def put(self, v, *a, **k):
                self.items.append(v)
                self.puts += 1

            put_nowait = put

            def empty(self):
                w.tick()
                return not self.items

            def qsize(self):
                w.tick()
                return len(self.items)

            def get(self, block=True, timeout=None):
                w.tick()
                if not self.items and block:
                    end = None if timeout is None else w.now + timeout
                    p = w.procs[-1] if w.procs else None
                    if p is not None:
                        p._wait_result(end)
                    elif end is None:
                        raise Deadlock("nothing will ever be put")
                    else:
                        w.now = end
                    if not self.items and end is None:
                        raise Deadlock("waits for a result that never comes")
                if not self.items:
                    raise _queue.Empty
                v = self.items.pop(0)
                for p in w.procs:
                    p._taken()
                return v

            def get_nowait(self):
                return self.get(block=False)

            def close(self):
                pass

            join_thread = cancel_join_thread = close

        class Process:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                self.start_t = None
                self.killed = self.ran = self.died = False
                self.exit_t = None
                self.daemon = daemon
                w.procs.append(self)

            def start(self):
                w.tick()
                self.start_t = w.now

            # the child's own steps, as far as they have happened by now
            def _locked(self):
                return any(isinstance(v, Lock) and v.held for v in list(self.kwargs.values()) + list(self.args))

            def _sync(self):
                if self.start_t is None or self.killed or self.ran or self.died or w.outcome == "hang":
                    return
                if bool(self.start_t + w.work <= w.now):
                    self._run(self.start_t + w.work)

            def _run(self, t):
                if w.outcome == "die":
                    self.died = True
                    self.exit_t = t
                    return
                if self._locked():
                    return
                self.ran = True
                old, w.tick = w.tick, lambda: None
                try:
                    self.target(*self.args, **self.kwargs)
                finally:
                    w.tick = old
                self.put_t = t
                if not w.big:
                    self.exit_t = t + w.linger

            def _taken(self):
                if self.ran and self.exit_t is None:
                    self.exit_t = w.now + w.linger

            def _exited(self):
                return self.killed or (self.exit_t is not None and bool(self.exit_t <= w.now))

            def is_alive(self):
                w.tick()
                return self.start_t is not None and not self._exited()

            def _wait_result(self, end):
                if self.killed or self.ran or self.died or w.outcome == "hang" or self._locked():
                    if end is not None:
                        w.now = end
                    return
                t = self.start_t + w.work
                if end is not None and not bool(t <= end):
                    w.now = end
                    return
                if not bool(t <= w.now):
                    w.now = t
                self._run(t)

            def join(self, timeout=None):
                w.tick()
                end = None if timeout is None else w.now + timeout
                if not self._exited() and self.exit_t is None:
                    self._wait_result(end)
                if self._exited():
                    return
                if self.exit_t is None:
                    if end is None:
                        raise Deadlock("joins a process that does not exit")
                    w.now = end
                    return
                if end is not None and not bool(self.exit_t <= end):
                    w.now = end
                    return
                w.now = self.exit_t

            def kill(self):
                w.tick()
                if not self._exited():
                    self.killed = True

            terminate = kill

            @property
            def exitcode(self):
                w.tick()
                if not self._exited():
                    return None
                return -9 if self.killed else 1 if self.died else 0

            def close(self):
                pass

        def sleep(t):
            w.now = w.now + t
            w.tick()

        def clock():
            w.tick()
            return w.now

        mp = Fake("multiprocessing", Lock=Lock, RLock=Lock, Queue=Queue, Process=Process)
        mp.__dict__["get_context"] = lambda *a: mp
        th = Fake("threading", Lock=Lock, RLock=Lock)
        tm = Fake("time", monotonic=clock, time=clock, perf_counter=clock, sleep=sleep)
        return [(multiprocessing, mp), (threading, th), (time, tm)]


# -- several threads and processes, any interleaving -------------------------------------


class Abort(BaseException):
    pass


class Task:
    def __init__(self, sim, fn, name):
        self.sim, self.fn, self.name = sim, fn, name
        self.baton = threading.Semaphore(0)
        self.done = self.killed = False
        self.cond = None
        self.wake = None  # virtual time at which a timed wait ends
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.baton.acquire()
        if not (self.sim.stop or self.killed):
            try:
                self.fn()
            except Abort:
                pass
            except BaseException as e:  # noqa: BLE001 - handed to the main thread
                self.sim.on_error(self, e)
        self.done = True
        self.sim.leave(self)


class Sim:
    """one thread runs at a time; `choose(n)` says which of n runnable ones is next"""

    def __init__(self, choose, preemptions, max_steps=3000):
        self.choose, self.preempt, self.max_steps = choose, preemptions, max_steps
        self.tasks = []
        self.cur = None
        self.stop = False
        self.error = None
        self.deaths = []
        self.main = None
        self.now = 0.0
        self.steps = 0
        self.alive = self.most = 0

    def on_error(self, t, e):
        if t is not self.main and not isinstance(e, (core.Unsupported, core.BoundHit, core.PathAbort, Deadlock)):
            self.deaths.append(e)  # this thread (or process) ends with a traceback, the others go on
            return
        if self.error is None:
            self.error = e
            self.stop = True

    def run(self, fn):
        """fn in the main task, until it returns"""
        main = Task(self, fn, "main")
        self.tasks.append(main)
        self.main = main
        main.thread.start()
        self.over = threading.Semaphore(0)
        self.cur = main
        main.baton.release()
        self.over.acquire()
        self.stop = True
        for t in self.tasks:
            if not t.done:
                t.baton.release()
        for t in self.tasks:
            t.thread.join(5)
        if self.error is not None:
            raise self.error

    def spawn(self, fn, name):
        t = Task(self, fn, name)
        self.tasks.append(t)
        t.thread.start()
        return t

    def runnable(self):
        return [t for t in self.tasks if not t.done and not t.killed and (t.cond is None or t.cond())]

    def _next(self, me):
        while True:
            r = self.runnable()
            if r:
                break
            ts = [t for t in self.tasks if not t.done and not t.killed and t.wake is not None]
            if not ts:
                raise Deadlock("no thread can continue")
            t = min(ts, key=lambda t: t.wake)
            self.now = max(self.now, t.wake)
            t.cond = t.wake = None
        if me in r:
            if self.preempt <= 0 or len(r) == 1:
                return me
            r = [me] + [t for t in r if t is not me]
            i = self.choose(len(r))
            if i:
                self.preempt -= 1
            return r[i]
        return r[self.choose(len(r))] if len(r) > 1 else r[0]

    def switch(self, cond=None, wake=None):
        """a step of the current task: others may run first; it waits for cond"""
        me = self.cur
        if self.stop:
            raise Abort
        self.steps += 1
        if self.steps > self.max_steps:
            raise core.BoundHit("steps of one schedule")
        me.cond, me.wake = cond, wake
        t = self._next(me)
        if t is not me:
            self.cur = t
            t.baton.release()
            me.baton.acquire()
            if self.stop or me.killed:
                raise Abort
            self.cur = me
        me.cond = me.wake = None

    def leave(self, me):
        if self.stop:
            self.over.release()
            return
        if me is self.main:
            self.over.release()
            return
        try:
            t = self._next(me)
        except BaseException as e:  # noqa: BLE001
            self.error = self.error or e
            self.stop = True
            self.over.release()
            return
        self.cur = t
        t.baton.release()

    def fakes(self):
        s = self

        class Lock:
            def __init__(self, *a):
                self.owner = None

            def acquire(self, blocking=True, timeout=-1, block=True):
                s.switch((lambda: self.owner is None) if blocking and block else None)
                if self.owner is not None:
                    return False
                self.owner = s.cur
                return True

            def release(self):
                s.switch()
                if self.owner is None:
                    raise RuntimeError("release unlocked lock")
                self.owner = None

            def locked(self):
                return self.owner is not None

            __enter__ = acquire

            def __exit__(self, *a):
                self.release()

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.f = lambda: target(*args, **(kwargs or {}))
                self.t = None
                self.daemon = daemon

            def start(self):
                self.t = s.spawn(self.f, "thread")
                s.switch()

            def join(self, timeout=None):
                s.switch(lambda: self.t.done, None if timeout is None else s.now + timeout)

            def is_alive(self):
                s.switch()
                return self.t is not None and not self.t.done

        class Queue:
            def __init__(self, *a, **k):
                self.items = []

            def put(self, v, *a, **k):
                s.switch()
                self.items.append(v)

            def empty(self):
                s.switch()
                return not self.items

            def qsize(self):
                s.switch()
                return len(self.items)

            def get(self, block=True, timeout=None):
                s.switch((lambda: bool(self.items)) if block else None, None if timeout is None else s.now + timeout)
                if not self.items:
                    raise _queue.Empty
                return self.items.pop(0)

            def get_nowait(self):
                return self.get(block=False)

            def close(self):
                pass

            join_thread = cancel_join_thread = close

        class Process:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.f = lambda: target(*args, **(kwargs or {}))
                self.t = None
                self.over = False

            def start(self):
                s.alive += 1
                s.most = max(s.most, s.alive)
                self.t = s.spawn(self._body, "process")
                self.t.process = self
                s.switch()

            def _body(self):
                try:
                    self.f()
                finally:
                    self._end()

            def _end(self):
                if not self.over:
                    self.over = True
                    s.alive -= 1

            def is_alive(self):
                s.switch()
                return self.t is not None and not self.over

            def join(self, timeout=None):
                s.switch(lambda: self.over, None if timeout is None else s.now + timeout)

            def kill(self):
                s.switch()
                self.t.killed = True
                self._end()

            terminate = kill

            @property
            def exitcode(self):
                s.switch()
                return None if not self.over else 0

            def close(self):
                pass

        def sleep(t):
            s.switch(lambda: False, s.now + t)

        def clock():
            s.switch()
            return s.now

        mp = Fake("multiprocessing", Lock=Lock, RLock=Lock, Queue=Queue, Process=Process)
        mp.__dict__["get_context"] = lambda *a: mp
        th = Fake("threading", Lock=Lock, RLock=Lock, Thread=Thread)
        tm = Fake("time", monotonic=clock, time=clock, perf_counter=clock, sleep=sleep)
        return [(multiprocessing, mp), (threading, th), (time, tm)]

    def hang(self):
        self.switch(lambda: False)
