"""Cooperative threads for the code under test.

The code's threads are real threads, of which exactly one runs at a time.  At every operation on a
queue, thread or other synchronisation object the schedule decides which one goes on: it is a list
of booleans chosen before the threads start (the scenario makes them symbolic, so that the engine
explores every schedule within the bound); when the list is exhausted the running thread goes on
until it blocks.  If every thread is blocked, Deadlock is raised in the main thread.
"""
import collections
import queue as _q
import threading as _t
import types


class Deadlock(BaseException):
    pass


class _Killed(BaseException):
    pass


class Task:
    def __init__(self, name):
        self.name = name
        self.sem = _t.Semaphore(0)
        self.blocked = None     # predicate that must hold before it can go on
        self.done = False
        self.started = False
        self.exc = None
        self.real = None
        self.daemon = False


class Sched:
    def __init__(self, bits=(), on_start=None):
        self.threads = 0
        self.on_start = on_start
        self.bits = list(bits)
        self.main = Task("main")
        self.main.started = True
        self.tasks = [self.main]
        self.cur = self.main
        self.fatal = None
        self.dead = False
        self.used = 0
        self.steps = 0

    # -- scheduling

    def runnable(self):
        return [t for t in self.tasks if t.started and not t.done and (t.blocked is None or t.blocked())]

    def point(self, spins=False):
        """The running thread lets another one go on if the schedule says so.

        spins: an operation that code repeats while it waits; without a schedule others go first."""
        if self.dead:
            raise _Killed()
        self.steps += 1
        if self.steps > 3000:
            self.fatal = self.fatal or Deadlock("waits for ever")
            if self.cur is self.main:
                x, self.fatal, self.dead = self.fatal, None, True
                raise x
            self.main.blocked = None
            self._to(self.main)
        others = [t for t in self.runnable() if t is not self.cur]
        if others and not self.bits and spins:
            self._to(others[0])
            return
        if not others or not self.bits:
            return
        self.used += 1
        if self.bits.pop(0):
            self._to(others[0])

    def wait(self, pred, timed=False):
        """Block until pred() holds.  timed: give up (False) when no other thread can go on."""
        if self.dead:
            raise _Killed()
        me = self.cur
        while not pred():
            others = [t for t in self.runnable() if t is not me]
            if not others:
                # nothing else can go on: a waiting main thread with a timeout may
                if timed:
                    return False
                if me is self.main:
                    self.dead = True
                    raise Deadlock("every thread waits")
                me.blocked = pred
                self.deadlocked()
            me.blocked = pred
            self._to(others[0])
            me.blocked = None
            if timed and not pred():
                return False
        return True

    def deadlocked(self):
        """A worker blocks for good; the main thread must be blocked too."""
        self.main.blocked = None
        self.fatal = self.fatal or Deadlock("every thread waits")
        self._to(self.main)

    def _to(self, t):
        me = self.cur
        self.cur = t
        t.sem.release()
        me.sem.acquire()
        if self.dead and me is not self.main:
            raise _Killed()
        if me is self.main and self.fatal is not None:
            x, self.fatal = self.fatal, None
            self.dead = True
            raise x

    def _run(self, task, fn):
        task.sem.acquire()
        if self.dead:
            return
        try:
            fn()
        except _Killed:
            return
        except Exception as e:
            task.exc = e
        except BaseException as e:
            self.fatal = e
        task.done = True
        nxt = self.runnable()
        if self.fatal is not None:
            t = self.main
        elif nxt:
            t = nxt[0]
        else:
            t = self.main
            self.fatal = Deadlock("every thread waits")
            self.main.blocked = None
        self.cur = t
        t.sem.release()

    def busy(self):
        """Does any other thread exist?"""
        for t in self.tasks:
            if t is not self.main and t.started:
                if not t.done:
                    return True
                t.real.join()
        return False

    def leave(self):
        """The main thread is done: wait for the threads that keep the process alive."""
        self.wait(lambda: all(t.done or t.daemon or not t.started for t in self.tasks if t is not self.main))

    def finish(self):
        """End of the scenario: no thread goes on any more."""
        self.dead = True

    # -- stand-in modules

    def time(self, module):
        return module("time", sleep=lambda x: self.point(True), time=lambda: 0.0, monotonic=lambda: 0.0,
                      perf_counter=lambda: 0.0)

    def threading(self, module):
        s = self

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                self.name, self.daemon = name or "Thread", daemon
                self.task = Task(self.name)

            def run(self):
                if self.target:
                    self.target(*self.args, **self.kwargs)

            def start(self):
                s.threads += 1
                if s.on_start:
                    s.on_start()
                if self.task.started:
                    raise RuntimeError("threads can only be started once")
                self.task.started = True
                self.task.daemon = bool(self.daemon)
                s.tasks.append(self.task)
                th = _t.Thread(target=s._run, args=(self.task, self.run), daemon=True)
                self.task.real = th
                th.start()
                s.point()

            def join(self, timeout=None):
                s.wait(lambda: self.task.done, timed=timeout is not None)

            def is_alive(self):
                s.point(True)
                return self.task.started and not self.task.done

            isAlive = is_alive
            ident = native_id = property(lambda self: id(self))

            def setDaemon(self, d):
                self.daemon = d

        class Event:
            def __init__(self):
                self.f = False

            def set(self):
                self.f = True
                s.point()

            def clear(self):
                self.f = False
                s.point()

            def is_set(self):
                s.point(True)
                return self.f

            isSet = is_set

            def wait(self, timeout=None):
                s.point()
                return s.wait(lambda: self.f, timed=timeout is not None)

        class Semaphore:
            def __init__(self, value=1):
                self.v = value

            def acquire(self, blocking=True, timeout=None):
                s.point()
                if not blocking:
                    if self.v <= 0:
                        return False
                elif not s.wait(lambda: self.v > 0, timed=timeout not in (None, -1)):
                    return False
                self.v -= 1
                return True

            def release(self, n=1):
                self.v += n
                s.point()

            def __enter__(self):
                self.acquire()
                return self

            def __exit__(self, *a):
                self.release()

            def locked(self):
                return self.v <= 0

        class RLock(Semaphore):
            def __init__(self):
                Semaphore.__init__(self)
                self.owner, self.n = None, 0

            def acquire(self, blocking=True, timeout=None):
                if self.owner is s.cur:
                    self.n += 1
                    return True
                if not Semaphore.acquire(self, blocking, timeout):
                    return False
                self.owner, self.n = s.cur, 1
                return True

            def release(self):
                self.n -= 1
                if self.n == 0:
                    self.owner = None
                    Semaphore.release(self)
        return module("threading", Thread=Thread, Event=Event, Lock=Semaphore, RLock=RLock, Semaphore=Semaphore,
                      BoundedSemaphore=Semaphore, current_thread=lambda: types.SimpleNamespace(name=s.cur.name),
                      main_thread=lambda: types.SimpleNamespace(name="main"))

    def queue(self, module):
        s = self

        class Queue:
            def __init__(self, maxsize=0):
                self.maxsize, self.d, self.unfinished = maxsize, collections.deque(), 0

            def put(self, x, block=True, timeout=None):
                s.point()
                if self.maxsize > 0:
                    if not block:
                        if len(self.d) >= self.maxsize:
                            raise _q.Full()
                    elif not s.wait(lambda: len(self.d) < self.maxsize, timed=timeout is not None):
                        raise _q.Full()
                self._in(x)
                self.unfinished += 1
                s.point()

            def _in(self, x):
                self.d.append(x)

            def _out(self):
                return self.d.popleft()

            def get(self, block=True, timeout=None):
                s.point(not block or timeout is not None)
                if not block:
                    if not self.d:
                        raise _q.Empty()
                elif not s.wait(lambda: len(self.d) > 0, timed=timeout is not None):
                    raise _q.Empty()
                x = self._out()
                s.point()
                return x

            def put_nowait(self, x):
                self.put(x, block=False)

            def get_nowait(self):
                return self.get(block=False)

            def task_done(self):
                self.unfinished -= 1
                if self.unfinished < 0:
                    raise ValueError("task_done() called too many times")
                s.point()

            def join(self):
                s.wait(lambda: self.unfinished == 0)

            def empty(self):
                s.point(True)
                return not self.d

            def full(self):
                s.point(True)
                return 0 < self.maxsize <= len(self.d)

            def qsize(self):
                s.point(True)
                return len(self.d)

        class LifoQueue(Queue):
            def _out(self):
                return self.d.pop()
        return module("queue", Queue=Queue, SimpleQueue=Queue, LifoQueue=LifoQueue, Empty=_q.Empty, Full=_q.Full)
