"""Seam for threads: a seeded scheduler that decides every switch.

Threads whose code belongs to pyuvdata (or that the harness starts) are real threads, but only
the one that holds the baton runs.  The baton can change hands at every line event of the
package's own frames, at the start of a thread, when a thread waits for another and when one
ends; a seeded generator decides each of these, so that a seed is one interleaving.
"""
import random
import sys
import threading
import _thread

from h5py._objects import phil

ROOTS = ("/repo/src/pyuvdata/",)


class Killed(BaseException):
    pass


class Task:
    def __init__(self, name, fn=None):
        self.name, self.fn, self.done, self.exc, self.value = name, fn, False, None, None
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.waits = None
        self.sites = set()
        self.fault = None  # (line event of this task, exception)
        self.n = 0
        self.where = None


class Sched:
    """p: (chance of a switch at a line seen for the first time, at a line seen before), or ("turns", lines per turn); start: chance that a new thread runs at once."""

    def __init__(self, seed, p=(0.1, 0.01), start=0.5, fault=None):
        self.rng = random.Random(seed)
        self.p, self.start, self.fault = p, start, fault
        self.main = Task("main")
        self.cur = self.main
        self.tasks = [self.main]
        self.switches = self.n = 0
        self.trace = []
        self.kill = False
        self.spawned = 0
        self.timeouts = 0

    # -- switching
    def runnable(self):
        return [t for t in self.tasks if not t.done and (t.waits is None or t.waits.done)]

    def to(self, t):
        me = self.cur
        if t is me:
            return
        self.switches += 1
        self.trace.append((me.name, me.n, t.name))
        self.cur = t
        t.go.release()
        if not me.done:
            me.go.acquire()
            if self.kill:
                raise Killed

    def wait(self, t):
        me = self.cur
        while not t.done:
            me.waits = t
            self.to(self.rng.choice(self.runnable()))
        me.waits = None

    def point(self, frame):
        me = self.cur
        self.n += 1
        me.n += 1
        key = (frame.f_code.co_filename, frame.f_lineno)
        if self.p[0] == "turns":
            p = float(me.n % self.p[1] == 0)
        elif key not in me.sites:
            me.sites.add(key)
            p = self.p[0]
        else:
            p = self.p[1]
        # (not in the thread's own wrapper, outside of the work it was started for)
        if me.fault is not None and me.n >= me.fault[0] and not (frame.f_code.co_name == "run" and me is not self.main):
            exc, me.fault = me.fault[1], None
            me.where = f"{key[0].rsplit('/', 1)[-1]}:{frame.f_code.co_name}"
            raise exc
        # (h5py's global lock is a real lock: nobody else could use HDF5 while this thread holds it)
        if self.rng.random() < p and not phil._is_owned():
            o = [t for t in self.runnable() if t is not me]
            if o:
                self.to(self.rng.choice(o))

    # -- tracing
    def _global(self, frame, event, arg):
        c = frame.f_code
        if c.co_filename.startswith(ROOTS) and c.co_name not in ("__del__", "<module>"):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        return self._local

    # -- threads
    def spawn(self, fn, name):
        t = Task(name, fn)
        self.tasks.append(t)
        self.spawned += 1
        ready = _thread.allocate_lock()
        ready.acquire()
        _thread.start_new_thread(self._body, (t, ready))
        ready.acquire()
        return t

    def _body(self, t, ready):
        ready.release()
        t.go.acquire()
        try:
            if not self.kill:
                sys.settrace(self._global)
                t.value = t.fn()
        except Killed:
            pass
        except BaseException as e:  # noqa: BLE001
            t.exc = e
        finally:
            sys.settrace(None)
            t.done = True
            r = self.runnable()
            # (the main task is there as long as the simulation runs)
            self.to(self.rng.choice(r) if r else self.main)

    def __enter__(self):
        Seam.active = self
        Seam.install()
        self.main_trace = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        Seam.active = None
        return False

    def finish(self):
        """Let everything that is still running run to its end."""
        for t in self.tasks[1:]:
            if not t.done:
                self.wait(t)


class Seam:
    active = None
    done = False

    @classmethod
    def install(cls):
        if cls.done:
            return
        cls.done = True
        T = threading.Thread
        start, join, alive = T.start, T.join, T.is_alive

        def mine(th):
            f = getattr(th, "_target", None)
            f = getattr(f, "__func__", f)
            co = getattr(f, "__code__", None) or getattr(type(th).run, "__code__", None)
            f2 = type(th).run.__code__
            return any(c is not None and c.co_filename.startswith(ROOTS) for c in (co, f2))

        def sim_start(self):
            s = cls.active
            if s is None or not mine(self):
                return start(self)
            if getattr(self, "_sim", None) is not None:
                raise RuntimeError("threads can only be started once")
            self._sim = s.spawn(self.run, f"t{s.spawned + 1}")
            if s.fault is not None:
                self._sim.fault, s.fault = s.fault, None
            if s.rng.random() < s.start:
                s.to(self._sim)

        def sim_join(self, timeout=None):
            t = getattr(self, "_sim", None)
            s = cls.active
            if t is None:
                return join(self, timeout)
            if t.done or s is None:
                return None
            if timeout is not None and s.rng.random() < 0.7:
                s.timeouts += 1  # (simulated time passes: the thread did not end in time)
                return None
            s.wait(t)
            return None

        def sim_alive(self):
            t = getattr(self, "_sim", None)
            return alive(self) if t is None else not t.done

        T.start, T.join, T.is_alive = sim_start, sim_join, sim_alive
