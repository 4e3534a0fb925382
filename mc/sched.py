"""Controlled scheduler: real threads, one at a time, every switch a choice.

The threads of the code under test run as real threads, but only the holder of
the baton executes.  Scheduling points are every line (or every bytecode) of
the target files, every stand-in ROS call and every operation on the
cooperative ``threading`` primitives that replace the real ones in the target
modules.  Keeping the current thread running is the default at a point;
switching to another runnable thread costs one deviation, so the scenario's
bound is a preemption bound.  A sleeping or blocked thread gives up the
processor: the default is then the next thread in round-robin order.
"""
import os
import sys
import threading
import types

_REAL = {k: getattr(threading, k) for k in (
    "Thread", "Event", "Lock", "RLock", "Condition", "Semaphore", "BoundedSemaphore")}
WAIT_S = 30


class Abort(BaseException):
    """Unwinds the threads of an execution that is over."""


class _T:
    def __init__(self, name):
        self.name = name
        self.sem = threading.Semaphore(0)
        self.pred = None
        self.done = False
        self.real = None


class Sched:
    def __init__(self, ch, modules, opcodes=False):
        self.ch = ch
        self.opcodes = opcodes
        if opcodes:
            # opcode events take effect at the settrace() after the first request
            sys._getframe().f_trace_opcodes = True
        self.files = set()
        self.main = _T("main")
        self.threads = [self.main]
        self.current = self.main
        self.error = None
        self.aborting = False
        self.started = []
        self.n_points = 0
        self.where = {}
        self._saved = []
        self._coop = None
        for m in modules:
            self.files.add(os.path.abspath(m.__file__))
            self._patch(m)
        # also for an import inside a function
        self._saved.append((threading, "Thread", _REAL["Thread"]))
        threading.Thread = self._primitives()["Thread"]

    # -- cooperative primitives ------------------------------------------
    def _patch(self, module):
        coop = self._primitives()
        proxy = types.ModuleType("threading")
        proxy.__dict__.update(threading.__dict__)
        proxy.__dict__.update(coop)
        for k, v in list(vars(module).items()):
            new = None
            if v is threading:
                new = proxy
            else:
                for n, real in _REAL.items():
                    if v is real:
                        new = coop[n]
            if new is not None:
                self._saved.append((module, k, v))
                setattr(module, k, new)

    def restore(self):
        for m, k, v in self._saved:
            setattr(m, k, v)

    def _primitives(self):
        if self._coop is None:
            self._coop = self._make_primitives()
        return self._coop

    def _make_primitives(self):
        s = self

        class Thread(_REAL["Thread"]):
            def start(self):
                s.point("start")
                t = _T(f"thread {len(s.threads)}")
                t.real = self
                self._coop = t
                self._ready = threading.Event()
                s.started.append(self)
                self.daemon = True
                super().start()
                if not self._ready.wait(WAIT_S):
                    raise RuntimeError("thread did not start")
                s.threads.append(t)
                s.point("started")

            def run(self):
                self._ready.set()
                self._coop.sem.acquire()
                try:
                    if s.aborting:
                        raise Abort()
                    sys.settrace(s._trace)
                    super().run()
                except Abort:
                    pass
                except BaseException as e:  # noqa: B902
                    s.child_error(self._coop, e)
                finally:
                    sys.settrace(None)
                    s.finish(self._coop)

            def join(self, timeout=None):
                if not hasattr(self, "_coop"):
                    raise RuntimeError("cannot join thread before it is started")
                s.block(lambda: self._coop.done, timeout, "join")

            def is_alive(self):
                s.point("is_alive")
                return hasattr(self, "_coop") and not self._coop.done

        class Event:
            def __init__(self):
                self._f = False

            def is_set(self):
                s.point("is_set")
                return self._f

            isSet = is_set

            def set(self):
                s.point("set")
                self._f = True

            def clear(self):
                s.point("clear")
                self._f = False

            def wait(self, timeout=None):
                s.point("wait")
                if not self._f:
                    s.block(lambda: self._f, timeout, "wait")
                return self._f

        class RLock:
            def __init__(self):
                self._owner = None
                self._n = 0

            def acquire(self, blocking=True, timeout=-1):
                s.point("acquire")
                me = s.current
                if self._reentrant and self._owner is me:
                    self._n += 1
                    return True
                if self._owner is not None:
                    if not blocking:
                        return False
                    s.block(lambda: self._owner is None, None if timeout < 0 else timeout,
                            "acquire")
                    if self._owner is not None:
                        return False
                self._owner, self._n = s.current, 1
                return True

            _reentrant = True

            def release(self):
                if self._owner is None:
                    raise RuntimeError("release unlocked lock")
                self._n -= 1
                if self._n == 0:
                    self._owner = None
                s.point("release")

            def locked(self):
                return self._owner is not None

            __enter__ = acquire

            def __exit__(self, *a):
                self.release()

        class Lock(RLock):
            _reentrant = False

        class Condition:
            def __init__(self, lock=None):
                self._l = lock or RLock()
                self._gen = 0
                self.acquire, self.release = self._l.acquire, self._l.release

            def __enter__(self):
                return self._l.acquire()

            def __exit__(self, *a):
                self._l.release()

            def wait(self, timeout=None):
                g = self._gen
                self._l.release()
                s.block(lambda: self._gen != g, timeout, "wait")
                self._l.acquire()
                return self._gen != g

            def wait_for(self, pred, timeout=None):
                while not pred():
                    if not self.wait(timeout) and timeout is not None:
                        break
                return pred()

            def notify(self, n=1):
                self._gen += 1

            def notify_all(self):
                self._gen += 1

        class Semaphore:
            def __init__(self, value=1):
                self._v = value

            def acquire(self, blocking=True, timeout=None):
                s.point("acquire")
                if self._v <= 0:
                    if not blocking:
                        return False
                    s.block(lambda: self._v > 0, timeout, "acquire")
                    if self._v <= 0:
                        return False
                self._v -= 1
                return True

            __enter__ = acquire

            def release(self, n=1):
                self._v += n
                s.point("release")

            def __exit__(self, *a):
                self.release()

        return dict(Thread=Thread, Event=Event, Lock=Lock, RLock=RLock, Condition=Condition,
                    Semaphore=Semaphore, BoundedSemaphore=Semaphore)

    def thread(self, fn, name):
        """A harness thread; its function is not traced, calls into targets are."""
        t = self._primitives()["Thread"](target=fn, name=name)
        t.start()
        return t

    # -- scheduling -------------------------------------------------------
    def _enabled(self):
        return [t for t in self.threads
                if not t.done and (t.pred is None or t.pred())]

    def point(self, label, yielding=False):
        if self.aborting:
            raise Abort()
        me = self.current
        if me.real is None and threading.current_thread() is not threading.main_thread() \
                or me.real is not None and threading.current_thread() is not me.real:
            raise RuntimeError("scheduling point outside the controlled thread")
        self.n_points += 1
        self.where[me.name] = label
        en = self._enabled()
        if not en:
            raise Deadlock(dict(self.where))
        i = self.threads.index(me)
        order = self.threads[i + 1:] + self.threads[:i]
        others = [t for t in order if t in en]
        if me in en:
            opts = others + [me] if yielding and others else [me] + others
        else:
            opts = others
        if len(opts) > 1:
            names = {f"{t.name}": t for t in opts}
            nxt = self.ch.choose(f"{me.name} at {label}", names)
        else:
            nxt = opts[0]
        self.ch.step()
        if nxt is not me:
            self._switch(me, nxt)

    def _switch(self, me, nxt):
        self.current = nxt
        nxt.sem.release()
        if not me.done:
            me.sem.acquire()
            if self.aborting:
                raise Abort()

    def block(self, pred, timeout=None, label="blocked"):
        """Wait until ``pred``; with a timeout the wait may also end at any time."""
        if pred():
            self.point(label)
            return
        me = self.current
        if timeout is None:
            me.pred = pred
        try:
            self.point(label, yielding=True)
        finally:
            me.pred = None

    def finish(self, t):
        t.done = True
        if self.aborting:
            return
        self.where[t.name] = "ended"
        en = self._enabled()
        if not en:
            if not self.main.done:
                self.abort(Deadlock(dict(self.where)))
            return
        i = self.threads.index(t)
        opts = [x for x in self.threads[i + 1:] + self.threads[:i] if x in en]
        try:
            nxt = self.ch.choose(f"{t.name} ended", {x.name: x for x in opts}) \
                if len(opts) > 1 else opts[0]
        except BaseException as e:  # noqa: B902
            self.abort(e)
            return
        self.current = nxt
        nxt.sem.release()

    def child_error(self, t, e):
        self.abort(e)

    def abort(self, e):
        if self.error is None:
            self.error = e
        self.aborting = True
        for t in self.threads:
            t.sem.release()

    # -- tracing ----------------------------------------------------------
    def _trace(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename in self.files:
            if self.opcodes:
                frame.f_trace_opcodes = True
                return self._local
            # CPython may or may not report a line again after a forward jump
            # within it: one point per line and pass
            last = [0, -1]

            def local(frame, event, arg):
                if event == "line":
                    line, at = frame.f_lineno, frame.f_lasti
                    if line != last[0] or at <= last[1]:
                        self.point(f"{frame.f_code.co_name}:{line}")
                    last[:] = line, at
                return local

            return local
        return None

    def _local(self, frame, event, arg):
        if event == "opcode":
            self.point(f"{frame.f_code.co_name}:{frame.f_lineno}+{frame.f_lasti}")
        return self._local

    def run(self, script):
        """Run ``script()`` as the main thread, then end all threads."""
        try:
            sys.settrace(self._trace)
            script()
        except Abort:
            pass
        except BaseException as e:  # noqa: B902
            if self.error is None:
                self.error = e
        finally:
            sys.settrace(None)
            self.main.done = True
            left = [t for t in self.threads if not t.done]
            self.aborting = True
            for t in self.threads:
                t.sem.release()
            for r in self.started:
                _REAL["Thread"].join(r, WAIT_S)
            self.restore()
        if self.error is not None:
            raise self.error
        return left


class Deadlock(Exception):
    pass
