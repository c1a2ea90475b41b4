"""Cooperative schedules for workers that poll with time.sleep: one worker runs at a time and
gives way only where it sleeps, so a schedule is a list of drawn choices and replays exactly."""
import sys
import threading
import time


def rebind(pairs):
    """put replacements for functions everywhere pycold's modules name them; -> undo list"""
    undo = []
    for name, m in list(sys.modules.items()):
        if m is not None and name.split(".")[0] == "pycold":
            for k, v in list(vars(m).items()):
                for old, new in pairs:
                    if v is old:
                        setattr(m, k, new)
                        undo.append((m, k, old))
    return undo


def restore(undo):
    for m, k, v in undo:
        setattr(m, k, v)


def torn(f):
    """what a writer that dies while it saves to f (a path or an open file) leaves there"""
    if hasattr(f, "write"):
        f.write(b"\x93NUMPY torn")
    else:
        with open(f, "wb") as h:
            h.write(b"\x93NUMPY torn")


class Stuck(Exception):
    pass


class _Op:
    def __init__(self, sched, fn):
        self.sched, self.fn, self.error, self.done = sched, fn, None, False
        self.go = threading.Event()
        self.state = {}
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.go.wait()
        try:
            if not self.sched.dead:
                self.fn()
        except BaseException as e:
            self.error = e
        self.done = True
        self.sched.back.set()


class _Abort(BaseException):
    pass


class Schedule:
    def __init__(self, choose=None, patience=30):
        self.back, self.current, self.choose, self.patience, self.dead = threading.Event(), None, choose or (lambda n: 0), patience, False
        self._sleep = time.sleep

    def __enter__(self):
        time.sleep = mine = self.sleep
        self.undo = rebind([(self._sleep, mine)])
        return self

    def __exit__(self, *a):
        time.sleep = self._sleep
        restore(self.undo)
        self.dead = True
        return False

    def sleep(self, s):
        op = self.current
        if op is None or threading.current_thread() is not op.thread:
            return self._sleep(min(s, 0.01))
        op.go.clear()
        self.back.set()
        op.go.wait()
        if self.dead:
            raise _Abort()

    def _step(self, op):
        self.back.clear()
        self.current = op
        if not op.thread.is_alive() and not op.done:
            op.thread.start()
        op.go.set()
        self.back.wait()
        self.current = None
        if op.done:
            op.thread.join()

    def run(self, fns):
        """start the operations in order; whenever the running one sleeps, choose(n) says who goes on:
        0 the next new operation, k the k-th sleeper"""
        new, asleep, idle = [_Op(self, f) for f in fns], [], 0
        try:
            while new or asleep:
                k = self.choose(len(asleep)) if new else 1
                if new and (k == 0 or not asleep):
                    op = new.pop(0)
                    idle = 0
                else:
                    op = asleep.pop((k - 1) % len(asleep))
                    idle += 1
                self._step(op)
                if op.error is not None:
                    raise op.error
                if op.done:
                    idle = 0
                else:
                    asleep.append(op)
                if idle > self.patience * (len(asleep) + 1):
                    raise Stuck()
        finally:
            if asleep:
                self.dead = True
                for op in asleep:
                    op.go.set()
                for op in asleep:
                    op.thread.join(5)
                self.dead = False
