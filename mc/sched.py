"""Two real threads under a controlled scheduler (used by C26).

Every source line executed inside finoptions is a scheduling point.  A schedule is a list of turns
[(thread, points)]: the thread runs until it is about to execute its points-th line (None: to its end),
then the other thread gets control.  Exactly one thread runs at a time; everything else in the
process waits.  If the running thread blocks (it asked for a lock the suspended thread holds), the
suspended thread is released as well, as an operating system would.
"""
import sys
import threading

from . import core

PREFIX = core.SRC


class Worker:
    def __init__(self, fn, log=None):
        self.fn = fn
        self.go = threading.Semaphore(0)
        self.count = 0
        self.stop_at = None
        self.result = None
        self.error = None
        self.done = False
        self.stops = 0  # stops planned for this thread
        self.log = log  # list of (file, line) if the points are to be recorded
        self.thread = None


class Scheduler:
    BLOCKED_AFTER = 5.0

    def __init__(self, a, b):
        self.back = threading.Semaphore(0)
        self.w = [Worker(a), Worker(b)]

    def _run(self, w):
        w.go.acquire()
        if w.log is not None or w.stops:
            w.stops -= 1
            sys.settrace(self._trace_for(w))
        try:
            w.result = w.fn()
        except Exception as e:
            w.error = f"{type(e).__name__}: {e}"
        finally:
            sys.settrace(None)
            w.done = True
            self.back.release()

    def _trace_for(self, w):
        def local(frame, event, arg):
            if event == "line":
                if w.stop_at is None and w.log is None:
                    return None
                w.count += 1
                if w.log is not None:
                    w.log.append((frame.f_code.co_filename, frame.f_lineno))
                if w.stop_at is not None and w.count >= w.stop_at:
                    w.stop_at = None
                    self.back.release()
                    w.go.acquire()
                    if w.stops == 0:  # no further stop in this schedule: run at full speed
                        sys.settrace(None)
                        return None
                    w.stops -= 1
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(PREFIX):
                return local
            return None

        return glob

    def run(self, turns):
        """Plays the turns; returns ((result, error) of a, of b, blocked?)."""
        for i, w in enumerate(self.w):
            w.stops = sum(1 for k, n in turns if k == i and n is not None)
            w.thread = threading.Thread(target=self._run, args=(w,), daemon=True)
            w.thread.start()
        blocked = False
        for i, n in turns:
            w = self.w[i]
            if w.done:
                continue
            w.stop_at = None if n is None else w.count + n
            w.go.release()
            if not self.back.acquire(timeout=self.BLOCKED_AFTER):
                # blocked on something the other thread holds: let both go on freely
                blocked = True
                for v in self.w:
                    v.stop_at = None
                    v.go.release()
                    v.go.release()
                break
        for w in self.w:
            w.thread.join(timeout=120.0)
            if w.thread.is_alive():
                w.error = "NonTermination: the thread never ends"
        return [(w.result, w.error) for w in self.w], blocked


def points(fn):
    """Scheduling points of fn run alone: list of (file, line)."""
    s = Scheduler(fn, lambda: None)
    s.w[0].log = []
    s.run([(1, None), (0, None)])
    if s.w[0].error:
        raise RuntimeError(s.w[0].error)
    return s.w[0].log
