"""A scheduler for two threads of the real code: exactly one runs at a time, switched at lines of the package.

Every executed line of the package's own Python source is a point where the thread can be suspended.  A plan
[k1, k2, ...] runs thread 0 up to its k1-th line, then thread 1 up to its k2-th line, thread 0 for further k3 lines, ...;
when the plan is used up the current other thread runs to its end, then the first.  A thread that does not come back
(it waits for something the suspended one holds) is left waiting while the other one goes on; both have to end."""
import os, sys, threading, time

WAITS = [(4, 3.0), (24, 0.6), (10 ** 9, 0.12)]     # seconds after which a thread counts as waiting for the suspended one: less in code that was seen to wait
WAITED = [0]
END = 60.0          # seconds within which both threads have to end once both may run


class Deadlock(Exception):
    pass


class Thread(object):
    def __init__(self, f, root):
        self.f, self.root, self.lines, self.stop = f, root, 0, None
        self.result = self.error = None
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.ended = False
        self.where = []
        self.t = threading.Thread(target=self.body, daemon=True)
        self.t.start()

    def body(self):
        self.go.acquire()
        sys.settrace(self.enter)
        try:
            self.result = self.f()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.ended = True
            self.back.release()

    def enter(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.root) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.stop is not None and self.lines >= self.stop:
                self.stop = None
                self.where.append("%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                self.back.release()
                self.go.acquire()
        return self.line



def execute(fs, plan, root):
    """[(result, error, lines)] of the two functions under the plan, whether a thread had to wait, and where they were suspended."""
    ts = [Thread(f, root) for f in fs]
    loose = [False, False]                      # running although the plan has moved on
    forced = 0

    wait = next(w for n, w in WAITS if WAITED[0] < n)

    def step(i, lines, wait):
        nonlocal forced
        t = ts[i]
        if t.ended:
            return
        if loose[i]:
            loose[i] = not t.back.acquire(timeout=wait)
            return
        t.stop = None if lines is None else t.lines + lines
        t.go.release()
        if not t.back.acquire(timeout=wait):
            loose[i] = True
            forced += 1
            WAITED[0] += 1

    cur = 0
    for k in list(plan) + [None]:
        step(cur, k, wait)
        cur = 1 - cur
    end = time.time() + END
    while not (ts[0].ended and ts[1].ended):
        for i in (cur, 1 - cur):
            step(i, None, wait)
        if time.time() > end:
            raise Deadlock("thread %s waits forever" % " and ".join(str(i) for i in (0, 1) if not ts[i].ended))
    return [(t.result, t.error, t.lines) for t in ts], forced, [t.where for t in ts]
