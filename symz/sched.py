"""
Interleavings.  `interleave` runs functions in threads of which only one makes
a step at a time; a step is a line of the code under test.  Where the running
thread is preempted is an input of the harness (the number of the step), so a
schedule is part of a counterexample, and its replay runs real threads over the
real code with the same preemptions.
"""
import os
import sys
import threading
import time
from .engine import Unsupported


class Abandoned(BaseException):
    pass


class Scheduler(object):
    def __init__(self, w, fns, files, switches, longest):
        self.w, self.fns = w, fns
        self.files = {os.path.join(repo(), f) for f in files}
        self.cond = threading.Condition()
        self.holder = None
        self.done = [False] * len(fns)
        self.tid = [None] * len(fns)
        self.step = 0
        self.error = None
        self.at = [w.int('preempt%d' % k, 0, longest) for k in range(switches)]
        for a, b in zip(self.at, self.at[1:]):
            w.assume(a < b)
        self.k = 0

    # -- in the threads
    def _trace(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self._line(me)
            return local

        def call(frame, event, arg):
            return local if frame.f_code.co_filename in self.files else None
        return call

    def _line(self, me):
        self._wait(me)
        if self.k < len(self.at) and \
                self.w.concretely_bool(self.at[self.k] == self.step):
            self.k += 1
            self.step += 1
            self._pass_on(me)
            self._wait(me)
        else:
            self.step += 1

    def _wait(self, me):
        with self.cond:
            while self.holder != me:
                if self.error is not None:
                    raise Abandoned()
                self.cond.wait(5)

    def _pass_on(self, me):
        with self.cond:
            n = len(self.fns)
            for k in range(1, n + 1):
                o = (me + k) % n
                if not self.done[o]:
                    self.holder = o
                    break
            self.cond.notify_all()

    def _body(self, me):
        self.tid[me] = threading.get_native_id()
        try:
            self._wait(me)
            sys.settrace(self._trace(me))
            try:
                self.fns[me]()
            finally:
                sys.settrace(None)
            self._wait(me)
        except Abandoned:
            pass
        except BaseException as e:
            with self.cond:
                if self.error is None:
                    self.error = e
        with self.cond:
            self.done[me] = True
        if self.error is None or self.holder == me:
            self._pass_on(me)
        with self.cond:
            self.cond.notify_all()

    # -- in the main thread
    def _usage(self, i):
        try:
            with open('/proc/self/task/%d/stat' % self.tid[i]) as f:
                s = f.read().rsplit(')', 1)[1].split()
            return s[0], s[11], s[12]
        except (OSError, TypeError):
            return None

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True)
              for i in range(len(self.fns))]
        for t in ts:
            t.start()
        with self.cond:
            self.holder = self.first
            self.cond.notify_all()
        last, still, passes = None, 0, 0
        while not all(self.done):
            with self.cond:
                self.cond.wait(.01)
                if all(self.done):
                    break
                now = (self.holder, self.step, self._usage(self.holder))
            asleep = now[2] is not None and now[2][0] == 'S'
            still = still + 1 if now == last and asleep else 0
            if last is not None and now[1] != last[1]:
                passes = 0
            last = now
            if still >= 5:
                # waits for something another thread holds
                still, passes = 0, passes + 1
                if passes > 20 * len(ts):
                    with self.cond:
                        self.error = self.error or Deadlock('deadlock')
                        self.cond.notify_all()
                    break
                self._pass_on(self.holder)
        if not isinstance(self.error, Deadlock):
            for t in ts:
                t.join(30)
        if self.error is not None:
            raise self.error


class Deadlock(Exception):
    pass


def repo():
    from . import shadow
    return shadow.REPO


def interleave(w, fns, files, switches=2, longest=200):
    s = Scheduler(w, list(fns), files, switches, longest)
    s.first = w.pick('first', len(s.fns))
    s.run()
    return s
