"""A deterministic scheduler of real threads.

Only one thread runs at a time.  Control passes at points of library code
where CPython can switch threads (sim.faults.points); at which of them it does
pass, and to whom, is chosen by the seed.  Jobs of the simulated cluster are
atomic for the driver's threads.
"""
import sys
import threading

from . import faults

STALL = 4.0  # real seconds after which a silent thread counts as blocked


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.go = threading.Semaphore(0)
        self.done = False
        self.blocked = False
        self.exc = None
        self.result = None


class Scheduler:
    def __init__(self, ctl, fns, preempt, by_method, watch=None):
        self.ctl = ctl
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.preempt = set(preempt)
        self.by_method = by_method
        self.step = 0
        self.back = threading.Semaphore(0)
        self.free = False
        self.switches = []
        # also switch right after writes to the shared object, while credit lasts
        self.watch = watch
        self.credit = len(preempt) if watch is not None else 0
        self.last = faults._state(watch) if watch is not None else None

    def _written(self, frame):
        if not self.credit or not faults.method_level(frame):
            return False
        now = faults._state(self.watch)
        if not faults._changed(now, self.last):
            return False
        self.last = now
        if sum(not t.done for t in self.tasks) < 2 or self.ctl.choose(2):
            return False
        self.credit -= 1
        return True

    def _hit(self, task):
        def hit(frame, event):
            if self.free:
                return
            if self.by_method and not faults.method_level(frame):
                return
            k = self.step
            self.step += 1
            written = self._written(frame)
            if (k in self.preempt or written) and sum(not t.done for t in self.tasks) > 1:
                at = faults.where(frame, event)
                self.switches.append((task.name, at))
                self.ctl.fault("preemption", "thread", task.name, "at", at)
                self.ctl.step("switch", task.name, at)
                self.back.release()
                task.go.acquire()

        return hit

    def _body(self, task):
        task.go.acquire()
        try:
            task.result = faults.traced(task.fn, self._hit(task), fine=True)
        except BaseException as e:
            task.exc = e
        finally:
            sys.settrace(None)
            task.done = True
            self.back.release()

    def run(self):
        th = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        for x in th:
            x.start()
        cur = self.tasks[self.ctl.choose(len(self.tasks))]
        while True:
            cur.go.release()
            if not self.back.acquire(timeout=STALL if len(self.tasks) > 1 else None):
                # waits for something another thread holds: let them all go on
                others = [t for t in self.tasks if not t.done and t is not cur and not t.blocked]
                cur.blocked = True
                if not others:
                    if not self.back.acquire(timeout=30):
                        return False
                else:
                    self.free = True
                    cur = others[0]
                    continue
            alive = [t for t in self.tasks if not t.done and not t.blocked]
            if not alive:
                if all(t.done for t in self.tasks):
                    break
                if not self.back.acquire(timeout=30):
                    return False
                if all(t.done for t in self.tasks):
                    break
                continue
            others = [t for t in alive if t is not cur] or alive
            cur = others[self.ctl.choose(len(others))]
            self.ctl.step("resume", cur.name)
        for x in th:
            x.join(30)
        return True


def plan(ctl, total):
    """Preemption points: a few, anywhere in the expected length."""
    n = 1 + ctl.choose([2, 3, 6][ctl.choose(3)])
    return [ctl.choose(max(1, total)) for _ in range(n)]
