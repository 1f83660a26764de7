"""
Deterministic cooperative scheduler: simulated processes/threads are real
Python threads of which exactly one runs at a time; a seeded PRNG decides who
continues at every yield point.
"""
import threading

from .core import Violation, HarnessError


class SimKilled(BaseException):
    """The simulated process was killed."""


class Deadlock(Violation):
    pass


class Task(object):
    def __init__(self, sched, name, fun, proc=None):
        self.sched = sched
        self.name = name
        self.fun = fun
        self.proc = proc
        self.sem = threading.Semaphore(0)
        self.cond = None
        self.wake = None
        self.done = False
        self.killed = False
        self.exc = None
        self.value = None
        self.thread = None
        self.on_done = None

    def runnable(self):
        if self.done:
            return False
        if self.killed or (self.cond is None):
            return True
        if (self.wake is not None) and (self.sched.now >= self.wake):
            return True
        return bool(self.cond())


class Sched(object):
    """
    The main thread is the task 'main'.  Time is simulated: when nobody can
    run and somebody sleeps, the clock jumps to the earliest wake time.
    """

    def __init__(self, rng, ctx, max_switches=200000, bias=None):
        self.rng = rng
        self.ctx = ctx
        self.now = 0.0
        self.tasks = []
        self.main = Task(self, 'main', None)
        self.tasks.append(self.main)
        self.current = self.main
        self.on_switch = None
        self.n_switch = 0
        self.max_switches = max_switches
        self.error = None
        self.closing = False
        # Scheduling weights by task name prefix.
        self.weights = {}
        self.stickiness = 0.0

    # -- tasks -----------------------------------------------------------
    def spawn(self, fun, name, proc=None):
        task = Task(self, name, fun, proc)

        def body():
            task.sem.acquire()
            try:
                if task.killed:
                    raise SimKilled()
                task.value = fun()
            except SimKilled:
                pass
            except BaseException as exc:
                task.exc = exc
            finally:
                if task.on_done is not None:
                    task.on_done()
                task.done = True
                if not self.closing:
                    try:
                        self._next(task)
                    except BaseException as exc:
                        # Deliver to main.
                        self.error = exc
                        self._resume(self.main)

        task.thread = threading.Thread(target=body, daemon=True)
        self.tasks.append(task)
        task.thread.start()
        return task

    def kill(self, task):
        task.killed = True

    # -- switching -------------------------------------------------------
    def _resume(self, task):
        prev = self.current
        self.current = task
        if (task is not prev) and (self.on_switch is not None):
            self.on_switch(prev, task)
        task.sem.release()

    def _pick(self):
        while 1:
            cands = [tt for tt in self.tasks if tt.runnable()]
            if cands:
                break
            sleeping = [tt.wake for tt in self.tasks
                        if (not tt.done) and (tt.wake is not None)]
            if not sleeping:
                return None
            self.now = max(self.now, min(sleeping))
        if len(cands) == 1:
            return cands[0]
        if (self.current in cands) and (self.rng.random() < self.stickiness):
            task = self.current
        else:
            ws = [self.weights.get(tt.name.split(':')[0], 1.0)
                  for tt in cands]
            task = self.rng.choices(cands, ws)[0]
        self.ctx.choice_made('run', task.name)
        return task

    def _next(self, me):
        self.n_switch += 1
        if self.n_switch > self.max_switches:
            raise Violation('no-progress', 'the simulation did not finish in'
                            ' %d scheduling steps' % self.max_switches)
        task = self._pick()
        if task is None:
            raise Deadlock('deadlock', 'no simulated process can continue: '
                           + ', '.join('%s waits' % tt.name
                                       for tt in self.tasks if not tt.done))
        if task is me:
            me.cond = me.wake = None
            return True
        self._resume(task)
        return False

    def _wait(self, me):
        me.sem.acquire()
        me.cond = me.wake = None
        if me is self.main:
            if self.error is not None:
                err, self.error = self.error, None
                raise err
        elif me.killed or self.closing:
            raise SimKilled()

    def yield_(self, label=''):
        me = self.current
        if threading.current_thread() is not (me.thread
                                              or threading.main_thread()):
            if self.closing:
                raise SimKilled()
            raise HarnessError('yield from a wrong thread')
        if me.killed:
            raise SimKilled()
        if not self._next(me):
            self._wait(me)

    def block(self, cond, timeout=None):
        """
        Wait until cond() holds; returns cond() (False after the timeout).
        """
        me = self.current
        if me.killed:
            raise SimKilled()
        me.cond = cond
        me.wake = None if timeout is None else self.now + timeout
        if not self._next(me):
            self._wait(me)
        me.cond = me.wake = None
        return cond()

    def sleep(self, dt):
        self.block(lambda: False, timeout=dt)

    def drain(self, limit=None):
        """Let all the other tasks run until they finish or block."""
        me = self.current
        self.block(lambda: not any(tt.runnable() for tt in self.tasks
                                   if (tt is not me)))

    def close(self):
        """Kill all remaining threads."""
        self.closing = True
        for task in self.tasks:
            if (task is not self.main) and (not task.done):
                task.killed = True
                task.sem.release()
        for task in self.tasks:
            if task.thread is not None:
                task.thread.join(5.0)
