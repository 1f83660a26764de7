"""
Simulated `spawn` multiprocessing context and plotting library for live log
plots.

A process is a task of the cooperative scheduler; the pipe has a limited
capacity, messages are pickled, closed ends behave as those of real pipes.
"""
import io
import pickle

import numpy as nm

from dst.core import Violation
from dst.sched import SimKilled

# The simulated world of the current run, see install().
WORLD = None


class SimPipe(object):
    def __init__(self, world, capacity):
        self.world = world
        self.capacity = capacity
        self.refs = [0, 0]
        self.queues = [[], []]   # Messages to be received by the side.

    def used(self, side):
        return sum(len(ii) for ii in self.queues[side])


class SimConn(object):
    def __init__(self, pipe, side):
        self._pipe = pipe
        self._side = side
        self._open = True
        pipe.refs[side] += 1

    def __del__(self):
        self.close()

    def close(self):
        if self._open:
            self._open = False
            self._pipe.refs[self._side] -= 1

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    @property
    def closed(self):
        return not self._open

    def fileno(self):
        return -1

    def _check(self):
        if not self._open:
            raise OSError('handle is closed')

    def _peer_gone(self):
        return self._pipe.refs[1 - self._side] == 0

    def send(self, obj):
        self._check()
        world = self._pipe.world
        data = world.dumps(obj)
        queue = self._pipe.queues[1 - self._side]

        def ready():
            return (self._peer_gone() or not queue
                    or (self._pipe.used(1 - self._side) + len(data)
                        <= self._pipe.capacity))

        world.block(ready)
        if self._peer_gone():
            raise BrokenPipeError(32, 'Broken pipe')
        queue.append(data)
        world.n_sent += 1

    def recv(self):
        self._check()
        queue = self._pipe.queues[self._side]
        self._pipe.world.block(lambda: queue or self._peer_gone())
        if not queue:
            raise EOFError()
        return self._pipe.world.loads(queue.pop(0))

    def poll(self, timeout=0.0):
        self._check()
        queue = self._pipe.queues[self._side]
        world = self._pipe.world
        if timeout is None:
            world.block(lambda: queue or self._peer_gone())
        elif timeout > 0.0:
            world.block(lambda: queue or self._peer_gone(), timeout)
        else:
            world.yield_('poll')
        return bool(queue) or self._peer_gone()


class SimProc(object):
    daemon = False
    exitcode = None

    def __init__(self, world, target=None, args=(), kwargs=None, name=None,
                 daemon=None, group=None):
        self._world = world
        self._call = (target, args, kwargs or {})
        self._task = None
        self._conns = []
        self.name = name or ('Process-%d' % (len(world.procs) + 1))
        world.procs.append(self)
        if daemon is not None:
            self.daemon = daemon

    def start(self):
        world = self._world
        data = world.dumps(self._call)
        self._call = None
        if isinstance(data, Message):
            self._conns = [cc for _, _, cc in data.dups]

        def body():
            try:
                target, args, kwargs = world.loads(data)
                target(*args, **kwargs)
                self.exitcode = 0
            except SimKilled:
                self.exitcode = -9
                raise
            except Violation:
                raise
            except BaseException as exc:
                self.exitcode = 1
                self.exc = exc
                world.ctx.event(self.name, 'died', type(exc).__name__)

        def on_done():
            # Also when killed before it started.
            for conn in self._conns:
                conn.close()
            if self.exitcode is None:
                self.exitcode = -9

        self.exc = None
        self._task = world.sched.spawn(body, 'plotter:%s' % self.name,
                                       proc=self)
        self._task.on_done = on_done
        world.yield_('start')

    def join(self, timeout=None):
        self._world.block(lambda: self._task.done, timeout)

    def is_alive(self):
        return (self._task is not None) and (not self._task.done)

    def terminate(self):
        self._world.sched.kill(self._task)

    kill = terminate


class World(object):
    def __init__(self, sched, ctx, capacity):
        self.sched = sched
        self.ctx = ctx
        self.capacity = capacity
        self.procs = []
        self.violation = None
        self.n_sent = 0
        self.figures = []
        self.atexit = []
        self.draw_time = None      # Function returning duration of drawing.
        self.save_fault = None
        self.killer = None

    # Violations must not be hidden by handlers of the code under test.
    def guard(self, fun, *args):
        if self.killer is not None:
            self.killer()
        try:
            return fun(*args)
        except Violation as exc:
            if self.violation is None:
                self.violation = exc
            raise

    def block(self, cond, timeout=None):
        self.guard(self.sched.yield_, '')
        return self.guard(self.sched.block, cond, timeout)

    def yield_(self, what):
        self.guard(self.sched.yield_, what)

    def sleep(self, dt):
        self.guard(self.sched.sleep, dt)

    def current(self):
        return self.sched.current.proc

    # -- pickling ---------------------------------------------------------
    def dumps(self, obj):
        buf = io.BytesIO()

        class Pickler(pickle.Pickler):
            def persistent_id(self, obj):
                if isinstance(obj, SimConn):
                    conns.append(obj)
                    return len(conns) - 1

        conns = []
        Pickler(buf).dump(obj)
        # The sender keeps its own ends.
        dups = [(cc._pipe, cc._side, SimConn(cc._pipe, cc._side))
                for cc in conns]
        if dups:
            return Message(buf.getvalue(), dups)
        return buf.getvalue()

    def loads(self, data):
        world = self
        conns = []
        if isinstance(data, Message):
            data, dups = data.data, data.dups
            conns = [cc for _, _, cc in dups]

        class Unpickler(pickle.Unpickler):
            def persistent_load(self, pid):
                return conns[pid]

        return Unpickler(io.BytesIO(data)).load()

    # -- the context ------------------------------------------------------
    def get_context(self, method=None):
        return self

    def Pipe(self, duplex=True):
        pipe = SimPipe(self, self.capacity)
        return SimConn(pipe, 0), SimConn(pipe, 1)

    def Process(self, *args, **kwargs):
        return SimProc(self, *args, **kwargs)


class Message(object):
    def __init__(self, data, dups):
        self.data = data
        self.dups = dups


# -- plotting library -----------------------------------------------------
class Quiet(object):
    """Accepts anything."""

    def __call__(self, *args, **kwargs):
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self

    def __iter__(self):
        return iter(())


class Line(Quiet):
    def __init__(self, x, y, kwargs):
        self.x, self.y = x, y
        self.kwargs = kwargs

    def get_color(self):
        return self.kwargs.get('color', 'C0')

    def get_alpha(self):
        return self.kwargs.get('alpha')


class Axes(Quiet):
    def __init__(self):
        self.clear()

    def clear(self):
        self.lines = []
        self.vlines = []
        self.scale = 'linear'
        self.xlabel = self.ylabel = ''

    def cla(self):
        self.clear()

    def plot(self, x, y, **kwargs):
        x, y = nm.array(x), nm.array(y)
        if x.shape != y.shape:
            raise ValueError('x and y must have the same first dimension')
        self.lines.append(Line(x, y, dict(kwargs)))
        return [self.lines[-1]]

    def axvline(self, x=0, **kwargs):
        self.vlines.append((x, dict(kwargs)))

    def set_yscale(self, val, **kwargs):
        if val not in ('linear', 'log'):
            raise ValueError('not a valid scale: %s' % val)
        self.scale = val

    def set_xlabel(self, val, **kwargs):
        self.xlabel = val

    def set_ylabel(self, val, **kwargs):
        self.ylabel = val

    def snapshot(self):
        return {'lines': [(ll.kwargs.get('label'), ll.x.tolist(),
                           ll.y.tolist(), ll.kwargs) for ll in self.lines],
                'vlines': list(self.vlines), 'scale': self.scale,
                'xlabel': self.xlabel, 'ylabel': self.ylabel}


class Figure(Quiet):
    def __init__(self, world):
        self.world = world
        self.proc = world.current()
        self.axes = []
        self.canvas = Canvas(self)
        self.shown = None
        self.saved = []
        self.n_draw = 0
        self.closed = False

    def clf(self):
        self.axes = []

    clear = clf

    def add_subplot(self, *args, **kwargs):
        self.axes.append(Axes())
        return self.axes[-1]

    def snapshot(self):
        return [ax.snapshot() for ax in self.axes]

    def savefig(self, filename, **kwargs):
        world = self.world
        world.ctx.event('savefig', filename)
        if world.save_fault is not None:
            world.save_fault(filename)
        if world.draw_time is not None:
            world.sleep(world.draw_time())
        self.saved.append((filename, self.snapshot()))


class Canvas(Quiet):
    def __init__(self, fig):
        self.fig = fig

    def draw(self):
        fig = self.fig
        if fig.world.draw_time is not None:
            fig.world.sleep(fig.world.draw_time())
        fig.shown = fig.snapshot()
        fig.n_draw += 1
        fig.world.on_draw(fig)

    def draw_idle(self):
        self.draw()

    def flush_events(self):
        self.fig.world.yield_('events')


class Pyplot(Quiet):
    def __init__(self):
        self.__name__ = 'matplotlib.pyplot'

    def figure(self, *args, **kwargs):
        fig = Figure(WORLD)
        WORLD.figures.append(fig)
        return fig

    def close(self, what=None):
        for fig in WORLD.figures:
            if fig.proc is WORLD.current():
                fig.closed = True


def _trampoline(real, name):
    def fun(*args, **kwargs):
        if WORLD is not None:
            return getattr(WORLD, name)(*args, **kwargs)
        return real(*args, **kwargs)
    fun.__name__ = name
    return fun


def install():
    """
    Install the seams before the code under test is imported: they are inactive
    until WORLD is set.
    """
    import atexit
    import multiprocessing as mp
    import sys
    import time

    import matplotlib
    import matplotlib.ticker  # noqa

    if getattr(mp, '_dst', False):
        return
    mp._dst = True
    time.sleep = _trampoline(time.sleep, 'sleep')
    mp.get_context = _trampoline(mp.get_context, 'get_context')
    mp.Pipe = _trampoline(mp.Pipe, 'Pipe')
    real_reg, real_unreg = atexit.register, atexit.unregister

    def register(fun, *args, **kwargs):
        if WORLD is not None:
            WORLD.atexit.append((fun, args, kwargs))
            return fun
        return real_reg(fun, *args, **kwargs)

    def unregister(fun):
        if WORLD is not None:
            WORLD.atexit[:] = [ii for ii in WORLD.atexit if ii[0] != fun]
        else:
            real_unreg(fun)

    atexit.register, atexit.unregister = register, unregister
    plt = Pyplot()
    sys.modules['matplotlib.pyplot'] = plt
    matplotlib.pyplot = plt
