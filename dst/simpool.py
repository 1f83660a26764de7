"""
Simulated multi-process pool and manager for the homogenization engine.

Arguments, results and values of shared dictionaries are pickled, as they are
with the real process pool and manager; worker processes have their own copies
of the module state listed in ProcState.
"""
import io
import pickle
from concurrent.futures import Executor, Future
from concurrent.futures.process import BrokenProcessPool

from .sched import SimKilled


class ProcState(object):
    """Module state private to a process."""

    def __init__(self, name):
        self.name = name
        self.cache = {}
        self.eps = None
        self.prefix = None
        self.epoch = None


class World(object):
    """All simulated processes of one session."""

    def __init__(self, sched, ctx, faults=()):
        import sfepy.discrete.fem.periodic as per
        import sfepy.discrete.fem.mesh as msh
        from sfepy.base.base import output
        self.per, self.msh, self.output = per, msh, output
        self.sched = sched
        self.ctx = ctx
        self.dicts = []
        self.pools = []
        self.n_proc = 0
        self.faults = [dict(ff) for ff in faults]
        self.main_proc = ProcState('MainProcess')
        self.active = self.main_proc
        self.default_eps = (1e-9, 1e-9)
        sched.main.proc = self.main_proc
        sched.on_switch = self.on_switch
        self.n_access = 0
        self.epoch = 0
        self.fault_hook = None

    def on_switch(self, prev, task):
        new = task.proc or self.main_proc
        if new is self.active:
            return
        cur = self.active
        cur.cache = dict(self.per.periodic_cache)
        cur.eps = (self.per.eps, self.msh.eps)
        cur.prefix = self.output.prefix
        self.per.periodic_cache.clear()
        self.per.periodic_cache.update(new.cache)
        eps = new.eps or self.default_eps
        self.per.eps, self.msh.eps = eps
        self.output.prefix = new.prefix or self.output.prefix
        self.active = new

    def proc_name(self):
        return self.active.name

    # -- pickling --------------------------------------------------------
    def dumps(self, obj):
        buf = io.BytesIO()
        world = self

        class Pickler(pickle.Pickler):
            def persistent_id(self, obj):
                if isinstance(obj, SimDict):
                    return obj.idx

        Pickler(buf).dump(obj)
        return buf.getvalue()

    def loads(self, data):
        world = self

        class Unpickler(pickle.Unpickler):
            def persistent_load(self, pid):
                return world.dicts[pid]

        return Unpickler(io.BytesIO(data)).load()

    def dict(self, *args, **kwargs):
        return SimDict(self, dict(*args, **kwargs))

    def access(self, what):
        self.n_access += 1
        self.sched.yield_(what)
        if self.fault_hook is not None:
            self.fault_hook(what)


class SimDict(object):
    """A manager dictionary: values are copied, each call is atomic."""

    def __init__(self, world, data):
        self._world = world
        self.idx = len(world.dicts)
        world.dicts.append(self)
        self._data = {kk: world.dumps(vv) for kk, vv in data.items()}

    def _get(self, val):
        return self._world.loads(val)

    def __contains__(self, key):
        self._world.access('in')
        return key in self._data

    def __getitem__(self, key):
        self._world.access('get')
        return self._get(self._data[key])

    def __setitem__(self, key, val):
        val = self._world.dumps(val)
        self._world.access('set')
        self._data[self._world.loads(self._world.dumps(key))] = val

    def __delitem__(self, key):
        self._world.access('del')
        del self._data[key]

    def __len__(self):
        self._world.access('len')
        return len(self._data)

    def __iter__(self):
        return iter(self.keys())

    def keys(self):
        self._world.access('keys')
        return self._world.loads(self._world.dumps(list(self._data)))

    def values(self):
        self._world.access('values')
        return [self._get(vv) for vv in self._data.values()]

    def items(self):
        self._world.access('items')
        return [(kk, self._get(vv)) for kk, vv in self._data.items()]

    def get(self, key, default=None):
        self._world.access('get')
        if key in self._data:
            return self._get(self._data[key])
        return default

    def setdefault(self, key, default=None):
        val = self._world.dumps(default)
        self._world.access('setdefault')
        return self._get(self._data.setdefault(key, val))

    def update(self, *args, **kwargs):
        new = {kk: self._world.dumps(vv)
               for kk, vv in dict(*args, **kwargs).items()}
        self._world.access('update')
        self._data.update(new)

    def pop(self, key, *args):
        self._world.access('pop')
        if key in self._data or not args:
            return self._get(self._data.pop(key))
        return args[0]

    def clear(self):
        self._world.access('clear')
        self._data.clear()

    def copy(self):
        self._world.access('copy')
        return {kk: self._get(vv) for kk, vv in self._data.items()}


class SimManager(object):
    def __init__(self, world):
        self._world = world

    def dict(self, *args, **kwargs):
        return self._world.dict(*args, **kwargs)

    def shutdown(self):
        pass


class SimFuture(Future):
    _sim = None

    def result(self, timeout=None):
        self._sim.wait(self)
        return Future.result(self, 0)

    def exception(self, timeout=None):
        self._sim.wait(self)
        return Future.exception(self, 0)


class SimPool(Executor):
    """ProcessPoolExecutor over simulated worker processes."""

    def __init__(self, world, max_workers=None, **kwargs):
        self.world = world
        self.n = max_workers or 4
        self.queue = []
        self.running = {}
        self.broken = False
        self.closed = False
        self.tasks = []
        world.pools.append(self)
        self.procs = []
        for ii in range(self.n):
            world.n_proc += 1
            proc = ProcState('SpawnProcess-%d' % world.n_proc)
            self.procs.append(proc)
            self.tasks.append(world.sched.spawn(
                lambda proc=proc: self._worker(proc), 'w:%d' % world.n_proc,
                proc))

    def _worker(self, proc):
        sched, world = self.world.sched, self.world
        while 1:
            sched.block(lambda: self.queue or self.closed)
            if self.closed and not self.queue:
                return
            fut, data = self.queue.pop(0)
            if not fut.set_running_or_notify_cancel():
                continue
            self.running[proc.name] = fut
            proc.epoch = fut._epoch
            fn, args, kwargs = world.loads(data)
            world.ctx.event('start', proc.name, args[0])
            try:
                out = fn(*args, **kwargs)
                blob = world.dumps(out)
                exc = None
            except SimKilled:
                raise
            except WorkerDeath:
                self._die(proc)
                return
            except BaseException as err:
                exc = err
            world.ctx.event('finish', proc.name, args[0], exc is None)
            self.running.pop(proc.name, None)
            if exc is None:
                fut.set_result(world.loads(blob))
            else:
                try:
                    exc = world.loads(world.dumps(exc))
                except Exception as err:
                    exc = err
                fut.set_exception(exc)

    def _die(self, proc):
        """Any dead worker breaks the whole pool, as in CPython."""
        self.broken = True
        err = BrokenProcessPool('A process in the process pool was terminated'
                                ' abruptly while the future was running or'
                                ' pending.')
        for fut in list(self.running.values()):
            fut.set_exception(err)
        self.running.clear()
        for fut, _ in self.queue:
            if fut.set_running_or_notify_cancel():
                fut.set_exception(err)
        self.queue = []
        for task in self.tasks:
            if task.proc is not proc:
                self.world.sched.kill(task)

    def submit(self, fn, *args, **kwargs):
        if self.broken:
            raise BrokenProcessPool('A child process terminated abruptly, the'
                                    ' process pool is not usable anymore')
        if self.closed:
            raise RuntimeError('cannot schedule new futures after shutdown')
        fut = SimFuture()
        fut._sim = self
        fut._epoch = self.world.epoch
        self.queue.append((fut, self.world.dumps((fn, args, kwargs))))
        self.world.sched.yield_('submit')
        return fut

    def wait(self, fut):
        self.world.sched.block(lambda: fut.done())

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return Executor.map(self, fn, *iterables, timeout=timeout)

    def shutdown(self, wait=True, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for fut, _ in self.queue:
                fut.cancel()
            self.queue = []
        if wait and not self.broken:
            self.world.sched.block(
                lambda: all(tt.done for tt in self.tasks))


class WorkerDeath(BaseException):
    """Raised inside a task to simulate the death of its worker process."""
