"""
Simulated homogenization sessions: real HomogenizationApp, engine and mini
applications over a simulated process pool and manager.
"""
import os
import random
import sys

import numpy as nm

from dst import core
from dst.core import HarnessError
from dst.sched import Sched, SimKilled
from dst.simpool import World, SimPool, SimManager, WorkerDeath

HERE = os.path.dirname(os.path.abspath(__file__))


def import_multiproc():
    """
    Import the engine without starting a real manager process.
    """
    import multiprocessing as mp

    class NoManager(object):
        def dict(self):
            return {}

    real = mp.Manager
    mp.Manager = NoManager
    try:
        import sfepy.homogenization.multiproc as multiproc
    finally:
        mp.Manager = real
    return multiproc


def setup():
    from dst import problems as P
    P.quiet()
    import_multiproc()
    import sfepy.homogenization.micmac  # noqa
    import sfepy.examples.homogenization.nonlinear_homogenization  # noqa
    from dst import micro_lib  # noqa


class SimFault(Exception):
    """Injected failure of a computation."""


class Unpicklable(Exception):
    def __init__(self, msg):
        Exception.__init__(self, msg)
        self.fun = lambda: None


class Session(object):
    """
    One session (main process) with simulated workers, or a sequential one.
    """

    def __init__(self, ctx, spec, multi, scratch):
        import sfepy.discrete.fem.periodic as per
        import sfepy.discrete.fem.mesh as msh
        import sfepy.homogenization.multiproc as multiproc
        from dst import micro_lib
        self.ctx, self.spec, self.multi = ctx, spec, multi
        self.scratch = scratch
        self.lib = micro_lib
        self.multiproc = multiproc
        per.periodic_cache.clear()
        per.eps = msh.eps = 1e-9
        self.calls = []
        self.n_hook = 0
        self.fault = None
        self.fault_fired = False
        self.patched = []
        if multi:
            rng = random.Random('sched/%s' % spec['sched_seed'])
            self.lat = random.Random('lat/%s' % spec['sched_seed'])
            self.sched = Sched(rng, ctx)
            self.sched.stickiness = spec.get('stick', 0.0)
            if spec.get('slow_parent'):
                self.sched.weights['main'] = 0.1
            self.world = World(self.sched, ctx)
            man = SimManager(self.world)
            self._patch(multiproc, 'multiproc_manager', man)
            self._patch(multiproc, 'multiproc_dict', man.dict())
            self._patch(multiproc, 'use_multiprocessing', True)
            self._patch(multiproc, 'active_workers', {'pool': None})
            self._patch(multiproc, 'ProcessPoolExecutor',
                        lambda max_workers=None, **kw:
                        SimPool(self.world, max_workers, **kw))
            self._patch(multiproc, 'current_process', self._current_process)
            self._patch(multiproc, 'cpu_count',
                        lambda: spec.get('cpus', 4))
        micro_lib.HOOK[0] = self.hook

    def _patch(self, mod, name, val):
        self.patched.append((mod, name, getattr(mod, name, None),
                             hasattr(mod, name)))
        setattr(mod, name, val)

    def _current_process(self):
        class Proc(object):
            name = self.world.proc_name()
        return Proc()

    def hook(self, name, im):
        name = name.split('|ch:')[0]
        self.calls.append((name, im))
        num = self.n_hook
        self.n_hook += 1
        if self.multi and (self.sched.current is not self.sched.main):
            # Workers compute for various simulated times.
            self.sched.sleep(self.lat.choice([0.0, 0.1, 1.0, 10.0]))
        ff = self.fault
        if self.multi and (self.world.active.epoch != self.world.epoch):
            # A task left running by a failed call.
            return
        if (ff is not None) and not self.fault_fired and (num >= ff['at']):
            self.fault_fired = True
            self.ctx.fault('worker-' + ff['kind'])
            kind = ff['kind']
            if kind == 'die':
                raise WorkerDeath()
            if kind == 'unpicklable':
                raise Unpicklable('simulated failure in ' + name)
            if kind == 'memory':
                raise MemoryError('simulated failure in ' + name)
            if kind == 'interrupt':
                raise KeyboardInterrupt()
            if kind == 'exit':
                raise SystemExit(1)
            raise SimFault('simulated failure in ' + name)

    def close(self):
        self.lib.HOOK[0] = None
        if self.multi:
            self.sched.close()
            self.ctx.sim_time += self.sched.now
        for mod, name, val, had in reversed(self.patched):
            if had:
                setattr(mod, name, val)
            else:
                delattr(mod, name)
        import sfepy.discrete.fem.periodic as per
        import sfepy.discrete.fem.mesh as msh
        per.periodic_cache.clear()
        per.eps = msh.eps = 1e-9

    def make_app(self, ip):
        from sfepy.base.base import Struct
        from sfepy.homogenization.micmac import get_micro_conf
        from sfepy.homogenization.homogen_app import HomogenizationApp
        par = self.spec['problems'][ip]
        tag = ('multi' if self.multi else 'seq') + '-%d' % ip
        out = os.path.join(self.scratch, tag)
        os.makedirs(out, exist_ok=True)
        mesh = os.path.join(self.scratch, 'mesh%d.vtk' % ip)
        if not os.path.exists(mesh):
            self.lib.make_mesh(mesh, *par['mesh'])
        args = dict(par['conf'])
        args.update(mesh=mesh, output_dir=out, multi=self.multi,
                    max_workers=self.spec['max_workers'])
        conf = get_micro_conf(os.path.join(HERE, 'micro_conf.py'), args, out)
        options = Struct(output_filename_trunk=None)
        kw = {}
        if par.get('n_micro'):
            kw['n_micro'] = par['n_micro']
        return HomogenizationApp(conf, options, 'micro:', **kw)


def macro_data(op):
    md = op.get('macro')
    if md is None:
        return None
    return {key: nm.array(val, dtype=nm.float64) for key, val in md.items()}


def plain(val, path):
    """Reduce results to comparable plain data."""
    if hasattr(val, 'states') or (hasattr(val, 'state')
                                  and isinstance(val.state, dict)):
        return {str(kk): plain(vv, path) for kk, vv in val.iter_solutions()}
    if hasattr(val, 'to_dict') and not isinstance(val, dict):
        return {kk: plain(vv, path) for kk, vv in val.to_dict().items()}
    if isinstance(val, dict):
        return {str(kk): plain(vv, path) for kk, vv in val.items()}
    if isinstance(val, (list, tuple)):
        return [plain(vv, path) for vv in val]
    if isinstance(val, bytes):
        val = val.decode()
    if isinstance(val, str):
        # Directories differ.
        return os.path.basename(val)
    if val is None:
        return None
    return nm.array(val)


def compare(ctx, key, ref, val, path='', rtol=1e-8):
    """Compare reduced results."""
    if isinstance(ref, dict):
        ctx.check(isinstance(val, dict) and (sorted(ref) == sorted(val)),
                  key, lambda: '%s: %s expected, got %s'
                  % (path, sorted(ref), sorted(val)
                     if isinstance(val, dict) else type(val)))
        if not isinstance(val, dict):
            return
        for kk in ref:
            if kk in val:
                compare(ctx, key, ref[kk], val[kk], path + '/' + kk, rtol)
    elif isinstance(ref, list):
        ctx.check(isinstance(val, list) and (len(ref) == len(val)),
                  key, lambda: '%s: a list of %d items expected, got %s'
                  % (path, len(ref), len(val) if isinstance(val, list)
                     else type(val)))
        if not isinstance(val, list):
            return
        for ii, (rr, vv) in enumerate(zip(ref, val)):
            compare(ctx, key, rr, vv, path + '/%d' % ii, rtol)
    elif isinstance(ref, nm.ndarray) and (ref.dtype.kind in 'fiub'):
        ok = isinstance(val, nm.ndarray) and (ref.shape == val.shape)
        if ok:
            scale = max(1e-12, float(nm.abs(ref).max())
                        if ref.size else 1.0)
            ok = bool(nm.all(nm.abs(ref - val) <= rtol * scale))
        ctx.check(ok, key, lambda: '%s:\n%s\nexpected, got\n%s'
                  % (path, ref, val))
    else:
        ctx.check(str(ref) == str(val), key,
                  lambda: '%s: %s expected, got %s' % (path, ref, val))


def list_files(top):
    out = []
    for root, _, files in os.walk(top):
        for ff in files:
            out.append(os.path.relpath(os.path.join(root, ff), top))
    return sorted(out)


def gen_dag(rng, real, n_req, n_coef):
    """Random dependency graph on top of the real requirements."""
    reqs, coefs = [], []
    names = list(real)
    cnames = []
    for ii in range(n_req):
        k = rng.randint(0, min(3, len(names)))
        deps = rng.sample(names, k)
        name = rng.choice(['r%d', 'corrs_s%d', 'a_%d']) % ii
        reqs.append([name, deps, rng.randrange(1000)])
        names.append(name)
    for ii in range(n_coef):
        pool = names + ['c.' + cc for cc in cnames]
        k = rng.randint(0, min(3, len(pool)))
        deps = rng.sample(pool, k)
        if deps and rng.random() < 0.1: # The same requirement twice.
            deps.insert(rng.randrange(len(deps)), rng.choice(deps))
        name = rng.choice(['C%d', 'B_%d']) % ii
        coefs.append([name, deps, rng.randrange(1000)])
        cnames.append(name)
    rng.shuffle(reqs)
    rng.shuffle(coefs)
    return reqs, coefs


def gen_linear(rng, micro=False):
    nx, ny = rng.choice([(3, 3), (4, 3), (4, 4), (3, 3)])
    diff = rng.random() < 0.4
    macro = (not micro) and rng.random() < 0.3
    real = ['pis', 'corrs_rs'] + (['pisp', 'corrs_p'] if diff else [])
    reqs, coefs = gen_dag(rng, real, rng.randint(0, 5), rng.randint(0, 4))
    conf = {
        'kind': 'linear', 'synth_reqs': reqs, 'synth_coefs': coefs,
        'diff': diff, 'macro': macro,
        'chunk_size': rng.choice([None, 0, 1, 2, 3]) if micro else None,
        'filenames': rng.random() < 0.3,
        'save_names': rng.random() < 0.5,
        'micro': micro, 'use_recovery': rng.random() < 0.4,
    }
    mesh = [nx, ny, rng.choice([None, 1, 2, 3]), False, 0.0,
            rng.choice([1.0, 1.0, 1.5])]
    if rng.random() < 0.15:
        conf['mesh_eps'] = 1e-3
        mesh[4] = 1e-4
    par = {'mesh': mesh, 'conf': conf}
    if rng.random() < 0.3 and coefs:
        conf['compute_only'] = sorted(
            rng.sample(['D'] + [cc[0] for cc in coefs],
                       rng.randint(1, len(coefs))))
    if micro:
        par['n_micro'] = rng.randint(1, 5)
        if rng.random() < 0.25: # Many chunks.
            par['n_micro'] = rng.randint(11, 13)
            conf['chunk_size'] = rng.choice([1, 1, 2])
        conf['store'] = sorted(rng.sample(range(par['n_micro']),
                                          rng.randint(0, par['n_micro'])))
    return par


def gen_nonlinear(rng):
    n_micro = rng.randint(1, 4)
    chunk_size = rng.choice([None, 0, 1, 2, 3])
    if rng.random() < 0.1: # Many chunks.
        n_micro, chunk_size = rng.randint(11, 12), 1
    conf = {
        'kind': 'nonlinear', 'chunk_size': chunk_size,
        'store': sorted(rng.sample(range(n_micro), rng.randint(0, n_micro))),
        'save_names': rng.random() < 0.5,
        'mode': rng.choice(['corr', 'corr', 'fun']),
        'prev': rng.random() < 0.3,
    }
    return {'mesh': [rng.choice([3, 4]), 3, rng.choice([None, 1, 2]),
                     False, 0.0, rng.choice([1.0, 1.5])],
            'conf': conf, 'n_micro': n_micro}


def gen_macro(rng, par, first=False):
    out = {}
    amp = 0.0 if first else 0.05
    if par.get('n_micro'):
        out['mtx_e'] = [[[round(rng.uniform(-amp, amp), 4)
                          for _ in range(2)] for _ in range(2)]
                        for _ in range(par['n_micro'])]
    if par['conf'].get('macro'):
        out['load'] = [round(rng.uniform(0, 1), 4) for _ in range(2)]
    return out or None
