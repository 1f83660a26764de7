"""
C19: the same work in different process environments.
"""
import atexit
import copy
import hashlib

import numpy as nm

from dst import core
from dst import envsim
from dst import envwork


class Diff(Exception):
    pass


def diff(ref, val, path=''):
    """
    Raise Diff unless the observations are the same, numbers within a
    tolerance. The order of dictionary items does not matter.
    """
    if isinstance(ref, dict):
        if not isinstance(val, dict) or (sorted(map(str, ref))
                                         != sorted(map(str, val))):
            raise Diff(path, 'items %s' % sorted(map(str, ref)),
                       'items %s' % (sorted(map(str, val))
                                     if isinstance(val, dict) else val))
        for key in sorted(ref, key=str):
            diff(ref[key], val[key], path + '/' + str(key))
    elif isinstance(ref, (list, tuple)):
        if not isinstance(val, (list, tuple)) or (len(ref) != len(val)):
            raise Diff(path, str(ref)[:500], str(val)[:500])
        for ii, (r1, v1) in enumerate(zip(ref, val)):
            try:
                diff(r1, v1, path + '[%d]' % ii)
            except Diff as exc:
                if isinstance(r1, str):
                    raise Diff(path, str(ref)[:600], str(val)[:600])
                raise exc
    elif isinstance(ref, (nm.ndarray, float, nm.floating)):
        ref, val = nm.asarray(ref), nm.asarray(val)
        if (ref.shape != val.shape) or (ref.dtype != val.dtype):
            raise Diff(path, 'shape %s, %s' % (ref.shape, ref.dtype),
                       'shape %s, %s' % (val.shape, val.dtype))
        if ref.dtype.kind in 'fc':
            scale = nm.abs(ref[nm.isfinite(ref)]).max() \
                if nm.isfinite(ref).any() else 1.0
            same = nm.allclose(ref, val, rtol=1e-7,
                               atol=1e-8 * max(1.0, scale), equal_nan=True)
        else:
            same = bool(nm.all(ref == val))
        if not same:
            raise Diff(path, str(ref)[:500], str(val)[:500])
    elif ref != val:
        raise Diff(path, str(ref)[:500], str(val)[:500])


SERVERS = {}


def get_server(hash_seed):
    if hash_seed not in SERVERS:
        if not SERVERS:
            atexit.register(close)
        SERVERS[hash_seed] = envsim.Server(hash_seed, hash_seed)
    return SERVERS[hash_seed]


def close():
    for server in SERVERS.values():
        server.close()
    SERVERS.clear()


class PROP(core.Property):
    id = 'C19'
    rule = ('seeded workloads (coupled stationary, transient, elastodynamic'
            ' and discontinuous Galerkin problems, homogenization, regions,'
            ' dependencies, tables) each run in 3 new processes of different'
            ' environments: seeds of string hashing, orders of directory'
            ' listings, memory layouts, clocks, random generators; all'
            ' observations and saved files are compared')
    real = ['Problem', 'Equations', 'Variables', 'boundary conditions',
            'time stepping', 'homogenization engine', 'mesh and results IO',
            'regions', 'dependencies']
    stub = ['directory listings (shuffled)', 'clocks (shifted)']
    assumptions = ['numbers are compared with a relative tolerance 1e-7']
    n_quick = 240
    n_thorough = 5000
    quick_budget = 200.0
    run_timeout = 300.0

    def setup(self):
        envsim.use_cache()
        envsim.Server(0, 0).close(wait=True)

    def gen(self, rng, tier, index):
        work = envwork.gen(rng)
        hashes = [0] + rng.sample(range(1, 5 if tier == 'quick' else 8), 2)
        envs = []
        for ii, hash_seed in enumerate(hashes):
            envs.append({'hash': hash_seed, 'dir': 'e%d' % ii,
                         'listing': rng.randrange(1, 1 << 30) if ii else 0,
                         'clock': round(rng.uniform(-1e8, 1e8), 3)
                         if ii else 0.0,
                         'rate': rng.choice([1.0, 0.0, 100.0]) if ii else 1.0,
                         'memory': rng.randrange(1 << 30) if ii else 0,
                         'random': rng.randrange(1 << 30),
                         'vars': rng.randint(1, 4000)})
        return {'work': work, 'envs': envs}

    def run(self, spec, ctx):
        kind = spec['work']['kind']
        outs = []
        for env in spec['envs']:
            get_server(env['hash'])
        for env in spec['envs']:
            get_server(env['hash']).send(env, spec['work'], ctx.scratch)
        for env in spec['envs']:
            out = get_server(env['hash']).recv()
            outs.append(out)
            ctx.choice_made('env', env['hash'], env['listing'],
                            env['memory'])
        if None in outs:
            close()
            raise core.HarnessError('environment server died')
        for out in outs:
            if 'harness' in out:
                raise core.HarnessError(out['harness'])
        ctx.probe(kind)
        ctx.fault('hash-seed', len(set(ee['hash'] for ee in spec['envs'])))
        ctx.fault('listing-order')
        ctx.fault('memory-layout')
        ctx.fault('clock-jump')
        for out in outs:
            ctx.check('died' not in out, 'process-died', lambda: '%s: %s'
                      % (kind, out))
        ref = outs[0]
        if 'exception' in ref:
            ctx.check(False, 'exception:' + ref['exception'],
                      ref['traceback'])
        for name, v1, v2 in ref.get('same', []):
            try:
                diff(v1, v2)
            except Diff as exc:
                ctx.check(False, 'not-same:' + name, str(exc))
        for env, out in zip(spec['envs'][1:], outs[1:]):
            ctx.check('exception' not in out, 'exception-in-environment',
                      lambda: '%s: %s: %s' % (kind, env,
                                              out.get('traceback')))
            try:
                diff(ref, out)
            except Diff as exc:
                path, r1, v1 = exc.args
                part = path.split('/')[1] if '/' in path else path
                ctx.check(False, 'differs:%s:%s'
                          % (kind, part.split('[')[0].split(' ')[0]),
                          '%s:\n%s\n  in %s, but\n%s\n  in %s'
                          % (path, r1, spec['envs'][0], v1, env))
            else:
                ctx.check(True, 'differs', '')
        ctx.event(kind, 
                  hashlib.sha256(repr(spec['work']).encode()).hexdigest(), sorted(map(str, ref)))

    def shrink(self, spec):
        if len(spec['envs']) > 2:
            for ii in (2, 1):
                cand = copy.deepcopy(spec)
                cand['envs'].pop(ii)
                yield cand
        for ii in range(1, len(spec['envs'])):
            for key in ('listing', 'memory', 'random', 'clock', 'hash'):
                if spec['envs'][ii][key] != spec['envs'][0][key]:
                    cand = copy.deepcopy(spec)
                    cand['envs'][ii][key] = spec['envs'][0][key]
                    if key != 'hash' or len(spec['envs']) == 2:
                        yield cand
