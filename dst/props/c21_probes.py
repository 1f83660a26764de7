"""
C21: probing and point evaluation of variables after any history of probing.
"""
import copy
import os

import numpy as nm

from dst import core
from dst import para as P


class Interrupt(Exception):
    pass


def gen_domain(rng):
    mesh = P.gen_mesh(rng)
    mesh['parts'] = 1
    fields = [{'region': 'all', 'order': rng.choice([1, 1, 2]),
               'nc': 1}]
    dim = len(mesh['shape'])
    for _ in range(rng.randint(0, 2)):
        fields.append({'region': rng.choice(['all', 'all', 'part']),
                       'order': rng.choice([1, 2]),
                       'nc': rng.choice([1, dim])})
    return {'mesh': mesh, 'fields': fields,
            'seeds': [rng.randrange(1 << 30) for _ in fields]}


def gen_probe(rng, dim):
    def point(lo=-0.1, hi=1.1):
        return [round(rng.uniform(lo, hi), 3) for _ in range(dim)]

    kind = rng.choice(['line', 'line', 'points', 'ray', 'circle'])
    par = {'kind': kind, 'n_point': rng.choice([None, 0, -3, 2, 5, 11]),
           'share': rng.random() < 0.4}
    if kind == 'line':
        par['p0'], par['p1'] = point(), point()
        if rng.random() < 0.3:
            par['p0'], par['p1'] = [0.0] * dim, [1.0] * dim
    elif kind == 'points':
        par['points'] = [point() for _ in range(rng.randint(2, 6))]
    elif kind == 'ray':
        par['p0'] = point(0.3, 0.7)
        par['dirvec'] = [rng.choice([-1.0, 0.5, 1.0]) for _ in range(dim)]
        par['n_point'] = rng.randint(2, 6)
        par['both'] = rng.random() < 0.5
    else:
        par['centre'] = point(0.3, 0.7)
        par['normal'] = [0.0, 0.0, 1.0] if dim == 2 \
            else rng.choice([[0.0, 0.0, 1.0], [1.0, 2.0, 1.0]])
        par['radius'] = round(rng.uniform(0.1, 0.5), 3)
    return par


def dist_fun(xx):
    return 0.05 * xx**1.5


class World(object):
    """
    A domain with fields and variables that are changed in time.
    """

    def __init__(self, par):
        self.par = par
        self.mesh = P.make_mesh(par['mesh'])
        self.coors0 = self.mesh.coors.copy()
        self.seeds = list(par['seeds'])
        self.moved = False
        self.setup()

    def setup(self, coors=None):
        from sfepy.discrete.fem import FEDomain
        from sfepy.discrete import FieldVariable
        self.domain = FEDomain('domain', self.mesh)
        self.regions = {
            'all': self.domain.create_region('Omega', 'all'),
            'part': self.domain.create_region('Part', 'cells by select_part',
                                              functions={
                                                  'select_part': SELECT()}),
        }
        self.fields, self.variables = [], []
        from sfepy.discrete import Field
        for ii, par in enumerate(self.par['fields']):
            field = Field.from_args('f%d' % ii, nm.float64, par['nc'],
                                    self.regions[par['region']],
                                    approx_order=par['order'])
            self.fields.append(field)
            self.variables.append(FieldVariable(
                'u%d' % ii, 'parameter', field,
                primary_var_name='(set-to-None)'))
            self.set_data(ii)

    def set_data(self, ii, seed=None):
        if seed is not None:
            self.seeds[ii] = seed
        field = self.fields[ii]
        rng = nm.random.RandomState(self.seeds[ii] % (1 << 31))
        if self.is_linear(ii):
            data = self.linear(ii, field.get_coor()).ravel()
        else:
            data = rng.uniform(-1.0, 1.0, field.n_nod * field.n_components)
        self.variables[ii].set_data(data)

    def is_linear(self, ii):
        return self.seeds[ii] % 2 == 0

    def linear_coefs(self, ii):
        rng = nm.random.RandomState((self.seeds[ii] + 1) % (1 << 31))
        nc = self.fields[ii].n_components
        dim = self.coors0.shape[1]
        return rng.uniform(-1.0, 1.0, (dim, nc)), rng.uniform(-1, 1, nc)

    def linear(self, ii, coors):
        mtx, off = self.linear_coefs(ii)
        return nm.dot(coors, mtx) + off

    def expected(self, ii, coors, mode):
        if mode == 'val':
            return self.linear(ii, coors)[..., None]
        grad = self.linear_coefs(ii)[0].T
        if mode == 'grad':
            out = grad
        elif mode == 'div':
            out = nm.array([[nm.trace(grad)]])
        else:
            sym = 0.5 * (grad + grad.T)
            dim = len(sym)
            idx = {1: [], 2: [(0, 1)], 3: [(0, 1), (0, 2), (1, 2)]}[dim]
            out = nm.array([sym[ir, ir] for ir in range(dim)]
                           + [2.0 * sym[pp] for pp in idx])[:, None]
        return nm.tile(out, (len(coors), 1, 1))

    def get_coors(self, seed):
        rng = nm.random.RandomState(seed % (1 << 31))
        cc = self.coors0
        dim = cc.shape[1]
        freq = rng.uniform(1.0, 3.0, (dim, dim))
        return cc + 0.08 * nm.sin(nm.dot(cc, freq)) \
            + 0.1 * rng.uniform(-1.0, 1.0, dim)

    def move(self, seed):
        from sfepy.discrete.fem.fields_base import set_mesh_coors
        self.moved = True
        set_mesh_coors(self.domain,
                       dict((ff.name, ff) for ff in self.fields),
                       self.get_coors(seed), update_fields=True)
        for ii in range(len(self.fields)):
            if self.is_linear(ii):
                self.set_data(ii)

    def fresh(self):
        """A new domain in the current state."""
        from sfepy.discrete.fem import Mesh
        new = World.__new__(World)
        new.par = self.par
        mesh = self.domain.mesh
        desc = mesh.descs[0]
        new.mesh = Mesh.from_data('mesh', mesh.coors.copy(), None,
                                  [mesh.get_conn(desc).copy()],
                                  [nm.zeros(mesh.n_el, dtype=nm.int32)],
                                  [desc])
        new.coors0 = self.coors0
        new.seeds = list(self.seeds)
        new.moved = self.moved
        new.setup()
        return new


def SELECT():
    from sfepy.discrete import Function

    def select(coors, domain=None):
        # Cells do not depend on coordinates, so that the regions of moved
        # meshes are the same.
        num = coors.shape[0]
        return nm.arange(num // 3, num, dtype=nm.uint32)
    return Function('select_part', select)


def make_probe(par, fresh=False, state=None):
    from sfepy.discrete.probes import (PointsProbe, LineProbe, RayProbe,
                                       CircleProbe)
    share = False if fresh else par['share']
    kind = par['kind']
    n_point = par['n_point']
    if kind == 'line':
        out = LineProbe(par['p0'], par['p1'], n_point, share_geometry=share)
    elif kind == 'points':
        out = PointsProbe(par['points'], share_geometry=share)
    elif kind == 'ray':
        out = RayProbe(par['p0'], par['dirvec'], dist_fun, n_point,
                       par['both'], share_geometry=share)
    else:
        out = CircleProbe(par['centre'], par['normal'], par['radius'],
                          n_point, share_geometry=share)
    if state is not None:
        if 'n_point' in state:
            out.set_n_point(state['n_point'])
        if 'options' in state:
            out.set_options(**state['options'])
    return out


class PROP(core.Property):
    id = 'C21'
    rule = ('seeded histories of 3-14 operations: probing of variables of'
            ' different fields and meshes by lines, rays, circles and points,'
            ' evaluations in points with user caches, changed data, moved'
            ' meshes, changed options, interrupted probing; every result is'
            ' compared with a new probe on a new domain, and with the values of'
            ' linear functions')
    real = ['probes', 'Field.evaluate_at', 'get_evaluate_cache',
            'global_interp', 'crefcoors', 'FE fields', 'CMesh']
    stub = []
    assumptions = ['probes sharing geometry are used on one domain that does'
                   ' not move', 'a cache of a user is filled by'
                   ' get_evaluate_cache() before each evaluation']
    n_quick = 900
    n_thorough = 20000
    quick_budget = 120.0
    run_timeout = 60.0

    def setup(self):
        from dst.problems import quiet
        quiet()
        import sfepy.discrete.probes
        self.mod = sfepy.discrete.probes
        import sfepy.discrete.fem

    def gen(self, rng, tier, index):
        dim = rng.choice([2, 2, 3])
        domains = []
        while len(domains) < 2:
            dom = gen_domain(rng)
            if len(dom['mesh']['shape']) == dim:
                domains.append(dom)
        probes = [gen_probe(rng, dim) for _ in range(rng.randint(1, 3))]
        share_dom = rng.randrange(2)
        move_dom = 1 - share_dom
        ops = []
        for _ in range(rng.randint(3, 14)):
            kind = rng.choice(['probe'] * 8 + ['move'] * 2 + ['data'] * 2
                              + ['n_point', 'options', 'fail', 'write']
                              + ['evaluate'] * 3)
            op = {'op': kind}
            if kind in ('probe', 'fail', 'n_point', 'options', 'write'):
                op['probe'] = ip = rng.randrange(len(probes))
                op['dom'] = share_dom if probes[ip]['share'] \
                    else rng.randrange(2)
                ok = [ii for ii, ff in enumerate(domains[op['dom']]['fields'])
                      if (ff['region'] == 'all') or not probes[ip]['share']]
                op['field'] = rng.choice(ok)
                op['mode'] = rng.choice(['val', 'val', 'grad'])
                op['ret'] = rng.random() < 0.5
                if kind == 'fail':
                    op['at'] = rng.randint(0, 2)
                    op['when'] = rng.choice(['before', 'after'])
                elif kind == 'n_point':
                    op['n'] = rng.choice([None, -4, 3, 7, 12])
                elif kind == 'options':
                    op['options'] = rng.choice([
                        {'close_limit': 0.0}, {'close_limit': 0.5},
                        {'close_limit': 0.01},
                        {'size_hint': 0.15}, {'size_hint': 0.4},
                        {'size_hint': 0.3, 'close_limit': 0.2}])
            elif kind == 'move':
                op['dom'] = move_dom
                op['seed'] = rng.randrange(1 << 30)
            elif kind == 'data':
                op['dom'] = rng.randrange(2)
                op['field'] = rng.randrange(
                    len(domains[op['dom']]['fields']))
                op['seed'] = rng.randrange(1 << 30)
            else:
                op['share'] = rng.random() < 0.4
                op['cache'] = rng.choice([None, 0, 0, 1])
                op['dom'] = share_dom if op['share'] else rng.randrange(2)
                ok = [ii for ii, ff in enumerate(domains[op['dom']]['fields'])
                      if (ff['region'] == 'all') or not op['share']]
                op['field'] = rng.choice(ok)
                nc = domains[op['dom']]['fields'][op['field']]['nc']
                modes = ['val', 'grad'] + (['div', 'cauchy_strain']
                                           if nc == dim else [])
                op['mode'] = rng.choice(modes)
                op['strategy'] = rng.choice(['general', 'general', 'convex'])
                op['close_limit'] = rng.choice([0.0, 0.1, 0.4])
                op['points'] = [[round(rng.uniform(-0.1, 1.1), 3)
                                 for _ in range(dim)]
                                for _ in range(rng.randint(1, 5))]
                op['ret_status'] = rng.random() < 0.3
            ops.append(op)
        return {'domains': domains, 'probes': probes, 'ops': ops}

    def run(self, spec, ctx):
        from sfepy.base.base import Struct
        # A new process.
        self.mod.Probe.cache = Struct(name='probe_shared_evaluate_cache')
        worlds = [World(par) for par in spec['domains']]
        probes = [make_probe(par) for par in spec['probes']]
        states = [{} for _ in probes]
        caches = {}
        for io, op in enumerate(spec['ops']):
            kind = op['op']
            world = worlds[op['dom']]
            what = 'op %d (%s)' % (io, kind)
            if kind == 'move':
                world.move(op['seed'])
                ctx.probe('moves')
            elif kind == 'data':
                world.set_data(op['field'], op['seed'])
            elif kind == 'n_point':
                if spec['probes'][op['probe']]['kind'] in ('line', 'circle'):
                    probes[op['probe']].set_n_point(op['n'])
                    states[op['probe']]['n_point'] = op['n']
            elif kind == 'options':
                probes[op['probe']].set_options(**op['options'])
                states[op['probe']].setdefault('options', {}).update(
                    op['options'])
            elif kind == 'fail':
                self.interrupted(ctx, op, probes[op['probe']], world)
            elif kind in ('probe', 'write'):
                self.probe(ctx, spec, op, what, probes[op['probe']],
                           states[op['probe']], world)
            else:
                self.evaluate(ctx, op, what, world, caches)

    def interrupted(self, ctx, op, probe, world):
        var = world.variables[op['field']]
        orig = var.evaluate_at
        count = [0]

        def evaluate_at(*args, **kwargs):
            now = count[0] == op['at']
            count[0] += 1
            if now and (op['when'] == 'before'):
                raise Interrupt()
            out = orig(*args, **kwargs)
            if now:
                raise Interrupt()
            return out

        var.evaluate_at = evaluate_at
        try:
            probe(var, mode=op['mode'])
        except Interrupt:
            ctx.fault('interrupted-probing')
        finally:
            del var.evaluate_at

    @staticmethod
    def same(ctx, key, got, expected, what):
        got, expected = nm.asarray(got), nm.asarray(expected)
        ok = (got.shape == expected.shape) \
            and nm.allclose(got, expected, rtol=1e-9, atol=1e-9,
                            equal_nan=True)
        ctx.check(ok, key, lambda: '%s: %s, expected %s'
                  % (what, got.ravel()[:12], expected.ravel()[:12])
                  if got.shape == expected.shape
                  else '%s: shape %s, expected %s'
                  % (what, got.shape, expected.shape))

    def linear(self, ctx, op, what, world, points, vals, status):
        """Linear functions are represented by the fields exactly."""
        if not world.is_linear(op['field']):
            return
        vals = nm.asarray(vals)
        expected = world.expected(op['field'], nm.asarray(points), op['mode'])
        vals = vals.reshape(expected.shape)
        ii = status <= 1
        if (not world.moved) and (world.par['fields'][op['field']]['region']
                                  == 'all'):
            points = nm.asarray(points)
            ii |= ((points >= 0.0) & (points <= 1.0)).all(axis=1)
        err = nm.abs(vals[ii] - expected[ii])
        ctx.check((err < 1e-6).all(), 'wrong-values',
                  lambda: '%s: %s of the linear function: error %g'
                  % (what, op['mode'], err.max()))
        ctx.probe('linear-functions')

    def check_points(self, ctx, par, what, state, world, pars, points):
        """The points of an adaptive probe are as close as documented."""
        if par['kind'] not in ('line', 'circle'):
            return
        num = state.get('n_point', par['n_point'])
        pars, points = nm.asarray(pars), nm.asarray(points)
        ctx.check((nm.diff(pars) > 0.0).all(), 'pars-order',
                  lambda: '%s: %s' % (what, pars))
        if par['kind'] == 'line':
            self.same(ctx, 'line-ends', points[[0, -1]],
                      [par['p0'], par['p1']], what)
            vec = nm.asarray(par['p1'], dtype=float) - par['p0']
            dist = nm.dot(points - par['p0'], vec) / nm.dot(vec, vec)
            self.same(ctx, 'line-points', points,
                      par['p0'] + dist[:, None] * vec, what)
        else:
            self.same(ctx, 'circle-points', nm.linalg.norm(
                points - nm.asarray(par['centre']), axis=1),
                nm.full(len(points), float(par['radius'])), what)
        if num is not None and num > 0:
            ctx.check(len(pars) == max(num, 2), 'n-point', lambda:
                      '%s: %d points, required %s' % (what, len(pars), num))
            return
        if par['kind'] == 'circle':
            points = nm.r_[points, points[:1]]
        step = nm.linalg.norm(nm.diff(points, axis=0), axis=1).max()
        limit = state.get('options', {}).get('size_hint')
        if limit is None:
            mesh = world.domain.mesh
            cells = mesh.coors[mesh.get_conn(mesh.descs[0])]
            limit = max(nm.linalg.norm(nm.ptp(cc, axis=0))
                        for cc in cells)
        ctx.check(step <= limit * (1.0 + 1e-12), 'adaptive-points', lambda:
                  '%s: distance of points %g, limit %g' % (what, step, limit))
        ctx.probe('adaptive')

    def probe(self, ctx, spec, op, what, probe, state, world):
        par = spec['probes'][op['probe']]
        out = probe(world.variables[op['field']], mode=op['mode'],
                    ret_points=op['ret'])
        new = world.fresh()
        fresh = make_probe(par, True, state)
        ref = fresh(new.variables[op['field']], mode=op['mode'],
                    ret_points=op['ret'])
        names = ['pars', 'points', 'vals'] if op['ret'] else ['pars', 'vals']
        for name, got, expected in zip(names, out, ref):
            self.same(ctx, '%s-differ' % name, got, expected, what)
        if op['ret']:
            self.check_points(ctx, par, what, state, world, out[0], out[1])
            limit = state.get('options', {}).get('close_limit', 0.1)
            status = new.variables[op['field']].evaluate_at(
                ref[1], close_limit=limit, ret_status=True)[2]
            self.linear(ctx, op, what, world, out[1], out[2], status)
        ctx.check(probe.report() == fresh.report(), 'report-differs',
                  lambda: '%s: %s, expected %s' % (what, probe.report(),
                                                   fresh.report()))
        ctx.event(what, par['kind'], len(out[0]),
                  '%.9e' % nm.nansum(out[-1]))
        ctx.probe(par['kind'])
        ctx.probe('shared' if par['share'] else 'not-shared')
        if op['op'] == 'write':
            path = os.path.join(ctx.scratch, 'results.txt')
            pars, vals = out[0], out[-1]
            res = {'u_a': (pars, vals), 'b': (pars, 2.0 * vals)}
            self.mod.write_results(path, probe, res)
            header, got = self.mod.read_results(path)
            ctx.check(header.probe_class == type(probe).__name__,
                      'read-class', header.probe_class)
            ctx.check(header.n_point == len(pars), 'read-n-point',
                      lambda: '%s: %d points, %d written'
                      % (what, header.n_point, len(pars)))
            ctx.check(sorted(got) == sorted(res), 'read-names',
                      lambda: '%s: %s' % (what, sorted(got)))
            for key, (p1, v1) in res.items():
                self.same(ctx, 'read-values', got[key],
                          nm.c_[p1, v1.reshape((len(p1), -1))], what)
            ctx.probe('results-files')

    def evaluate(self, ctx, op, what, world, caches):
        def call(ww, cache):
            var = ww.variables[op['field']]
            return var.evaluate_at(
                nm.array(op['points'], dtype=nm.float64), mode=op['mode'],
                strategy=op['strategy'], close_limit=op['close_limit'],
                cache=cache, ret_status=op['ret_status'])

        cache = None
        if op['cache'] is not None:
            key = (op['cache'], op['share'])
            cache = world.fields[op['field']].get_evaluate_cache(
                cache=caches.get(key), share_geometry=op['share'])
            caches[key] = cache
        out = call(world, cache)
        ref = call(world.fresh(), None)
        if not op['ret_status']:
            out, ref = (out,), (ref,)
        for name, got, expected in zip(['vals', 'cells', 'status'], out, ref):
            self.same(ctx, 'evaluated-%s-differ' % name, got, expected, what)
        status = out[2] if op['ret_status'] \
            else 2 * nm.isnan(out[0]).any(axis=(1, 2))
        self.linear(ctx, op, what, world, op['points'], out[0], status)
        ctx.event(what, '%.9e' % nm.nansum(out[0]))
        ctx.probe('evaluate')

    def shrink(self, spec):
        yield from core.Property.shrink(self, spec)
        for ii, dom in enumerate(spec['domains']):
            for par in P.shrink_mesh(dom['mesh']):
                cand = copy.deepcopy(spec)
                cand['domains'][ii]['mesh'] = par
                yield cand
