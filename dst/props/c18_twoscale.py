"""
C18: two-scale computations keep the micro-states apart.

Seeded sessions with homogenization applications of several micro-states,
macroscopic problems sharing a micro-problem definition, cached linear
micro-problems and recoveries, with the sequential engine or the simulated
worker pool.  The references compute every micro-state, macroscopic problem
and operation alone.
"""
import copy
import os
import shutil

import numpy as nm

from dst import core
from dst import homog as H
from dst import simdisk as SD


def clear_caches():
    """What a new process would have."""
    from sfepy.homogenization import micmac, recovery
    for mod in (micmac, recovery):
        for key, val in list(vars(mod).items()):
            if not key.startswith('__') and not isinstance(val, type) \
                    and hasattr(val, 'clear') \
                    and hasattr(val, 'keys'):
                val.clear()


class MacroProblem(object):
    """The part of a macroscopic problem used by the interface."""

    def __init__(self, micro_filename):
        from sfepy.base.base import Struct
        self.conf = Struct(options=Struct(micro_filename=micro_filename))


def plain_out(out):
    return None if out is None else {str(kk): nm.array(vv)
                                     for kk, vv in out.items()}


class PROP(core.Property):
    id = 'C18'
    rule = ('seeded sessions: (a) histories of an application with 1-6'
            ' micro-states, compared with applications with one micro-state;'
            ' (b) interleaved nonlinear evaluations of 1-3 macroscopic'
            ' problems, compared with each problem alone; (c) evaluations'
            ' and recoveries with cached, saved or torn linear coefficients,'
            ' compared with new computations')
    real = ['HomogenizationApp', 'HomogenizationEngine', 'micmac', 'recovery',
            'mini applications', 'Problem', 'HDF5 files']
    stub = ['ProcessPoolExecutor and the multiprocessing manager (in some'
            ' sessions)', 'macroscopic problem object in (b)',
            'process crashes: simulated disk']
    needs_shim = True
    n_quick = 260
    n_thorough = 6000
    quick_budget = 200.0
    run_timeout = 120.0

    def setup(self):
        H.setup()
        import sfepy.homogenization.recovery  # noqa

    # Generation.

    def gen(self, rng, tier, index):
        kind = rng.choice(['points', 'points', 'macro', 'linear', 'linear'])
        spec = {'kind': kind, 'multi': rng.random() < 0.3,
                'max_workers': rng.choice([1, 2, 3]),
                'cpus': rng.choice([2, 4, 8]),
                'stick': rng.choice([0.0, 0.5, 0.9]),
                'sched_seed': rng.randrange(1 << 30)}
        getattr(self, 'gen_' + kind)(rng, spec)
        return spec

    def gen_micro(self, rng, n_micro):
        """A nonlinear micro-problem."""
        extra = []
        for ii in range(rng.choice([0, 0, 1, 2])):
            extra.append(['x%d' % ii, rng.choice([1, -1, 0.5]),
                          rng.random() < 0.4, rng.random() < 0.4])
        return {
            'kind': 'nonlinear',
            'chunk_size': rng.choice([None, 0, 1, 2, 3]),
            'store': sorted(rng.sample(range(n_micro),
                                       rng.randint(0, n_micro))),
            'save_names': rng.random() < 0.2,
            'mode': rng.choice(['corr', 'corr', 'fun']),
            'prev': rng.random() < 0.4, 'extra': extra,
            'soft': rng.choice([5, 10, 50]),
        }

    def gen_macro_data(self, rng, n_micro, conf, first):
        amp = 0.0 if first else 0.05
        md = {'mtx_e': [[[round(rng.uniform(-amp, amp), 4)
                          for _ in range(2)] for _ in range(2)]
                        for _ in range(n_micro)]}
        if any(ee[2] for ee in conf['extra']):
            md['shift'] = [round(rng.uniform(-1, 1), 4)
                           for _ in range(n_micro)]
        return md

    def gen_mesh(self, rng):
        return [rng.choice([3, 4]), 3, rng.choice([None, 1, 2]), False, 0.0,
                rng.choice([1.0, 1.5])]

    def gen_points(self, rng, spec):
        n_micro = rng.randint(1, 6)
        conf = self.gen_micro(rng, n_micro)
        spec.update(mesh=self.gen_mesh(rng), conf=conf, n_micro=n_micro,
                    ids=(rng.sample(range(100), n_micro)
                         if rng.random() < 0.4 else None))
        ops = []
        for ii in range(rng.randint(1, 5)):
            ops.append({'macro': self.gen_macro_data(rng, n_micro, conf,
                                                     ii == 0),
                        'itime': rng.choice([ii, ii, ii, None]),
                        'iiter': rng.choice([None, None, 0, 1])})
        spec['ops'] = ops

    def gen_macro(self, rng, spec):
        n_pb = rng.randint(1, 3)
        pbs = []
        for ii in range(n_pb):
            n_micro = rng.randint(1, 3)
            pbs.append({'n_micro': n_micro, 'conf': self.gen_micro(rng,
                                                                   n_micro),
                        'mesh': self.gen_mesh(rng), 'file': rng.choice(
                            [0, 0, 1])})
        if n_pb > 1 and rng.random() < 0.4:
            pbs[1] = copy.deepcopy(pbs[0])
        count = [0] * n_pb
        ops = []
        for _ in range(rng.randint(2, 7)):
            ip = rng.randrange(n_pb)
            if rng.random() < 0.1:
                ops.append({'op': 'region', 'pb': ip})
                continue
            ops.append({'op': 'call', 'pb': ip, 'step': count[ip],
                        'iiter': rng.choice([None, 0, 2]),
                        'corrs': rng.random() < 0.5,
                        'macro': self.gen_macro_data(
                            rng, pbs[ip]['n_micro'], pbs[ip]['conf'],
                            count[ip] == 0)})
            count[ip] += 1
        spec.update(pbs=pbs, ops=ops)

    def gen_linear(self, rng, spec):
        variants = []
        for ii in range(rng.randint(1, 3)):
            variants.append({
                'file': rng.choice([0, 0, 1]), 'mesh': self.gen_mesh(rng),
                'stiff': rng.choice([30.0, 70.0, 200.0]),
                'diff': rng.random() < 0.2,
                'recovery': rng.random() < 0.8,
                'none': False})
        ops = []
        for _ in range(rng.randint(2, 7)):
            iv = rng.randrange(len(variants))
            uu = rng.random()
            if uu < 0.45:
                ops.append({'op': 'coefs', 'v': iv,
                            'mode': rng.choice([None, 'qp', 'qp']),
                            'n': rng.randint(1, 4),
                            'regenerate': rng.random() < 0.3})
            elif uu < 0.6:
                ops.append({'op': 'new'})
            elif uu < 0.68:
                ops.append({'op': 'crash', 'v': iv, 'at': rng.random()})
            else:
                ops.append({
                    'op': 'recover', 'v': iv,
                    'region': rng.choice(['A', 'B', 'All', 'pts']),
                    'region_mode': rng.choice(['el_centers', 'el_centers',
                                               'tiled']),
                    'eval': rng.choice(['none', 'constant', 'continuous']),
                    'args': rng.random() < 0.5,
                    'eps0': rng.choice([0.25, 0.5]),
                    'scale': rng.choice([None, None, 2.0]),
                    'salt': rng.randrange(1000)})
        spec.update(variants=variants, ops=ops)

    # Running.

    def session(self, spec, ctx, multi):
        sspec = {'sched_seed': spec['sched_seed'], 'stick': spec['stick'],
                 'cpus': spec['cpus'], 'max_workers': spec['max_workers'],
                 'problems': []}
        clear_caches()
        return H.Session(ctx, sspec, multi, ctx.scratch)

    def define_args(self, spec, ctx, par, tag, multi):
        args = dict(par)
        out = os.path.join(ctx.scratch, tag)
        os.makedirs(out, exist_ok=True)
        mesh = args.pop('mesh')
        fn = os.path.join(ctx.scratch, 'mesh-%s.vtk'
                          % '-'.join(str(ii) for ii in mesh))
        if not os.path.exists(fn):
            from dst import micro_lib
            micro_lib.make_mesh(fn, *mesh)
        args.update(mesh=fn, output_dir=out, multi=multi,
                    max_workers=spec['max_workers'])
        return args, out

    def micro_file(self, ctx, ii):
        path = os.path.join(H.HERE, 'micro_conf.py')
        if ii:
            other = os.path.join(ctx.scratch, 'micro_conf_%d.py' % ii)
            if not os.path.exists(other):
                shutil.copy(path, other)
            path = other
        return path

    def run(self, spec, ctx):
        ctx.probe('kind ' + spec['kind'] + (' multi' if spec['multi']
                                            else ''))
        getattr(self, 'run_' + spec['kind'])(spec, ctx)

    # (a) Micro-states of one application.

    def macro_data(self, md, sel=slice(None)):
        out = {'mtx_e': nm.array(md['mtx_e'], dtype=nm.float64)[sel]}
        if 'shift' in md:
            out['shift'] = nm.array(md['shift'],
                                    dtype=nm.float64)[sel][:, None, None]
        return out

    def make_app(self, spec, ctx, tag, multi, n_micro, ids, conf):
        from sfepy.base.base import Struct
        from sfepy.homogenization.micmac import get_micro_conf
        from sfepy.homogenization.homogen_app import HomogenizationApp
        args, out = self.define_args(spec, ctx, dict(conf, mesh=spec['mesh']),
                                     tag, multi)
        pconf = get_micro_conf(self.micro_file(ctx, 0), args, out)
        kw = {'n_micro': n_micro}
        if ids is not None:
            kw['mac_ids'] = ids
        return HomogenizationApp(pconf, Struct(output_filename_trunk=None),
                                 'micro:', **kw)

    def history(self, spec, ctx, tag, multi, sel):
        n_micro = spec['n_micro']
        idx = list(range(n_micro))[sel]
        ids = spec['ids']
        conf = dict(spec['conf'])
        conf['store'] = [ii for ii, im in enumerate(idx)
                         if im in spec['conf']['store']]
        sess = self.session(spec, ctx, multi)
        out = []
        last = (None, None)
        try:
            app = self.make_app(spec, ctx, tag, multi, len(idx),
                                None if ids is None
                                else [ids[ii] for ii in idx], conf)
            if ids is None and len(idx) < n_micro:
                # The default ids are the positions.
                app.micro_states['id'] = list(idx)
            for op in spec['ops']:
                app.setup_macro_data(self.macro_data(op['macro'], sel))
                coefs, deps = app(ret_all=True, itime=op['itime'],
                                  iiter=op['iiter'])
                states = {kk: None if vv is None else copy.deepcopy(vv)
                          for kk, vv in app.micro_states.items()}
                last = self.check_update(spec, ctx, tag, op, sel, last,
                                         states, deps)
                cdict = coefs.to_dict()
                res = []
                for ii in range(len(idx)):
                    res.append({
                        'coefs': {kk: H.plain(cdict[kk][ii], '')
                                  for kk in ('A', 'S', 'St')},
                        'corrs': H.plain(deps['corrs_rs'][ii], ''),
                        'states': {kk: None if vv is None
                                   else nm.array(vv[ii])
                                   for kk, vv in states.items()},
                    })
                out.append(res)
                ctx.event(tag, len(out))
            stored = {}
            for ii, im in enumerate(idx):
                if ii not in conf['store']:
                    continue
                for op in spec['ops']:
                    for key in app.micro_states:
                        ck = app.get_micro_cache_key(key, ii, op['itime'])
                        val = app.micro_state_cache.get(ck)
                        stored[(im, key, op['itime'])] = (
                            None if val is None else nm.array(val))
            files = H.list_files(os.path.join(ctx.scratch, tag))
        finally:
            sess.close()
        return out, stored, files

    def check_update(self, spec, ctx, tag, op, sel, last, states, deps):
        """The states follow from the states and correctors of the previous
        call and from the macroscopic data."""
        conf = spec['conf']
        old, corrs = last
        mtx_e = nm.array(op['macro']['mtx_e'])[sel]
        n_micro = len(mtx_e)
        where = '%s, call with time %s' % (tag[:3], op['itime'])
        if old is None:
            mesh = states['coors'] * 0.0
            old = {'coors': None}
            # The initial coordinates: those of the mesh.
            for ii in range(n_micro):
                mesh[ii] = nm.linalg.solve(nm.eye(2) + mtx_e[ii],
                                           states['coors'][ii].T).T
                H.compare(ctx, 'initial-coors', mesh[0], mesh[ii], where,
                          rtol=1e-7)
            old['coors'] = mesh
        disp = None
        if corrs is not None:
            disp = [sum(corr.states[jj]['u'] * mtx_e[ii][jj]
                        for jj in corr.components)
                    for ii, corr in enumerate(corrs)]
        exp = {}
        exp['coors'] = old['coors'] + nm.array(
            [nm.dot(old['coors'][ii], mtx_e[ii].T) for ii in range(n_micro)])
        if conf['mode'] == 'corr' and disp is not None:
            exp['coors'] = exp['coors'] + nm.array(
                [dd.reshape(exp['coors'].shape[1:]) for dd in disp])
        if conf['prev']:
            exp['coors_prev'] = old['coors']
        for name, mul, shift, prev2 in conf['extra']:
            val = old.get(name)
            if prev2:
                exp[name + '_prev'] = (val if val is not None
                                       else old.get(name + '_prev'))
            if disp is not None:
                new = nm.array([dd * mul for dd in disp])
                if val is not None:
                    new = new + val.reshape(new.shape)
                if shift:
                    sh = nm.array(op['macro']['shift'])[sel]
                    new = new + sh[:, None]
                val = new
            exp[name] = val
        for key, val in exp.items():
            now = states.get(key)
            if val is None or now is None:
                ctx.check((val is None) == (now is None), 'micro-update',
                          lambda: '%s: %s is%s set' % (
                              where, key, ' not' if now is None else ''))
                continue
            H.compare(ctx, 'micro-update', val.reshape(now.shape), now,
                      '%s: %s' % (where, key), rtol=1e-7)
        ctx.probe('state updates', n_micro)
        return ({kk: None if vv is None else nm.array(vv)
                 for kk, vv in states.items()},
                copy.deepcopy(deps['corrs_rs']))

    def run_points(self, spec, ctx):
        res, stored, files = self.history(spec, ctx, 'all', spec['multi'],
                                          slice(None))
        for ii in range(spec['n_micro']):
            ref, rstored, rfiles = self.history(spec, ctx, 'one%d' % ii,
                                                False, slice(ii, ii + 1))
            for io, op in enumerate(spec['ops']):
                for key in ('coefs', 'corrs', 'states'):
                    H.compare(ctx, 'micro-' + key, ref[io][0][key],
                              res[io][ii][key], 'point %d, call %d'
                              % (ii, io))
            for key in rstored:
                H.compare(ctx, 'stored-state', rstored[key], stored[key],
                          'point %d, %s, time %s' % key)
            # Stored states are those of the last call with the time.
            for (im, name, itime), val in stored.items():
                if im != ii:
                    continue
                io = [jj for jj, op in enumerate(spec['ops'])
                      if op['itime'] == itime][-1]
                H.compare(ctx, 'stored-state', ref[io][0]['states'][name],
                          val, 'point %d, %s, time %s' % (im, name, itime))
            if spec['conf']['save_names']:
                exp = [ff.replace('_0000', '_%04d' % ii) for ff in rfiles
                       if ff.startswith('corrs')]
                ctx.check(set(exp) <= set(files), 'saved-corrs',
                          lambda: 'point %d: %s expected in %s'
                          % (ii, exp, files))
                for fr, fa in zip([ff for ff in rfiles
                                   if ff.startswith('corrs')], exp):
                    vals = [self.read_corr(ctx, tag, ff)
                            for tag, ff in (('one%d' % ii, fr), ('all', fa))]
                    H.compare(ctx, 'saved-corrs', vals[0], vals[1], fa)
        ctx.probe('micro-states', spec['n_micro'])
        ctx.probe('calls', len(spec['ops']))

    def read_corr(self, ctx, tag, name):
        from sfepy.homogenization.micmac import get_correctors_from_file_hdf5
        path = os.path.join(ctx.scratch, tag, name)
        return H.plain(get_correctors_from_file_hdf5(
            dump_names={'x': (path[:-3], 'x')}), '')

    # (b) Macroscopic problems.

    def macro_ops(self, spec, ctx, tag, multi, ops):
        from sfepy.base.base import Struct, output
        from sfepy.homogenization import micmac
        sess = self.session(spec, ctx, multi)
        out = []
        pbs = {}
        try:
            for op in ops:
                ip = op['pb']
                par = spec['pbs'][ip]
                if ip not in pbs:
                    pbs[ip] = MacroProblem(self.micro_file(ctx, par['file']))
                args, odir = self.define_args(
                    spec, ctx, dict(par['conf'], mesh=par['mesh']),
                    '%s-%d' % (tag, ip), multi)
                coors = nm.zeros((par['n_micro'], 2))
                if op['op'] == 'region':
                    res = micmac.get_homog_coefs_nonlinear(
                        Struct(step=0), coors, 'region', None,
                        problem=pbs[ip], define_args=args, output_dir=odir)
                    out.append(plain_out(res))
                    continue
                prefix = output.prefix
                res = micmac.get_homog_coefs_nonlinear(
                    Struct(step=op['step']), coors, 'qp',
                    self.macro_data(op['macro']), problem=pbs[ip],
                    iteration=op['iiter'], define_args=args, output_dir=odir,
                    ret_corrs=op['corrs'])
                ctx.check(output.prefix == prefix, 'output-prefix',
                          output.prefix)
                if op['corrs']:
                    res, deps = res
                    ctx.check('corrs_rs' in deps, 'no-correctors', str(deps))
                out.append(plain_out(res))
                ctx.event(tag, len(out), ip)
        finally:
            sess.close()
        return out

    def run_macro(self, spec, ctx):
        res = self.macro_ops(spec, ctx, 'all', spec['multi'], spec['ops'])
        for ip in range(len(spec['pbs'])):
            sel = [io for io, op in enumerate(spec['ops']) if op['pb'] == ip]
            if not sel:
                continue
            ref = self.macro_ops(spec, ctx, 'one', False,
                                 [spec['ops'][io] for io in sel])
            for io, rr in zip(sel, ref):
                if rr is None:
                    ctx.check(res[io] is None, 'not-none', str(res[io]))
                    continue
                H.compare(ctx, 'macro-coefs', rr, res[io],
                          'operation %d of problem %d' % (io, ip))
                n_micro = spec['pbs'][ip]['n_micro']
                ctx.check(all(vv.shape[0] == n_micro for vv in rr.values()
                              if vv.ndim > 2), 'shape', str(rr))
        ctx.probe('macroscopic problems', len(spec['pbs']))
        ctx.probe('calls', len(spec['ops']))

    # (c) Linear micro-problems and recovery.

    def variant(self, spec, ctx, iv, tag, multi):
        var = spec['variants'][iv]
        return self.define_args(
            spec, ctx, {'kind': 'linear', 'mesh': var['mesh'],
                        'stiff': var['stiff'], 'diff': var['diff'],
                        'chunk_size': None, 'filenames': True,
                        'save_names': True,
                        'use_recovery': 'fields' if var['recovery']
                        else False},
            '%s-%d' % (tag, iv), multi)

    def macro_domain(self):
        if not hasattr(self, '_macro'):
            from sfepy.mesh.mesh_generators import gen_block_mesh
            from sfepy.discrete.fem import FEDomain, Field
            from sfepy.discrete import FieldVariable
            mesh = gen_block_mesh([1.0, 1.0], [5, 5], [0.5, 0.5],
                                  verbose=False)
            dom = FEDomain('macro', mesh)
            omega = dom.create_region('All', 'all')
            dom.create_region('A', 'vertices in (x < 0.51) & (y < 0.51)')
            dom.create_region('B', 'vertices in (x > 0.49)')
            field = Field.from_args('f', nm.float64, 2, omega, 1)
            var = FieldVariable('svar', 'parameter', field,
                                primary_var_name='(set-to-None)')
            self._macro = (dom, var)
        return self._macro

    def coefs_op(self, spec, ctx, op, tag, multi, regenerate=None):
        from sfepy.homogenization import micmac
        args, odir = self.variant(spec, ctx, op['v'], tag, multi)
        fn = self.micro_file(ctx, spec['variants'][op['v']]['file'])
        res = micmac.get_homog_coefs_linear(
            0.0, nm.zeros((op.get('n', 1), 2)), op.get('mode'),
            micro_filename=fn,
            regenerate=op.get('regenerate', False) if regenerate is None
            else regenerate, define_args=args, output_dir=odir)
        return H.plain({kk: vv for kk, vv in res.items() if kk in
                        ('D', 'K', 'vf', 'vf_Ym', 'vf_Yc')}, '')

    def recover_op(self, spec, ctx, op, tag, multi):
        from sfepy.homogenization import recovery
        args, odir = self.variant(spec, ctx, op['v'], tag, multi)
        fn = self.micro_file(ctx, spec['variants'][op['v']]['file'])
        dom, var = self.macro_domain()
        rng = nm.random.RandomState(op['salt'])
        if op['region'] == 'pts':
            region = rng.uniform(0.2, 0.8, (3, 2))
            num = 3
        else:
            region = dom.regions[op['region']]
            if op['region_mode'] == 'tiled':
                num = len(recovery.get_recovery_points(region, op['eps0']))
            else:
                num = len(region.get_cells())
        kw = {}
        macro = {'strain': rng.uniform(-1, 1, (num, 3, 1))}
        if op['eval'] != 'none':
            macro = {'strain': ('cauchy_strain', 'svar',
                                rng.uniform(-1, 1, (25, 2)))}
            kw = {'eval_vars': {'svar': var}, 'eval_mode': op['eval']}
        if op['args']:
            kw['define_args'] = args
        if op['scale']:
            # The correctors given by the user.
            from sfepy.homogenization.micmac import \
                get_correctors_from_file_hdf5
            corrs = get_correctors_from_file_hdf5(
                os.path.join(odir, 'coefs.h5'))
            kw['corrs'] = {name: {kk: op['scale'] * vv
                                  for kk, vv in corr.items()}
                           for name, corr in corrs.items()}
        before = {ff: os.path.getmtime(os.path.join(odir, ff))
                  for ff in H.list_files(odir) if 'recovered' in ff}
        for ff in before:
            os.remove(os.path.join(odir, ff))
        recovery.recover_micro_hook(fn, region, macro, op['eps0'],
                                    region_mode=op['region_mode'],
                                    recovery_file_tag='_t', output_dir=odir,
                                    **kw)
        from sfepy.discrete.fem.meshio import MeshIO
        from sfepy.discrete.fem import Mesh
        out = {}
        for ff in H.list_files(odir):
            if 'recovered' not in ff:
                continue
            path = os.path.join(odir, ff)
            mesh = Mesh.from_file(path)
            data = MeshIO.any_from_filename(path).read_data(None)
            out[os.path.basename(ff)] = {
                'coors': mesh.coors, 'conn': mesh.get_conn(mesh.descs[0]),
                'data': {kk: nm.array(vv.data) for kk, vv in data.items()}}
        return out

    def run_linear(self, spec, ctx):
        refs = {}

        def reference(op):
            key = repr(sorted((kk, vv) for kk, vv in op.items()
                              if kk not in ('regenerate', 'args', 'scale')))
            if key not in refs:
                sess = self.session(spec, ctx, False)
                try:
                    if op['op'] == 'coefs':
                        refs[key] = self.coefs_op(spec, ctx, op, 'ref', False,
                                                  True)
                    else:
                        self.coefs_op(spec, ctx, {'v': op['v']}, 'ref', False,
                                      True)
                        refs[key] = self.recover_op(spec, ctx,
                                                    dict(op, scale=None),
                                                    'ref', False)
                finally:
                    sess.close()
            return refs[key]

        # The references are computed first, the caches are module-wide.
        for op in spec['ops']:
            if op['op'] == 'coefs' or ((op['op'] == 'recover') and
                                       spec['variants'][op['v']]['recovery']):
                reference(op)
        sess = self.session(spec, ctx, spec['multi'])
        multi = spec['multi']
        torn = set()
        known = set()
        last = {}
        try:
            for io, op in enumerate(spec['ops']):
                path = 'operation %d' % io
                if op['op'] == 'new':
                    clear_caches()
                    known = set()
                    last = {}
                    ctx.fault('process restart')
                    continue
                iv = op['v']
                ifile = spec['variants'][iv]['file']
                if op['op'] == 'crash':
                    self.crash(spec, ctx, op, multi)
                    torn.add(iv)
                    continue
                if op['op'] == 'coefs':
                    try:
                        res = self.coefs_op(spec, ctx, op, 'run', multi)
                    except Exception as exc:
                        if (iv not in torn) or op['regenerate'] \
                                or (iv in known):
                            raise core.Violation(
                                'exception:coefs:' + type(exc).__name__,
                                '%s: %s' % (path, exc))
                        ctx.event('torn', type(exc).__name__)
                        ctx.probe('torn files refused')
                        continue
                    known.add(iv)
                    last[ifile] = iv
                    H.compare(ctx, 'linear-coefs', reference(op), res, path)
                    ctx.event('coefs', io)
                    continue
                rec = spec['variants'][iv]['recovery']
                if (iv not in known) or not (op['args']
                                             or (last[ifile] == iv)):
                    # Not known without the arguments.
                    cop = {'v': iv}
                    try:
                        self.coefs_op(spec, ctx, cop, 'run', multi)
                    except Exception as exc:
                        if iv not in torn:
                            raise core.Violation(
                                'exception:coefs:' + type(exc).__name__,
                                '%s: %s' % (path, exc))
                        continue
                    known.add(iv)
                    last[ifile] = iv
                try:
                    res = self.recover_op(spec, ctx, op, 'run', multi)
                except Exception as exc:
                    if not rec:
                        ctx.check(isinstance(exc, ValueError),
                                  'exception:no-recovery', str(exc))
                        continue
                    raise core.Violation(
                        'exception:recover:' + type(exc).__name__,
                        '%s: %s' % (path, exc))
                ctx.check(rec, 'lost-exception', path)
                ref = reference(op)
                if op['scale']:
                    ref = copy.deepcopy(ref)
                    for val in ref.values():
                        if 'u_mic' in val['data']:
                            val['data']['u_mic'] *= op['scale']
                H.compare(ctx, 'recovered', ref, res, path, 1e-6)
                ctx.event('recover', io, sorted(res))
                ctx.probe('recoveries')
        finally:
            sess.close()
            clear_caches()

    def crash(self, spec, ctx, op, multi):
        """A process killed during the computation of the coefficients."""
        args, odir = self.variant(spec, ctx, op['v'], 'run', False)
        cop = {'v': op['v']}

        def fun():
            clear_caches()
            self.coefs_op(spec, ctx, cop, 'run', False, True)

        # Count the operations in another directory.
        def count():
            clear_caches()
            self.coefs_op(spec, ctx, cop, 'ref', False, True)

        _, rdir = self.variant(spec, ctx, op['v'], 'ref', False)
        out = SD.child(count, rdir)
        if out.status != 'ok':
            raise core.Violation('exception:coefs:' + str(out.error), out.tb)
        at = int(op['at'] * out.n_ops)
        out = SD.child(fun, odir, [{'kind': 'crash', 'at': at}])
        if out.status == 'crash':
            ctx.fault('crash')
        ctx.event('crash', at)

    def nontrivial(self, spec, res):
        return len(spec['ops']) > 1

    def shrink(self, spec):
        yield from core.Property.shrink(self, spec)
        if spec['multi']:
            yield dict(spec, multi=False)
        if spec['kind'] == 'points' and spec['n_micro'] > 1:
            for ii in range(spec['n_micro']):
                cand = copy.deepcopy(spec)
                cand['n_micro'] -= 1
                for op in cand['ops']:
                    for val in op['macro'].values():
                        val.pop(ii)
                cand['conf']['store'] = [jj - (jj > ii) for jj in
                                         spec['conf']['store'] if jj != ii]
                if cand['ids']:
                    cand['ids'].pop(ii)
                yield cand
            if spec['conf']['extra']:
                cand = copy.deepcopy(spec)
                cand['conf']['extra'].pop()
                yield cand
