"""
C03: result files hold exactly the saved time series.

Seeded histories of writers, refused and failing writes, readers, process
stops and benign disk faults over HDF5 result files, compared with a model,
which is the list of the saved steps; and simulations with seeded saving
times that are stopped between steps and continued.
"""
import os

import numpy as nm

from dst import core
from dst import problems as P
from dst import simdisk as SD
from dst.props import c01_restart as C01

KEYS = ['u', 'p', 'cauchy strain', 'q.1', 'stress-xx', 'T', 'w_2',
        'grad(p)']


def value(salt, key, step, shape, cplx=False):
    rng = nm.random.RandomState(
        (salt * 7919 + sum(ord(cc) for cc in key) * 131 + step * 31 + 5)
        % (2**31 - 1))
    val = rng.uniform(-1.0, 1.0, shape)
    if cplx:
        val = val + 1j * rng.uniform(-1.0, 1.0, shape)
    return val


class PROP(core.Property):
    id = 'C03'
    rule = ('one evaluation is one history of operations of several processes'
            ' over one results file; non-trivial if some step was read back;'
            ' distinct by event trace')
    real = ['HDF5MeshIO, HDF5XdmfMeshIO, Mesh.write', 'extract_time_history,'
            ' dump_to_vtk and other postprocessing', 'PyTables/HDF5',
            'Problem.solve, save_state, make_is_save and restarts']
    stub = ['process stop (exit without cleanup between operations)',
            'system calls (LD_PRELOAD layer injecting short and interrupted'
            ' transfers)']
    assumptions = ['processes are stopped only between two saved steps']
    n_quick = 700
    n_thorough = 12000
    quick_budget = 150.0
    run_timeout = 120.0
    needs_shim = True

    def setup(self):
        P.quiet()
        import sfepy.discrete.fem.meshio  # noqa
        import sfepy.postprocess.time_history  # noqa
        import sfepy.mesh.mesh_generators  # noqa
        import sfepy.solvers.ts  # noqa
        import tables  # noqa
        from sfepy.discrete import Problem  # noqa

    # -- generation -------------------------------------------------------
    def gen(self, rng, tier, index):
        if rng.random() < 0.3:
            return self.gen_problem(rng)
        dim = rng.choice([2, 2, 3])
        xdmf = rng.random() < 0.25
        keys = rng.sample(KEYS, rng.randint(1, 4))
        fields = {}
        for key in keys:
            mode = rng.choice(['vertex', 'vertex', 'cell', 'full', 'custom'])
            if xdmf and ((mode != 'custom') or (dim == 2)):
                mode = rng.choice(['vertex', 'vertex', 'cell'])
            nc = rng.choice([1, 1, dim])
            fields[key] = {'mode': mode, 'nc': nc, 'var': rng.random() < 0.7,
                           'cplx': (not xdmf) and (rng.random() < 0.15)}
        n_step = rng.choice([1, 2, 4, 8, 12])
        stride = rng.choice([1, 1, 1, 2, 3])
        lives = []
        step = 0
        n_life = rng.choice([1, 2, 2, 3])
        for il in range(n_life):
            ops = []
            for _ in range(rng.choice([2, 4, 8, 12])):
                cc = rng.random()
                if cc < 0.45:
                    ops.append({'op': 'write', 'step': step})
                    step += rng.choice([stride, stride, stride, 1])
                elif cc < 0.52:
                    ops.append({'op': 'rewrite', 'back': rng.random()})
                elif cc < 0.58:
                    ops.append({'op': 'badwrite', 'key': rng.choice(keys)})
                elif cc < 0.60:
                    ops.append({'op': 'write', 'step': 0})
                    step = stride
                else:
                    ops.append({'op': rng.choice(
                        ['times', 'last', 'stepper', 'data', 'missing',
                         'history', 'histories', 'badhistory', 'extract',
                         'header', 'mesh', 'dump', 'badheader']),
                        'key': rng.choice(keys), 'at': rng.random(),
                        'mode': rng.choice('ne')})
            faults = []
            if rng.random() < 0.3:
                for _ in range(rng.choice([1, 3])):
                    faults.append({'kind': rng.choice(
                        ['eintr', 'short', 'rshort', 'rintr']),
                        'at': rng.randrange(60),
                        'count': rng.choice([1, 2, 5]),
                        'arg': rng.randrange(1, 1000)})
            lives.append({'ops': ops, 'faults': faults,
                          'end': rng.choice(['exit', 'kill'])})
        return {'kind': 'direct', 'dim': dim, 'fields': fields,
                'start': rng.choice([0, 0, 0, 1, 4]),
                'xdmf': xdmf, 'lives': lives,
                'n_step': n_step, 'variable': rng.random() < 0.3,
                'salt': rng.randrange(1 << 20)}

    def gen_problem(self, rng):
        while 1:
            base = C01.PROP().gen(rng, 'quick', 0)
            if not (base['p'].get('ts') == 'adaptive' and
                    base['p'].get('quasi')):
                break
        spec = {'kind': 'problem', 'pkind': base['kind'], 'p': base['p']}
        pp = spec['p']
        pp['output_format'] = 'h5'
        t0, t1 = pp.get('t0', 0.0), pp['t1']
        cc = rng.random()
        if cc < 0.3:
            pp['save_times'] = 'all'
        elif cc < 0.6:
            pp['save_times'] = rng.choice([1, 2, 3, 4, 7, 20])
        else:
            num = rng.choice([1, 2, 3, 6])
            pp['save_times'] = sorted(
                round(rng.choice([t0, t1, rng.uniform(t0 - 0.1, t1 + 0.1)]), 6)
                for _ in range(num))
            if rng.random() < 0.2:
                pp['save_times'] = [t0, t1]
        spec['crashes'] = [{'step': rng.randrange(1, pp['n_step'] + 1),
                            'where': rng.choice(['step', 'mat', 'bc'])}
                           for _ in range(rng.choice([0, 1, 1, 2]))]
        return spec

    def shrink(self, spec):
        import copy
        if spec['kind'] == 'direct':
            for il, life in enumerate(spec['lives']):
                cand = copy.deepcopy(spec)
                cand['lives'].pop(il)
                if cand['lives']:
                    yield cand
                for ff in range(len(life['faults'])):
                    cand = copy.deepcopy(spec)
                    cand['lives'][il]['faults'].pop(ff)
                    yield cand
                for io in range(len(life['ops'])):
                    cand = copy.deepcopy(spec)
                    cand['lives'][il]['ops'].pop(io)
                    yield cand
            for key in sorted(spec['fields']):
                if len(spec['fields']) == 1:
                    break
                cand = copy.deepcopy(spec)
                cand['fields'].pop(key)
                first = sorted(cand['fields'])[0]
                for life in cand['lives']:
                    for op in life['ops']:
                        if op.get('key') == key:
                            op['key'] = first
                yield cand
        else:
            for ii in range(len(spec['crashes'])):
                cand = copy.deepcopy(spec)
                cand['crashes'].pop(ii)
                yield cand
            base = dict(spec, kind=spec['pkind'], crashes=[])
            for cand in C01.PROP.shrink(self, base):
                cand = dict(cand, pkind=spec['pkind'], kind='problem',
                            crashes=spec['crashes'])
                yield cand

    # -- direct histories -------------------------------------------------
    def make_out(self, spec, mesh, step, salt, bad=None):
        from sfepy.base.base import Struct
        out = {}
        for key in sorted(spec['fields']):
            ff = spec['fields'][key]
            nc = ff['nc']
            mode = ff['mode']
            if mode == 'custom':
                data = {'a': value(salt, key, step, (3,)), 'b': 'text',
                        'c': {'n': step, 'x': value(salt, key, step, (2, 2))}}
                out[key] = Struct(name='custom', mode='custom', data=data)
                if key == bad:
                    out[key].data['bad'] = lambda: None
                continue
            num = mesh.n_nod if mode in ('vertex', 'full') else mesh.n_el
            if mode == 'full':
                num += 5
            # Cell data of 2D XDMF files have to be 2D arrays.
            shape = (num, nc) if (mode != 'cell') or (
                spec['xdmf'] and spec['dim'] == 2) else (num, 1, nc, 1)
            data = value(salt, key, step, shape, ff['cplx'])
            kwargs = {}
            if ff['var']:
                kwargs = {'var_name': key, 'dofs': tuple(
                    '%s.%d' % (key, ii) for ii in range(nc))}
            if mode == 'full':
                kwargs['field_name'] = 'field of ' + key
                kwargs['shape'] = (num, nc)
            out[key] = Struct(name='output_data', mode=mode, data=data,
                              **kwargs)
            if key == bad:
                out[key].data = nm.array([object()] * 3)
                out[key].shape = (3, 1)
        return out

    def expand(self, data, nd):
        """Data of XDMF files are 3D."""
        tab = {2: (3, [0, 1]), 3: (6, [0, 1, 3]), 4: (9, [0, 1, 3, 4])}
        if data.ndim == 2 and data.shape[1] in tab and nd == 2:
            n3, order = tab[data.shape[1]]
            out = nm.zeros((data.shape[0], n3), dtype=data.dtype)
            out[:, order] = data
            return out
        return data

    def get_mesh(self, spec):
        from sfepy.mesh.mesh_generators import gen_block_mesh
        dim = spec['dim']
        shape = [3, 4, 2][:dim]
        return gen_block_mesh([1.0] * dim, shape, [0.5] * dim,
                              name='results mesh', verbose=False)

    def times(self, spec):
        num = 200
        if spec['variable']:
            rng = nm.random.RandomState(spec['salt'] % 100003)
            return nm.cumsum(rng.uniform(0.01, 1.0, num)) - 0.3
        return nm.linspace(0.0, 2.0, num)

    def same_data(self, spec, got, exp, key):
        """None or a description of the difference."""
        if exp.mode == 'custom':
            if not isinstance(got, dict):
                return 'not a dict: %s' % type(got)
            if sorted(got) != sorted(exp.data):
                return 'keys %s' % sorted(got)
            if got['b'] != 'text' or not nm.array_equal(got['a'],
                                                        exp.data['a']):
                return 'values'
            if got['c']['n'] != exp.data['c']['n'] or not nm.array_equal(
                    got['c']['x'], exp.data['c']['x']):
                return 'nested values'
            return
        data = exp.data
        if spec['xdmf']:
            data = self.expand(data, spec['dim'])
        if got.mode != exp.mode:
            return 'mode %s, not %s' % (got.mode, exp.mode)
        if got.data.shape != data.shape or got.data.dtype != data.dtype:
            return 'shape %s %s, not %s %s' % (got.data.shape, got.data.dtype,
                                               data.shape, data.dtype)
        if not nm.array_equal(got.data, data):
            return 'values differ by %s' % nm.abs(got.data - data).max()
        dofs = exp.get('dofs', None)
        if (dofs is not None) and (tuple(got.dofs) != tuple(dofs)):
            return 'dofs %s, not %s' % (got.dofs, dofs)
        if (exp.mode == 'full') and (got.field_name != exp.field_name):
            return 'field name %s' % got.field_name

    def verify(self, spec, filename, mesh, model, op=None):
        """
        Read the file in various ways and compare with the model: {step:
        (time, salt)}, raise Violation.
        """
        from sfepy.discrete.fem.meshio import MeshIO
        from sfepy.discrete.fem import Mesh
        from sfepy.postprocess import time_history as th

        def bad(key, msg):
            raise core.Violation(key, msg)

        what = 'all' if op is None else op['op']
        steps = sorted(model)
        if not steps and what != 'all':
            return 0
        if not os.path.exists(filename):
            if steps:
                bad('file-missing', 'the file does not exist')
            return 0
        io = MeshIO.any_from_filename(filename)
        times = [model[ss][0] for ss in steps]
        at = steps[int((op['at'] if op else 0.5) * len(steps))] \
            if steps else None
        n_read = 0

        def read_step(step, arg=False):
            out = io.read_data(step if arg is False else arg)
            if out is None:
                bad('step-missing', 'step %d is missing' % step)
            exp = self.make_out(spec, mesh, step, model[step][1])
            if sorted(out) != sorted(exp):
                bad('fields-differ', 'step %d: fields %s, not %s'
                    % (step, sorted(out), sorted(exp)))
            for key in sorted(exp):
                msg = self.same_data(spec, out[key], exp[key], key)
                if msg is not None:
                    bad('data-differ', 'step %d, %s: %s' % (step, key, msg))

        def history(key, step):
            exp = self.make_out(spec, mesh, step, model[step][1])[key].data
            return self.expand(exp, spec['dim']) if spec['xdmf'] else exp

        if what in ('times', 'all'):
            st, tt, nts = io.read_times()
            if list(st) != steps:
                bad('steps-differ', 'steps %s, not %s' % (list(st), steps))
            if not nm.array_equal(tt, times):
                bad('times-differ', 'times %s, not %s' % (tt, times))
            if (spec['kind'] == 'direct') and not nm.allclose(
                    nts, nm.array(steps) / 100.0, rtol=1e-14, atol=0.0):
                bad('times-differ', 'normalized times %s of steps %s'
                    % (nts, steps))
            st2, tt2, nts2, dts = th.extract_times(filename)
            if not (nm.array_equal(st, st2) and nm.array_equal(tt, tt2)
                    and nm.allclose(dts[:-1], nm.diff(times))):
                bad('times-differ', 'extract_times(): %s %s %s'
                    % (st2, tt2, dts))
        if what in ('last', 'all') and steps:
            last = io.read_last_step()
            if last != model_last(model):
                bad('last-step', 'last step %s, not %s'
                    % (last, model_last(model)))
        if what == 'stepper':
            t0, t1, dt, n_step = io.read_time_stepper()
            if (t0, t1, n_step) != (-1.0, 3.5, 77):
                bad('time-stepper', '%s' % ((t0, t1, dt, n_step),))
        if what == 'mesh' or what == 'all':
            mesh2 = Mesh.from_file(filename)
            coors = mesh.coors
            if spec['xdmf'] and spec['dim'] == 2:
                coors = nm.c_[coors, nm.zeros(len(coors))]
            if not (nm.array_equal(mesh2.coors, coors)
                    and nm.array_equal(mesh2.get_conn(mesh.descs[0]),
                                       mesh.get_conn(mesh.descs[0]))):
                bad('mesh-differs', 'the mesh differs')
        if what == 'all':
            for step in steps:
                read_step(step)
                n_read += 1
        if what == 'data':
            read_step(at)
            read_step(steps[0], None)
            n_read += 1
        if what == 'missing':
            step = at + 1
            while step in model:
                step += 1
            if io.read_data(step) is not None:
                bad('unknown-step', 'data of step %d returned' % step)
        if what == 'header':
            mode, name = io.read_data_header(op['key'], step=at)
            if mode != spec['fields'][op['key']]['mode']:
                bad('header', 'mode %s' % mode)
            if io.read_data_header(op['key']) != (mode, name):
                bad('header', 'other header in the first step')
        if what == 'badheader':
            try:
                io.read_data_header('nonexistent', step=at)
                bad('header', 'nonexistent data found')
            except KeyError:
                pass
        if what == 'badhistory':
            try:
                io.read_time_history('nonexistent', [0])
                bad('history', 'nonexistent data found')
            except core.Violation:
                raise
            except Exception:
                pass
        ff = spec['fields'][op['key']] if op and 'key' in op else None
        if what in ('history', 'extract') and ff['mode'] != 'custom':
            key = op['key']
            mode, name = io.read_data_header(key)
            ref = [history(key, step) for step in steps]
            num = ref[0].shape[0]
            indx = sorted(set([0, num - 1, int(op['at'] * num)]))
            if what == 'history':
                got = io.read_time_history(name, indx)
                for ii in indx:
                    exp = nm.array([rr[ii] for rr in ref])
                    if exp.ndim == 3:
                        # Cell data: values by components.
                        exp = exp[:, 0, :, 0] if exp.ndim == 4 \
                            else exp[:, 0, :]
                        got_i = got[ii].reshape(exp.shape) \
                            if got[ii].size == exp.size else got[ii]
                    else:
                        got_i = got[ii]
                    exp2 = nm.array([rr[ii].ravel() for rr in ref])
                    got_i = nm.asarray(got_i)
                    if (got_i.size != exp2.size) or not nm.array_equal(
                            got_i.reshape(exp2.shape), exp2):
                        bad('history-differs', '%s in %d: %s, not %s'
                            % (key, ii, got_i, exp2))
                n_read += 1
            elif ff['mode'] in ('vertex', 'cell') and (
                    (ff['mode'] == 'vertex') or (op['mode'] == 'e')):
                mode = op['mode']
                n_el = mesh.n_el if mode == 'e' else mesh.n_nod
                indx = sorted(set([0, n_el - 1, int(op['at'] * n_el)]))
                if ' ' in key:
                    return n_read
                ths, ts = th.extract_time_history(
                    filename, '%s %s %s' % (key, mode, ' '.join(
                        '%d' % ii for ii in indx)), verbose=False)
                if not nm.array_equal(ts.times, times):
                    bad('times-differ', 'extracted times %s' % ts.times)
                av1 = th.average_vertex_var_in_cells(ths)
                av2 = th.average_vertex_var_in_cells(ths)
                conn = mesh.get_conn(mesh.descs[0])
                for ii in indx:
                    got = ths[key][ii]
                    if isinstance(got, dict):
                        ips = list(conn[ii])
                        if sorted(got) != sorted(ips):
                            bad('history-differs', 'nodes %s' % sorted(got))
                        for ip in ips:
                            exp = nm.array([rr[ip] for rr in ref])
                            if not nm.array_equal(got[ip], exp):
                                bad('history-differs', '%s: element %d,'
                                    ' node %d' % (key, ii, ip))
                        exp = nm.mean([[rr[ip] for rr in ref] for ip in ips],
                                      axis=0)
                        for av in (av1, av2):
                            if not nm.allclose(av[key][ii], exp, rtol=1e-12,
                                               atol=1e-14):
                                bad('average-differs', '%s: element %d'
                                    % (key, ii))
                    else:
                        exp = nm.array([rr[ii].ravel() for rr in ref])
                        if not nm.array_equal(nm.asarray(got).reshape(
                                exp.shape), exp):
                            bad('history-differs', '%s in %d' % (key, ii))
                n_read += 1
        if what == 'histories' and ff['mode'] != 'custom':
            from sfepy.solvers.ts import TimeStepper
            ts = TimeStepper(0.0, 1.0, n_step=max(2, len(steps)))
            ts.n_step = len(steps)
            if steps == list(range(len(steps))):
                got = io.read_variables_time_history([op['key']], ts)
                ref = [history(op['key'], step) for step in steps]
                if len(got[op['key']]) != len(ref) or not all(
                        nm.array_equal(aa, bb)
                        for aa, bb in zip(got[op['key']], ref)):
                    bad('history-differs', op['key'])
                n_read += 1
        if what == 'dump' and not any(
                ff['cplx'] or ff['mode'] in ('custom', 'full') or
                (' ' in kk) or (ff['nc'] not in (1, spec['dim']))
                for kk, ff in spec['fields'].items()) and not spec['xdmf']:
            suf = 'dump%d' % int(op['at'] * 1000)
            sel = [at] if op['mode'] == 'n' else None
            trunk = os.path.join(os.path.dirname(filename), suf)
            if (sel is None) and (op['at'] < 0.5):
                # From this step on.
                sel = steps[steps.index(at):]
                th.dump_to_vtk(filename, output_filename_trunk=trunk,
                               step0=at)
            else:
                th.dump_to_vtk(filename, output_filename_trunk=trunk,
                               steps=sel)
            import glob
            found = sorted(glob.glob(trunk + '.*.vtk'))
            if len(found) != len(sel or steps):
                bad('dump-differs', 'files %s' % found)
            for path, step in zip(found, sel or steps):
                if int(path.split('.')[-2]) != step:
                    bad('dump-differs', 'files %s' % found)
            exp = self.make_out(spec, mesh, at, model[at][1])
            io2 = MeshIO.any_from_filename(
                found[0 if sel else steps.index(at)])
            data = io2.read_data(0)
            for key in sorted(exp):
                key2 = key.replace(' ', '_')
                got = data.get(key2, data.get(key))
                if got is None:
                    bad('dump-differs', '%s not in %s' % (key, sorted(data)))
                exp1 = exp[key].data.reshape((exp[key].data.shape[0], -1))
                got1 = got.data.reshape((exp1.shape[0], -1))
                if not nm.allclose(got1[:, :exp1.shape[1]], exp1, rtol=1e-5,
                                   atol=1e-8):
                    bad('dump-differs', key)
            n_read += 1
        return n_read

    def direct(self, spec, ctx):
        outdir = os.path.abspath('out')
        os.mkdir(outdir)
        filename = os.path.join(outdir, 'results.h5x' if spec['xdmf']
                                else 'results.h5')
        from sfepy.base.base import Struct
        tall = self.times(spec)
        model = Model()
        mesh = self.get_mesh(spec)

        def get_ts(step):
            return Struct(step=step, time=float(tall[step]),
                          nt=step / 100.0, t0=-1.0, t1=3.5, dt=0.1,
                          n_step=77)

        # The first results can be saved later than in the step 0.
        start = spec.get('start', 0)

        def plan(il, ops):
            """The effects of the operations on the model."""
            todo = []
            for io, op in enumerate(ops):
                salt = spec['salt'] + 1000 * il + io
                if op['op'] == 'write':
                    step = op['step']
                    if not model:
                        step = start
                    elif step > 0:
                        step += start
                    if (step != 0) and (step in model):
                        todo.append((op, step, salt, 'refuse'))
                    else:
                        if step == 0:
                            model.clear()
                        model[step] = (float(tall[step]), salt)
                        todo.append((op, step, salt, 'ok'))
                elif op['op'] == 'rewrite':
                    old = sorted(ss for ss in model if ss > 0)
                    if old:
                        step = old[int(op['back'] * len(old))]
                        todo.append((op, step, salt, 'refuse'))
                elif op['op'] == 'badwrite':
                    if model:
                        step = max(model) + 1
                        todo.append((op, step, salt, 'bad'))
                else:
                    todo.append((op, None, None, model.snapshot()))
            return todo

        def life(todo, end):
            n_read = 0
            for op, step, salt, what in todo:
                if what in ('ok', 'refuse', 'bad'):
                    out = self.make_out(spec, mesh, step, salt,
                                        op['key'] if what == 'bad' else None)
                    try:
                        mesh.write(filename, io='auto', out=out,
                                   ts=get_ts(step))
                        done = True
                    except Exception as exc:
                        if what == 'ok':
                            raise core.Violation('write-failed', repr(exc))
                        done = False
                    if done and (what == 'refuse'):
                        raise core.Violation('not-refused', 'step %d was'
                                             ' saved again' % step)
                    if done and (what == 'bad'):
                        raise core.Violation('bad-data-saved', 'step %d'
                                             % step)
                else:
                    n_read += self.verify(spec, filename, mesh, what, op)
            if end == 'kill':
                os.write(2, b'')
                os._exit(137)
            return n_read

        def report(out, label):
            for num, kind, what in out.fired:
                ctx.faults['%s:%s' % (kind, what)] += 1
            ctx.event(label, out.status, out.error, out.value,
                      sorted(model))
            if out.status == 'error':
                if out.error == 'Violation':
                    key, msg = out.msg.split(': ', 1)
                    raise core.Violation(key, '%s: %s' % (label, msg))
                raise core.Violation('unexpected-' + out.error, '%s: %s'
                                     % (label, out.tb))
            ctx.check(out.status in ('ok', 'crash'), 'life-' + out.status,
                      lambda: '%s: %s' % (label, getattr(out, 'msg', '')))
            ctx.probe('reads', (out.value or 0))

        for il, ll in enumerate(spec['lives']):
            todo = plan(il, ll['ops'])
            ctx.choice_made('life', il, [tt[3] if isinstance(tt[3], str)
                                         else tt[0]['op'] for tt in todo],
                            ll['end'], len(ll['faults']))
            out = SD.child(lambda: life(todo, ll['end']), outdir,
                           ll['faults'])
            if ll['end'] == 'kill' and out.status == 'crash':
                ctx.faults['stop-between-steps'] += 1
            report(out, 'life %d' % il)
            ctx.probe('steps-written', sum(tt[3] == 'ok' for tt in todo))
            ctx.probe('refusals', sum(tt[3] in ('refuse', 'bad')
                                      for tt in todo))
            snap = model.snapshot()
            out = SD.child(lambda: self.verify(spec, filename, mesh, snap),
                           outdir)
            report(out, 'reader %d' % il)
            ctx.n_checks += 1

    # -- simulations ------------------------------------------------------
    def problem(self, spec, ctx):
        from sfepy.discrete.fem.meshio import MeshIO
        spec = dict(spec, kind=spec['pkind'])
        crash = [None]
        current = [None]
        ref = {}

        def maybe(where, step):
            if crash[0] and (crash[0]['where'] == where) \
                    and (crash[0]['step'] == step):
                ctx.fault('crash:' + where)
                raise C01.SimCrash()

        hooks = {'bc': lambda ts: maybe('bc', ts.step),
                 'mat': lambda ts: maybe('mat', ts.step)}

        def solve(extra, outdir, save):
            pb = C01.build(spec, extra, outdir, hooks)

            def step_hook(pb, ts, variables):
                if not save:
                    out = variables.create_output(linearization=None)
                    ref[ts.step] = (float(ts.time), float(ts.dt),
                                    {kk: nm.array(vv.data) for kk, vv
                                     in out.items()})
                maybe('step', ts.step)

            pb.solve(step_hook=step_hook, save_results=save, verbose=False)

        solve({}, 'ref', False)
        ctx.sim_time += max(rr[0] for rr in ref.values()) - ref[0][0]
        # The model of the saved steps.
        st = spec['p']['save_times']
        steps = sorted(ref)
        if isinstance(st, int):
            t0 = spec['p'].get('t0', 0.0)
            st = nm.linspace(t0, spec['p']['t1'], st)
        must, may = [], []
        prev = -nm.inf
        for step in steps:
            time = ref[step][0]
            if isinstance(st, str):
                must.append(step)
                may.append(step)
            else:
                tol = 1e-11 * max(1.0, abs(time))
                if any((prev + tol < ss <= time - tol) or (ss == time)
                       and (prev < ss) for ss in st):
                    must.append(step)
                if any(prev - tol < ss <= time + tol for ss in st):
                    may.append(step)
                prev = time

        load = None
        outdir = os.path.abspath('out')
        for il, cr in enumerate(spec['crashes'] + [None]):
            crash[0] = cr
            extra = {'save_restart': 0}
            if load is not None:
                extra['load_restart'] = load
            ctx.choice_made('life', il, load is not None, cr)
            try:
                solve(extra, outdir, True)
                finished = True
            except C01.SimCrash:
                finished = False
            import glob
            import re
            found = glob.glob(os.path.join(outdir, 'out.restart-*.h5'))
            num = [int(re.findall(r'restart-(\d+)', ff)[0]) for ff in found]
            done = max(num) if num else -1
            ctx.event('life', il, finished, done)
            load = found[num.index(done)] if num else None
            filename = os.path.join(outdir, 'out.h5')
            must1 = [ss for ss in must if ss <= done]
            may1 = [ss for ss in may if ss <= done]
            if not os.path.exists(filename):
                # The first step saved creates it.
                ctx.check(not must1, 'file-missing',
                          lambda: 'no file, steps %s expected' % must1)
                if finished:
                    break
                continue
            io = MeshIO.any_from_filename(filename)
            got, times, _ = io.read_times()
            got = [int(ii) for ii in got]
            ctx.check(set(must1) <= set(got) <= set(may1), 'steps-differ',
                      lambda: 'saved steps %s, expected %s for save_times %s,'
                      ' times %s' % (got, must1, st,
                                     [ref[ss][0] for ss in steps]))
            scale = max([1.0] + [nm.abs(dd).max() for rr in ref.values()
                                 for dd in rr[2].values()])
            for step, time in zip(got, times):
                ctx.check(abs(time - ref[step][0]) <= 1e-10
                          * max(1.0, abs(time)), 'times-differ',
                          lambda: 'step %d: time %s, expected %s'
                          % (step, time, ref[step][0]))
                out = io.read_data(step)
                ctx.check(set(ref[step][2]) <= set(out), 'fields-differ',
                          lambda: 'step %d: %s' % (step, sorted(out)))
                for key, data in sorted(ref[step][2].items()):
                    err = nm.abs(out[key].data - data).max() \
                        if out[key].data.shape == data.shape else nm.inf
                    ctx.check(err <= 1e-8 * scale, 'data-differ',
                              lambda: 'step %d: %s differs by %s'
                              % (step, key, err))
                ctx.probe('reads')
            if finished:
                break

    def run(self, spec, ctx):
        if spec['kind'] == 'direct':
            self.direct(spec, ctx)
        else:
            self.problem(spec, ctx)

    def nontrivial(self, spec, res):
        return res['probes'].get('reads', 0) > 0


class Model(dict):
    """{step: (time, salt)}, remembers the last saved step."""
    last = None

    def __setitem__(self, key, val):
        dict.__setitem__(self, key, val)
        self.last = key

    def clear(self):
        dict.clear(self)
        self.last = None

    def snapshot(self):
        new = Model(self)
        new.last = self.last
        return new


def model_last(model):
    return model.last
