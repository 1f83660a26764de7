"""
C01: restart continuity.

A simulation is run with restart saving, crashes at a seeded point of a seeded
step (inside a user function, after the step, after the restart was saved),
only its files survive, and a new simulation resumes from a restart file -
possibly several times.  The oracle is the uninterrupted simulation.
"""
import glob
import os
import re

import numpy as nm

from dst import core
from dst import problems as P


class SimCrash(Exception):
    pass


def build(spec, extra, outdir, hooks):
    p = dict(spec['p'])
    p.update(extra)
    os.makedirs(outdir, exist_ok=True)
    if spec['kind'] == 'heat':
        p['_bc_hook'] = hooks.get('bc')
        p['_mat_hook'] = hooks.get('mat')
        if p.get('dts'):
            dts = p['dts']

            def adapt_fun(ts, status, adt, context=None, verbose=False):
                ts.set_time_step(dts[ts.step % len(dts)])
                return True
            p['adapt'] = {'adapt_fun': adapt_fun}
        conf = P.heat_conf(p)
    else:
        p['_load_hook'] = hooks.get('mat')
        conf = P.ed_conf(p)
    return P.make_problem(conf, outdir)


def scale_of(ref):
    return max(1.0, max(nm.abs(vv).max() for _, vals in ref.values()
                        for vv in vals.values()))


class PROP(core.Property):
    id = 'C01'
    rule = ('one evaluation is one simulated life of a time-dependent problem:'
            ' crash points, surviving restart files and resumptions drawn from'
            ' the seed; non-trivial if at least one resumed step was compared'
            ' with the uninterrupted run; distinct by event trace')
    real = ['Problem', 'Variables', 'time-stepping solvers', 'Newton',
            'linear solvers', 'assembling', 'restart files (PyTables/HDF5)']
    stub = ['process death (exception at the crash point, all in-memory'
            ' objects abandoned; only files survive)']
    assumptions = ['crash points are between Python-level callbacks; crashes'
                   ' inside the file writing are the subject of C02',
                   'step size controllers with internal state (adaptivity'
                   ' counters) are not part of restart files and are replaced'
                   ' by a step-indexed step size schedule']
    n_quick = 600
    n_thorough = 4000
    quick_budget = 150.0

    def setup(self):
        P.quiet()
        import sfepy.discrete.fem.meshio  # noqa: F401
        import tables  # noqa: F401

    def gen(self, rng, tier, index):
        kind = 'heat' if rng.random() < 0.6 else 'ed'
        n_step = rng.choice([2, 3, 5, 6, 8])
        if kind == 'heat':
            p = {
                'shape': rng.choice([[3, 3], [4, 3], [3, 4]]),
                'order': rng.choice([1, 1, 2]),
                'history': rng.choice([1, 1, 2, 3]),
                'use_prev': rng.random() < 0.5,
                'ebc_fun': rng.random() < 0.6,
                'mat_fun': rng.random() < 0.6,
                'second': rng.random() < 0.4,
                'no_order': rng.random() < 0.3,
                'nonlinear': rng.choice([0, 0, 1.0]),
                'quasi': rng.random() < 0.25,
                'all_dofs': rng.random() < 0.25,
                'epbc': rng.random() < 0.3,
                'step_bc': rng.choice([0, 0, 1]),
                'n_step': n_step, 't0': rng.choice([0.0, 0.0, 0.5, -1.0]),
                't1': rng.choice([1.0, 1.5, 2.0]),
                'i_max': 5,
                'save_times': rng.choice(['all', 'all', 3]),
                'output_format': rng.choice(['h5', 'vtk']),
            }
            if rng.random() < 0.15:
                p['lcbc'] = True
                p['epbc'] = p['all_dofs'] = False
            elif rng.random() < 0.25:
                p['times'] = [[p['t0'], p['t0'] + rng.choice([0.3, 0.55])]]
            if rng.random() < 0.25:
                p['ts'] = 'adaptive'
                dt0 = (p['t1'] - p['t0']) / max(n_step - 1, 1)
                p['dts'] = [round(dt0 * rng.choice([0.4, 0.7, 1.0, 1.3]), 6)
                            for _ in range(3)]
        else:
            tss = rng.choice(['newmark', 'generalized_alpha', 'bathe',
                              'velocity_verlet', 'central_difference'])
            p = {
                'shape': rng.choice([[3, 3], [4, 3]]), 'tss': tss,
                'n_step': n_step, 't1': 0.02 * n_step,
                'damping': rng.random() < 0.5, 'load': rng.random() < 0.7,
                'is_linear': rng.random() < 0.6,
                'v0': rng.choice([-1.0, 0.5]), 'i_max': 2,
                'output_format': rng.choice(['h5', 'vtk']),
            }
        n_inc = rng.choice([1, 1, 1, 2, 3])
        crashes = []
        for ii in range(n_inc):
            where = rng.choice(['step', 'step', 'post', 'mat', 'bc', 'end'])
            crashes.append({'step': rng.randrange(0, n_step), 'where': where,
                            'back': rng.choice([0, 0, 0, 1, 2])})
        return {'kind': kind, 'p': p, 'crashes': crashes,
                'mode': rng.choice([0, 0, -1])}

    def shrink(self, spec):
        import copy
        for ii in range(len(spec['crashes'])):
            cand = copy.deepcopy(spec)
            cand['crashes'].pop(ii)
            if cand['crashes']:
                yield cand
        for key in sorted(spec['p']):
            if key in ('n_step', 't0', 't1', 'shape', 'tss', 'i_max'):
                continue
            if spec['p'][key] in (0, False, None):
                continue
            cand = copy.deepcopy(spec)
            if key == 'history':
                cand['p'][key] = 1
            elif key == 'order':
                cand['p'][key] = 1
            else:
                cand['p'].pop(key)
            if cand != spec:
                if ('ts' in cand['p']) != ('dts' in cand['p']):
                    cand['p'].pop('ts', None)
                    cand['p'].pop('dts', None)
                yield cand
        for ii, cc in enumerate(spec['crashes']):
            if cc['back']:
                cand = copy.deepcopy(spec)
                cand['crashes'][ii]['back'] = 0
                yield cand

    def solve(self, spec, ctx, extra, outdir, crash, ref, first):
        seen = []
        state = {'step': None}

        def maybe(where, step):
            if crash and (crash['where'] == where) and (crash['step'] == step):
                ctx.fault('crash:' + where)
                raise SimCrash()

        hooks = {'bc': lambda ts: maybe('bc', ts.step),
                 'mat': lambda ts: maybe('mat', ts.step)}
        pb = build(spec, extra, outdir, hooks)

        def step_hook(pb, ts, variables):
            vals = P.var_values(pb)
            seen.append(ts.step)
            ctx.event('step', ts.step, repr(float(ts.time)),
                      *['%s=%.6e' % (kk, nm.linalg.norm(vals[kk]))
                        for kk in sorted(vals)])
            state['step'] = ts.step
            if ref is not None:
                ctx.probe('steps-compared' if not first
                          else 'steps-compared-first-life')
                self.compare(ctx, ref, ts.step, ts.time, vals)
            else:
                self.ref[ts.step] = (float(ts.time), vals)
            maybe('step', ts.step)

        def post(out, pb, variables, extend=False):
            maybe('post', state['step'])
            return out

        pb.solve(step_hook=step_hook, post_process_hook=post,
                 save_results=ref is not None, verbose=False)
        return pb, seen

    def compare(self, ctx, ref, step, time, vals):
        ctx.check(step in ref, 'extra-step',
                  lambda: 'step %s is not in the uninterrupted run' % step)
        rtime, rvals = ref[step]
        ctx.check(abs(rtime - time) <= 1e-10 * max(1.0, abs(rtime)),
                  'time-differs', lambda: 'step %d: time %r, uninterrupted %r'
                  % (step, time, rtime))
        for name in sorted(rvals):
            err = nm.abs(rvals[name] - vals[name]).max()
            ctx.check(err <= 1e-8 * self.scale, 'state-differs',
                      lambda: 'step %d: variable %s differs by %g from the'
                      ' uninterrupted run' % (step, name, err))

    def run(self, spec, ctx):
        self.ref = {}
        self.solve(spec, ctx, {}, 'ref', None, None, True)
        ref = self.ref
        self.scale = scale_of(ref)
        last = max(ref)
        load = None
        ctx.sim_time += (ref[last][0] - ref[0][0])
        lives = list(spec['crashes']) + [None]
        for il, crash in enumerate(lives):
            outdir = 'life%d' % il
            extra = {'save_restart': spec['mode']}
            k0 = -1
            if load is not None:
                extra['load_restart'] = load[1]
                k0 = load[0]
            ctx.event('life', il, 'from', k0, 'crash',
                      crash and (crash['step'], crash['where']))
            ctx.choice_made('life', il, k0, crash)
            seen0 = []
            pb = None
            try:
                pb, seen = self.solve(spec, ctx, extra, outdir, crash, ref,
                                      load is None)
                finished = True
            except SimCrash:
                finished = False

            if finished:
                ctx.check(seen == list(range(k0 + 1, last + 1)),
                          'steps-wrong',
                          lambda: 'resumed after step %d, computed steps %s,'
                          ' expected up to %d' % (k0, seen, last))
                vals = P.var_values(pb)
                for name in sorted(vals):
                    err = nm.abs(ref[last][1][name] - vals[name]).max()
                    ctx.check(err <= 1e-8 * self.scale, 'final-state-differs',
                              lambda: 'final state of %s differs by %g'
                              % (name, err))
                ctx.probe('finished')
                if crash is None or crash['where'] != 'end':
                    pass
            # The next life starts from the files only.
            found = {}
            for path in glob.glob('life*/out.restart-*.h5'):
                step = int(re.findall(r'restart-(\d+)', path)[0])
                life = int(path[4:path.index(os.sep)])
                if (step not in found) or (found[step][0] < life):
                    found[step] = (life, path)
            if crash is None or not found:
                if not found:
                    load = None
                continue
            steps = sorted(found)
            step = steps[max(0, len(steps) - 1 - crash['back'])]
            if not finished:
                ctx.probe('crashed')
            load = (step, os.path.abspath(found[step][1]))
            if step == last:
                ctx.probe('resume-after-last-step')

    def nontrivial(self, spec, res):
        return res['probes'].get('steps-compared', 0) > 0
