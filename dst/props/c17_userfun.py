"""
C17: failing user functions.

All user functions of a problem (materials, boundary and initial conditions,
condition activity, periodic matching, linear combination conditions, setters
of parameters, nonlinear terms, hooks) go through one simulated fault seam
that raises at seeded calls.  The failed operation is repeated on the same
problem; the oracle is a new problem in which nothing failed.
"""
import numpy as nm

from dst import core
from dst import problems as P


class SimFault(Exception):
    """Injected failure."""


ERRORS = {'sim': SimFault, 'key': KeyError, 'value': ValueError,
          'mem': MemoryError, 'os': OSError, 'attr': AttributeError,
          'zero': ZeroDivisionError, 'index': IndexError, 'type': TypeError,
          'stop': StopIteration, 'intr': KeyboardInterrupt}


class Seam(object):
    """The fault seam: all user function calls are numbered."""

    def __init__(self, ctx, faults):
        self.ctx = ctx
        self.faults = {ff['at']: ff for ff in faults}
        self.n = 0
        self.active = True
        self.raised = None
        self.names = []

    def wrap(self, name, fun, qp=False):
        def wrapped(*args, **kwargs):
            ii = self.n
            self.n += 1
            self.names.append(name)
            fault = self.faults.get(ii) if self.active else None
            if fault is not None:
                if (fault['err'] == 'shape'):
                    if qp and (kwargs.get('mode') == 'qp'):
                        self.raised = (name, 'shape')
                        self.ctx.fault('bad-shape:' + name)
                        out = fun(*args, **kwargs)
                        return {key: nm.ravel(val)
                                for key, val in out.items()}
                    exc = SimFault
                else:
                    exc = ERRORS[fault['err']]
                after = fault.get('after')
                if after:
                    fun(*args, **kwargs)
                self.raised = (name, exc.__name__)
                self.ctx.fault('raise:' + name)
                raise exc('simulated failure of ' + name)
            return fun(*args, **kwargs)
        return wrapped


def make_conf(p, seam):
    conf = P.heat_conf(p)
    # More kinds of user functions.

    def mat2(ts, coors, mode=None, **kwargs):
        if mode == 'special':
            if not p.get('special'):
                return None
            return {'.flag': 2.0 if p.get('kind2') == 'stationary'
                    else 2.0 + ts.time}
        if mode != 'qp':
            return
        val = 0.3 + 0.1 * coors[:, :1]
        if p.get('kind2') != 'stationary':
            val = val + 0.1 * nm.sin(ts.time)
        return {'c': val.reshape((-1, 1, 1)), 'd': 2.0 * val.reshape((-1, 1, 1))}
    conf['functions']['mat2'] = (mat2,)
    conf['materials']['m2'] = {'name': 'm2', 'function': 'mat2',
                               'kind': p.get('kind2', 'time-dependent')}
    conf['materials'] = dict(conf['materials'])
    eq = conf['equations']['TT']
    eq = eq.replace(' = 0', ' + dw_dot.i.Omega(m2.c, s, T)'
                    ' + dw_dot.i3.Omega(m2.d, s, T)')
    if p.get('surf'):
        eq += ' + dw_dot.i.Bottom(m2.c, s, T)'
    if p.get('param'):
        conf['variables']['q'] = ('parameter field', 't',
                                  {'setter': 'set_q'})

        def set_q(ts, coors, region=None, variable=None, **kwargs):
            return nm.cos(2.0 * ts.time + coors[:, 0])
        conf['functions']['set_q'] = (set_q,)
        eq += ' + dw_dot.i.Omega(k.c, s, q)'
    conf['equations']['TT'] = eq + ' = 0'
    conf['integrals'] = {'i': 2, 'i3': 3}
    if p.get('act'):
        # Active in odd steps only.
        def is_act(ts):
            return (ts.step % 2) == 1
        conf['functions']['is_act'] = (is_act,)
        conf['options']['active_only'] = False
        name, dofs = conf['ebcs']['right'][0], conf['ebcs']['right'][-1]
        conf['ebcs']['right'] = (name, 'is_act', dofs)
    if seam is not None:
        conf['functions'] = {
            key: (seam.wrap(key, val[0], qp=key.startswith('mat')),)
            for key, val in conf['functions'].items()}
        for key in ('nfun', 'ndfun'):
            if key in conf:
                conf[key] = seam.wrap(key, conf[key])
    return conf


def norm_of(val):
    return -1.0 if isinstance(val, str) else nm.linalg.norm(val)


class PROP(core.Property):
    id = 'C17'
    rule = ('one evaluation is one life of a problem with user functions'
            ' failing at seeded calls and the failed operations repeated;'
            ' non-trivial if at least one failure was injected and results'
            ' compared afterwards; distinct by event trace')
    real = ['Problem', 'Equations', 'Variables', 'Materials', 'Conditions',
            'Functions', 'LCBC operators', 'time-stepping solvers', 'Newton',
            'assembling']
    stub = ['failures raised in place of user function calls']
    assumptions = ['a failed operation is repeated from its beginning: the'
                   ' whole solve() call, or the update of the time step']
    n_quick = 700
    n_thorough = 20000
    quick_budget = 150.0

    def setup(self):
        P.quiet()
        import sfepy.solvers.ts_solvers  # noqa: F401

    def gen(self, rng, tier, index):
        t0 = 0.0
        n_step = rng.choice([2, 3, 4])
        p = {
            'shape': rng.choice([[3, 3], [4, 3]]), 'order': 1,
            'history': rng.choice([1, 1, 2]), 'use_prev': rng.random() < 0.4,
            'ebc_fun': rng.random() < 0.8, 'mat_fun': rng.random() < 0.8,
            'second': rng.random() < 0.3,
            'nonlinear': rng.choice([0, 0, 1.0]),
            'step_bc': rng.choice([0, 1]), 'n_step': n_step, 't0': t0,
            't1': 1.0, 'i_max': 6,
            'kind2': rng.choice(['time-dependent', 'stationary',
                                 'stationary']),
            'special': rng.random() < 0.5, 'surf': rng.random() < 0.4,
            'param': rng.random() < 0.4,
        }
        bck = rng.choice(['', '', 'act', 'lcbc', 'epbc', 'times', 'all_dofs'])
        if bck == 'times':
            p['times'] = [[t0, 0.55]]
        elif bck:
            p[bck] = True
        mode = rng.choice(['whole', 'steps', 'steps', 'steps', 'eval'])
        # About 5-15 calls of user functions per time step.
        faults, pos = [], 0
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            pos += rng.randrange(0, 18)
            faults.append({'at': pos, 'err': rng.choice(
                ['sim'] * 4 + ['shape', 'shape'] + sorted(ERRORS)),
                'after': rng.random() < 0.2})
            pos += 1
        # Sets of essential conditions of consecutive solve() calls.
        bcs = [rng.choice([255, 255, 0, 1, 2, 3, 5])
               for _ in range(rng.choice([0, 1, 1, 2]))]
        # Failures during the changes of conditions.
        chf = [[rng.randrange(0, 7), rng.choice(['sim', 'sim', 'mem',
                                                 'intr', 'value'])]
               for _ in range(rng.choice([0, 1, 1, 2]))]
        return {'p': p, 'mode': mode, 'faults': faults, 'bcs': bcs,
                'chf': chf}

    # Operations repeated upon failure.

    def attempt(self, ctx, seam, what, fun):
        for ii in range(60):
            seam.raised = None
            try:
                out = fun()
            except (Exception, KeyboardInterrupt) as exc:
                if seam.raised is None:
                    if isinstance(exc, core.Violation):
                        raise
                    ctx.violation('failure-after-fault',
                                  '%s failed with %s: %s although no user'
                                  ' function failed (call %d)'
                                  % (what, type(exc).__name__, exc, seam.n))
                    raise
                ctx.event('failed', what, seam.raised[0], seam.raised[1],
                          type(exc).__name__)
                ctx.probe('failed:' + what)
                continue
            ok = seam.raised is None
            if (not ok) and (seam.raised[0] in ('nfun', 'ndfun')
                             and seam.raised[1] == 'ValueError'):
                # Documented: Newton treats ValueError as a failed assembling.
                ctx.probe('value-error-handled-by-newton')
                continue
            ctx.check(ok, 'error-swallowed', lambda: '%s did not report the'
                      ' failure of %s (%s)' % ((what,) + seam.raised))
            return out
        raise core.HarnessError('too many attempts')

    def run(self, spec, ctx):
        getattr(self, 'run_' + spec['mode'])(spec, ctx)

    def special(self, p, pb):
        """The special material data."""
        if not p.get('special'):
            return {}
        try:
            return {'flag': pb.get_materials()['m2'].get_data(None, '.flag')}
        except Exception as exc:
            return {'flag': 'no special data (%s: %s)'
                    % (type(exc).__name__, exc)}

    def compare(self, ctx, ref, vals, what):
        for name in sorted(ref):
            if isinstance(vals[name], str):
                ctx.violation('missing-data', '%s: %s' % (what, vals[name]))
            rr = nm.asarray(ref[name])
            vv = nm.asarray(vals[name])
            ctx.check(rr.shape == vv.shape, 'shape-differs',
                      lambda: '%s: %s has shape %s, expected %s'
                      % (what, name, vv.shape, rr.shape))
            scale = max(1.0, nm.abs(rr).max())
            err = nm.abs(rr - vv).max()
            ctx.check(err <= 1e-8 * scale, 'result-differs',
                      lambda: '%s: %s differs by %g (scale %g) from the'
                      ' problem without failures' % (what, name, err, scale))
        ctx.probe('compared')

    def run_whole(self, spec, ctx):
        p = spec['p']

        def solve(pb, seam, out):
            def step_hook(pb, ts, variables):
                out[ts.step] = P.var_values(pb)
                out[ts.step].update(self.special(p, pb))
                ctx.event('step', ts.step, *[
                    '%s=%.6e' % (kk, norm_of(vv))
                    for kk, vv in sorted(out[ts.step].items())])
            if seam is not None:
                step_hook = seam.wrap('step_hook', step_hook)
            pb.solve(step_hook=step_hook, save_results=False, verbose=False)

        names = sorted(make_conf(p, None)['ebcs'])
        sets = [None]
        for mask in spec.get('bcs', []):
            sets.append([name for ii, name in enumerate(names)
                         if mask & (1 << ii)])
        refs = {}
        for key in sets:
            pb = P.make_problem(make_conf(p, None), 'ref')
            if key is not None:
                pb.select_bcs(ebc_names=key)
            refs[str(key)] = {}
            solve(pb, None, refs[str(key)])
        seam = Seam(ctx, spec['faults'])
        pb = self.attempt(ctx, seam, 'setup', lambda: P.make_problem(
            make_conf(p, seam), 'a'))
        for ir, key in enumerate(sets):
            out = {}
            ref = refs[str(key)]
            ctx.event('solve', ir, key)

            def change():
                pb.select_bcs(ebc_names=key)
            if key is not None:
                for ii, err in spec.get('chf', []):
                    seam.faults.setdefault(seam.n + ii, {'err': err})
                self.attempt(ctx, seam, 'change', change)

            def again():
                out.clear()
                if pb.get_timestepper() is not None:
                    # The convention for repeated solve() calls.
                    pb.get_timestepper().set_step()
                solve(pb, seam, out)
            self.attempt(ctx, seam, 'solve', again)
            ctx.check(sorted(ref) == sorted(out), 'steps-differ',
                      lambda: 'steps %s, expected %s'
                      % (sorted(out), sorted(ref)))
            for step in sorted(ref):
                self.compare(ctx, ref[step], out[step], 'solve %d, step %d'
                             % (ir, step))

    def run_steps(self, spec, ctx):
        p = spec['p']

        def simulate(seam):
            out = {}

            def go(what, fun):
                if seam is None:
                    return fun()
                return self.attempt(ctx, seam, what, fun)

            conf = make_conf(p, seam)
            pb = go('setup', lambda: P.make_problem(conf, 'a'))
            pb.init_solvers()
            tss = pb.get_solver()
            ts = tss.ts

            def init():
                pb.set_bcs()
                pb.set_ics()
                pb.init_time(ts)
                pb.time_update(ts)
                variables = pb.get_initial_state()
                return variables.get_state(pb.active_only,
                                           force=True).copy()
            vec = go('init', init)
            nls = pb.get_nls()
            nls.fun, nls.fun_grad, nls.iter_hook = pb.get_nls_functions()
            for step, time in ts:
                def update():
                    # The whole update of the time step is repeated.
                    pb.time_update(ts)
                    pb.equations.variables.set_state(vec, pb.active_only,
                                                     apply_ebc=False)
                    pb.update_materials(ts, verbose=False)
                go('update', update)
                vec0 = vec.copy()

                def solve():
                    return nls(vec0.copy())
                if step > 0:
                    vec = go('solve', solve)
                pb.equations.variables.set_state(vec, pb.active_only,
                                                 apply_ebc=True)
                vec = pb.equations.variables.get_state(pb.active_only).copy()
                vals = P.var_values(pb)
                vals['eval'] = go('evaluate', lambda: pb.evaluate(
                    'ev_integrate_mat.i3.Omega(m2.d, T)', mode='eval',
                    verbose=False))
                vals['time'] = time
                vals.update(self.special(p, pb))
                out[step] = vals
                if seam is not None:
                    ctx.event('step', step, *[
                        '%s=%.6e' % (kk, norm_of(vv))
                        for kk, vv in sorted(vals.items())])
                pb.advance(ts)
            return out

        ref = simulate(None)
        out = simulate(Seam(ctx, spec['faults']))
        for step in sorted(ref):
            self.compare(ctx, ref[step], out[step], 'step %d' % step)
        ctx.sim_time += 1.0

    def run_eval(self, spec, ctx):
        """Evaluations of expressions, several materials and times."""
        p = dict(spec['p'], nonlinear=0)
        exprs = ['ev_integrate_mat.i3.Omega(m2.d, T)',
                 'ev_integrate_mat.i.Omega(m2.c, T)',
                 'ev_grad.i.Omega(m2.c, T)',
                 'dw_laplace.i.Omega(m2.c, s, T)',
                 'dw_dot.i3.Omega(m2.d, s, T)']

        def simulate(seam):
            out = {}

            def go(what, fun):
                if seam is None:
                    return fun()
                return self.attempt(ctx, seam, what, fun)
            conf = make_conf(p, seam)
            pb = go('setup', lambda: P.make_problem(conf, 'a'))
            pb.init_solvers()
            ts = pb.get_solver().ts

            def init():
                pb.set_bcs()
                pb.set_ics()
                pb.init_time(ts)
                pb.time_update(ts)
                return pb.get_initial_state()
            go('init', init)
            for step, time in ts:
                go('update', lambda: (pb.time_update(ts),
                                      pb.update_materials(ts, verbose=False)))
                for ie, expr in enumerate(exprs):
                    mode = 'weak' if expr.startswith('dw') else 'eval'
                    out['%d-%d' % (step, ie)] = go('evaluate', lambda:
                        nm.array(pb.evaluate(expr, mode=mode, verbose=False)))
                if p.get('mat_fun') or p['history'] > 1:
                    out['%d-m' % step] = go('evaluate', lambda: nm.array(
                        pb.evaluate('ev_integrate_mat.i.Omega(m.D, T)',
                                    verbose=False)))
                if seam is not None:
                    ctx.event('step', step)
                pb.advance(ts)
            return out
        ref = simulate(None)
        out = simulate(Seam(ctx, spec['faults']))
        self.compare(ctx, ref, out, 'evaluate')

    def nontrivial(self, spec, res):
        return (sum(res['faults'].values()) > 0
                and res['probes'].get('compared', 0) > 0)
