"""
C13: elastodynamics with step control.

Real elastodynamics solvers run with scripted or real time step controllers;
seeded step rejections, repeated attempts, step size changes and spikes of the
controller's error estimate are injected.  Oracles: a model of the step
bookkeeping and of the documented controllers run attempt by attempt, and a
second simulation without cached matrices and factorizations that takes
exactly the accepted steps.
"""
import numpy as nm

from dst import core
from dst import problems as P


class Truncated(Exception):
    """The simulated run is long enough."""


def make_scripted(name, fun, dt0=None):
    from sfepy.base.base import Struct
    from sfepy.solvers.solvers import TimeStepController

    class ScriptedTSC(TimeStepController):
        def get_initial_dt(self, ts, vec, **kwargs):
            return ts.dt if dt0 is None else dt0

        def __call__(self, ts, vec0, vec1, **kwargs):
            new_dt, result = fun(ts, vec0, vec1)
            return new_dt, Struct(u_err=None, v_err=None, emax=None,
                                  result=result)
    ScriptedTSC.name = name
    return ScriptedTSC(Struct(name='scripted', kind=name))


def estimate(dt, vec0, vec1, unpack, par):
    """
    The error estimate of an attempt: the differences of the solution and of
    the backward Euler step with the same final velocities and accelerations.
    """
    out = []
    old, new = unpack(vec0), unpack(vec1)
    for ii, (ia, ib) in enumerate([(0, -2), (-2, -1)]):
        terr = new[ia] - (old[ia] + dt * new[ib])
        scale = par['eps_a'][ii] + par['eps_r'][ii] * nm.abs(terr)
        out.append(nm.sqrt(nm.mean((terr / scale)**2)))
    return max(out)


class CtrlModel(object):
    """The documented rules of the error-based controllers."""

    def __init__(self, kind, par):
        self.kind = kind
        self.par = dict({'fmin': 0.3, 'fmax': 2.5, 'fsafety': 0.8,
                         'error_order': 2.0, 'fred': 1.0, 'inc_wait': 10,
                         'min_finc': 1.5, 'pcoef': 0.0, 'icoef': 1.0,
                         'dcoef': 0.0}, **par)
        self.count = 0
        self.hist = [1.0, 1.0]

    def __call__(self, dt, emax):
        pp = self.par
        order = pp['error_order']
        ok = emax <= 1.0
        if self.kind == 'tsc.ed_pid':
            kp, ki, kd = (pp[ii] / order for ii in ('pcoef', 'icoef',
                                                    'dcoef'))
            e0, e1 = self.hist
            fac = (pp['fsafety'] * emax**(-(kp + ki + kd))
                   * e0**(kp + 2.0 * kd) * e1**(-kd))
            self.hist = [emax, e0]
            return dt * min(pp['fmax'], max(pp['fmin'], fac)), ok
        fac = pp['fsafety'] / emax**(1.0 / order)
        new = dt * (min(pp['fmax'], fac) if ok else max(pp['fmin'], fac))
        if self.kind == 'tsc.ed_linear':
            if not ok:
                self.count = 0
                new *= pp['fred']
            elif self.count < pp['inc_wait']:
                self.count += 1
                new = dt
            elif new / dt >= pp['min_finc']:
                self.count = 0
            else:
                new = dt
        return new, ok


class PROP(core.Property):
    id = 'C13'
    rule = ('one evaluation is one elastodynamics simulation with a seeded'
            ' sequence of accepted and rejected step attempts and step size'
            ' changes; non-trivial if at least one attempt was rejected or a'
            ' step size changed; distinct by event trace')
    real = ['Problem', 'elastodynamics solvers', 'VariableTimeStepper',
            'time step controllers', 'Newton', 'linear solvers',
            'assembling']
    stub = ['scripted time step controller (in part of the runs)',
            'error spikes: the vector shown to the real controller is'
            ' perturbed at seeded calls']
    assumptions = ['problems are linear; is_linear on uses cached constant'
                   ' matrices, has_time_derivatives is set when required by'
                   ' its documentation']
    n_quick = 500
    n_thorough = 12000
    quick_budget = 150.0

    def setup(self):
        P.quiet()
        import sfepy.solvers.ts_solvers  # noqa: F401

    def gen(self, rng, tier, index):
        tss = rng.choice(['newmark', 'newmark', 'generalized_alpha', 'bathe',
                          'velocity_verlet', 'central_difference'])
        explicit = tss in ('velocity_verlet', 'central_difference')
        n_step = rng.choice([2, 4, 6, 9])
        dt0 = rng.choice([0.002, 0.004]) if explicit else rng.choice(
            [0.004, 0.02])
        t0 = rng.choice([0.0, 0.0, 0.3])
        p = {
            'shape': rng.choice([[3, 3], [4, 3]]), 'tss': tss,
            'n_step': n_step, 't0': t0, 't1': t0 + dt0 * (n_step - 1),
            'damping': rng.random() < 0.5, 'load': rng.random() < 0.7,
            'is_linear': rng.random() < 0.75, 'v0': rng.choice([-1.0, 0.5]),
            'i_max': 1, 'eps_a': 1e-13,
            'ls_conf': rng.choice([
                {'use_presolve': True, 'use_mtx_digest': False},
                {'use_presolve': True, 'use_mtx_digest': True},
                {'use_presolve': False}]),
        }
        if not p['is_linear']:
            # The user's obligation with a changing matrix.
            p['ls_conf'] = rng.choice([
                {'use_presolve': True, 'use_mtx_digest': True},
                {'use_presolve': False}])
        if tss == 'newmark':
            p['extra'] = rng.choice(['', '', 'stat', 'deriv', 'prev'])
            p['ts_conf'] = rng.choice([{}, {'beta': 1.0 / 6, 'gamma': 0.5}])
        elif tss == 'generalized_alpha':
            p['ts_conf'] = {'rho_inf': rng.choice([0.5, 0.0, 1.0])}
        kind = rng.choice(['script', 'script', 'script', 'tsc.ed_basic',
                           'tsc.ed_linear', 'tsc.ed_pid',
                           'tsc.time_sequence'])
        out = {'p': p, 'kind': kind, 'par': {}, 'ops': [], 'dt0': dt0}
        facs = [0.1, 0.5, 0.5, 0.8, 1.0, 1.0, 1.3, 2.0]
        if kind == 'script':
            for _ in range(rng.choice([2, 5, 12, 25])):
                rej = rng.random() < rng.choice([0.1, 0.3, 0.6])
                out['ops'].append(['reject' if rej else 'accept',
                                   rng.choice(facs)])
        elif kind == 'tsc.time_sequence':
            tt, times = t0, []
            for _ in range(rng.choice([1, 3, 6])):
                tt += dt0 * rng.choice(facs)
                times.append(tt)
            if rng.random() < 0.7:
                times.append(max(tt, p['t1']) + dt0 * 0.5)
            out['par'] = {'times': times}
        else:
            eps = rng.choice([1e-3, 1e-2, 1e-1])
            out['par'] = {
                'eps_r': [1e-2 * eps, eps], 'eps_a': [1e-1 * eps, 10 * eps],
                'fmin': rng.choice([0.3, 0.1]), 'fmax': rng.choice([2.5, 1.5]),
                'fsafety': rng.choice([0.8, 0.95]),
                'guess_dt0': rng.random() < 0.2,
            }
            if kind == 'tsc.ed_linear':
                out['par'].update({'fred': rng.choice([1.0, 0.9]),
                                   'inc_wait': rng.choice([0, 1, 3, 10]),
                                   'min_finc': rng.choice([1.0, 1.5])})
            elif kind == 'tsc.ed_pid':
                out['par'].update({'pcoef': rng.choice([0.0, 0.4]),
                                   'icoef': rng.choice([1.0, 0.3]),
                                   'dcoef': rng.choice([0.0, 0.1])})
            out['ops'] = sorted(set(rng.randrange(0, 20)
                                    for _ in range(rng.choice([0, 1, 3, 6]))))
        return out

    def run(self, spec, ctx):
        p = spec['p']
        kind = spec['kind']
        ops = spec['ops']
        max_calls, max_acc = 80, 30
        conf = dict(p)
        if kind != 'script':
            conf['tsc'] = kind
            par = dict(spec['par'])
            conf['tsc_conf'] = par
        else:
            # A controller is needed for the variable time stepper.
            conf['tsc'] = 'tsc.time_sequence'
            conf['tsc_conf'] = {'times': [1.0]}
        explicit = p['tss'] in ('velocity_verlet', 'central_difference')
        dt_cap = spec['dt0'] * (2.0 if explicit else 10.0)

        st = {'n': 0, 'dt': None, 't': p['t0'], 'vec0': None, 'step': 1,
              'last': None}
        acc = {}
        pb = P.make_problem(P.ed_conf(conf), 'a')
        pb.init_solvers()
        tss = pb.get_solver()
        model = (CtrlModel(kind, spec['par']) if kind.startswith('tsc.ed_')
                 else None)

        def track(ts, vec0, new_dt, result):
            """The step bookkeeping model."""
            if st['n'] == 1:
                st['dt'] = st['dt_first']
            want = st['t'] + st['dt']
            ctx.event('attempt', st['n'], 'step', ts.step, 'time',
                      '%.12g' % ts.time, 'dt', '%.12g' % ts.dt,
                      result, '%.12g' % new_dt)
            ctx.check(abs(ts.time - want) <= 1e-9 * max(1.0, abs(want)),
                      'attempt-time', lambda: 'attempt %d is at time %.15g,'
                      ' expected %.15g' % (st['n'], ts.time, want))
            ctx.check(abs(ts.dt - st['dt']) <= 1e-12 * st['dt'],
                      'attempt-dt', lambda: 'attempt %d has dt %.15g, expected'
                      ' %.15g' % (st['n'], ts.dt, st['dt']))
            ctx.check(ts.step == st['step'], 'attempt-step',
                      lambda: 'attempt in step %d, expected %d'
                      % (ts.step, st['step']))
            if st['vec0'] is not None:
                ctx.check(nm.array_equal(vec0, st['vec0']), 'start-state',
                          lambda: 'attempt %d of step %d starts from a'
                          ' modified state' % (st['n'], ts.step))
            st['vec0'] = vec0.copy()
            if result == 'accept':
                st['t'] = ts.time
                st['step'] += 1
                st['vec0'] = None
            else:
                ctx.probe('rejected')
            if new_dt != ts.dt:
                ctx.probe('dt-changed')
            st['dt'] = new_dt
            st['last'] = (result, ts.step)

        def scripted(ts, vec0, vec1):
            ii = st['n']
            st['n'] += 1
            if st['n'] > max_calls:
                raise Truncated()
            result, fac = ops[ii] if ii < len(ops) else ('accept', 1.0)
            if result == 'reject':
                ctx.fault('step-rejected')
            new_dt = ts.dt * fac
            if (new_dt > dt_cap) or (new_dt < 0.05 * spec['dt0']):
                new_dt = ts.dt
            track(ts, vec0, new_dt, result)
            return new_dt, result

        if kind == 'script':
            st['dt_first'] = spec['dt0']
            tss.tsc = make_scripted('tsc.scripted', scripted)
        else:
            real = tss.tsc
            base = type(real)

            class Watched(base):
                def get_initial_dt(self, ts, vec, **kwargs):
                    dt = base.get_initial_dt(self, ts, vec, **kwargs)
                    st['dt_first'] = dt
                    if explicit and dt > dt_cap:
                        raise Truncated()
                    return dt

                def __call__(self, ts, vec0, vec1, **kwargs):
                    ii = st['n']
                    st['n'] += 1
                    if st['n'] > max_calls:
                        raise Truncated()
                    seen = vec1
                    if ii in ops:
                        ctx.fault('error-spike')
                        seen = vec1 + 10.0 * nm.cos(nm.arange(len(vec1)))
                    new_dt, status = base.__call__(self, ts, vec0, seen,
                                                   **kwargs)
                    if model is not None:
                        emax = estimate(ts.dt, vec0, seen,
                                        kwargs['unpack'], spec['par'])
                        ctx.check(abs(status.emax - emax)
                                  <= 1e-9 * max(emax, 1e-300),
                                  'control-error', lambda: '%s: error %.15g'
                                  ' of the attempt, expected %.15g'
                                  % (kind, status.emax, emax))
                        mdt, mok = model(ts.dt, status.emax)
                        ctx.check(mok == (status.result == 'accept'),
                                  'control-decision',
                                  lambda: 'error %g: %s' % (status.emax,
                                                            status.result))
                        ctx.check(abs(mdt - new_dt) <= 1e-9 * mdt,
                                  'control-dt', lambda: '%s: error %.15g, dt'
                                  ' %.15g: new dt %.15g, documented rule gives'
                                  ' %.15g' % (kind, status.emax, ts.dt,
                                              new_dt, mdt))
                    track(ts, vec0, new_dt, status.result)
                    if new_dt > dt_cap:
                        ctx.probe('dt-cap')
                        st['stop'] = True
                    return new_dt, status
            real.__class__ = Watched

        def step_hook(pb, ts, variables):
            vals = P.var_values(pb)
            ctx.event('accepted', ts.step, '%.12g' % ts.time,
                      *['%s=%.6e' % (kk, nm.linalg.norm(vals[kk]))
                        for kk in sorted(vals)])
            ctx.check(ts.step == len(acc), 'step-order',
                      lambda: 'step %d finished after %d steps'
                      % (ts.step, len(acc)))
            if ts.step > 0:
                ctx.check(st['last'] == ('accept', ts.step), 'rejected-used',
                          lambda: 'step %d finished after %s'
                          % (ts.step, st['last']))
                ctx.check(ts.time > acc[ts.step - 1][0],
                          'time-not-increasing', 'time did not increase')
                ctx.check((acc[ts.step - 1][0] - p['t0'])
                          / (p['t1'] - p['t0']) < 1.0 + 1e-14,
                          'steps-after-end', 'a step after the final time')
            acc[ts.step] = (float(ts.time), vals)
            if st.get('stop') or (len(acc) > max_acc):
                raise Truncated()

        truncated = False
        res = None
        try:
            res = pb.solve(step_hook=step_hook, save_results=False,
                           verbose=False)
        except Truncated:
            truncated = True
            ctx.probe('truncated')
        if not acc:
            return
        last = max(acc)
        times = [acc[ii][0] for ii in range(last + 1)]
        ctx.sim_time += times[-1] - times[0]
        if not truncated:
            ctx.check(times[-1] >= p['t1'] - 1e-9, 'ended-early',
                      lambda: 'ended at %r before %r' % (times[-1], p['t1']))
            vals = P.var_values(pb)
            for name in sorted(vals):
                ctx.check(nm.array_equal(vals[name], acc[last][1][name]),
                          'returned-state', lambda: 'the returned state of %s'
                          ' is not the one of the last step' % name)
        if kind == 'tsc.time_sequence':
            want = [tt for tt in spec['par']['times'] if tt <= p['t1'] + 1e-12]
            want = want[:len(times) - 1]
            got = times[1:len(want) + 1]
            ctx.check(nm.allclose(got, want, rtol=0, atol=1e-10),
                      'time-sequence', lambda: 'times %s, requested %s'
                      % (got, want))
        if last == 0:
            return

        # The simulation without caches, taking the accepted steps only.
        conf2 = dict(conf, is_linear=False, ls_conf={'use_presolve': False},
                     tsc='tsc.time_sequence', tsc_conf={'times': [1.0]})
        dts = [times[ii + 1] - times[ii] for ii in range(last)]
        pb2 = P.make_problem(P.ed_conf(conf2), 'b')
        pb2.init_solvers()
        tss2 = pb2.get_solver()

        def accept(ts, vec0, vec1):
            return (dts[ts.step] if ts.step < last else ts.dt), 'accept'
        tss2.tsc = make_scripted('tsc.scripted', accept, dts[0])
        ref = {}

        def step_hook2(pb, ts, variables):
            ref[ts.step] = (float(ts.time), P.var_values(pb))
            if ts.step >= last:
                ts.nt = max(ts.nt, 1.0)
            elif ts.nt >= 1.0:
                ts.nt = 1.0 - 1e-12
        pb2.solve(step_hook=step_hook2, save_results=False, verbose=False)
        ctx.check(sorted(ref) == sorted(acc), 'replay-steps',
                  lambda: 'steps %s, replayed %s' % (sorted(acc), sorted(ref)))
        # Division by dt**2 in some methods amplifies the rounding errors.
        atol = 1e-14 / min(dts)**2
        for step in sorted(acc):
            for name in sorted(acc[step][1]):
                rr = ref[step][1][name]
                scale = max(1.0, nm.abs(rr).max())
                err = nm.abs(acc[step][1][name] - rr).max()
                ctx.check(err <= 1e-6 * scale + atol, 'history-dependence',
                          lambda: 'step %d: %s differs by %g (scale %g) from'
                          ' the simulation that takes the accepted steps only'
                          ' without caches' % (step, name, err, scale))
                ctx.probe('states-compared')

    def nontrivial(self, spec, res):
        return (res['probes'].get('rejected', 0)
                + res['probes'].get('dt-changed', 0)) > 0


