"""
C12: adaptive time stepping with failing nonlinear solves.

The nonlinear solver of a real transient problem fails at seeded attempts
(claimed non-convergence with a garbage vector, slow convergence, honest
non-convergence by a low iteration limit); oracles: the documented step size
control as a reference model run attempt by attempt, and a second, fault-free
simulation taking exactly the accepted time steps.
"""
import numpy as nm

from dst import core
from dst import problems as P


class Truncated(Exception):
    """The simulated run is long enough."""


class Model(object):
    """The documented adaptivity rules."""

    def __init__(self, t0, dt0, par):
        self.dt0 = dt0
        self.par = par
        self.red = 1.0
        self.wait = 0
        self.dt = dt0
        self.t = t0

    def attempt_time(self):
        return self.t + self.dt

    def attempt(self, condition, n_iter):
        par = self.par
        if condition == 0:
            accepted_dt = self.dt
            self.t = self.t + accepted_dt
            if n_iter <= par['dt_inc_on_iter']:
                self.wait += 1
                if self.wait > par['dt_inc_wait']:
                    if self.red < 1.0:
                        self.red *= par['dt_inc_factor']
                        self.dt = self.dt0 * self.red
                    self.wait = 0
            else:
                self.wait = 0
            return True

        red = self.red * par['dt_red_factor']
        if red < par['dt_red_max']:
            # The reduction limit was reached, go on.
            self.t = self.t + self.dt
            return True
        self.red = red
        self.dt = self.dt0 * red
        self.wait = 0
        return False


class PROP(core.Property):
    id = 'C12'
    rule = ('one evaluation is one adaptive simulation with a seeded sequence'
            ' of failing attempts; non-trivial if at least one attempt was'
            ' rejected; distinct by event trace')
    real = ['Problem', 'ts.adaptive', 'VariableTimeStepper', 'Newton',
            'linear solvers', 'assembling', 'materials', 'boundary conditions']
    stub = ['outcome of seeded nonlinear solver calls (status and vector'
            ' replaced after the real solve)']
    assumptions = ['faulty solves report a non-zero condition, as documented']
    n_quick = 500
    n_thorough = 12000
    quick_budget = 150.0

    def setup(self):
        P.quiet()
        import sfepy.solvers.ts_solvers  # noqa: F401

    def gen(self, rng, tier, index):
        t0 = rng.choice([0.0, 0.0, 1.0, -0.5])
        n_step = rng.choice([3, 4, 6])
        p = {
            'shape': rng.choice([[3, 3], [4, 3]]),
            'order': 1, 'history': rng.choice([1, 1, 2]),
            'use_prev': rng.random() < 0.5,
            'ebc_fun': rng.random() < 0.8,
            'mat_fun': rng.random() < 0.8,
            'second': rng.random() < 0.3,
            'nonlinear': rng.choice([0, 1.0]),
            'quasi': rng.random() < 0.2,
            'all_dofs': rng.random() < 0.3,
            'step_bc': rng.choice([0, 0, 1]),
            'n_step': n_step, 't0': t0, 't1': t0 + rng.choice([1.0, 2.0]),
            'i_max': 8, 'ts': 'adaptive', 'save_times': 'all',
        }
        if rng.random() < 0.3:
            p['times'] = [[t0, t0 + rng.choice([0.3, 0.55])]]
        par = {
            'dt_red_factor': rng.choice([0.2, 0.5, 0.5, 0.7]),
            'dt_red_max': rng.choice([1e-3, 0.04, 0.1, 0.25, 0.3, 0.5]),
            'dt_inc_factor': rng.choice([1.25, 1.25, 2.0]),
            'dt_inc_on_iter': rng.choice([4, 1, 2, 0]),
            'dt_inc_wait': rng.choice([0, 1, 2, 5]),
        }
        p['adapt'] = par
        # Fault sequence over solver attempts.
        n = rng.choice([1, 2, 3, 5, 8])
        faults = []
        pos = 0
        for ii in range(n):
            pos += rng.choice([0, 1, 1, 2, 3, 4])
            burst = rng.choice([1, 1, 1, 2, 3, 6])
            for jj in range(burst):
                faults.append({'at': pos,
                               'cond': rng.choice([1, 1, 1, 2]),
                               'kind': rng.choice(['garbage', 'garbage',
                                                   'zero', 'keep', 'slow']),
                               'amp': rng.choice([0.01, 1.0, 100.0])})
                pos += 1
        return {'p': p, 'faults': faults}

    def install(self, pb, on_call):
        """Put the simulated solver outcomes behind the problem's nonlinear
        solver."""
        pb.init_solvers()
        nls = pb.get_nls()
        base = type(nls)

        class FaultyNLS(base):
            def __call__(self, vec_x0, *args, **kwargs):
                status = kwargs.get('status', None)
                if status is None:
                    status = self.status
                vec_in = vec_x0.copy()
                vec = base.__call__(self, vec_x0, *args, **kwargs)
                return on_call(pb.get_timestepper(), status, vec, vec_in)
        nls.__class__ = FaultyNLS

    @staticmethod
    def corrupt(vec, vec_in, fault):
        if fault['kind'] == 'garbage':
            ii = nm.arange(vec.shape[0])
            return vec + fault['amp'] * nm.cos(3.0 * ii)
        if fault['kind'] == 'zero':
            return nm.zeros_like(vec)
        return vec

    def run(self, spec, ctx):
        p = dict(spec['p'])
        faults = {ff['at']: ff for ff in spec['faults']}
        par = p['adapt']
        max_attempts = 150

        # 1. Simulation with failing solves.
        pb = P.make_problem(P.heat_conf(p), 'a')
        ts = None
        n_call = [0]
        calls = []
        accepted_fault = {}
        acc = {}
        dt0 = (p['t1'] - p['t0']) / max(p['n_step'] - 1, 1)
        model = Model(p['t0'], dt0, par)
        last_call = {}

        def on_call(ts, status, vec, vec_in):
            if ts.step == 0:
                # The quasistatic initial solve is not subject to adaptivity.
                return vec
            ia = n_call[0]
            n_call[0] += 1
            if n_call[0] > max_attempts:
                raise Truncated()
            fault = faults.get(ia)
            if fault is not None:
                ctx.fault(fault['kind'])
                if fault['kind'] == 'slow':
                    status['n_iter'] = 50
                else:
                    status['condition'] = fault['cond']
                    vec = self.corrupt(vec, vec_in, fault)
            cond, n_iter = int(status['condition']), int(status['n_iter'])
            ctx.event('attempt', ia, 'step', ts.step, 'time',
                      '%.12g' % ts.time, 'dt', '%.12g' % ts.dt, 'cond', cond,
                      'n_iter', n_iter)
            want = model.attempt_time()
            ctx.check(abs(ts.time - want) <= 1e-9 * max(1.0, abs(want)),
                      'attempt-time',
                      lambda: 'attempt %d (step %d) is at time %.15g, the'
                      ' step size control gives %.15g'
                      % (ia, ts.step, ts.time, want))
            ctx.check(abs(ts.dt - model.dt) <= 1e-9 * model.dt, 'attempt-dt',
                      lambda: 'attempt %d: dt %.15g, expected %.15g'
                      % (ia, ts.dt, model.dt))
            floor = dt0 * par['dt_red_max']
            ctx.check(ts.dt >= floor * (1 - 1e-9), 'dt-below-floor',
                      lambda: 'dt %g is below the reduction limit %g'
                      % (ts.dt, floor))
            ok = model.attempt(cond, n_iter)
            if ok:
                accepted_fault[ts.step] = (fault if cond != 0 else None,
                                           ts.time)
                if cond != 0:
                    ctx.probe('accepted-at-limit')
            else:
                ctx.probe('rejected')
            last_call['ok'] = ok
            last_call['step'] = ts.step
            calls.append((ts.step, ok))
            return vec

        self.install(pb, on_call)

        def step_hook(pb, ts, variables):
            vals = P.var_values(pb)
            ctx.event('accepted', ts.step, '%.12g' % ts.time,
                      *['%s=%.6e' % (kk, nm.linalg.norm(vals[kk]))
                        for kk in sorted(vals)])
            ctx.check(ts.step not in acc, 'step-repeated',
                      lambda: 'step %d was finished twice' % ts.step)
            ctx.check(ts.step == len(acc), 'step-skipped',
                      lambda: 'step %d finished after %d steps'
                      % (ts.step, len(acc)))
            if ts.step > 0:
                ctx.check(last_call.get('ok') and
                          last_call.get('step') == ts.step, 'rejected-used',
                          'a rejected attempt was taken as a finished step')
                ctx.check(ts.time > acc[ts.step - 1][0], 'time-not-increasing',
                          'time did not increase')
                # Up to rounding - no tolerance as the stepper has none.
                ctx.check((acc[ts.step - 1][0] - p['t0'])
                          / (p['t1'] - p['t0']) < 1.0 + 1e-14,
                          'steps-after-end', 'a step after the final time')
            acc[ts.step] = (float(ts.time), vals)

        truncated = False
        try:
            pb.solve(step_hook=step_hook, save_results=False, verbose=False)
        except Truncated:
            truncated = True
            ctx.probe('truncated')
        ts = pb.get_timestepper()
        ctx.sim_time += ts.time - p['t0']
        times = [acc[ii][0] for ii in range(len(acc))]
        if not truncated:
            ctx.check(ts.time >= p['t1'] - 1e-9, 'ended-early',
                      lambda: 'ended at %r before %r' % (ts.time, p['t1']))
            ctx.check(len(ts.times) == len(times)
                      and nm.allclose(ts.times, times, rtol=1e-12,
                                      atol=1e-12),
                      'times-list', lambda: 'recorded times %s, accepted %s'
                      % (list(ts.times), times))

        # 2. The fault-free simulation of the accepted steps only.
        p2 = dict(p)
        dts = [times[ii + 1] - times[ii] for ii in range(len(times) - 1)]
        last = len(times) - 1

        def adapt_fun(ts, status, adt, context=None, verbose=False):
            ii = ts.step
            if ii < last:
                ts.set_time_step(dts[ii])
            return True
        p2['adapt'] = {'adapt_fun': adapt_fun}
        pb2 = P.make_problem(P.heat_conf(p2), 'b')

        def on_call2(ts, status, vec, vec_in):
            fault = accepted_fault.get(ts.step, (None,))[0]
            if (ts.step > 0) and fault is not None:
                vec = self.corrupt(vec, vec_in, fault)
            return vec
        self.install(pb2, on_call2)
        ref = {}

        def step_hook2(pb, ts, variables):
            ref[ts.step] = (float(ts.time), P.var_values(pb))
            if (ts.step == 0) and len(dts):
                ts.set_time_step(dts[0])
            if ts.step >= last:
                # Rounding of the replayed time steps must not add a step.
                ts.nt = max(ts.nt, 1.0)
            elif ts.nt >= 1.0:
                ts.nt = 1.0 - 1e-12
        pb2.solve(step_hook=step_hook2, save_results=False, verbose=False)

        ctx.check(sorted(ref) == sorted(acc), 'replay-steps',
                  lambda: 'steps %s, replayed %s' % (sorted(acc), sorted(ref)))
        scale = max(1.0, max(nm.abs(vv).max() for _, vals in ref.values()
                             for vv in vals.values()))
        for step in sorted(acc):
            for name in sorted(acc[step][1]):
                err = nm.abs(acc[step][1][name] - ref[step][1][name]).max()
                ctx.check(err <= 1e-6 * scale, 'trace-of-rejected-step',
                          lambda: 'step %d: %s differs by %g (scale %g) from'
                          ' the simulation that takes the accepted steps only'
                          % (step, name, err, scale))
                ctx.probe('states-compared')

    def nontrivial(self, spec, res):
        return res['probes'].get('rejected', 0) > 0
