"""
C15: nonlinear (and optimization) solvers report convergence honestly.

The solvers run on small systems with seeded failures: residuals that fail
(the "warp violation" ValueError) in given calls or regions, residuals with
NaNs, inexact, wrong and failing linear solutions, wrong Jacobians, reused
buffers.  Every reported quantity is checked by a clean evaluation of the
system at the returned vector.
"""
import numpy as nm
import numpy.linalg as nla
import scipy.sparse as sps

from dst import core
from dst import problems as P

KINDS = ['newton'] * 6 + ['semismooth'] * 3 + ['oseen'] * 2 + [
    'scipy_root', 'fmin_sd', 'scipy_fmin']
ROOT = ['hybr', 'lm', 'broyden1', 'broyden2', 'anderson', 'linearmixing',
        'diagbroyden', 'excitingmixing', 'krylov', 'df-sane']
FMIN = ['fmin', 'fmin_bfgs', 'fmin_cg', 'fmin_powell', 'fmin_ncg',
        'fmin_l_bfgs_b', 'fmin_tnc', 'fmin_slsqp']


class Injected(Exception):
    """An injected failure of a callback."""


class Warp(ValueError):
    """An injected failure of the residual evaluation."""


class System(object):
    """
    The system f(x) = 0 with injected faults.
    """

    def __init__(self, spec, ctx=None):
        rng = nm.random.RandomState(spec['salt'])
        n = self.n = spec['n']
        self.spec = spec
        self.ctx = ctx
        self.A = rng.uniform(-1, 1, (n, n))
        if spec['spd']:
            self.A = self.A @ self.A.T + 0.5 * nm.eye(n)
        else:
            self.A += n * nm.eye(n)
        self.c = rng.uniform(0.1, 1, n) * spec['cubic']
        self.s = rng.uniform(0.5, 3, n) * spec['sine']
        xs = rng.uniform(-1, 1, n)
        self.b = 0
        self.b = self.pure(xs)
        if spec['nosol']:
            # A term without a zero.
            self.b = self.b + 0.0
            self.extra = 1.0 + nm.abs(rng.uniform(0, 1))
        else:
            self.extra = 0.0
        self.x0 = rng.uniform(-1, 1, n) * spec['far']
        if spec['exact0']:
            self.x0 = xs + spec['exact0'] * rng.uniform(-1, 1, n)
        self.buf = nm.zeros(n)
        self.calls = []
        self.n_warp = 0
        self.n_nan = 0
        self.n_solve = 0
        self.solved_at = []
        self.n_resolve = 0
        self.n_grad = 0
        self.solves_after_warp = 0
        self.lin_iters = 0
        self.raised = []
        self.faults = {ff['at']: ff for ff in spec['faults']
                       if ff['on'] == 'fun'}
        self.lfaults = {ff['at']: ff for ff in spec['faults']
                        if ff['on'] == 'lin'}
        self.gfaults = {ff['at']: ff for ff in spec['faults']
                        if ff['on'] == 'grad'}

    def pure(self, x):
        with nm.errstate(all='ignore'):
            out = (self.A @ x + self.c * x**3
                   + self.s * nm.sin(3.0 * x) - self.b)
            if getattr(self, 'extra', 0.0):
                out[0] = self.extra + x[0]**2
        return out

    def warped(self, x):
        rr = self.spec['warp']
        with nm.errstate(all='ignore'):
            return (rr is not None) and not (nm.abs(x).max()
                                             <= rr + nm.abs(self.x0).max())

    def note(self, kind):
        if self.ctx is not None:
            self.ctx.fault(kind)

    def fun(self, x, *args, **kwargs):
        ii = len(self.calls)
        xc = nm.array(x, copy=True)
        ff = self.faults.get(ii)
        if ((ff is not None) and (ff['kind'] == 'warp')) or self.warped(xc):
            self.note('warp')
            self.calls.append((xc, 'warp'))
            self.n_warp += 1
            raise Warp('warp violation')
        if (ff is not None) and (ff['kind'] == 'raise'):
            self.note('fun raise')
            self.calls.append((xc, 'raise'))
            self.raised.append('fun')
            raise Injected('fun')
        out = self.pure(xc)
        self.calls.append((xc, 'ok'))
        if (ff is not None) and (ff['kind'] == 'nan'):
            self.note('fun nan')
            out[ii % self.n] = [nm.nan, nm.inf][ff['arg'] % 2]
            self.n_nan += 1
        if self.spec['reuse']:
            self.buf[:] = out
            return self.buf
        return out

    def jac(self, x):
        with nm.errstate(all='ignore'):
            out = self.A + nm.diag(3 * self.c * x**2
                                   + 3.0 * self.s * nm.cos(3.0 * x))
            if self.extra:
                out[0] = 0.0
                out[0, 0] = 2.0 * x[0] + 1e-3
        return out

    def fun_grad(self, x, *args, **kwargs):
        ii = self.n_grad
        self.n_grad += 1
        if isinstance(x, str):
            x = self.x0
        ff = self.gfaults.get(ii)
        mtx = self.jac(nm.asarray(x))
        if ff is not None:
            self.note('grad ' + ff['kind'])
            if ff['kind'] == 'raise':
                self.raised.append('grad')
                raise Injected('grad')
            if ff['kind'] == 'wrong':
                mtx = mtx * (0.2 + (ff['arg'] % 5)) * (-1) ** (ff['arg'] % 2)
        mtx[nm.abs(mtx) < 1e-300] = 1e-300
        cls = [sps.csr_matrix, sps.csr_array][self.spec['salt'] % 2]
        return cls(mtx)

    def solve(self, rhs, mtx):
        """The linear solution with faults."""
        ii = self.n_solve + self.n_resolve
        ff = self.lfaults.get(ii)
        aa = mtx.toarray()
        with nm.errstate(all='ignore'):
            try:
                x = nla.solve(aa, nm.asarray(rhs))
            except nla.LinAlgError:
                x = nm.full(self.n, nm.nan)
        if ff is not None:
            self.note('lin ' + ff['kind'])
            kind = ff['kind']
            if kind == 'raise':
                self.raised.append('lin')
                raise Injected('lin')
            if kind == 'nan':
                x[0] = nm.nan
            elif kind == 'zero':
                x[:] = 0.0
            elif kind == 'wrong':
                x *= -0.5
            elif kind == 'inexact':
                x *= 1.0 + 1e-3 * (1 + ff['arg'] % 7)
            elif kind == 'huge':
                x *= 1e6
        return x


def get_tolerance():
    return None, None


class LinSolver(object):
    """
    The protocol of linear solvers.
    """

    def __init__(self, system, spec):
        self.system = system
        self.mtx = None
        self.buf = nm.zeros(system.n)
        self.iterative = spec['iterative']
        self.reuse = spec['reuse']

    def get_tolerance(self):
        return (1e-14, 1e-14) if self.iterative else (None, None)

    def __call__(self, rhs, x0=None, conf=None, eps_a=None, eps_r=None,
                 i_max=None, mtx=None, status=None, **kwargs):
        sy = self.system
        resolve = mtx is None
        if resolve:
            mtx = self.mtx
        if mtx is None:
            raise core.HarnessError('no matrix')
        x = sy.solve(rhs, mtx)
        if resolve:
            sy.n_resolve += 1
            if sy.ctx is not None:
                sy.ctx.check((abs(mtx - self.last)).max() == 0.0,
                             'resolve-matrix', 'a repeated solve with another'
                             ' matrix than that of the iteration')
                sy.ctx.probe('repeated solves')
        else:
            sy.n_solve += 1
            self.last = mtx.copy()
            sy.solved_at.append(len(sy.calls))
            if sy.n_warp:
                sy.solves_after_warp += 1
        num = 3 + sy.n_solve if self.iterative else -1
        if not resolve:
            sy.lin_iters += num
        if status is not None:
            status['n_iter'] = num
            status['condition'] = 0
        if self.reuse:
            self.buf[:] = x
            return self.buf
        return x


class PROP(core.Property):
    id = 'C15'
    rule = ('one evaluation is one seeded sequence of calls of one solver;'
            ' non-trivial if a fault was injected; distinct by event trace')
    real = ['Newton, line searches, conv_test, SemismoothNewton, Oseen,'
            ' ScipyRoot, FMinSteepestDescent, ScipyFMinSolver',
            'scipy.optimize']
    stub = ['residual, Jacobian and linear solver callbacks',
            'Problem and stabilization objects of the Oseen solver']
    assumptions = ['the callbacks are deterministic functions of their'
                   ' arguments up to the injected faults']
    n_quick = 20000
    n_thorough = 200000
    quick_budget = 120.0
    run_timeout = 40.0

    def setup(self):
        P.quiet()
        import sfepy.solvers.nls  # noqa
        import sfepy.solvers.oseen  # noqa
        import sfepy.solvers.semismooth_newton  # noqa
        import sfepy.solvers.optimize  # noqa

    # -- generation -------------------------------------------------------
    def gen(self, rng, tier, index):
        kind = rng.choice(KINDS)
        faults = []
        if kind in ('newton', 'semismooth', 'oseen'):
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                on = rng.choice(['fun', 'fun', 'fun', 'lin', 'lin', 'grad'])
                fk = {'fun': ['warp', 'warp', 'warp', 'nan', 'raise'],
                      'lin': ['raise', 'nan', 'zero', 'wrong', 'inexact',
                              'inexact', 'huge'],
                      'grad': ['raise', 'wrong', 'wrong']}[on]
                faults.append({'on': on, 'kind': rng.choice(fk),
                               'at': rng.choice([0, 1, 1, 2, 3, 4, 6, 9]),
                               'arg': rng.randrange(100)})
            if rng.random() < 0.3:
                # Failures in consecutive calls.
                at = rng.randrange(1, 6)
                for ii in range(rng.choice([2, 3, 5])):
                    faults.append({'on': 'fun', 'kind': 'warp',
                                   'at': at + ii, 'arg': 0})
        spec = {'kind': kind, 'n': rng.choice([1, 2, 3, 5]),
                'salt': rng.randrange(1 << 20), 'spd': rng.random() < 0.5,
                'cubic': rng.choice([0.0, 1.0, 5.0]),
                'sine': rng.choice([0.0, 0.0, 1.0]),
                'nosol': rng.random() < 0.15,
                'far': rng.choice([0.0, 1.0, 3.0, 30.0]),
                'exact0': rng.choice([0.0, 0.0, 0.0, 1e-12, 1e-5]),
                'warp': rng.choice([None, None, None, 0.1, 1.0]),
                'reuse': rng.random() < 0.3,
                'iterative': rng.random() < 0.4,
                'faults': faults, 'n_call': rng.choice([1, 1, 2, 3]),
                'fresh': rng.random() < 0.5,
                'i_max': rng.choice([0, 1, 2, 3, 5, 8, 30]),
                'eps_a': rng.choice([1e-10, 1e-8, 1e-4, 1e-1, 10.0]),
                'eps_r': rng.choice([1.0, 1.0, 1e-3, 1e-8, 10.0]),
                'eps_mode': rng.choice(['and', 'and', 'or']),
                'ls_mode': rng.choice(['residual', 'residual', 'error']),
                'ls_fun': rng.choice(['bt', 'bt', 'bt', 'ainc']),
                'ls_on': rng.choice([0.99999, 0.5, 10.0]),
                'ls_red': rng.choice([0.1, 0.5]),
                'ls_red_warp': rng.choice([0.001, 0.1, 0.5]),
                'ls_min': rng.choice([1e-5, 1e-2, 0.3]),
                'give_up_warp': rng.random() < 0.3,
                'step_red': rng.choice([1.0, 1.0, 0.5]),
                'lin_red': rng.choice([1.0, None, 1e-3]),
                'lin_precision': rng.choice([None, None, 1e-2]),
                'modified': rng.choice([0, 0, 0, 2]),
                'is_linear': rng.random() < 0.1,
                'semismooth': rng.random() < 0.6,
                'scale': rng.choice([0, 0, 0, 1]),
                'scaled_error': rng.random() < 0.5,
                'method': rng.choice(ROOT if kind == 'scipy_root' else FMIN),
                'jac': rng.random() < 0.4,
                'ls_method': rng.choice(['backtracking', 'full']),
                'ls': rng.random() < 0.8}
        return spec

    # -- solvers ----------------------------------------------------------
    def build(self, spec, lin):
        """
        A new solver.
        """
        from sfepy.base.base import Struct
        from sfepy.solvers import nls
        common = {key: spec[key] for key in ('i_max', 'eps_a', 'eps_r')}
        if spec['kind'] == 'newton':
            conf = dict(common, kind='nls.newton', name='nls', verbose=False)
            for key in ('eps_mode', 'ls_mode', 'ls_on', 'ls_red',
                        'ls_red_warp', 'ls_min', 'give_up_warp', 'step_red',
                        'lin_red', 'lin_precision', 'is_linear'):
                conf[key] = spec[key]
            if spec['ls_fun'] == 'ainc':
                conf['line_search_fun'] = nls.apply_line_search_ainc
            if spec['modified']:
                conf['is_new_jacobian_fun'] = (
                    lambda it, it_jac, *args, **kwargs:
                    (it - it_jac) >= spec['modified'])
            if spec['scale']:
                conf['scale_system_fun'] = (
                    lambda mtx, rhs, x0, context:
                    (None if mtx is None else (mtx * 2.0), rhs * 2.0, x0))
                conf['scale_solution_fun'] = lambda x, context: x
                conf['scaled_error'] = spec['scaled_error']
            return nls.Newton(Struct(**conf), lin_solver=lin)
        if spec['kind'] == 'semismooth':
            from sfepy.solvers.semismooth_newton import SemismoothNewton
            conf = dict(common, kind='nls.semismooth_newton', name='nls',
                        ls_on=spec['ls_on'], ls_min=spec['ls_min'],
                        ls_red_warp=spec['ls_red_warp'],
                        semismooth=spec['semismooth'], verbose=False,
                        ls_red={'regular': spec['ls_red'],
                                'steepest_descent': 0.01})
            return SemismoothNewton(
                Struct(**conf), lin_solver=lin, fun_smooth=None,
                fun_smooth_grad=None, fun_a=None, fun_a_grad=None,
                fun_b=None, fun_b_grad=None)
        if spec['kind'] == 'oseen':
            from sfepy.solvers.oseen import Oseen
            conf = dict(common, kind='nls.oseen', name='nls', verbose=False,
                        stabil_mat='stabil')
            return Oseen(Struct(**conf), lin_solver=lin,
                         context=StubProblem(spec['n']))
        if spec['kind'] == 'scipy_root':
            conf = {'kind': 'nls.scipy_root', 'name': 'nls',
                    'method': spec['method'], 'verbose': False,
                    'use_jacobian': spec['jac'],
                    'tol': spec['eps_a'] if spec['i_max'] % 2 else None,
                    'options': None}
            return nls.ScipyRoot(Struct(**conf))
        from sfepy.solvers import optimize
        if spec['kind'] == 'fmin_sd':
            conf = {'kind': 'opt.fmin_sd', 'name': 'opt', 'verbose': False,
                    'i_max': spec['i_max'], 'eps_of': spec['eps_a'],
                    'eps_ofg': 1e-8, 'ls_method': spec['ls_method'],
                    'ls': spec['ls'], 'ls_min': spec['ls_min'],
                    'ls_red': spec['ls_red'], 'ls0': 0.1}
            return optimize.FMinSteepestDescent(Struct(**conf))
        conf = {'kind': 'nls.scipy_fmin_like', 'name': 'opt',
                'verbose': False, 'method': spec['method'],
                'i_max': spec['i_max'] + 1}
        return optimize.ScipyFMinSolver(Struct(**conf))

    def run(self, spec, ctx):
        import scipy
        kind = spec['kind']
        ctx.probe('kind ' + kind)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if kind in ('newton', 'semismooth', 'oseen'):
                self.run_iterative(spec, ctx)
            elif kind == 'scipy_root':
                self.run_root(spec, ctx)
            elif kind == 'fmin_sd':
                self.run_sd(spec, ctx)
            else:
                self.run_fmin(spec, ctx)

    def call(self, spec, solver, system, vec0):
        """
        Call a solver, return the solution or the error, and the status.
        """
        from sfepy.base.base import IndexedStruct
        # Values of a previous solve.
        status = IndexedStruct(condition=0, n_iter=-77, err=-77.0,
                               err0=-77.0, ls_n_iter=-77)
        kwargs = {}
        if spec['kind'] == 'semismooth':
            n_s = system.n // 2

            def part(i0, i1, sign):
                def fun(x):
                    if i0 == 0 and i1 == n_s:
                        # The first one decides on faults.
                        return system.fun(x)[:n_s].copy()
                    if sign == 0:
                        return nm.asarray(x)[n_s:].copy()
                    return system.pure(x)[n_s:]
                return fun

            def grad(i0, sign):
                def fun(x):
                    if i0 == 0:
                        return sps.csr_matrix(system.fun_grad(x)[:n_s])
                    if sign == 0:
                        return sps.csr_matrix(nm.eye(system.n)[n_s:])
                    return sps.csr_matrix(system.jac(x)[n_s:])
                return fun
            kwargs = dict(fun_smooth=part(0, n_s, 1),
                          fun_smooth_grad=grad(0, 1),
                          fun_a=part(n_s, None, 1), fun_a_grad=grad(1, 1),
                          fun_b=part(n_s, None, 0), fun_b_grad=grad(1, 0))
        else:
            kwargs = dict(fun=system.fun, fun_grad=system.fun_grad)
        lin = LinSolver(system, spec)
        try:
            vec = solver(vec0, lin_solver=lin, status=status, **kwargs)
        except (Injected, Warp, ValueError, RuntimeError) as exc:
            return None, status, exc
        except core.HarnessError:
            raise
        except Exception as exc:
            raise core.Violation(
                'wrong-exception:%s:%s' % (spec['kind'], type(exc).__name__),
                '%s: %s raised by the solver' % (type(exc).__name__, exc))
        return nm.array(vec), status, None

    def pure(self, spec, system, x):
        with nm.errstate(all='ignore'):
            rr = system.pure(x)
            if spec['kind'] == 'semismooth':
                n_s = system.n // 2
                aa, bb = rr[n_s:], x[n_s:]
                if spec['semismooth']:
                    ss = nm.sqrt(aa**2 + bb**2) - (aa + bb)
                else:
                    ss = nm.where(aa < bb, aa, bb)
                rr = nm.r_[rr[:n_s], ss]
            return rr

    def run_iterative(self, spec, ctx):
        from sfepy.solvers.nls import Newton  # noqa
        kind = spec['kind']
        if kind == 'semismooth' and spec['n'] < 2:
            spec = dict(spec, n=2)
        if kind != 'newton':
            spec = dict(spec, is_linear=False)
        if spec['ls_mode'] == 'error' and spec['scale']:
            spec = dict(spec, scale=0)
        solver = self.build(spec, None)
        for icall in range(spec['n_call']):
            sub = dict(spec, salt=spec['salt'] + icall // 2)
            system = System(sub, ctx)
            vec0 = system.x0.copy()
            backup = vec0.copy()
            vec, status, exc = self.call(sub, solver, system, vec0)
            self.check_result(sub, ctx, system, vec, status, exc, icall)
            ctx.check(nm.array_equal(vec0, backup), 'x0-changed:' + kind,
                      'the initial guess was changed')
            if icall:
                # The same as a call of a new solver.
                system2 = System(sub)
                new = self.build(spec, None)
                vec2, status2, exc2 = self.call(sub, new, system2,
                                                vec0.copy())
                same = ((type(exc) is type(exc2))
                        and ((vec is None) == (vec2 is None)))
                if same and vec is not None:
                    same = (nm.array_equal(vec, vec2, equal_nan=True)
                            and (status.condition == status2.condition)
                            and (status.n_iter == status2.n_iter))
                ctx.check(same, 'history:' + kind,
                          'call %d differs from a call of a new solver'
                          % icall)

    def check_result(self, spec, ctx, system, vec, status, exc, icall):
        kind = spec['kind']
        calls = system.calls
        i_max = spec['i_max']
        ctx.choice_made(kind, spec['n'], [cc[1] for cc in calls],
                        sorted((ff['on'], ff['at'], ff['kind'])
                               for ff in spec['faults']))
        # Bounded work.
        red = max(spec['ls_red'], spec['ls_red_warp'])
        n_ls = int(nm.ceil(nm.log(spec['ls_min']) / nm.log(red))) + 3
        ctx.check(len(calls) <= (i_max + 1) * n_ls + 1, 'evaluations:' + kind,
                  lambda: '%d residual evaluations' % len(calls))
        ctx.check(system.n_solve <= i_max, 'iterations:' + kind,
                  lambda: '%d linear solves, i_max is %d'
                  % (system.n_solve, i_max))
        if kind == 'newton':
            self.check_trials(spec, ctx, system)
        if exc is not None:
            ctx.event(kind, 'exception', type(exc).__name__)
            ctx.probe('exception ' + type(exc).__name__)
            if isinstance(exc, Injected):
                ctx.check(len(system.raised) > 0, 'exception', str(exc))
                return
            if isinstance(exc, Warp):
                return
            if kind == 'oseen' and isinstance(exc, RuntimeError):
                ctx.check(system.n_warp > 0, 'exception:oseen', str(exc))
                return
            # Values that are not finite.
            last = [cc[0] for cc in calls if cc[1] == 'ok']
            bad = system.n_nan or not all(
                nm.isfinite(self.pure(spec, system, xx)).all()
                and nm.isfinite(nla.norm(self.pure(spec, system, xx)))
                for xx in last)
            bad = bad or not nm.isfinite(nm.array([cc[0] for cc in calls])
                                         ).all()
            ctx.check(bad, 'wrong-exception:%s:%s' % (kind,
                                                      type(exc).__name__),
                      lambda: '%s: %s' % (type(exc).__name__, exc))
            return

        cond = status.condition
        n_iter = status.n_iter
        ctx.event(kind, 'condition', cond, n_iter, len(calls))
        ctx.probe('condition %s' % cond)
        ctx.check(cond in (0, 1, 2), 'condition-value:' + kind, str(cond))
        # A fault in the last evaluation of the vector: a NaN.
        dirty = system.n_nan > 0
        rr = self.pure(spec, system, vec)
        err = nla.norm(rr)
        err0 = nla.norm(self.pure(spec, system, system.x0))
        # The steepest descent steps do not need a linear solver.
        ctx.check(((n_iter == system.n_solve) if kind != 'semismooth' else
                   (system.n_solve <= n_iter <= spec['i_max'])),
                  'n-iter:' + kind,
                  lambda: '%s iterations reported, %d done'
                  % (n_iter, system.n_solve))
        failed = [cc[0] for cc in calls if cc[1] == 'warp']
        okx = [cc[0] for cc in calls if cc[1] == 'ok']
        if kind != 'semismooth':
            ctx.check(any(nm.array_equal(vec, xx, equal_nan=True)
                          for xx in okx), 'not-evaluated:' + kind,
                      lambda: 'the residual was never evaluated at the'
                      ' returned vector (condition %s)' % cond)
        tol = 1e-9 * (1.0 + nm.abs(err))
        if not dirty:
            rep = status.err
            if kind == 'oseen':
                # With the norm of the last increment.
                ok = (rep >= (err - tol)) or not nm.isfinite(err)
            else:
                ok = (abs(rep - err) <= tol) or not nm.isfinite(err)
            ctx.check(ok, 'wrong-err:' + kind, lambda: 'reported error %s,'
                      ' the error of the returned vector is %s (condition %s)'
                      % (rep, err, cond))
            ctx.check((abs(status.err0 - err0) <= 1e-9 * (1.0 + err0))
                      or not nm.isfinite(err0), 'wrong-err0:' + kind,
                      lambda: 'reported %s, expected %s'
                      % (status.err0, err0))
        if kind == 'newton':
            ctx.check(status.ls_n_iter == (system.lin_iters if
                                           system.lin_iters >= 0 else -1),
                      'ls-n-iter', lambda: '%s, expected %s'
                      % (status.ls_n_iter, system.lin_iters))
        macheps = nm.finfo(nm.float64).eps
        err_r = 0.0 if err0 < macheps else err / err0
        one = 1.0 + 1e-9
        conv_a = err <= spec['eps_a'] * one
        conv_r = err_r <= spec['eps_r'] * one
        mode = spec['eps_mode'] if kind == 'newton' else 'and'
        if n_iter == 0:
            conv = conv_a
        elif mode == 'or':
            conv = conv_a or conv_r
        else:
            conv = conv_a and conv_r
        if cond == 0:
            ctx.check(conv, 'false-convergence:' + kind, lambda:
                      'convergence reported with the error %s (relative %s)'
                      ' after %d iterations' % (err, err_r, n_iter))
        else:
            ctx.check((cond == 2) or (n_iter >= i_max), 'gave-up:' + kind,
                      lambda: 'condition %s after %d iterations of %d'
                      % (cond, n_iter, i_max))
            if (kind != 'oseen') and not dirty and (cond == 1):
                strict = err <= spec['eps_a'] / one
                if n_iter > 0 and mode == 'and':
                    strict = strict and (err_r <= spec['eps_r'] / one)
                elif n_iter > 0:
                    strict = strict or (err_r <= spec['eps_r'] / one)
                ctx.check(not strict, 'hidden-convergence:' + kind, lambda:
                          'no convergence reported with the error %s' % err)
        if cond == 2:
            ctx.check((kind == 'newton') and spec['give_up_warp']
                      and system.n_warp, 'wrong-give-up:' + kind,
                      'condition 2 with no failure')
        if (kind == 'newton') and spec['give_up_warp'] and system.n_warp:
            ctx.check((system.solves_after_warp == 0) and (cond != 0),
                      'no-give-up', lambda: 'condition %s, %d linear solves'
                      ' after a failed residual evaluation'
                      % (cond, system.solves_after_warp))

    def check_trials(self, spec, ctx, system):
        """Each trial step of a line search is the previous one times the
        reduction factor."""
        if spec['reuse'] and spec['ls_mode'] == 'error':
            # The linear solver overwrites its previous solution.
            return
        ends = system.solved_at + [len(system.calls)]
        base = system.x0
        for i0, i1 in zip(ends[:-1], ends[1:]):
            group = system.calls[i0:i1]
            step = None
            for (xx, _), last in zip(group, [None] + group[:-1]):
                new = xx - base
                if step is not None:
                    red = spec['ls_red' if last[1] == 'ok' else 'ls_red_warp']
                    scale = nm.abs(base).max() + nm.abs(xx).max()
                    with nm.errstate(all='ignore'):
                        diff = nm.abs(new - red * step).max()
                    ctx.check((diff <= 1e-12 * scale)
                              or not nm.isfinite(diff), 'trial-step',
                              lambda: 'step %s after %s with %s'
                              % (new, step, last[1]))
                    ctx.probe('trial steps')
                step = new
            if len(group) and group[-1][1] == 'ok':
                base = group[-1][0]

    # -- SciPy root -------------------------------------------------------
    def run_root(self, spec, ctx):
        from scipy.optimize import root
        from sfepy.base.base import IndexedStruct
        spec = dict(spec, faults=[], warp=None, reuse=False, is_linear=False)
        solver = self.build(spec, None)
        jac_ok = spec['method'] in ('hybr', 'lm')
        system = System(spec)

        def grad(x):
            return system.jac(x)
        vec0 = system.x0.copy()
        status = IndexedStruct(condition=-77, err=-77.0)
        tol = spec['eps_a'] if spec['i_max'] % 2 else None
        with nm.errstate(all='ignore'):
            ref, rexc = None, None
            try:
                ref = root(System(spec).fun, system.x0.copy(),
                           method=spec['method'], tol=tol,
                           jac=grad if (spec['jac'] and jac_ok) else None,
                           options={'disp': False})
            except Exception as exc:
                rexc = exc
            solver.conf.use_jacobian = spec['jac'] and jac_ok
            try:
                vec = solver(vec0, fun=system.fun, fun_grad=grad,
                             status=status)
            except Exception as exc:
                ctx.event('scipy_root', type(exc).__name__)
                ctx.check(rexc is not None, 'wrong-exception:scipy_root:'
                          + type(exc).__name__, str(exc))
                return
        ctx.check(rexc is None, 'lost-exception:scipy_root', str(rexc))
        ctx.event('scipy_root', spec['method'], ref.success,
                  status.condition)
        ctx.choice_made('scipy_root', spec['method'], bool(ref.success))
        ctx.check(nm.array_equal(vec0, system.x0), 'x0-changed:scipy_root',
                  'the initial guess was changed')
        ctx.check((status.condition == 0) == bool(ref.success),
                  'false-convergence:scipy_root', lambda: '%s: success is %s,'
                  ' reported condition is %s' % (spec['method'], ref.success,
                                                 status.condition))
        err = nla.norm(system.pure(nm.asarray(vec)))
        ctx.check((abs(status.err - err) <= 1e-9 * (1.0 + err))
                  or not nm.isfinite(err), 'wrong-err:scipy_root',
                  lambda: 'reported %s, expected %s' % (status.err, err))
        ctx.check(nm.array_equal(vec, ref.x, equal_nan=True),
                  'wrong-solution:scipy_root', spec['method'])

    # -- optimization -----------------------------------------------------
    def objective(self, spec):
        rng = nm.random.RandomState(spec['salt'])
        n = spec['n']
        A = rng.uniform(-1, 1, (n, n))
        A = A @ A.T + 0.3 * nm.eye(n)
        xs = rng.uniform(-1, 1, n)
        c = spec['sine']
        off = 0.0 if spec['salt'] % 2 else 0.5

        def fun(x):
            d = x - xs
            return float(0.5 * d @ A @ d + c * nm.sum(1 - nm.cos(d)) + off)

        def grad(x):
            d = x - xs
            return A @ d + c * nm.sin(d)
        return fun, grad, rng.uniform(-1, 1, n) * max(spec['far'], 0.5)

    def run_sd(self, spec, ctx):
        from sfepy.base.base import IndexedStruct
        fun, grad, x0 = self.objective(spec)
        solver = self.build(spec, None)
        calls = [0]
        rng = nm.random.RandomState(spec['salt'] + 1)
        warp = set(rng.randint(1, 8, 2)) if spec['give_up_warp'] else ()
        if spec['ls_method'] == 'full':
            warp = ()

        def obj(x):
            calls[0] += 1
            if calls[0] - 1 in warp:
                ctx.fault('objective warp')
                return None
            return fun(x)
        status = IndexedStruct(it=-77, of=-77.0)
        vec0 = x0.copy()
        out = None
        try:
            out = solver(vec0, obj_fun=obj, obj_fun_grad=grad, status=status,
                         obj_args=())
        except Exception as exc:
            ctx.event('fmin_sd', type(exc).__name__)
            # The objective function failed.
            ctx.check(bool(ctx.faults), 'wrong-exception:fmin_sd:%s'
                      % type(exc).__name__, str(exc))
            return
        ctx.check(nm.array_equal(vec0, x0), 'x0-changed:fmin_sd',
                  'the initial guess was changed')
        ret = status.status
        ctx.event('fmin_sd', ret if isinstance(ret, int) else '?', status.it,
                  calls[0])
        ctx.choice_made('fmin_sd', spec['ls_method'], calls[0], sorted(warp))
        ctx.check(isinstance(ret, int) and (ret in (0, 1, 2, 3)),
                  'condition-value:fmin_sd', lambda: 'reported status %s'
                  % type(ret).__name__)
        of = fun(out)
        ctx.check(abs(status.of - of) <= 1e-9 * (1 + abs(of)),
                  'wrong-err:fmin_sd', lambda: 'reported objective %s,'
                  ' expected %s' % (status.of, of))
        ctx.check(abs(status.of0 - fun(x0)) <= 1e-9 * (1 + abs(fun(x0))),
                  'wrong-err0:fmin_sd', str(status.of0))
        ctx.check(status.it <= spec['i_max'], 'iterations:fmin_sd',
                  lambda: '%d of %d' % (status.it, spec['i_max']))
        ctx.check(status.nc_of == calls[0], 'n-iter:fmin_sd',
                  lambda: '%s, expected %s' % (status.nc_of, calls[0]))
        g = nla.norm(grad(out), nm.inf)
        if ret == 0:
            ctx.check(abs(of) < spec['eps_a'] * (1 + 1e-9),
                      'false-convergence:fmin_sd', 'objective %s' % of)
        elif ret == 2:
            ctx.check(g < 1e-8 * (1 + 1e-6), 'false-convergence:fmin_sd',
                      'gradient %s' % g)
        elif ret == 1:
            ctx.check(status.it >= spec['i_max'], 'gave-up:fmin_sd',
                      str(status.it))

    def run_fmin(self, spec, ctx):
        import inspect
        import scipy.optimize as so
        from sfepy.base.base import IndexedStruct
        fun, grad, x0 = self.objective(spec)
        solver = self.build(spec, None)
        method = spec['method']
        vec0 = x0.copy()
        status = IndexedStruct()
        i_max = spec['i_max'] + 1
        kwargs = {solver._i_max_name[method]: i_max}
        if method in solver._has_grad:
            kwargs['fprime'] = grad
        sfun = getattr(so, method)
        if 'disp' in inspect.signature(sfun).parameters:
            kwargs['disp'] = False
        with nm.errstate(all='ignore'):
            ref = sfun(fun, x0.copy(), **kwargs)
            try:
                out = solver(vec0, obj_fun=fun, obj_fun_grad=grad,
                             status=status, obj_args=())
            except Exception as exc:
                raise core.Violation(
                    'wrong-exception:scipy_fmin:' + type(exc).__name__,
                    '%s: %s' % (method, exc))
        ctx.event('scipy_fmin', method)
        ctx.choice_made('scipy_fmin', method, i_max)
        ctx.check(nm.array_equal(vec0, x0), 'x0-changed:scipy_fmin', method)
        rx = ref[0] if isinstance(ref, tuple) else ref
        ox = out[0] if isinstance(out, tuple) else out
        ctx.check(nm.array_equal(ox, rx), 'wrong-solution:scipy_fmin',
                  lambda: '%s: %s, expected %s' % (method, ox, rx))

    def nontrivial(self, spec, res):
        return bool(res['faults'])

    def shrink(self, spec):
        for cand in core.Property.shrink(self, spec):
            yield cand
        for key, val in (('n_call', 1), ('n', 1), ('n', 2), ('reuse', False),
                         ('scale', 0), ('modified', 0), ('warp', None),
                         ('lin_precision', None), ('sine', 0.0),
                         ('iterative', False), ('step_red', 1.0)):
            if spec[key] != val:
                yield dict(spec, **{key: val})


class StubProblem(object):
    """
    The part of Problem used by the Oseen solver.
    """

    def __init__(self, n):
        from sfepy.base.base import Struct
        self.n = n
        self.equations = None
        prob = self
        half = max(1, n // 2)
        ii = {'us': slice(0, half), 'ps': slice(half, n), 'u': slice(0, half),
              'p': slice(half, n)}
        ns = {'b': 'b', 'u': 'u', 'gamma': 'gamma', 'delta': 'delta',
              'tau': 'tau'}

        class Fun(object):
            function = Struct(get_maps=lambda: (ns, ii))

            def set_extra_args(self, **kwargs):
                pass

        class Mat(object):
            function = Fun()

            def time_update(self, *args, **kwargs):
                pass

            def reduce_on_datas(self, fun):
                return {'gamma': 1.0, 'delta': 1.0, 'tau': 1.0}

        class Var(object):
            indx = slice(0, half)

            def set_data(self, *args, **kwargs):
                pass

        class Vars(dict):
            def make_full_vec(self, vec):
                return vec

        self.mat = Mat()
        self.vars = Vars(b=Var(), u=Var())
        del prob

    def get_materials(self):
        return {'stabil': self.mat}

    def get_variables(self):
        return self.vars
