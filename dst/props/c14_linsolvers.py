"""
C14: linear solvers used repeatedly.

Seeded histories of solves, pre-factorizations, matrix changes (new objects,
changes in place), clears and failing calls on linear solver objects; the
residual of each solution with respect to the system given in the call is
recomputed by the oracle.
"""
import warnings

import numpy as nm
import scipy.sparse as sps
from scipy.sparse.linalg import aslinearoperator

from dst import core
from dst import problems as P
from dst import simlin as SL

DIRECT = {
    'ls.scipy_direct': None, 'ls.scipy_superlu': None,
    'ls.scipy_umfpack': None, 'ls.auto_direct': None,
    'ls.mumps': 'mumps', 'ls.schur_mumps': 'mumps', 'ls.cholesky': 'sksparse',
}
EXPECTED = (MemoryError, RuntimeError, ValueError, AssertionError,
            ZeroDivisionError, nm.linalg.LinAlgError, FloatingPointError,
            TypeError, IndexError)


class CallbackError(Exception):
    pass


def make_matrix(ms):
    """
    A well conditioned matrix given by its description.
    """
    rng = nm.random.RandomState(ms['salt'])
    n = ms['n']
    kind = ms['kind']
    if kind == 'big':
        main = 2.5 + rng.uniform(0.0, 1.0, n)
        off = -rng.uniform(0.1, 1.0, n - 1)
        mtx = sps.diags_array([off, main, off], offsets=[-1, 0, 1])
    elif kind == 'diag':
        mtx = sps.diags_array(1.0 + rng.uniform(0.0, 1.0, n))
    else:
        mask = rng.uniform(0, 1, (n, n)) < 4.0 / n
        aa = nm.where(mask, rng.uniform(-1.0, 1.0, (n, n)), 0.0)
        if kind == 'complex':
            aa = aa + 1j * nm.where(mask, rng.uniform(-1.0, 1.0, (n, n)), 0.0)
        if kind == 'spd':
            aa = nm.tril(aa, -1)
            aa = aa + aa.T
        elif kind == 'pattern':
            # Equal values, not symmetric positions.
            aa = nm.where(mask, 0.5, 0.0)
            aa = nm.triu(aa, 1) + nm.tril(aa.T[::-1, ::-1].T, -1)
        nm.fill_diagonal(aa, 0.0)
        dd = nm.abs(aa).sum(1) + 1.0 + rng.uniform(0.0, 1.0, n)
        mtx = sps.coo_array(aa + nm.diag(dd))
    fmt = ms['fmt']
    if fmt == 'csr':
        return sps.csr_array(mtx)
    elif fmt == 'csrm':
        return sps.csr_matrix(mtx)
    elif fmt == 'csc':
        return sps.csc_array(mtx)
    return sps.csr_array(mtx)


class PROP(core.Property):
    id = 'C14'
    rule = ('one evaluation is one history of operations on one or two linear'
            ' solver objects; non-trivial if at least two systems were solved;'
            ' distinct by event trace')
    real = ['linear solver classes of sfepy (SciPy direct and iterative,'
            ' UMFPACK, PyAMG, automatic fall-backs, MUMPS, Cholesky'
            ' interfaces)', 'SciPy, UMFPACK, MUMPS, PyAMG']
    stub = ['python-mumps and CHOLMOD packages (not installed), implemented by'
            ' SuperLU', 'failing factorizations, user'
            ' preconditioners and callbacks']
    assumptions = ['with use_mtx_digest off the solver is cleared after matrix'
                   ' changes']
    n_quick = 8000
    n_thorough = 80000
    quick_budget = 120.0

    def setup(self):
        P.quiet()
        import sfepy.solvers  # noqa: F401
        import sfepy.solvers.ls  # noqa: F401
        import sfepy.solvers.auto_fallback  # noqa: F401
        import scikits.umfpack  # noqa: F401
        import pyamg  # noqa: F401
        SL.patch_scipy()
        SL.patch_mumps()
        # Messages of PyAMG.
        warnings.showwarning = lambda *args, **kwargs: None

    # -- generation -------------------------------------------------------
    def gen_solver(self, rng):
        cc = rng.random()
        if cc < 0.62:
            name = rng.choice(['ls.scipy_direct', 'ls.scipy_direct',
                               'ls.scipy_superlu', 'ls.scipy_umfpack',
                               'ls.auto_direct', 'ls.mumps', 'ls.mumps',
                               'ls.schur_mumps', 'ls.cholesky'])
            conf = {'use_presolve': rng.random() < 0.75,
                    'use_mtx_digest': rng.random() < 0.8}
            if name == 'ls.scipy_direct':
                conf['method'] = rng.choice(['auto', 'superlu', 'umfpack'])
            if name == 'ls.schur_mumps':
                conf['schur_variables'] = ['p']
            return {'name': name, 'conf': conf}
        if cc < 0.85:
            name = 'ls.scipy_iterative'
            if rng.random() < 0.2:
                name = 'ls.auto_iterative'
            conf = {'method': rng.choice(['cg', 'bicgstab', 'gmres', 'minres',
                                          'qmr'])
                    if name == 'ls.scipy_iterative' else 'cg',
                    'i_max': 2000, 'eps_a': 1e-12, 'eps_r': 1e-10}
            return {'name': name, 'conf': conf}
        if cc < 0.95:
            conf = {'method': rng.choice(['smoothed_aggregation_solver',
                                          'ruge_stuben_solver']),
                    'accel': rng.choice([None, 'cg', 'gmres']),
                    'i_max': 500, 'eps_r': 1e-10}
            return {'name': 'ls.pyamg', 'conf': conf}
        conf = {'method': rng.choice(['cg', 'gmres']),
                'i_max': 1000, 'eps_r': 1e-10}
        return {'name': 'ls.pyamg_krylov', 'conf': conf}

    def kinds(self, solver):
        name, conf = solver['name'], solver['conf']
        if name in ('ls.mumps', 'ls.schur_mumps'):
            return ['spd', 'unsym', 'unsym', 'pattern', 'complex', 'diag']
        if name == 'ls.cholesky':
            return ['spd', 'spd', 'diag']
        if name in DIRECT:
            return ['spd', 'unsym', 'complex', 'diag', 'pattern']
        if name == 'ls.pyamg':
            return ['spd', 'spd', 'big']
        if conf['method'] in ('cg', 'minres'):
            return ['spd', 'spd', 'diag']
        if conf['method'] == 'qmr':
            return ['spd', 'unsym', 'diag']
        return ['spd', 'unsym', 'diag']

    def gen(self, rng, tier, index):
        if rng.random() < 0.03:
            return self.gen_problem(rng)
        solvers = [self.gen_solver(rng)
                   for _ in range(rng.choice([1, 1, 2]))]
        pool = rng.choice([None, None, 'mumps', 'none'])
        n = rng.choice([3, 8, 20])
        big = rng.random() < 0.04
        if big:
            n = rng.choice([36000, 50000])
        ops = []
        mtxs = 0
        for _ in range(rng.choice([4, 8, 16, 16])):
            isol = rng.randrange(len(solvers))
            cc = rng.random()
            if mtxs == 0 or cc < 0.13:
                both = self.kinds(solvers[0])
                for ss in solvers[1:]:
                    both = [kk for kk in both if kk in self.kinds(ss)] or both
                kind = 'big' if big else rng.choice(
                    [kk for kk in both if kk != 'big'] or ['spd'])
                iterative = any(ss['name'] not in DIRECT for ss in solvers)
                ops.append({'op': 'new', 'mtx': {
                    'kind': kind, 'n': n, 'salt': rng.randrange(1 << 30),
                    'fmt': rng.choice(['csr'] * 6 + ['csrm', 'csc'])},
                    'replace': rng.random() < 0.4, 'at': rng.random(),
                    'iterative': iterative})
                mtxs += 1
            elif cc < 0.30:
                ops.append({'op': 'inplace', 'at': rng.random(),
                            'what': rng.choice(['entry', 'entry', 'scale',
                                                'swap', 'perm', 'far']),
                            'pos': rng.random(), 'val': rng.uniform(1.1, 1.9)})
            elif cc < 0.37:
                ops.append({'op': 'clear', 'solver': isol})
            elif cc < 0.47:
                ops.append({'op': 'presolve', 'solver': isol,
                            'at': rng.random()})
            elif cc < 0.53:
                ops.append({'op': 'singular', 'solver': isol,
                            'how': rng.choice(['solve', 'presolve']),
                            'salt': rng.randrange(1 << 30)})
            elif cc < 0.58:
                ops.append({'op': 'badrhs', 'solver': isol,
                            'at': rng.random()})
            elif cc < 0.66:
                ops.append({'op': 'fail', 'solver': isol, 'at': rng.random(),
                            'how': rng.choice(['factor', 'precond',
                                               'callback', 'limit']),
                            'presolve': rng.random() < 0.3})
            else:
                ops.append({'op': 'solve', 'solver': isol, 'at': rng.random(),
                            'salt': rng.randrange(1 << 30),
                            'x0': rng.random() < 0.3,
                            'precond': rng.random() < 0.3,
                            'conf': rng.random() < 0.15,
                            'tol': (None if rng.random() < 0.5 else
                                    {kk: vv for kk, vv in
                                     (('eps_a', rng.choice([None, 1e-12, 1e-2,
                                                            1.0])),
                                      ('eps_r', rng.choice([None, 1e-14,
                                                            1e-2])),
                                      ('i_max', rng.choice([None, None, 1, 2,
                                                            5])))
                                     if vv is not None}),
                            'default': rng.random() < 0.15})
        return {'kind': 'direct', 'solvers': solvers, 'ops': ops,
                'pool': pool}

    def gen_problem(self, rng):
        p = {'shape': [3, 3], 'order': 1, 'history': 1, 'ebc_fun': True,
             'mat_fun': rng.random() < 0.8, 'second': rng.random() < 0.3,
             'nonlinear': rng.choice([0, 1.0]), 'n_step': 5, 't0': 0.0,
             't1': 1.0, 'i_max': 6, 'ts': rng.choice(['simple', 'adaptive']),
             'all_dofs': rng.random() < 0.4,
             'ls': rng.choice(['ls.scipy_direct', 'ls.scipy_superlu',
                               'ls.scipy_umfpack', 'ls.mumps']),
             'ls_conf': {'use_presolve': True}}
        return {'kind': 'problem', 'p': p}

    # -- histories --------------------------------------------------------
    def make_solvers(self, spec, state):
        from sfepy.base.base import Struct
        from sfepy.solvers.solvers import Solver
        out = []
        for ss in spec['solvers']:
            name = ss['name']
            if DIRECT.get(name) == 'sksparse':
                SL.install('sksparse')
            elif name == 'ls.auto_direct':
                SL.install(spec['pool'])
            elif DIRECT.get(name) == 'mumps':
                SL.install('mumps' if spec['pool'] == 'mumps' else None)
            conf = dict(ss['conf'], kind=name, name='ls', verbose=0)
            if name not in DIRECT:
                conf['report_status'] = False
                if name != 'ls.pyamg':
                    conf['setup_precond'] = state.setup_precond
            kwargs = {}
            if name == 'ls.schur_mumps':
                adi = Struct(indx={'u': slice(0, 2, None),
                                   'p': slice(2, 3, None)})
                kwargs['context'] = Struct(equations=Struct(
                    variables=Struct(adi=adi)))
            conf.pop('report_status', None)
            out.append(Solver.any_from_conf(Struct(**conf), **kwargs))
        SL.install(None)
        return out

    def run(self, spec, ctx):
        if spec['kind'] == 'problem':
            return self.run_problem(spec, ctx)
        try:
            self.run_direct(spec, ctx)
        finally:
            SL.FAULTS.plan = 0
            SL.install(None)

    def run_direct(self, spec, ctx):
        state = State()
        solvers = self.make_solvers(spec, state)
        descs = spec['solvers']
        mtxs = []
        # The matrix a solver without automatic detection may keep.
        kept = [None] * len(solvers)
        n_solved = 0

        def fingerprint(mtx):
            mtx = mtx.tocsr()
            return hash((mtx.indptr.tobytes(), mtx.indices.tobytes(),
                         mtx.data.tobytes()))

        def need_clear(isol, mtx):
            """The documented requirement without automatic detection."""
            conf = descs[isol]['conf']
            if not conf.get('use_presolve') or conf.get('use_mtx_digest'):
                return
            fp = fingerprint(mtx)
            if kept[isol] != fp:
                solvers[isol].clear()
                kept[isol] = fp

        def finite_residual(mtx, x, b):
            x = nm.asarray(x)
            if x.shape != b.shape or not nm.isfinite(x).all():
                return nm.inf
            res = nm.linalg.norm(mtx @ x - b)
            return res / max(nm.linalg.norm(b), 1e-300)

        for io, op in enumerate(spec['ops']):
            kind = op['op']
            ctx.choice_made(kind, op.get('solver'))
            if kind == 'new':
                mtx = make_matrix(op['mtx'])
                if op['iterative'] and (op['mtx']['fmt'] != 'csc'):
                    mtx = sps.csr_array(mtx)
                if mtxs and op['replace']:
                    ii = int(op['at'] * len(mtxs))
                    # The memory can be used again for another matrix.
                    mtxs[ii] = None
                    del mtx
                    mtx = make_matrix(op['mtx'])
                    mtxs[ii] = mtx
                else:
                    mtxs.append(mtx)
                ctx.event(io, 'new', op['mtx']['kind'], mtx.shape)
                del mtx
                continue
            if not mtxs:
                continue
            mtx = mtxs[int(op['at'] * len(mtxs))] if 'at' in op else None
            isol = op.get('solver', 0)
            ls, desc = solvers[isol], descs[isol]
            direct = desc['name'] in DIRECT

            if kind == 'inplace':
                self.change(mtx, op)
                ctx.event(io, 'inplace', op['what'])
                ctx.probe('inplace-changes')

            elif kind == 'clear':
                ls.clear()
                kept[isol] = None
                ctx.event(io, 'clear', isol)

            elif kind == 'presolve':
                need_clear(isol, mtx)
                try:
                    self.presolve(ls, desc, mtx)
                except Exception as exc:
                    if not core.in_sut(exc.__traceback__):
                        raise
                    raise core.Violation(
                        'presolve-failed', 'operation %d, %s: %s: %s'
                        % (io, desc['name'], type(exc).__name__, exc))
                ctx.event(io, 'presolve', isol)

            elif kind == 'singular':
                bad = make_matrix({'kind': 'spd', 'n': 6, 'fmt': 'csr',
                                   'salt': op['salt']})
                bad.data[bad.indptr[2]:bad.indptr[3]] = 0.0
                bad.data[bad.indices == 2] = 0.0
                need_clear(isol, bad)
                ctx.fault('singular-matrix')
                state.limit(ls, desc, 5)
                try:
                    if op['how'] == 'presolve':
                        self.presolve(ls, desc, bad)
                    else:
                        ls(nm.ones(6), mtx=bad, **state.kwargs)
                    out = 'returned'
                except EXPECTED as exc:
                    out = type(exc).__name__
                    kept[isol] = 'failed'
                if kept[isol] == 'failed':
                    if desc['conf'].get('use_mtx_digest') is False:
                        ls.clear()
                    kept[isol] = None
                ctx.event(io, 'singular', isol, out)

            elif kind == 'badrhs':
                ctx.fault('bad-rhs')
                try:
                    need_clear(isol, mtx)
                    ls(nm.ones(mtx.shape[0] + 1), mtx=mtx)
                    out = 'returned'
                except EXPECTED as exc:
                    out = type(exc).__name__
                ctx.event(io, 'badrhs', isol, out)

            elif kind == 'fail':
                n0 = SL.FAULTS.fired
                how = op['how']
                need_clear(isol, mtx)
                b = nm.ones(mtx.shape[0], dtype=mtx.dtype)
                try:
                    if direct or (how == 'factor'):
                        if not direct:
                            continue
                        SL.FAULTS.plan = 1
                        if op['presolve']:
                            self.presolve(ls, desc, mtx)
                        else:
                            ls(b, mtx=mtx)
                    elif how == 'precond' and desc['name'] != 'ls.pyamg':
                        state.fail_precond = True
                        ctx.fault('preconditioner-failed')
                        ls(b, mtx=mtx)
                    elif how == 'limit':
                        ctx.fault('iteration-limit')
                        ls(b, mtx=mtx, i_max=1)
                    else:
                        ctx.fault('callback-failed')
                        ls(b, mtx=mtx, callback=state.bad_callback)
                    out = 'returned'
                except (CallbackError,) + EXPECTED as exc:
                    out = type(exc).__name__
                finally:
                    SL.FAULTS.plan = 0
                    state.fail_precond = False
                if SL.FAULTS.fired > n0:
                    ctx.fault('factorization-failed')
                    if desc['conf'].get('use_mtx_digest') is False:
                        ls.clear()
                    kept[isol] = None
                ctx.event(io, 'fail', isol, how, out)

            elif kind == 'solve':
                need_clear(isol, mtx)
                rng = nm.random.RandomState(op['salt'])
                n = mtx.shape[0]
                b = rng.uniform(-1.0, 1.0, n)
                if mtx.dtype.kind == 'c':
                    b = b + 1j * rng.uniform(-1.0, 1.0, n)
                b0 = b.copy()
                m0 = mtx.copy()
                kwargs = {}
                x0 = None
                if op['x0']:
                    x0 = rng.uniform(-1.0, 1.0, n).astype(mtx.dtype)
                    kwargs['x0'] = x0
                    x00 = x0.copy()
                if not direct and op['precond']:
                    state.use_precond = (desc['name'] != 'ls.pyamg')
                if not direct and op['conf']:
                    # A stricter tolerance for this call only.
                    kwargs['eps_r'] = 1e-12
                status = {}
                if op['default']:
                    ls.mtx = mtx
                else:
                    kwargs['mtx'] = mtx
                try:
                    x = ls(b, status=status, **kwargs)
                except RecursionError:
                    raise
                except Exception as exc:
                    if not core.in_sut(exc.__traceback__):
                        raise
                    raise core.Violation(
                        'solve-failed', 'operation %d, %s: %s: %s'
                        % (io, desc['name'], type(exc).__name__, exc))
                finally:
                    state.use_precond = False
                    ls.mtx = None
                # A copy: the next solve must not change the result.
                err = finite_residual(m0, x, b0)
                tol = 1e-8 if direct else 1e-6
                ctx.check(err <= tol, 'not-a-solution', lambda:
                          'operation %d, %s %s: relative residual %.3e'
                          % (io, desc['name'], desc['conf'], err))
                ctx.check(nm.array_equal(b, b0)
                          and (abs(mtx - m0).max() == 0.0)
                          and ((x0 is None) or nm.array_equal(x0, x00)
                               or direct),
                          'arguments-changed', lambda:
                          'operation %d, %s' % (io, desc['name']))
                state.results.append((nm.asarray(x), nm.array(x)))
                ctx.check('time' in status, 'status', 'no status')
                if op.get('tol') and desc['name'] == 'ls.scipy_iterative':
                    self.check_tolerances(ctx, io, op, ls, desc, mtx, b, x0)
                n_solved += 1
                ctx.probe('solves')
                ctx.event(io, 'solve', isol, err <= tol)

        for x, xc in state.results:
            ctx.check(nm.array_equal(x, xc), 'result-changed',
                      'a returned solution was changed by later calls')

    def check_tolerances(self, ctx, io, op, ls, desc, mtx, b, x0):
        """The tolerances of the call are those given to SciPy."""
        from scipy.sparse import linalg
        method = desc['conf']['method']
        status = {}
        x = ls(b, x0=None if x0 is None else x0.copy(), mtx=mtx,
               status=status, **op['tol'])
        tol = dict({kk: desc['conf'][kk] for kk in ('eps_a', 'eps_r',
                                                    'i_max')}, **op['tol'])
        count = [0]

        def callback(arg):
            count[0] += 1
        solver = getattr(linalg, method)
        kwargs = {'rtol': tol['eps_r']}
        if method != 'minres':
            kwargs['atol'] = tol['eps_a']
        if method == 'gmres':
            kwargs['callback_type'] = 'legacy'
        ref, _ = solver(mtx, b, x0=None if x0 is None else x0.copy(),
                        maxiter=tol['i_max'], callback=callback, **kwargs)
        scale = 1e-300 + nm.abs(ref).max()
        ctx.check(nm.abs(nm.asarray(x) - ref).max() <= 1e-6 * scale,
                  'tolerances', lambda: 'operation %d, %s with %s differs'
                  ' from the SciPy solution' % (io, method, op['tol']))
        ctx.check(status['n_iter'] == count[0], 'n-iter', lambda:
                  'operation %d, %s with %s: %s iterations, expected %d'
                  % (io, method, op['tol'], status['n_iter'], count[0]))
        ctx.probe('tolerances of a call')

    def presolve(self, ls, desc, mtx):
        if desc['name'] in DIRECT:
            ls.presolve(mtx, use_mtx_digest=desc['conf']['use_mtx_digest'])
        else:
            ls.presolve(mtx)

    def change(self, mtx, op):
        """Change the matrix in place, it stays diagonally dominant."""
        what = op['what']
        n = mtx.shape[0]
        ii = int(op['pos'] * n)
        rows = nm.repeat(nm.arange(n), nm.diff(mtx.indptr))
        diag = nm.where(rows == mtx.indices)[0]
        if what in ('entry', 'far'):
            if what == 'far':
                ii = n - 1
            mtx.data[diag[ii]] *= op['val']
        elif what == 'scale':
            mtx.data[:] *= op['val']
        elif what == 'swap':
            # Exchange the values of two diagonal entries when dominant.
            jj = (ii + 1) % n
            aa, bb = diag[ii], diag[jj]
            off = nm.bincount(rows, weights=nm.abs(mtx.data), minlength=n)
            va, vb = mtx.data[aa], mtx.data[bb]
            ra, rb = off[ii] - abs(va), off[jj] - abs(vb)
            if (abs(vb) > ra + 0.1) and (abs(va) > rb + 0.1):
                mtx.data[aa], mtx.data[bb] = vb, va
            else:
                mtx.data[aa] *= op['val']
        elif what == 'perm':
            # Same values, other positions: only in unsymmetric matrices with
            # a free position in the row.
            dense = n <= 50
            if not dense:
                mtx.data[diag[ii]] *= op['val']
                return
            full = mtx.toarray()
            if nm.allclose(full, full.T):
                mtx.data[diag[ii]] *= op['val']
                return
            major = ii
            sl = slice(mtx.indptr[major], mtx.indptr[major + 1])
            ind = mtx.indices[sl]
            off = [kk for kk in range(len(ind)) if ind[kk] != major]
            free = [kk for kk in range(n) if kk not in set(ind)]
            if not off or not free:
                mtx.data[diag[ii]] *= op['val']
                return
            # Keep the indices sorted: move an entry within its gap.
            for kk in off:
                lo = ind[kk - 1] if kk else -1
                hi = ind[kk + 1] if (kk + 1) < len(ind) else n
                cand = [jj for jj in range(lo + 1, hi) if jj != ind[kk]]
                if cand:
                    new = cand[0]
                    if mtx.format == 'csc':
                        # Columns lose row dominance: strengthen the diagonal.
                        mtx.data[diag] *= 2.0
                    mtx.indices[mtx.indptr[major] + kk] = new
                    break
            else:
                mtx.data[diag[ii]] *= op['val']

    # -- simulations ------------------------------------------------------
    def run_problem(self, spec, ctx):
        ref = None
        for ls, conf in ((spec['p']['ls'], spec['p']['ls_conf']),
                         ('ls.scipy_superlu', {'use_presolve': False})):
            pp = dict(spec['p'], ls=ls, ls_conf=conf)
            SL.install(None)
            try:
                pb = P.make_problem(P.heat_conf(pp))
                states = []
                pb.solve(step_hook=lambda pb, ts, variables: states.append(
                    variables().copy()), save_results=False, verbose=False)
            finally:
                SL.install(None)
            if ref is None:
                ref = states
                continue
            ctx.check(len(states) == len(ref), 'steps', 'numbers of steps')
            for ii, (aa, bb) in enumerate(zip(ref, states)):
                err = nm.abs(aa - bb).max()
                ctx.check(err <= 1e-7 * max(1.0, nm.abs(bb).max()),
                          'simulation-differs', lambda:
                          'step %d: results with a reused solver differ by'
                          ' %.3e' % (ii, err))
            ctx.probe('solves', 2)
            ctx.event('problem', len(states))

    def nontrivial(self, spec, res):
        return res['probes'].get('solves', 0) >= 2


class State(object):
    """User-supplied functions of iterative solvers."""

    def __init__(self):
        self.fail_precond = False
        self.use_precond = False
        self.results = []
        self.kwargs = {}

    def limit(self, ls, desc, i_max):
        self.kwargs = {'i_max': i_max} if desc['name'] not in DIRECT else {}

    def setup_precond(self, mtx, context):
        if self.fail_precond:
            raise CallbackError('preconditioner')
        if self.use_precond:
            return aslinearoperator(
                sps.csr_array(sps.diags_array(1.0 / mtx.diagonal())))
        return None

    def bad_callback(self, sol):
        raise CallbackError('callback')
