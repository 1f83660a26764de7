"""
C09: the system assembled by the tasks of a parallel run versus the sequential
one.
"""
import copy

import numpy as nm

from dst import core
from dst import para as P


class Sequential(object):
    """
    The sequential problem: full matrices and residuals.
    """

    def __init__(self, spec):
        from sfepy.discrete.evaluate import Evaluator
        self.mesh = P.make_mesh(spec['mesh'])
        self.pb = P.build_problem(self.mesh, spec['problem'],
                                  with_ebcs=spec['ebcs'])
        self.ev = Evaluator(self.pb)
        self.variables = self.pb.get_initial_state()
        self.size = self.variables.di.n_dof_total
        self.ebc = nm.asarray(self.pb.get_ebc_indices()[0], dtype=int)

    def get_state(self, par):
        """A state satisfying the EBCs."""
        rng = nm.random.RandomState(par['seed'] % (1 << 31))
        vec = par['scale'] * rng.uniform(-1.0, 1.0, self.size)
        self.variables.apply_ebc(vec)
        return vec

    def residual(self, vec):
        return self.ev.eval_residual(vec.copy(), is_full=True).copy()

    def matrix(self, vec):
        mtx = self.ev.eval_tangent_matrix(vec.copy(), is_full=True)
        return nm.asarray(mtx.todense()).copy()

    def solve(self, n_it=12):
        vec = nm.zeros(self.size)
        self.variables.apply_ebc(vec)
        for _ in range(n_it):
            res = self.residual(vec)
            if nm.linalg.norm(res) < 1e-11:
                break
            mtx = self.matrix(vec)
            if nm.linalg.cond(mtx) > 1e10:
                return None
            vec = vec - nm.linalg.solve(mtx, res)
        else:
            if not nm.linalg.norm(self.residual(vec)) < 1e-9:
                return None
        return vec


def rank_program(pp, spec, states, comm):
    """
    The steps of the parallel examples.
    """
    from sfepy.base.base import Struct
    from sfepy.discrete.evaluate import apply_ebc_to_matrix
    from sfepy.discrete.fem import Mesh, FEDomain
    from sfepy.parallel.evaluate import PETScParallelEvaluator

    world = comm.world

    def full(pvec):
        return nm.concatenate(world.exchange(comm.rank, 'get-vec',
                                             pvec.arr.copy()))

    mesh = P.make_mesh(spec['mesh'])
    domain = FEDomain('domain', mesh)
    omega = domain.create_region('Omega', 'all')
    fpars = P.fields_of(spec['problem'], mesh.dim)
    fields = P.make_fields(omega, fpars)
    overlap, expand = spec['overlap'], spec['expand']
    cell_tasks = None
    if comm.rank == 0:
        cell_tasks = P.make_partition(pp, spec['part'], mesh)[0]
    lfds, gfds = pp.distribute_fields_dofs(
        fields, cell_tasks, is_overlap=overlap, use_expand_dofs=expand,
        comm=comm)

    omega_gi = P.local_region(lfds[0].cells, domain)
    mesh_i = Mesh.from_region(omega_gi, mesh, localize=True)
    pb = P.build_problem(mesh_i, spec['problem'], with_ebcs=spec['ebcs'])
    variables = pb.get_initial_state()
    variables.fill_state(0.0)
    variables.apply_ebc()

    if expand:
        sizes, drange, pdofs = pp.setup_composite_dofs(lfds, fields,
                                                       variables)
    else:
        nc = fields[0].n_components
        sizes, drange = pp.get_sizes(lfds[0].petsc_dofs_range,
                                     fields[0].n_nod, nc)
        pdofs = pp.get_local_ordering(variables['u0'].field,
                                      lfds[0].petsc_dofs_conn)
        if nc > 1:
            pdofs = pp.expand_dofs(pdofs, nc)

    # The PETSc numbers of the global DOFs.
    gids = None
    if comm.rank == 0:
        gids = []
        for gfd, ff in zip(gfds, fields):
            ids = gfd.id_map.astype(nm.int64)
            if (not expand) and (ff.n_components > 1):
                ids = pp.expand_dofs(ids, ff.n_components).astype(nm.int64)
            gids.append(ids)
        gids = nm.concatenate(gids)
    gids = comm.tompi4py().bcast(gids)

    pmtx, psol, prhs = pp.create_petsc_system(pb.mtx_a, sizes, pdofs, drange,
                                              is_overlap=overlap, comm=comm)
    out = {'gids': gids, 'vals': []}

    def set_state(pvec, vec):
        pvals = nm.empty(len(gids))
        pvals[gids] = vec
        pvec.arr[:] = pvals[drange[0]:drange[1]]

    ev = None
    for io, op in enumerate(spec['ops']):
        val = {}
        if op['op'] == 'raw':
            # As in the Poisson equation example.
            mtx1, sol1, rhs1 = pp.create_petsc_system(
                pb.mtx_a, sizes, pdofs, drange, is_overlap=overlap,
                comm=comm)
            variables.fill_state(0.0)
            variables.apply_ebc()
            rhs_i = pb.equations.eval_residuals(variables())
            mtx_i = pb.equations.eval_tangent_matrices(variables(), pb.mtx_a)
            apply_ebc_to_matrix(mtx_i, *pb.get_ebc_indices())
            pp.assemble_rhs_to_petsc(rhs1, rhs_i, pdofs, drange,
                                     is_overlap=overlap, comm=comm)
            pp.assemble_mtx_to_petsc(mtx1, mtx_i, pdofs, drange,
                                     is_overlap=overlap, comm=comm)
            val['rhs'] = full(rhs1)
            val['mtx'] = mtx1.todense()
        elif op['op'] in ('rhs', 'mtx'):
            if (ev is None) or op.get('renew'):
                ev = PETScParallelEvaluator(pb, pdofs, drange, overlap, psol,
                                            comm)
            set_state(psol, states[io])
            if op['op'] == 'rhs':
                ev.eval_residual(None, psol, prhs)
                val['rhs'] = full(prhs)
            else:
                ev.eval_tangent_matrix(None, psol, pmtx, pmtx)
                val['mtx'] = pmtx.todense()
            val['sol'] = full(psol)
        elif op['op'] == 'round':
            # Scatter to the local vectors, change and gather back.
            psol_i = pp.create_local_petsc_vector(pdofs)
            gather, scatter = pp.create_gather_scatter(pdofs, psol_i, psol,
                                                       comm=comm)
            set_state(psol, states[io])
            scatter(psol_i, psol)
            val['local'] = psol_i.arr.copy()
            val['pdofs'] = nm.array(pdofs).astype(int)
            psol_i[...] = 2.0 * psol_i[...]
            gather(psol, psol_i)
            val['back'] = full(psol)
            gather_to_zero = pp.create_gather_to_zero(psol)
            pfull = gather_to_zero(psol)
            val['zero'] = pfull[...].copy()
            set_state(psol, states[io])
            val['zero2'] = gather_to_zero(psol)[...].copy()
        elif op['op'] == 'solve':
            from sfepy.solvers.ls import PETScKrylovSolver
            from sfepy.solvers.nls import PETScNonlinearSolver
            conf = Struct(method='bcgsl', precond='jacobi',
                          sub_precond='none', i_max=1000, eps_a=1e-50,
                          eps_r=1e-6, eps_d=1e4, verbose=False)
            ls = PETScKrylovSolver(conf, comm=comm, mtx=pmtx, status={})
            ls.set_field_split(dict(
                (var.name, lfds[ii].petsc_dofs_range) for ii, var
                in enumerate(variables.iter_state(ordered=True))), comm=comm)
            if (ev is None) or op.get('renew'):
                ev = PETScParallelEvaluator(pb, pdofs, drange, overlap, psol,
                                            comm)
            status = {}
            conf = Struct(method='newtonls', i_max=30, eps_a=1e-10,
                          eps_r=1e-13, eps_s=0.0, verbose=False)
            nls = PETScNonlinearSolver(conf, pmtx=pmtx, prhs=prhs, comm=comm,
                                       fun=ev.eval_residual,
                                       fun_grad=ev.eval_tangent_matrix,
                                       lin_solver=ls, status=status)
            variables.fill_state(0.0)
            variables.apply_ebc()
            ev.psol_i[...] = variables()
            ev.gather(psol, ev.psol_i)
            sol = nls(psol)
            val['solution'] = full(sol)
            val['condition'] = status['condition']
        out['vals'].append(val)
    return out


class PROP(core.Property):
    id = 'C09'
    rule = ('seeded scalar, vector, multi-field and nonlinear problems on'
            ' random meshes and partitions, histories of 1-5 parallel'
            ' evaluations, scatters and solves of the simulated ranks; the'
            ' global matrices and vectors are compared with the sequential'
            ' ones')
    real = ['sfepy.parallel.parallel', 'PETScParallelEvaluator',
            'PETScNonlinearSolver', 'PETScKrylovSolver', 'Mesh.from_region',
            'Problem', 'Equations', 'terms']
    stub = ['MPI (cooperative simulated ranks and messages)',
            'PETSc vectors, matrices, scatters (checked assembling in a'
            ' seeded order), KSP (direct solution), SNES (Newton with full'
            ' steps)']
    assumptions = ['the states given to the evaluators satisfy the EBCs',
                   'every task has at least one cell']
    n_quick = 1000
    n_thorough = 20000
    quick_budget = 150.0
    run_timeout = 120.0

    def setup(self):
        self.pp = P.setup()

    def gen(self, rng, tier, index):
        mesh = P.gen_mesh(rng)
        par = P.gen_problem(rng, mesh)
        overlap = rng.random() < 0.8
        if not overlap:
            # A vertex of a facet can be in a subdomain without that facet.
            par['rkind'] = 'vertex'
        if (mesh['kind'] in ('tri', 'tet')) and (par['rkind'] == 'facet'):
            # Different EBCs in a DOF need not be all in a subdomain.
            par['ebcs'] = par['ebcs'][:1]
        scalar = (len(par['orders']) == 1)
        ops = []
        for _ in range(rng.randint(1, 5)):
            kind = rng.choice(['raw', 'rhs', 'rhs', 'mtx', 'mtx', 'mtx',
                               'round', 'solve'])
            if (mesh['kind'] in ('tri', 'tet')) \
                    and (par['rkind'] == 'facet'):
                # The local initial states need not satisfy all the EBCs.
                kind = {'raw': 'mtx', 'solve': 'rhs'}.get(kind, kind)
            ops.append({'op': kind, 'seed': rng.randrange(1 << 30),
                        'scale': rng.choice([0.0, 1.0, 1.0, 10.0]),
                        'renew': rng.random() < 0.2})
        return {'mesh': mesh, 'problem': par,
                'part': P.gen_partition(rng, mesh, max_tasks=5),
                'overlap': overlap,
                'ebcs': rng.random() < 0.8,
                'expand': (not scalar) or rng.random() < 0.6,
                'ops': ops, 'world': P.gen_world(rng)}

    def run(self, spec, ctx):
        seq = Sequential(spec)
        size = P.make_partition(self.pp, spec['part'], seq.mesh)[1]
        states = [seq.get_state(op) for op in spec['ops']]
        ref = []
        zero = nm.zeros(seq.size)
        seq.variables.apply_ebc(zero)
        for op, state in zip(spec['ops'], states):
            val = {}
            kind = op['op']
            if kind == 'raw':
                val['rhs'] = seq.residual(zero)
                val['mtx'] = seq.matrix(zero)
            elif kind == 'rhs':
                val['rhs'] = seq.residual(state)
            elif kind == 'mtx':
                val['mtx'] = seq.matrix(state)
            elif kind == 'solve':
                val['solution'] = seq.solve()
                if val['solution'] is None:
                    op = None
            ref.append((op, val))
        keep = [ii for ii, (op, _) in enumerate(ref) if op is not None]
        spec = dict(spec, ops=[spec['ops'][ii] for ii in keep])
        states = [states[ii] for ii in keep]
        ref = [ref[ii] for ii in keep]

        world = P.make_world(ctx, spec['world'], size)
        try:
            res = world.run(lambda comm: rank_program(self.pp, spec, states,
                                                      comm))
        finally:
            world.close()
        for ir in range(size):
            ctx.check(nm.array_equal(res[ir]['gids'], res[0]['gids']),
                      'ids', 'numbering differs in tasks')
        for io, (op, val) in enumerate(ref):
            self.compare(ctx, spec, seq, io, op, val, states[io],
                         [rr['vals'][io] for rr in res], res[0]['gids'])
            ctx.probe(op['op'])
        ctx.probe('tasks-%d' % size)
        ctx.probe(spec['problem']['kind'])
        ctx.probe('overlap' if spec['overlap'] else 'no-overlap')
        ctx.probe('messages', world.n_msg)

    def compare(self, ctx, spec, seq, io, op, ref, state, vals, gids):
        what = 'op %d (%s)' % (io, op['op'])

        def close(got, expected, key, msg):
            scale = max(1.0, nm.abs(expected).max(initial=0.0))
            err = nm.abs(got - expected).max(initial=0.0)
            ctx.check(err <= 1e-9 * scale, key,
                      lambda: '%s: %s, difference %g' % (what, msg, err))
            ctx.event(io, op['op'], key, '%.6e'
                      % nm.abs(expected).max(initial=0.0))

        val = vals[0]
        if 'rhs' in ref:
            close(val['rhs'][gids], ref['rhs'], 'rhs',
                  'the assembled residual differs')
        if 'sol' in val:
            close(val['sol'][gids], state, 'state-changed',
                  'the solution vector was changed')
        if 'mtx' in ref:
            mtx = val['mtx'][nm.ix_(gids, gids)].copy()
            mref = ref['mtx'].copy()
            if len(seq.ebc):
                free = nm.ones(seq.size, dtype=bool)
                free[seq.ebc] = False
                # Facets with EBCs need not be in a subdomain that has a
                # vertex of them: the columns do not matter.
                mtx[nm.ix_(free, seq.ebc)] = 0.0
                mref[nm.ix_(free, seq.ebc)] = 0.0
                if not spec['overlap']:
                    diag = mtx[seq.ebc, seq.ebc]
                    ctx.check((diag > 0.5).all(), 'ebc-diagonal',
                              lambda: '%s: diagonal %s' % (what, diag))
                    mtx[seq.ebc, seq.ebc] = 1.0
            close(mtx, mref, 'mtx', 'the assembled matrix differs')
        if op['op'] == 'round':
            for ir, vv in enumerate(vals):
                perm = nm.empty(seq.size)
                perm[gids] = state
                close(vv['local'], perm[vv['pdofs']], 'scatter',
                      'task %d: the local vector differs' % ir)
            close(val['back'][gids], 2.0 * state, 'gather',
                  'the gathered vector differs')
            close(val['zero'][gids], 2.0 * state, 'gather-to-zero',
                  'the vector gathered to rank 0 differs')
            close(val['zero2'][gids], state, 'gather-to-zero',
                  'the vector gathered again to rank 0 differs')
        if op['op'] == 'solve':
            ctx.check(val['condition'] == 0, 'not-converged',
                      lambda: '%s: condition %s' % (what, val['condition']))
            scale = max(1.0, nm.abs(ref['solution']).max())
            err = nm.abs(val['solution'][gids] - ref['solution']).max()
            ctx.check(err <= 1e-6 * scale, 'solution',
                      lambda: '%s: the solution differs, %g' % (what, err))

    def shrink(self, spec):
        yield from core.Property.shrink(self, spec)
        for par in P.shrink_mesh(spec['mesh']):
            yield dict(copy.deepcopy(spec), mesh=par)
        for ii in range(len(spec['problem']['ebcs'])):
            cand = copy.deepcopy(spec)
            cand['problem']['ebcs'].pop(ii)
            yield cand
        for ii, order in enumerate(spec['problem']['orders']):
            if order > 1:
                cand = copy.deepcopy(spec)
                cand['problem']['orders'][ii] -= 1
                yield cand
        if spec['part']['n_tasks'] > 1:
            cand = copy.deepcopy(spec)
            cand['part']['n_tasks'] -= 1
            yield cand
        world = {'seed': 0, 'eager': 1 << 30, 'stick': 0.0, 'slow': None}
        for key, val in world.items():
            if spec['world'][key] != val:
                cand = copy.deepcopy(spec)
                cand['world'][key] = val
                yield cand
