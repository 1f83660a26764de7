"""
C08: distribution of the cells and DOFs of fields to the tasks of a parallel
run.
"""
import copy

import numpy as nm

from dst import core
from dst import para as P


def rank_program(pp, spec, comm):
    """
    The steps of the parallel examples up to the numbering of local DOFs.
    """
    from sfepy.discrete.fem import Mesh, FEDomain
    from sfepy.discrete import FieldVariable, Variables

    mesh = P.make_mesh(spec['mesh'])
    domain = FEDomain('domain', mesh)
    omega = domain.create_region('Omega', 'all')
    fields = P.make_fields(omega, spec['fields'])
    expand = spec['expand']
    cell_tasks = None
    if comm.rank == 0:
        cell_tasks = P.make_partition(pp, spec['part'], mesh)[0]
    lfds, gfds = pp.distribute_fields_dofs(
        fields, cell_tasks, is_overlap=spec['overlap'],
        use_expand_dofs=expand, comm=comm)

    omega_gi = P.local_region(lfds[0].cells, domain)
    mesh_i = Mesh.from_region(omega_gi, mesh, localize=True)
    domain_i = FEDomain('domain_i', mesh_i)
    omega_i = domain_i.create_region('Omega', 'all')
    fields_i = P.make_fields(omega_i, spec['fields'], '_i')

    out = {'lfds': lfds, 'gfds': gfds, 'fields': fields,
           'fields_i': fields_i, 'cell_tasks': cell_tasks}
    if expand:
        states = [FieldVariable('u%d' % ii, 'unknown', ff, order=ii)
                  for ii, ff in enumerate(fields_i)]
        variables = Variables(states)
        out['composite'] = pp.setup_composite_dofs(lfds, fields, variables)
        out['pdofs'] = [lfd.petsc_dofs for lfd in lfds]
    else:
        out['pdofs'] = [pp.get_local_ordering(ff, lfd.petsc_dofs_conn)
                        for ff, lfd in zip(fields_i, lfds)]
    if comm.rank == 0:
        out['owners'] = [
            pp.verify_task_dof_maps(gfd.dof_maps, gfd.id_map, ff,
                                    use_expand_dofs=expand)
            for gfd, ff in zip(gfds, fields)] if len(fields) == 1 else None

    order = []

    def visit(rank, comm):
        order.append(rank)
        spec['_visits'].append(rank)

    pp.call_in_rank_order(visit, comm=comm)
    out['order'] = order
    return out


class PROP(core.Property):
    id = 'C08'
    rule = ('seeded meshes (quads, triangles, hexahedra, tetrahedra, one or'
            ' two components), partitions to 1-6 tasks, 1-3 fields of orders'
            ' 1-3 with 1-3 components; the ranks run under a seeded scheduler'
            ' with buffered or rendezvous messages; ownership, ranges,'
            ' coverage of cells and the identity of DOFs are checked')
    real = ['sfepy.parallel.parallel', 'Region', 'FE fields', 'FEDomain',
            'Mesh.from_region', 'pymetis']
    stub = ['MPI (cooperative simulated ranks and messages)']
    assumptions = ['every task has at least one cell',
                   'messages between two ranks are not reordered (MPI)']
    n_quick = 1500
    n_thorough = 30000
    quick_budget = 120.0
    run_timeout = 60.0

    def setup(self):
        self.pp = P.setup()

    def gen(self, rng, tier, index):
        mesh = P.gen_mesh(rng)
        dim = len(mesh['shape'])
        fields = [{'order': rng.choice([1, 1, 2, 2, 3] if dim == 2
                                       else [1, 1, 2]),
                   'nc': rng.choice([1, 1, 2, 3])}
                  for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        if (mesh['kind'] in ('tri', 'tet')) and (rng.random() < 0.2):
            fields[0]['order'] = '1B'
        return {'mesh': mesh, 'part': P.gen_partition(rng, mesh),
                'fields': fields,
                'overlap': rng.random() < 0.75,
                'expand': rng.random() < 0.6,
                'world': P.gen_world(rng)}

    def run(self, spec, ctx):
        spec = dict(spec, _visits=[])
        mesh = P.make_mesh(spec['mesh'])
        cell_tasks, size = P.make_partition(self.pp, spec['part'], mesh)
        world = P.make_world(ctx, spec['world'], size)
        try:
            res = world.run(lambda comm: rank_program(self.pp, spec, comm))
        finally:
            world.close()
        ctx.check(spec['_visits'] == list(range(size)), 'rank-order',
                  lambda: 'order of calls: %s' % spec['_visits'])
        self.check_all(ctx, spec, mesh, cell_tasks, size, res)
        ctx.probe('tasks-%d' % size)
        ctx.probe('messages', world.n_msg)
        ctx.probe('overlap' if spec['overlap'] else 'no-overlap')
        ctx.probe('expanded' if spec['expand'] else 'not-expanded')
        ctx.probe('fields-%d' % len(spec['fields']))
        ctx.probe('part-' + spec['part']['kind'])
        ctx.probe('rendezvous', spec['world']['eager'] == 0)
        if spec['mesh']['parts'] > 1:
            ctx.probe('disconnected')
        ctx.event('done', size, world.n_msg)

    def check_all(self, ctx, spec, mesh, cell_tasks, size, res):
        expand = spec['expand']
        gfds = res[0]['gfds']
        n_dofs, n_cells, dpns = [], [], []
        for ff, par in zip(res[0]['fields'], spec['fields']):
            dpn = par['nc'] if expand else 1
            dpns.append(dpn)
            n_dofs.append(ff.n_nod * dpn)
        total = sum(n_dofs)
        # 1. A permutation of all DOFs of all fields.
        ids = nm.concatenate([gfd.id_map.astype(nm.int64) for gfd in gfds])
        ctx.check(len(ids) == total, 'id-map-size',
                  lambda: 'id maps have %d items, %d DOFs'
                  % (len(ids), total))
        ctx.check(nm.array_equal(nm.sort(ids), nm.arange(total)),
                  'id-map-permutation',
                  lambda: 'PETSc DOFs are not a permutation of 0 ... %d: %s'
                  % (total - 1, nm.sort(ids)[:50]))
        ctx.event('ids', ids.tolist())
        # 2. Consecutive ranges in the order of tasks and fields.
        off = 0
        for ir in range(size):
            for ii, lfd in enumerate(res[ir]['lfds']):
                i0, i1 = lfd.petsc_dofs_range
                ctx.check((i0 == off) and (i1 >= i0), 'ranges',
                          lambda: 'task %d, field %d: range %s, expected to'
                          ' start at %d' % (ir, ii, (i0, i1), off))
                off = i1
        ctx.check(off == total, 'ranges-total',
                  lambda: 'ranges end at %d, %d DOFs' % (off, total))
        # 3. Cells.
        for ii, gfd in enumerate(gfds):
            parts = gfd.cell_parts
            ctx.check(len(parts) == size, 'cell-parts',
                      lambda: '%d parts, %d tasks' % (len(parts), size))
            for ir in range(size):
                own = nm.where(cell_tasks == ir)[0]
                ctx.check(nm.array_equal(nm.sort(parts[ir]), own),
                          'cell-parts', lambda: 'task %d: cells %s, expected'
                          ' %s' % (ir, parts[ir], own))
        for ir in range(size):
            own = nm.where(cell_tasks == ir)[0]
            for ii, lfd in enumerate(res[ir]['lfds']):
                cells = lfd.cells
                ctx.check(nm.array_equal(cells, nm.unique(cells)),
                          'cells-sorted', lambda: 'task %d: cells %s'
                          % (ir, cells))
                ctx.check(not len(nm.setdiff1d(own, cells)),
                          'missing-own-cells', lambda: 'task %d, field %d:'
                          ' cells %s, own %s' % (ir, ii, cells, own))
                if not spec['overlap']:
                    ctx.check(nm.array_equal(cells, own), 'overlap-cells',
                              lambda: 'task %d: cells %s, own %s'
                              % (ir, cells, own))
                ctx.check(nm.array_equal(cells, res[ir]['lfds'][0].cells),
                          'cells-of-fields-differ',
                          lambda: 'task %d: cells of field 0: %s, of field'
                          ' %d: %s' % (ir, res[ir]['lfds'][0].cells, ii,
                                       cells))
        # 4. Identity of DOFs and overlaps.
        for ii, field in enumerate(res[0]['fields']):
            dpn = dpns[ii]
            id_map = gfds[ii].id_map.astype(nm.int64)
            inv = {int(pd): dof for dof, pd in enumerate(id_map)}
            coors = field.get_coor()
            scale = 1e-8
            for ir in range(size):
                rr = res[ir]
                lfd = rr['lfds'][ii]
                pdofs = nm.asarray(rr['pdofs'][ii]).astype(nm.int64)
                fi = rr['fields_i'][ii]
                ctx.check(len(pdofs) == fi.n_nod * dpn, 'local-size',
                          lambda: 'task %d: %d local DOFs, %d expected'
                          % (ir, len(pdofs), fi.n_nod * dpn))
                try:
                    gdofs = nm.array([inv[int(pd)] for pd in pdofs])
                except KeyError:
                    ctx.check(False, 'foreign-dofs', 'task %d, field %d: PETSc'
                              ' DOFs of other fields' % (ir, ii))
                    continue
                comp = nm.tile(nm.arange(dpn), fi.n_nod)
                ctx.check(nm.array_equal(gdofs % dpn, comp), 'components',
                          lambda: 'task %d, field %d: components of DOFs are'
                          ' mixed' % (ir, ii))
                lcoors = nm.repeat(fi.get_coor(), dpn, axis=0)
                err = nm.abs(coors[gdofs // dpn] - lcoors).max()
                ctx.check(err <= scale, 'dof-identity',
                          lambda: 'task %d, field %d: local DOFs are numbered'
                          ' as other DOFs, distance %g' % (ir, ii, err))
                # Every owned DOF is local, with all its cells if overlap.
                i0, i1 = lfd.petsc_dofs_range
                owned = nm.array([inv[pd] for pd in range(i0, i1)
                                  if pd in inv], dtype=int)
                ctx.check(len(owned) == i1 - i0, 'owned-of-field',
                          lambda: 'task %d, field %d: range %s contains other'
                          ' DOFs' % (ir, ii, (i0, i1)))
                ctx.check(not len(nm.setdiff1d(owned, gdofs)),
                          'owned-not-local', lambda: 'task %d, field %d: owned'
                          ' DOFs %s are not local'
                          % (ir, ii, nm.setdiff1d(owned, gdofs)))
                if spec['overlap'] and len(owned):
                    mask = nm.zeros(field.n_nod, dtype=bool)
                    mask[owned // dpn] = True
                    need = nm.where(mask[field.econn].any(1))[0]
                    miss = nm.setdiff1d(need, lfd.cells)
                    ctx.check(not len(miss), 'missing-overlap-cells',
                              lambda: 'task %d, field %d: cells %s of owned'
                              ' DOFs are not in the task' % (ir, ii, miss))
                own = nm.where(cell_tasks == ir)[0]
                odofs = nm.unique(field.econn[own])
                bad = nm.setdiff1d(owned // dpn, odofs)
                ctx.check(not len(bad), 'owned-outside',
                          lambda: 'task %d, field %d: owns DOFs %s out of its'
                          ' subdomain' % (ir, ii, bad))
        # 5. Composite sizes.
        if expand:
            for ir in range(size):
                sizes, drange, pdofs = res[ir]['composite']
                i0 = res[ir]['lfds'][0].petsc_dofs_range[0]
                i1 = res[ir]['lfds'][-1].petsc_dofs_range[1]
                ctx.check((tuple(sizes) == (i1 - i0, total))
                          and (tuple(drange) == (i0, i1)), 'composite',
                          lambda: 'task %d: sizes %s, range %s; expected %s,'
                          ' %s' % (ir, sizes, drange, (i1 - i0, total),
                                   (i0, i1)))
                ctx.check(nm.array_equal(
                    pdofs, nm.concatenate(res[ir]['pdofs'])), 'composite',
                    'local ordering of composite DOFs differs')

    def shrink(self, spec):
        if len(spec['fields']) > 1:
            for ii in range(len(spec['fields'])):
                cand = copy.deepcopy(spec)
                cand['fields'].pop(ii)
                yield cand
        for par in P.shrink_mesh(spec['mesh']):
            yield dict(copy.deepcopy(spec), mesh=par)
        for ii, par in enumerate(spec['fields']):
            for key in ('order', 'nc'):
                if par[key] == '1B':
                    cand = copy.deepcopy(spec)
                    cand['fields'][ii][key] = 1
                    yield cand
                elif par[key] > 1:
                    cand = copy.deepcopy(spec)
                    cand['fields'][ii][key] -= 1
                    yield cand
        if spec['part']['n_tasks'] > 1:
            cand = copy.deepcopy(spec)
            cand['part']['n_tasks'] -= 1
            yield cand
        world = {'seed': 0, 'eager': 1 << 30, 'stick': 0.0, 'slow': None}
        for key, val in world.items():
            if spec['world'][key] != val:
                cand = copy.deepcopy(spec)
                cand['world'][key] = val
                yield cand
