"""
C22: mesh topology and regions under any history of requests, wrong requests
and failing allocations in the compiled core.
"""
import copy
import ctypes
import gc
import itertools
import os
import random

import numpy as nm

from dst import core
from dst import simalloc

KINDS = ['line', 'tri', 'quad', 'mixed2', 'tet', 'hex', 'wedge', 'mixed3']
DIMS = {'line': 1, 'tri': 2, 'quad': 2, 'mixed2': 2, 'tet': 3, 'hex': 3,
        'wedge': 3, 'mixed3': 3}
NV = {2: '1_2', 3: '2_3', 4: None, 8: '3_8', 6: '3_6'}

HEX = [0, 1, 2, 3, 4, 5, 6, 7]
HEX_TETS = [(0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 5, 6, 4),
            (1, 5, 6, 0), (1, 6, 2, 0)]
HEX_WEDGES = [(0, 1, 2, 4, 5, 6), (0, 2, 3, 4, 6, 7)]


def gen_mesh(rng):
    kind = rng.choice(KINDS)
    dim = DIMS[kind]
    hi = {1: 6, 2: 3, 3: 2}[dim]
    return {'kind': kind, 'shape': [rng.randint(1, hi) for _ in range(dim)],
            'seed': rng.randrange(1 << 30), 'n_group': rng.randint(1, 3),
            'permute': rng.random() < 0.7}


def mesh_data(par):
    """Coordinates, vertex groups and lists of cells by description."""
    rng = random.Random(par['seed'])
    kind, shape = par['kind'], par['shape']
    dim = DIMS[kind]
    npts = [ss + 1 for ss in shape]
    ids = {}
    coors = []
    for ii in itertools.product(*[range(nn) for nn in npts]):
        ids[ii] = len(coors)
        coors.append([xx / float(ss) + (rng.uniform(-0.08, 0.08) / ss)
                      for xx, ss in zip(ii, shape)])
    cells = {}
    cols = rng.getrandbits(16)
    for ii in itertools.product(*[range(ss) for ss in shape]):
        if dim == 1:
            cells.setdefault('1_2', []).append(
                [ids[ii], ids[(ii[0] + 1,)]])
        elif dim == 2:
            ix, iy = ii
            quad = [ids[(ix, iy)], ids[(ix + 1, iy)],
                    ids[(ix + 1, iy + 1)], ids[(ix, iy + 1)]]
            split = {'tri': True, 'quad': False,
                     'mixed2': rng.random() < 0.5}[kind]
            if split:
                cells.setdefault('2_3', []).extend(
                    [[quad[0], quad[1], quad[2]],
                     [quad[0], quad[2], quad[3]]])
            else:
                cells.setdefault('2_4', []).append(quad)
        else:
            ix, iy, iz = ii
            hexa = [ids[(ix + a, iy + b, iz + c)]
                    for c in (0, 1) for a, b in ((0, 0), (1, 0), (1, 1),
                                                 (0, 1))]
            how = {'tet': 'tet', 'hex': 'hex', 'wedge': 'wedge',
                   'mixed3': 'hex' if (cols >> (ix * 4 + iy)) & 1
                   else 'wedge'}[kind]
            if how == 'hex':
                cells.setdefault('3_8', []).append(hexa)
            else:
                key, split = {'tet': ('3_4', HEX_TETS),
                              'wedge': ('3_6', HEX_WEDGES)}[how]
                cells.setdefault(key, []).extend(
                    [[hexa[jj] for jj in cc] for cc in split])
    if par['permute']:
        perm = list(range(len(coors)))
        rng.shuffle(perm)
        new = [None] * len(coors)
        for old, nn in enumerate(perm):
            new[nn] = coors[old]
        coors = new
        for key in cells:
            cells[key] = [[perm[vv] for vv in cc] for cc in cells[key]]
    groups = [rng.randrange(par['n_group']) for _ in coors]
    mats = {key: [rng.randrange(par['n_group']) for _ in cells[key]]
            for key in cells}
    return dim, coors, groups, cells, mats


def make_mesh(par):
    from sfepy.discrete.fem import Mesh
    dim, coors, groups, cells, mats = mesh_data(par)
    descs = sorted(cells)
    return Mesh.from_data('m', nm.array(coors, dtype=nm.float64),
                          nm.array(groups, dtype=nm.int32),
                          [nm.array(cells[dd], dtype=nm.int32)
                           for dd in descs],
                          [nm.array(mats[dd], dtype=nm.int32)
                           for dd in descs], descs)


def gels():
    from sfepy.discrete.fem.geometry_element import create_geometry_elements
    return create_geometry_elements()


def rows(conn):
    off = conn.offsets
    return [tuple(int(jj) for jj in conn.indices[off[ii]:off[ii + 1]])
            for ii in range(len(off) - 1)]


class Model(object):
    """Incidence relations by definition from cell vertices and, for edges and
    faces, from their vertex sets."""

    def __init__(self, cells, types, n_vertex, tdim):
        self.tdim = tdim
        self.types = types
        self.cells = cells
        self.ents = {0: [(ii,) for ii in range(n_vertex)], tdim: cells}
        self.local = {}
        self._rel = {}
        gg = gels()
        for dd in range(1, tdim):
            self.local[dd] = []
            for cell, key in zip(cells, types):
                gel = gg[key]
                loc = gel.edges if dd == 1 else gel.faces
                self.local[dd].append([tuple(cell[jj] for jj in ff
                                             if jj >= 0) for ff in loc])

    def entity_sets(self, dd):
        return set(frozenset(ff) for ll in self.local[dd] for ff in ll)

    def number(self, dd, vert):
        """Accept the numbering of edges or faces; return a problem."""
        sets = [frozenset(vv) for vv in vert]
        if len(set(sets)) != len(sets):
            return 'repeated entities'
        if set(sets) != self.entity_sets(dd):
            return 'wrong entities'
        if dd not in self.ents:
            self.ents[dd] = [tuple(vv) for vv in vert]
        return None

    def rel(self, d1, d2):
        """The d1 -> d2 incidence as a list of lists."""
        key = (d1, d2)
        if key in self._rel:
            return self._rel[key]
        sets1 = [set(ee) for ee in self.ents[d1]]
        sets2 = [set(ee) for ee in self.ents[d2]]
        if d1 == d2 == 0:
            near = [set() for _ in sets1]
            for cell in self.cells:
                for vv in cell:
                    near[vv].update(cell)
            out = [sorted(nn - {ii}) for ii, nn in enumerate(near)]
        elif d1 == d2:
            out = [[jj for jj, s2 in enumerate(sets2)
                    if (ii != jj) and (s1 & s2)]
                   for ii, s1 in enumerate(sets1)]
        elif d1 > d2:
            if (d1 == self.tdim) and (d2 > 0):
                index = {frozenset(ee): ii
                         for ii, ee in enumerate(self.ents[d2])}
                out = [[index[frozenset(ff)] for ff in ll]
                       for ll in self.local[d2]]
            elif d2 == 0:
                out = [list(ee) for ee in self.ents[d1]]
            else:
                out = [[jj for jj, s2 in enumerate(sets2) if s2 <= s1]
                       for s1 in sets1]
        else:
            out = [[] for _ in sets1]
            for jj, row in enumerate(self.rel(d2, d1)):
                for ii in row:
                    out[ii].append(jj)
        self._rel[key] = out
        return out

    def ordered(self, d1, d2):
        return (d2 < d1) and ((d2 == 0) or (d1 == self.tdim))

    def same(self, d1, d2, conn):
        mine = self.rel(d1, d2)
        if self.ordered(d1, d2):
            return [list(rr) for rr in mine] == [list(rr) for rr in conn]
        return [sorted(rr) for rr in mine] == [sorted(rr) for rr in conn]


def arr(vals):
    return nm.array(vals, dtype=nm.uint32)


def usage():
    """The number of allocated blocks of the mesh module."""
    from sfepy.discrete.common.extmods.cmesh import get_cmem_usage
    return get_cmem_usage()[2]


class Slot(object):
    def __init__(self, cmesh, chain):
        self.cmesh = cmesh
        self.chain = chain  # How to make it again.
        self.local = False  # Local entities set?
        self.oris = False  # Set up entities called?
        self.mesh = None
        self.domain = None
        self.regions = {}
        self.defs = []


def move(cmesh, scale, shift, group):
    """Change the coordinates and groups of a mesh in place."""
    coors = cmesh.coors
    coors *= scale
    coors += shift
    cmesh.vertex_groups[:] = cmesh.vertex_groups[::-1].copy()
    cmesh.cell_groups[-1] = group


def make_chain(chain):
    """A cmesh from its history-free description."""
    mesh = make_mesh(chain[0])
    cmesh = mesh.cmesh
    for ents, dent, localize in chain[1:]:
        if ents == 'move':
            move(cmesh, *dent)
            continue
        if ents is None:
            cmesh = cmesh.create_new()
            continue
        cmesh.set_local_entities(gels())
        cmesh.setup_entities()
        cmesh.setup_connectivity(dent, 0)
        cmesh = cmesh.create_new(arr(ents), dent, localize=localize)
    return cmesh, mesh


SELS = ['all', 'vertices in (x < 0.55)', 'vertices in (x > 0.3)',
        'vertices of surface', 'vertices by vfun', 'cells by cfun',
        'cells of group 0', 'cells of group 1', 'vertices of group 0',
        'cell 0', 'cell 0, 1', 'vertex 0, 1, 2']
RKINDS = ['cell', 'cell', 'facet', 'facet', 'vertex', 'edge', 'face',
          'cell_only', 'facet_only', 'vertex_only', 'edge_only']
QUERIES = ['vertices', 'edges', 'faces', 'cells', 'facets', 'shape',
           'get_cells', 'get_cells_any', 'get_facet_indices', 'get_charfun',
           'get_charfun_cell', 'get_edge_graph', 'has_cells']


def vfun(coors, domain=None):
    return nm.where(coors[:, 0] > 0.45)[0]


def cfun(coors, domain=None):
    return nm.where(coors[:, 0] < 0.6)[0]


def functions():
    from sfepy.discrete import Function, Functions
    return Functions([Function('vfun', vfun), Function('cfun', cfun)])


def make_region(domain, rdef, funs):
    return domain.create_region(rdef['name'], rdef['sel'], rdef['kind'],
                                parent=rdef.get('parent'),
                                functions=funs,
                                allow_empty=rdef['allow_empty'])


def as_value(val):
    import scipy.sparse as sps
    from sfepy.base.base import Struct
    if isinstance(val, Struct):
        return sorted((kk, int(vv)) for kk, vv in val.to_dict().items())
    if sps.issparse(val):
        val = val.tocoo()
        return sorted(zip(val.row.tolist(), val.col.tolist(),
                          val.data.tolist()))
    if isinstance(val, nm.ndarray):
        return val.tolist()
    return val


def query(region, what):
    if what == 'get_cells_any':
        return as_value(region.get_cells(true_cells_only=False))
    if what == 'get_charfun_cell':
        return as_value(region.get_charfun(by_cell=True))
    val = getattr(region, what)
    return as_value(val() if callable(val) else val)


def outcome(fun, *args):
    """The value or the kind of an ordinary error."""
    try:
        return ('ok', fun(*args))
    except (ValueError, AttributeError, AssertionError, IndexError,
            RuntimeError, MemoryError, SystemError, KeyError,
            TypeError) as exc:
        return ('error', type(exc).__name__, str(exc))


class PROP(core.Property):
    id = 'C22'
    fork_each = True
    rule = ('random meshes (lines to mixed 3D), random sequences of'
            ' connectivity set-ups, frees, incidence and geometry queries,'
            ' sub-meshes and regions, some of them wrong (missing'
            ' connectivity), with allocations of the compiled core failing'
            ' at random points; answers are compared with incidence'
            ' relations by definition and with undisturbed twins')
    real = ['mesh.c', 'cmesh.pyx', 'common_python.c memory layer',
            'Region', 'Domain.create_region', 'region selectors']
    stub = ['allocator of the compiled core (PyMem_*): guard pages, no reuse'
            ' of freed memory, seeded failures']
    assumptions = ['NumPy and Python allocations do not fail',
                   'a failed request may raise any ordinary exception']
    n_quick = 1500
    n_thorough = 60000
    quick_budget = 120.0
    run_timeout = 60.0

    def setup(self):
        from sfepy.base.base import output
        import sfepy.discrete.fem  # noqa: F401
        import sfepy.discrete.common.extmods.cmesh  # noqa: F401
        output.set_output(quiet=True)
        simalloc.install()

    def gen(self, rng, tier, index):
        mesh = gen_mesh(rng)
        tdim = DIMS[mesh['kind']]
        rate = rng.choice([0.0, 0.1, 0.3, 0.6])
        wrong = rng.choice([0.0, 0.0, 0.15])
        n_ops = rng.randint(4, 22 if tier == 'quick' else 40)
        focus = rng.choice(['mesh', 'mesh', 'region', 'both'])
        ops = []
        if rng.random() < 0.8:
            ops.append({'op': 'local', 's': 0})
        if (focus != 'mesh') or (rng.random() < 0.3):
            ops.append({'op': 'domain', 's': 0})
        n_reg = 0
        n_slot = 1
        for _ in range(n_ops):
            ss = rng.randrange(n_slot) if rng.random() < 0.5 else 0
            names = []
            if focus in ('mesh', 'both'):
                names += ['setup'] * 4 + ['free'] * 2 + [
                    'graph', 'surface', 'incident', 'incident', 'local_ids',
                    'complete', 'oris', 'centroids', 'volumes', 'normals',
                    'setup_entities', 'local', 'new', 'new', 'delete',
                    'move']
            if focus in ('region', 'both'):
                names += ['region'] * 6 + ['query'] * 10 + ['free', 'setup']
            name = rng.choice(names)
            op = {'op': name, 's': ss, 'd1': rng.randint(0, tdim),
                  'd2': rng.randint(0, tdim), 'r': rng.randrange(1 << 30)}
            if name == 'new':
                if n_slot > 3:
                    continue
                op['how'] = rng.choice(['copy', 'cells', 'cells', 'facets'])
                op['localize'] = rng.random() < 0.5
                n_slot += 1
            elif name == 'region':
                op['s'] = 0
                op['def'] = self.gen_region(rng, n_reg)
                n_reg += 1
            elif name == 'query':
                op['s'] = 0
                op['what'] = rng.choice(QUERIES)
            elif name in ('incident', 'local_ids', 'complete'):
                op['wrong'] = rng.random() < wrong
            if rng.random() < rate:
                op['fault'] = [rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 10, 14]),
                               rng.choice([1, 1, 1, 2, -1])]
            ops.append(op)
        return {'mesh': mesh, 'ops': ops}

    def gen_region(self, rng, n_reg):
        def leaf():
            if n_reg and (rng.random() < 0.5):
                name = 'R%d' % rng.randrange(n_reg)
                return rng.choice(['r.' + name, 'r.' + name,
                                   'copy r.' + name, 'vertex in r.' + name])
            return rng.choice(SELS)

        sel = leaf()
        if rng.random() < 0.5:
            def refs():
                if n_reg and (rng.random() < 0.7):
                    return 'r.R%d' % rng.randrange(n_reg)
                return rng.choice(SELS)
            ops = [rng.choice('+-*') + rng.choice('vvccsef')
                   for _ in range(rng.randint(1, 2))]
            sel = refs()
            for oo in ops:
                sel = '%s %s %s' % (sel, oo, refs())
        out = {'name': 'R%d' % n_reg, 'sel': sel,
               'kind': rng.choice(RKINDS),
               'allow_empty': rng.random() < 0.3}
        if n_reg and (rng.random() < 0.2):
            out['parent'] = 'R%d' % rng.randrange(n_reg)
        return out

    def shrink(self, spec):
        for cand in core.Property.shrink(self, spec):
            yield cand
        for ii, op in enumerate(spec['ops']):
            if 'fault' in op:
                cand = copy.deepcopy(spec)
                del cand['ops'][ii]['fault']
                yield cand
        for ii, ss in enumerate(spec['mesh']['shape']):
            if ss > 1:
                cand = copy.deepcopy(spec)
                cand['mesh']['shape'][ii] -= 1
                yield cand

    # Running.

    def run(self, spec, ctx):
        libc = ctypes.CDLL(None)
        save = os.dup(1)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        try:
            gc.collect()
            live = usage()
            self.run_ops(spec, ctx)
            for slot in self.slots:
                slot.__dict__.clear()
            self.slots = []
            self.models = {}
            self.twins = {}
            gc.collect()
            left = usage()
            ctx.event('live', left - live, simalloc.n_bad_free())
            ctx.check(simalloc.n_bad_free() == 0, 'bad-free',
                      'memory was freed twice')
            ctx.check(left == live, 'leak',
                      lambda: '%d blocks were not freed' % (left - live))
        finally:
            simalloc.disarm()
            libc.fflush(None)
            os.dup2(save, 1)
            os.close(save)
            os.close(null)

    def run_ops(self, spec, ctx):
        self.funs = functions()
        self.models = {}
        self.twins = {}
        cmesh, mesh = make_chain([spec['mesh']])
        self.slots = [Slot(cmesh, [spec['mesh']])]
        self.slots[0].mesh = mesh
        for iop, op in enumerate(spec['ops']):
            if not self.slots:
                break
            slot = self.slots[op['s'] % len(self.slots)]
            if op['op'] in ('domain', 'region', 'query'):
                slot = self.slots[0]
                if slot.mesh is None:
                    continue
            self.step(ctx, iop, op, slot)
        for slot in self.slots:
            self.check_conns(ctx, slot, 'end')
            self.check_data(ctx, slot, 'end')

    def guarded(self, ctx, op, fun, *args):
        """Run a request under the planned fault; ('ok', value) or
        ('error', ...), and if a fault occurred."""
        n0 = simalloc.n_failed()
        if op.get('fault'):
            simalloc.arm(*op['fault'])
        try:
            res = outcome(fun, *args)
        finally:
            simalloc.disarm()
        hit = simalloc.n_failed() - n0
        if hit:
            ctx.fault('alloc-fail')
        return res, hit

    def settle(self, ctx, op, res, hit, need=True):
        """
        Check that an error has a reason. Returns True if there is a value.
        """
        name = op['op']
        ctx.event(name, res[0], hit)
        if res[0] == 'error':
            if not need:
                ctx.probe('wrong-request-refused')
                ctx.check(res[1] != 'SystemError', 'obscure-error:' + name,
                          lambda: repr(res))
            elif hit:
                ctx.probe('fault-reported')
                ctx.check(res[1] != 'SystemError', 'obscure-error:' + name,
                          lambda: repr(res))
            else:
                ctx.check(False, 'error:' + name,
                          '%s failed for no reason: %s' % (name, res))
            return False
        ctx.check(need, 'no-error:' + name,
                  lambda: 'a wrong request gave %s' % (res[1],))
        if hit:
            ctx.probe('fault-absorbed')
        return need

    def model(self, ctx, slot):
        """The relations of the slot's mesh from an undisturbed twin."""
        key = repr(slot.chain)
        if key in self.models:
            return self.models[key]
        cmesh, _ = make_chain(slot.chain)
        tdim = cmesh.tdim
        cells = rows(cmesh.get_conn(tdim, 0))
        names = {2: '1_2', 8: '3_8', 6: '3_6', 3: '2_3'}
        types = [names.get(len(cc), '2_4' if tdim == 2 else '3_4')
                 for cc in cells]
        if tdim == 1:
            types = ['1_2'] * len(cells)
        model = Model(cells, types, cmesh.n_coor, tdim)
        cmesh.set_local_entities(gels())
        cmesh.setup_entities()
        for dd in range(1, tdim):
            cmesh.setup_connectivity(dd, 0)
            bad = model.number(dd, rows(cmesh.get_conn(dd, 0)))
            ctx.check(bad is None, 'twin-entities', lambda: '%s %d: %s'
                      % (bad, dd, slot.chain))
        model.oris = {dd: nm.array(cmesh.get_orientations(dd))
                      for dd in range(1, tdim)}
        model.volumes = {dd: cmesh.get_volumes(dd)
                         for dd in range(1, tdim + 1)}
        model.normals = (cmesh.get_facet_normals()
                         if tdim == cmesh.dim else None)
        model.coors = nm.array(cmesh.coors)
        model.groups = nm.array(cmesh.cell_groups)
        model.vgroups = nm.array(cmesh.vertex_groups)
        self.models[key] = model
        return model

    def check_conns(self, ctx, slot, where):
        model = self.model(ctx, slot)
        for d1 in range(model.tdim + 1):
            for d2 in range(model.tdim + 1):
                conn = slot.cmesh.get_conn(d1, d2)
                if conn is None:
                    continue
                ctx.check(model.same(d1, d2, rows(conn)),
                          'wrong-conn', lambda: '%s: %d -> %d: %s, not %s'
                          % (where, d1, d2, rows(conn), model.rel(d1, d2)))
        for dd in range(model.tdim + 1):
            num = int(slot.cmesh.num[dd])
            have = slot.cmesh.get_conn(dd, 0) is not None
            ctx.check((num == len(model.ents[dd]))
                      or ((not num) and (not have)),
                      'wrong-num', lambda: '%s: %d entities of dimension %d'
                      % (where, num, dd))

    def check_data(self, ctx, slot, where):
        """Each mesh has its own coordinates and groups."""
        model = self.model(ctx, slot)
        cmesh = slot.cmesh
        for name, have, mine in (
                ('coors', cmesh.coors, model.coors),
                ('cell-groups', cmesh.cell_groups, model.groups),
                ('vertex-groups', cmesh.vertex_groups, model.vgroups)):
            ctx.check(nm.array_equal(have, mine), 'wrong-data:' + name,
                      lambda: '%s: %s, not %s' % (where, have, mine))

    def have(self, slot, d1, d2):
        return slot.cmesh.get_conn(d1, d2) is not None

    def can_build(self, slot, dims):
        """Local entities are needed to make edges and faces."""
        td = slot.cmesh.tdim
        return slot.local or all((dd in (0, td)) or self.have(slot, dd, 0)
                                 for dd in dims)

    def step(self, ctx, iop, op, slot):
        rng = random.Random(op.get('r', 0))
        cmesh = slot.cmesh
        model = self.model(ctx, slot)
        td = model.tdim
        d1 = op.get('d1', 0) % (td + 1)
        d2 = op.get('d2', 0) % (td + 1)
        name = op['op']
        ctx.choice_made(name, d1, d2, slot is self.slots[0])

        def some(dd):
            num = len(model.ents[dd])
            return sorted(rng.sample(range(num), rng.randint(1, num)))

        if name == 'local':
            res, hit = self.guarded(ctx, op, cmesh.set_local_entities, gels())
            if self.settle(ctx, op, res, hit):
                slot.local = True
            else:
                slot.local = False
                if slot.domain is not None:
                    # The domain needs them.
                    res = outcome(cmesh.set_local_entities, gels())
                    self.settle(ctx, dict(op, fault=None), res, 0)
                    slot.local = True

        elif name == 'setup_entities':
            need = slot.local
            res, hit = self.guarded(ctx, op, cmesh.setup_entities)
            if self.settle_any(ctx, op, res, hit, need):
                slot.oris = True

        elif name == 'setup':
            res, hit = self.guarded(ctx, op, cmesh.setup_connectivity, d1, d2)
            need = self.can_build(slot, (d1, d2))
            if self.settle_any(ctx, op, res, hit, need):
                ctx.check(self.have(slot, d1, d2), 'missing-conn',
                          '%d -> %d' % (d1, d2))

        elif name == 'free':
            if d2 == 0 and d1 in (0, td):
                if d1 == td:
                    return
            res, hit = self.guarded(ctx, op, cmesh.free_connectivity, d1, d2)
            self.settle(ctx, op, res, hit)
            ctx.check(not self.have(slot, d1, d2), 'not-freed',
                      '%d -> %d' % (d1, d2))

        elif name == 'graph':
            need = self.can_build(slot, (d1, d2))
            res, hit = self.guarded(ctx, op, cmesh.get_conn_as_graph, d1, d2)
            if self.settle_any(ctx, op, res, hit, need):
                gg = res[1].tocoo()
                mine = sorted((ii, jj) for ii, row in
                              enumerate(model.rel(d1, d2)) for jj in row)
                ctx.check(mine == sorted(zip(gg.row.tolist(),
                                             gg.col.tolist())),
                          'wrong:graph', lambda: '%d -> %d' % (d1, d2))

        elif name == 'surface':
            need = self.can_build(slot, (td - 1,))
            res, hit = self.guarded(ctx, op, cmesh.get_surface_facets)
            if self.settle_any(ctx, op, res, hit, need):
                mine = [ii for ii, row in enumerate(model.rel(td - 1, td))
                        if len(row) == 1]
                ctx.check(mine == res[1].tolist(), 'wrong:surface',
                          lambda: '%s, not %s' % (res[1], mine))

        elif name == 'incident':
            dent, dim = d1, d2
            if not op['wrong'] and not self.have(slot, dent, dim):
                return
            ents = some(dent)
            need = self.have(slot, dent, dim)
            res, hit = self.guarded(ctx, op, cmesh.get_incident, dim,
                                    arr(ents), dent, True)
            if self.settle(ctx, op, res, hit, need):
                ind, off = res[1]
                got = [sorted(ind[off[ii]:off[ii + 1]].tolist())
                       for ii in range(len(ents))]
                mine = [sorted(model.rel(dent, dim)[ii]) for ii in ents]
                ctx.check(got == mine, 'wrong:incident',
                          lambda: '%s, not %s' % (got, mine))

        elif name == 'local_ids':
            # Positions of entities in the cells around them.
            dent, dim = min(d1, td - 1), td
            ents = some(dent)
            need = self.have(slot, dim, dent)
            if not op['wrong'] and not need:
                return
            inc = [model.rel(dent, dim)[ii] for ii in ents]
            off = nm.cumsum([0] + [len(ii) for ii in inc])
            flat = [jj for ii in inc for jj in ii]
            if not flat:
                return
            res, hit = self.guarded(ctx, op, cmesh.get_local_ids, arr(ents),
                                    dent, arr(flat), arr(off), dim)
            if self.settle(ctx, op, res, hit, need):
                mine = [model.rel(dim, dent)[jj].index(ee)
                        for ee, ii in zip(ents, inc) for jj in ii]
                ctx.check(mine == res[1].tolist(), 'wrong:local_ids',
                          lambda: '%s, not %s' % (res[1], mine))

        elif name == 'complete':
            dim, dent = d1, d2
            need = self.have(slot, dim, dent)
            if not op['wrong'] and not need:
                return
            # The entities could have been freed.
            both = all((dd == 0) or self.have(slot, dd, 0)
                       for dd in (dim, dent))
            settle = (self.settle if (not need) or both
                      else self.settle_free)
            ents = some(dent)
            res, hit = self.guarded(ctx, op, cmesh.get_complete, dim,
                                    arr(ents), dent)
            if settle(ctx, op, res, hit, need):
                mine = [ii for ii, row in enumerate(model.rel(dim, dent))
                        if set(row) <= set(ents)]
                ctx.check(mine == res[1].tolist(), 'wrong:complete',
                          lambda: '%s, not %s' % (res[1], mine))

        elif name == 'oris':
            dd = min(max(d1, 1), td - 1)
            if not slot.oris or not (1 <= dd <= td - 1):
                return
            res, hit = self.guarded(ctx, op, cmesh.get_orientations, dd)
            if self.settle(ctx, op, res, hit):
                ctx.check(nm.array_equal(res[1], model.oris[dd]),
                          'wrong:oris', lambda: '%s, not %s'
                          % (res[1], model.oris[dd]))

        elif name in ('centroids', 'volumes'):
            dd = d1 if name == 'centroids' else max(d1, 1)
            need = (dd == 0) or self.have(slot, dd, 0)
            if not need:
                return
            fun = getattr(cmesh, 'get_' + name)
            res, hit = self.guarded(ctx, op, fun, dd)
            if self.settle(ctx, op, res, hit, need):
                if name == 'volumes':
                    mine = model.volumes[dd]
                else:
                    mine = nm.array([nm.mean(model.coors[sorted(set(ee))],
                                             axis=0)
                                     for ee in model.ents[dd]])
                ctx.check(nm.allclose(res[1], mine, rtol=1e-12, atol=1e-14),
                          'wrong:' + name, lambda: '%s, not %s'
                          % (res[1], mine))

        elif name == 'normals':
            if (model.normals is None):
                return
            need = slot.local or (td == 1)
            res, hit = self.guarded(ctx, op, cmesh.get_facet_normals)
            if self.settle_any(ctx, op, res, hit, need):
                ctx.check(nm.allclose(res[1], model.normals, rtol=1e-12,
                                      atol=1e-14), 'wrong:normals',
                          lambda: '%s, not %s' % (res[1], model.normals))

        elif name == 'new':
            self.step_new(ctx, op, slot, model, rng)

        elif name == 'move':
            if slot.domain is not None:
                return
            args = (rng.choice([0.5, 2.0, 4.0]), rng.choice([-1.0, 0.5]),
                    rng.randint(0, 3))
            move(cmesh, *args)
            slot.chain = slot.chain + [('move', args, None)]
            ctx.event('move')
            for other in self.slots:
                self.check_data(ctx, other, name)
            ctx.probe('moved')
            if len(self.slots) > 1:
                ctx.probe('moved-with-others')

        elif name == 'delete':
            if slot is self.slots[0]:
                return
            self.slots.remove(slot)
            slot.__dict__.clear()
            ctx.event('delete')
            return

        elif name == 'domain':
            self.step_domain(ctx, op, slot)

        elif name == 'region':
            self.step_region(ctx, op, slot)

        elif name == 'query':
            self.step_query(ctx, op, slot, rng)

        self.check_conns(ctx, slot, name)

    def settle_any(self, ctx, op, res, hit, need):
        """Without local entities an error may, but need not occur."""
        if need or (res[0] == 'error'):
            return self.settle(ctx, op, res, hit, need)
        ctx.event(op['op'], 'not needed')
        return False

    def settle_free(self, ctx, op, res, hit, need):
        """An error or the right value."""
        return self.settle(ctx, op, res, hit, res[0] == 'ok')

    def step_new(self, ctx, op, slot, model, rng):
        td = model.tdim
        cmesh = slot.cmesh
        if op['how'] == 'copy':
            args, item = (), (None, 0, False)
        else:
            dent = td if op['how'] == 'cells' else td - 1
            if dent < 1:
                return
            if not self.have(slot, dent, 0):
                return
            num = len(model.ents[dent])
            ents = sorted(rng.sample(range(num), rng.randint(1, num)))
            args = (arr(ents), dent, op['localize'])
            item = (ents, dent, op['localize'])
        res, hit = self.guarded(ctx, op, cmesh.create_new, *args)
        if not self.settle(ctx, op, res, hit):
            return
        new = Slot(res[1], slot.chain + [item])
        res = None
        self.slots.append(new)
        mm = self.model(ctx, new)
        if item[0] is None:
            mine = model.ents[td]
            verts = list(range(len(model.coors)))
        else:
            mine = [model.ents[item[1]][ii] for ii in item[0]]
            verts = list(range(len(model.coors)))
            if item[2]:
                verts = sorted(set(vv for ee in mine for vv in ee))
                mine = [tuple(verts.index(vv) for vv in ee) for ee in mine]
        ctx.check([tuple(cc) for cc in mm.cells] == [tuple(cc)
                                                     for cc in mine],
                  'wrong:new', lambda: '%s, not %s' % (mm.cells, mine))
        ctx.check(nm.array_equal(mm.coors, model.coors[verts]),
                  'wrong:new-coors', 'other coordinates')
        self.check_conns(ctx, new, 'new')

    # Regions.

    def step_domain(self, ctx, op, slot):
        from sfepy.discrete.fem import FEDomain
        if slot.domain is not None:
            return
        # Cell nodes may be reordered.
        res, hit = self.guarded(ctx, op, FEDomain, 'domain', slot.mesh)
        if not self.settle(ctx, op, res, hit):
            res = outcome(FEDomain, 'domain', slot.mesh)
            self.settle(ctx, dict(op, fault=None), res, 0)
        slot.domain = res[1]
        slot.local = slot.oris = True
        self.models.pop(repr(slot.chain), None)
        if self.model(ctx, slot).cells != rows(
                slot.cmesh.get_conn(slot.cmesh.tdim, 0)):
            raise core.HarnessError('reoriented mesh')

    def twin(self, slot, defs, what=None):
        """The region alone in a new domain."""
        from sfepy.discrete.fem import FEDomain
        key = repr((defs, what))
        if key not in self.twins:
            _, mesh = make_chain(slot.chain)
            domain = FEDomain('domain', mesh)
            for rdef in defs[:-1]:
                out = outcome(make_region, domain, rdef, self.funs)
            out = outcome(make_region, domain, defs[-1], self.funs)
            if (what is not None) and (out[0] == 'ok'):
                out = outcome(query, out[1], what)
            elif out[0] == 'ok':
                out = ('ok', None)
            self.twins[key] = out
        return self.twins[key]

    def ancestry(self, slot, rdef):
        import re
        names = re.findall(r'r\.(R\d+)', rdef['sel'])
        if rdef.get('parent'):
            names.append(rdef['parent'])
        todo, seen = list(names), set()
        while todo:
            name = todo.pop()
            if name in seen:
                continue
            seen.add(name)
            for dd in slot.defs:
                if dd['name'] == name:
                    todo += re.findall(r'r\.(R\d+)', dd['sel'])
                    if dd.get('parent'):
                        todo.append(dd['parent'])
        return [dd for dd in slot.defs if dd['name'] in seen] + [rdef]

    def step_region(self, ctx, op, slot):
        if slot.domain is None:
            return
        rdef = op['def']
        chain = self.ancestry(slot, rdef)
        twin = self.twin(slot, chain)
        res, hit = self.guarded(ctx, op, make_region, slot.domain, rdef,
                                self.funs)
        if (res[0] == 'error') and (twin[0] == 'error') and not hit:
            ctx.event('region', 'refused', res[1])
            ctx.probe('region-refused')
            ctx.check(res[1] == twin[1], 'region-error',
                      lambda: '%s, alone: %s' % (res, twin))
        elif (res[0] == 'error') and hit:
            self.settle(ctx, op, res, hit)
            res = outcome(make_region, slot.domain, rdef, self.funs)
            ctx.check(res[0] == twin[0], 'region-retry',
                      lambda: '%s: %s, alone: %s' % (rdef, res, twin))
        else:
            ctx.event('region', res[0])
            ctx.check(res[0] == twin[0], 'region-differs',
                      lambda: '%s: %s, alone: %s' % (rdef, res, twin))
        if res[0] == 'ok':
            slot.defs = slot.defs + [rdef]
            slot.regions[rdef['name']] = (res[1], chain)
            ctx.probe('regions')
            self.check_region(ctx, slot, rdef['name'], 'vertices')
        for name in sorted(slot.regions):
            reg = slot.regions[name][0]
            ctx.check(reg.name == name, 'region-renamed',
                      lambda: '%s is called %s after %s'
                      % (name, reg.name, rdef))
            ctx.check(slot.domain.regions.find(name) is reg, 'region-lost',
                      lambda: '%s after %s' % (name, rdef))

    def check_region(self, ctx, slot, name, what, op=None):
        reg, chain = slot.regions[name]
        if (what == 'edges' and slot.cmesh.tdim < 2) \
                or (what == 'faces' and slot.cmesh.tdim < 3):
            return
        twin = self.twin(slot, chain, what)
        op = dict(op or {}, op='query')
        res, hit = self.guarded(ctx, op, query, reg, what)
        if (res[0] == 'error') and hit:
            self.settle(ctx, op, res, hit)
            res = outcome(query, reg, what)
        ctx.event('query', what, res[0])
        if res[0] == 'error':
            ctx.check(twin[0] == 'error', 'query-error:' + what,
                      lambda: '%s: %s, alone: %s' % (chain, res, twin))
        else:
            ctx.check(res == twin, 'query-differs:' + what,
                      lambda: '%s: %s, alone: %s' % (chain, res, twin))

    def step_query(self, ctx, op, slot, rng):
        if not slot.regions:
            return
        name = rng.choice(sorted(slot.regions))
        self.check_region(ctx, slot, name, op['what'], op)

    def nontrivial(self, spec, res):
        return res['n_checks'] > 20
