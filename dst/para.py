"""
Workloads for the MPI/PETSc parallelization: small meshes, partitions and
distributed fields.
"""
import numpy as nm

from dst import simmpi


def setup():
    simmpi.install()
    import sfepy.parallel.parallel as pp
    from dst.problems import quiet
    quiet()
    return pp


def gen_mesh(rng, dim=None):
    kind = rng.choice(['quad', 'quad', 'tri', 'tri', 'hex', 'tet']
                      if dim is None else
                      {2: ['quad', 'tri'], 3: ['hex', 'tet']}[dim])
    if kind in ('quad', 'tri'):
        shape = [rng.randint(2, 6), rng.randint(2, 6)]
    else:
        shape = [rng.randint(2, 4), rng.randint(2, 3), rng.randint(2, 3)]
    return {'kind': kind, 'shape': shape,
            'parts': 2 if rng.random() < 0.15 else 1,
            'perm': rng.randrange(1 << 30) if rng.random() < 0.4 else None}


def make_mesh(par):
    """
    A block mesh, or two separate blocks, with possibly permuted cells.
    """
    from sfepy.discrete.fem import Mesh
    from sfepy.mesh.mesh_generators import gen_block_mesh
    from sfepy.mesh.mesh_tools import triangulate
    shape = par['shape']
    dim = len(shape)
    mesh = gen_block_mesh([1.0] * dim, shape, [0.5] * dim, name='block',
                          verbose=False)
    if par['kind'] in ('tri', 'tet'):
        mesh = triangulate(mesh)
    desc = mesh.descs[0]
    coors, conn = mesh.coors.copy(), mesh.get_conn(desc).copy()
    if par['parts'] == 2:
        num = len(coors)
        coors = nm.r_[coors, coors + nm.eye(1, dim) * 1.5]
        conn = nm.r_[conn, conn + num]
    if par.get('perm') is not None:
        rng = nm.random.RandomState(par['perm'] % (1 << 31))
        conn = conn[rng.permutation(len(conn))]
        perm = rng.permutation(len(coors))
        inv = nm.argsort(perm)
        coors, conn = coors[perm], inv[conn]
    return Mesh.from_data('mesh', coors, None, [conn.astype(nm.int32)],
                          [nm.zeros(len(conn), dtype=nm.int32)], [desc])


def gen_partition(rng, mesh, max_tasks=6):
    kind = rng.choice(['metis', 'naive', 'scatter', 'blocks', 'checker'])
    return {'kind': kind, 'seed': rng.randrange(1 << 30),
            'n_tasks': rng.choice([1, 2, 2, 3, 3, 4, 5, max_tasks])}


def make_partition(pp, par, mesh):
    """
    The tasks of cells and the number of tasks.
    """
    n_el = mesh.n_el
    num = min(par['n_tasks'], n_el)
    rng = nm.random.RandomState(par['seed'] % (1 << 31))
    kind = par['kind']
    if kind in ('metis', 'naive'):
        tasks = pp.partition_mesh(mesh, num, use_metis=kind == 'metis')
        if len(nm.unique(tasks)) == num:
            return tasks, num
        kind = 'scatter'
    if kind == 'scatter':
        tasks = rng.randint(0, num, n_el)
    elif kind == 'blocks':
        # Nearest of random points.
        cc = mesh.cmesh.get_centroids(mesh.cmesh.tdim)
        pts = cc[rng.permutation(n_el)[:num]]
        tasks = nm.argmin(((cc[:, None] - pts[None])**2).sum(-1), axis=1)
    else:
        cc = mesh.cmesh.get_centroids(mesh.cmesh.tdim)
        tasks = (nm.floor(cc * 4).astype(int).sum(1)) % num
    # No empty task.
    first = rng.permutation(n_el)[:num]
    if len(nm.unique(tasks)) < num:
        tasks[first] = nm.arange(num)
    return tasks.astype(nm.int32), num


def gen_world(rng):
    return {'seed': rng.randrange(1 << 30),
            'eager': rng.choice([0, 0, 64, 1000, 1 << 30]),
            'stick': rng.choice([0.0, 0.5, 0.95]),
            'slow': rng.choice([None, None, 0, 1])}


def make_world(ctx, par, size):
    slow = par['slow']
    return simmpi.World(ctx, par['seed'], size, eager=par['eager'],
                        stickiness=par['stick'],
                        slow=slow if (slow is not None) and (slow < size)
                        else None)


def make_fields(omega, fields, tag=''):
    from sfepy.discrete import Field
    out = []
    for ii, par in enumerate(fields):
        out.append(Field.from_args('f%d%s' % (ii, tag), nm.float64,
                                   par['nc'], omega,
                                   approx_order=par['order']))
    return out


def local_region(cells, domain):
    from sfepy.discrete.common.region import Region
    omega_gi = Region.from_cells(cells, domain)
    omega_gi.finalize()
    omega_gi.update_shape()
    return omega_gi


def shrink_mesh(par):
    for ii, num in enumerate(par['shape']):
        if num > 2:
            shape = list(par['shape'])
            shape[ii] -= 1
            yield dict(par, shape=shape)
    if par.get('perm') is not None:
        yield dict(par, perm=None)
    if par['parts'] > 1:
        yield dict(par, parts=1)


# -- problems ------------------------------------------------------------
KINDS = ('laplace', 'elastic', 'biot', 'convect', 'scalars', 'cubic')


def gen_problem(rng, mesh):
    kind = rng.choice(KINDS)
    dim = len(mesh['shape'])
    top = [1, 1, 2, 2, 3] if dim == 2 else [1, 1, 2]
    if kind == 'biot':
        orders = rng.choice([(2, 1), (2, 1), (1, 1), (1, 2)])
    elif kind == 'scalars':
        orders = tuple(rng.choice(top) for _ in range(rng.choice([2, 2, 3])))
    else:
        orders = (rng.choice(top),)
    if (dim == 3) and kind in ('elastic', 'biot', 'convect'):
        orders = tuple(min(ii, 2) for ii in orders)
    ebcs = []
    for ii in range(rng.randint(1, 3)):
        ebcs.append({'side': rng.choice(['x0', 'x1', 'y0', 'y1']),
                     'var': rng.randrange(len(orders)),
                     'comp': rng.choice(['all', 'all', '0']),
                     'val': rng.choice([0.0, 0.1, -0.3, 'fun'])})
    return {'kind': kind, 'orders': list(orders), 'ebcs': ebcs,
            'rkind': rng.choice(['vertex', 'facet']),
            'amp': round(rng.uniform(0.2, 2.0), 3)}


def fields_of(par, dim):
    nc = {'elastic': dim, 'convect': dim}.get(par['kind'], 1)
    out = [{'order': oo, 'nc': nc} for oo in par['orders']]
    if par['kind'] == 'biot':
        out[0]['nc'] = dim
    return out


def build_problem(mesh, par, with_ebcs=True):
    """
    The problem on the given (global or local) mesh.
    """
    from sfepy.discrete import (FieldVariable, Material, Integral, Function,
                                Equation, Equations, Problem)
    from sfepy.discrete.conditions import Conditions, EssentialBC
    from sfepy.discrete.fem import FEDomain
    from sfepy.mechanics.matcoefs import stiffness_from_lame
    from sfepy.terms import Term

    dim = mesh.dim
    amp = par['amp']
    domain = FEDomain('domain', mesh)
    omega = domain.create_region('Omega', 'all')
    fields = make_fields(omega, fields_of(par, dim))
    us, vs = [], []
    for ii, field in enumerate(fields):
        us.append(FieldVariable('u%d' % ii, 'unknown', field, order=ii))
        vs.append(FieldVariable('v%d' % ii, 'test', field,
                                primary_var_name='u%d' % ii))

    def get_coef(ts, coors, mode=None, **kwargs):
        if mode == 'qp':
            val = 1.0 + 0.5 * nm.sin(3.0 * coors[:, 0]) * coors[:, 1]
            return {'val': val.reshape((-1, 1, 1))}

    def get_load(ts, coors, mode=None, **kwargs):
        if mode == 'qp':
            val = nm.cos(2.0 * coors + nm.arange(dim))
            return {'val': val[..., None],
                    'sval': val[:, :1, None].copy()}

    coef = Material('coef', function=Function('get_coef', get_coef))
    load = Material('load', function=Function('get_load', get_load))
    alpha = amp * (nm.arange(dim * (dim + 1) // 2)[:, None] + 1.0) / 3.0
    mat = Material('mat', D=stiffness_from_lame(dim, lam=2.0, mu=1.0),
                   alpha=alpha, amp=amp, one=1.0)
    integral = Integral('i', order=2 * max(par['orders']))

    def fun(val):
        return amp * val**3

    def dfun(val):
        return 3.0 * amp * val**2

    def term(txt, **kwargs):
        kwargs.update({'coef': coef, 'load': load, 'mat': mat})
        used = dict((key, val) for key, val in kwargs.items() if key in txt)
        for uv in us + vs:
            if uv.name in txt:
                used[uv.name] = uv
        return Term.new(txt, integral, omega, **used)

    kind = par['kind']
    eqs = []
    if kind in ('laplace', 'cubic'):
        expr = term('dw_laplace(coef.val, v0, u0)') \
            - term('dw_volume_lvf(load.sval, v0)')
        if kind == 'cubic':
            expr = expr + term('dw_volume_nvf(fun, dfun, v0, u0)', fun=fun,
                               dfun=dfun)
        eqs.append(Equation('e0', expr))
    elif kind == 'elastic':
        eqs.append(Equation('e0', term('dw_lin_elastic(mat.D, v0, u0)')
                            + term('dw_volume_lvf(load.val, v0)')))
    elif kind == 'convect':
        eqs.append(Equation('e0', term('dw_div_grad(coef.val, v0, u0)')
                            + term('dw_convect(v0, u0)')
                            - term('dw_volume_lvf(load.val, v0)')))
    elif kind == 'biot':
        eqs.append(Equation('e0', term('dw_lin_elastic(mat.D, v0, u0)')
                            - term('dw_biot(mat.alpha, v0, u1)')))
        eqs.append(Equation('e1', term('dw_biot(mat.alpha, u0, v1)')
                            + term('dw_laplace(coef.val, v1, u1)')))
    else:
        num = len(us)
        for ii in range(num):
            expr = term('dw_laplace(coef.val, v%d, u%d)' % (ii, ii))
            jj = (ii + 1) % num
            expr = expr + term('dw_dot(mat.amp, v%d, u%d)' % (ii, jj))
            if ii == 0:
                expr = expr - term('dw_volume_lvf(load.sval, v0)')
            else:
                expr = expr + term('dw_dot(mat.one, v%d, u%d)' % (ii, ii))
            eqs.append(Equation('e%d' % ii, expr))

    conds = []
    if with_ebcs:
        bcfun = Function('bc_fun', lambda ts, coors, **kwargs:
                         0.2 * nm.sin(3.0 * coors.sum(1)))
        for ii, bc in enumerate(par['ebcs']):
            axis, top = bc['side']
            sel = 'vertices in (%s %s)' % (axis, '< 1e-8' if top == '0'
                                           else '> 0.99999999')
            if axis == 'x' and top == '1':
                sel = 'vertices in ((x > 0.99999999) & (x < 1.00000001))'
            reg = domain.create_region('Bnd%d' % ii, sel, par['rkind'],
                                       allow_empty=True)
            val = bcfun if bc['val'] == 'fun' else bc['val']
            if (bc['val'] == 'fun') and fields[bc['var']].n_components > 1:
                val, comp = bcfun, '0'
            else:
                comp = bc['comp']
            conds.append(EssentialBC('ebc%d' % ii, reg,
                                     {'u%d.%s' % (bc['var'], comp): val}))
    pb = Problem('problem', equations=Equations(eqs), active_only=False)
    pb.time_update(ebcs=Conditions(conds))
    pb.update_materials()
    return pb
