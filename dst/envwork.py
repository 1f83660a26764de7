"""
Workloads of C19, run in a process of a simulated environment. They return
trees of observations: dictionaries, lists, strings, numbers and arrays.
"""
import os
import random

import numpy as nm

from dst import problems as P


def setup():
    P.quiet()
    from dst import homog
    homog.setup()
    import sfepy.discrete  # noqa
    import sfepy.discrete.fem  # noqa
    import sfepy.solvers  # noqa
    import sfepy.terms  # noqa
    import sfepy.parallel.parallel  # noqa


def run(work, path, scratch):
    try:
        return WORKS[work['kind']](work, path, scratch)
    except Exception as exc:
        from dst import core
        import sys
        import traceback
        tb = sys.exc_info()[2]
        txt = traceback.format_exc()
        if not core.in_sut(tb):
            return {'harness': txt}
        return {'exception': type(exc).__name__ + ':'
                + str(core.sut_frame(tb)), 'traceback': txt}


def read_h5(path, skip=('tstat',)):
    import tables as pt
    out = {}
    with pt.open_file(path, 'r') as fd:
        for node in fd.walk_nodes('/'):
            name = node._v_pathname
            if any(('/' + ss) in name for ss in skip):
                continue
            if isinstance(node, pt.Group):
                out[name] = 'group'
                continue
            val = node.read()
            if isinstance(val, bytes):
                val = val.decode()
            if isinstance(val, nm.ndarray) and (val.dtype.kind == 'S'):
                val = [str(ii) for ii in val.ravel()]
            if isinstance(val, list):
                val = [ii.decode() if isinstance(ii, bytes) else ii
                       for ii in val]
            out[name] = val
    return out


def read_text(path, top):
    """Text files: numbers are compared with a tolerance."""
    with open(path, 'rb') as fd:
        data = fd.read()
    try:
        txt = data.decode('utf-8')
    except UnicodeDecodeError:
        return {'binary': len(data)}
    txt = txt.replace(top, '<top>')
    words, nums = [], []
    for word in txt.replace('=', ' = ').replace(',', ' , ').split():
        try:
            nums.append(float(word))
            words.append('#')
        except ValueError:
            words.append(word)
    return {'words': words, 'numbers': nm.array(nums)}


def read_files(path):
    out = {}
    for root, dirs, files in os.walk(path):
        for name in files:
            full = os.path.join(root, name)
            key = os.path.relpath(full, path)
            if name.endswith('.h5'):
                out[key] = read_h5(full)
            else:
                out[key] = read_text(full, path)
    return dict((key, out[key]) for key in sorted(out))


def observe(pb):
    variables = pb.get_variables()
    out = {'ordered': [str(ii) for ii in variables.ordered_state],
           'ordered-virtual': [str(ii) for ii in variables.ordered_virtual],
           'dofs': [[str(ii), int(variables.di.indx[ii].start),
                     int(variables.di.indx[ii].stop)]
                    for ii in variables.di.var_names],
           'state': nm.array(variables.get_state(), copy=True),
           'values': dict((var.name, nm.array(var(), copy=True))
                          for var in variables.iter_state())}
    if getattr(variables, 'adi', None) is not None:
        out['active'] = [[str(ii), int(variables.adi.n_dof[ii])]
                         for ii in variables.adi.var_names]
    mtx = getattr(pb, 'mtx_a', None)
    if mtx is not None:
        out['indptr'] = nm.array(mtx.indptr)
        out['indices'] = nm.array(mtx.indices)
        out['data'] = nm.array(mtx.data)
    return out


def heat(work, path, scratch):
    pb = P.make_problem(P.heat_conf(work['par']), path)
    pb.solve()
    out = observe(pb)
    out['files'] = read_files(path)
    return out


def ed(work, path, scratch):
    pb = P.make_problem(P.ed_conf(work['par']), path)
    pb.solve()
    out = observe(pb)
    out['files'] = read_files(path)
    return out


def multi_conf(par):
    """Coupled stationary problem of several variables."""
    regions = {'Omega': 'all'}
    for name, sel in par['regions']:
        regions[name] = (sel, 'vertex')
    variables, equations = {}, {}
    for ii, var in enumerate(par['vars']):
        rec = {'name': var['name'], 'kind': 'unknown field',
               'field': var['field'], 'order': var['order']}
        variables[var['name']] = rec
    for var in par['vars']:
        variables['t' + var['name']] = ('test field', var['field'],
                                        var['name'])
    variables['par'] = ('parameter field', 'f1', '(set-to-None)')
    names = [var['name'] for var in par['vars']]
    for ii, var in enumerate(par['vars']):
        txt = []
        tn = 't' + var['name']
        txt.append('dw_laplace.i.Omega(%s.k%d, %s, %s)'
                   % (par['mats'][ii], ii, tn, var['name']))
        for jj, coef in var['coupled']:
            txt.append('%.3f * dw_dot.i.Omega(%s, %s)'
                       % (coef, tn, names[jj]))
        txt.append('dw_volume_lvf.i.Omega(%s.f%d, %s)'
                   % (par['mats'][ii], ii, tn))
        equations['eq_' + var['name']] = ' + '.join(txt) + ' = 0'
    equations = dict((kk, equations[kk]) for kk in
                     ['eq_' + names[ii] for ii in par['eq_order']])

    def get_fun(ii):
        def fun(ts, coors, mode=None, **kwargs):
            if mode != 'qp':
                return
            one = nm.ones((coors.shape[0], 1, 1))
            out = {}
            for jj, mat in enumerate(par['mats']):
                out['k%d' % jj] = (1.0 + 0.1 * jj) * one
                out['f%d' % jj] = (1.0 - 0.3 * jj
                                   + coors[:, :1]).reshape((-1, 1, 1)) * one
            return out
        return fun

    functions = {}
    materials = {}
    for mat in sorted(set(par['mats'])):
        functions['fun_' + mat] = (get_fun(mat),)
        materials[mat] = 'fun_' + mat
    ebcs = {}
    for name, region, dofs in par['ebcs']:
        ebcs[name] = (region, dict((var + '.0', val) for var, val in dofs))
    extra = {}
    if par.get('epbc'):
        from sfepy.discrete.fem.periodic import match_y_line
        regions['PL'] = ('vertices in (x < 1e-6)', 'facet')
        regions['PR'] = ('vertices in (x > %.12g)' % (1.0 - 1e-6), 'facet')
        functions['match_y_line'] = (match_y_line,)
        key = 'lcbcs' if par['epbc'] == 'lcbc' else 'epbcs'
        if key == 'epbcs':
            extra[key] = {'per': (['PL', 'PR'], {nn + '.0': nn + '.0' for nn
                                                 in par['epbc_vars']},
                                  'match_y_line')}
        else:
            functions['shift'] = (lambda ts, coors, region:
                                  0.1 * nm.ones_like(coors[:, 0]),)
            extra[key] = dict(('per' + nn, (['PL', 'PR'],
                                            {nn + '.0': nn + '.0'},
                                            'match_y_line',
                                            'shifted_periodic', 'shift'))
                              for nn in par['epbc_vars'])
    return {
        'filename_mesh': P.mesh_reader(par['shape']),
        'regions': regions,
        'fields': {'f1': ('real', 1, 'Omega', 1),
                   'f2': ('real', 1, 'Omega', 2)},
        'variables': variables, 'ebcs': ebcs, 'materials': materials,
        'equations': equations, 'functions': functions,
        'integrals': {'i': 2},
        'solvers': {'ls': ('ls.scipy_direct', {}),
                    'newton': ('nls.newton', {'i_max': 2, 'eps_a': 1e-8,
                                              'verbose': 0})},
        'options': {'nls': 'newton', 'ls': 'ls',
                    'output_format': par['output_format'],
                    'file_per_var': par['file_per_var'],
                    'block_solve': par['block_solve']},
        **extra,
    }


def multi(work, path, scratch):
    par = work['par']
    pb = P.make_problem(multi_conf(par), path)
    if par.get('add'):
        # One equation is added later.
        from sfepy.discrete import Equations
        eqs = list(pb.equations)
        new = Equations(eqs[:-1])
        new.add_equation(eqs[-1])
        return {'names': list(new.variables.names),
                'materials': list(new.materials.names),
                'ordered': list(new.variables.ordered_state)}
    pb.solve()
    pb.save_restart(os.path.join(path, 'state.h5'))
    out = observe(pb)
    if pb.equations.variables.has_lcbc:
        out['reduced'] = nm.array(pb.equations.variables.get_state(
            reduced=True))
    names = [var['name'] for var in par['vars']]
    if par['block_solve']:
        # The equations remain usable.
        vec = 1.5 * pb.get_variables()()
        res = []
        for p1 in (pb, P.make_problem(multi_conf(par), path)):
            variables = p1.get_initial_state()
            p1.time_update()
            p1.update_materials()
            variables.set_state(vec, force=True)
            res.append(p1.equations.evaluate(
                mode='weak', dw_mode='vector',
                asm_obj=nm.zeros(variables.adi.n_dof_total)))
        out['residual'] = res[0]
        out['same'] = [['residual-after-block-solve', res[0], res[1]]]
    out['names'] = sorted(pb.equations.get_variable_names())
    sub = pb.equations.create_subequations(
        ['t' + nn for nn in par['sub']],
        known_var_names=[nn for nn in names if nn not in par['sub']])
    out['sub'] = [str(ii) for ii in sub.variables.ordered_state]
    out['files'] = read_files(path)
    return out


def homog(work, path, scratch):
    from dst import core
    from dst import homog as H
    from dst.props import c06_parallel as C06

    class Prop(object):
        pass
    spec = work['par']
    ctx = core.Ctx(Prop(), spec)
    sess = H.Session(ctx, spec, False, path)
    sess.calls = []
    order = []
    hook = sess.hook
    from dst import micro_lib

    def record(name, im):
        order.append('%s %s' % (name, im))
        return hook(name, im)
    micro_lib.HOOK[0] = record
    try:
        results, files = C06.run_ops(sess, ctx, spec, 'x')
        out = {'results': results, 'order': order,
               'coefs-order': [list(rr['coefs']) if rr and ('coefs' in rr)
                               else [] for rr in results],
               'saved': C06.read_saved(sess, files),
               'names': files}
        out['text'] = dict((key, val) for key, val in
                           read_files(path).items()
                           if key.endswith('.txt') or key.endswith('.tex'))
    finally:
        sess.close()
    return out


def dg(work, path, scratch):
    """Discontinuous Galerkin results in sequences of files."""
    import sfepy.examples.dg.advection_2D as mod
    from sfepy.base.conf import ProblemConf, get_standard_keywords
    from sfepy.discrete import Problem
    from sfepy.discrete.fem.meshio import GmshIO
    par = work['par']
    dd = mod.define(filename_mesh=P.mesh_reader(par['shape']),
                    approx_order=par['order'], t1=par['t1'],
                    limit=par['limit'])
    req, oth = get_standard_keywords()
    dd['options']['output_dir'] = path
    dd['options']['save_times'] = par['save_times']
    conf = ProblemConf.from_dict(dd, mod, req, oth, verbose=False)
    pb = Problem.from_conf(conf)
    pb.setup_output(output_dir=path, output_format='msh',
                    file_format='gmsh-dg')
    pb.solve()
    out = observe(pb)
    names = sorted(ii for ii in os.listdir(path) if ii.endswith('.msh'))
    for step in ('all', 'first', 'last', par['step'] % len(names)):
        # Dots in directory names are not supported.
        data = GmshIO(names[0]).read_data(step)
        res = {}
        for key, val in data.items():
            res[key] = {'time': list(getattr(val, 'time', [])),
                        'time_n': list(getattr(val, 'time_n', [])),
                        'data': [nm.array(ii) for ii in val.data]}
        out['read-%s' % step] = res
    out['files'] = read_files(path)
    return out


def regions(work, path, scratch):
    """Regions with dependencies and the resolution of dependencies."""
    from sfepy.base.resolve_deps import resolve
    from sfepy.discrete.fem import FEDomain
    from sfepy.mesh.mesh_generators import gen_block_mesh
    par = work['par']
    mesh = gen_block_mesh([1.0] * len(par['shape']), par['shape'],
                          [0.5] * len(par['shape']), name='block',
                          verbose=False)
    domain = FEDomain('domain', mesh)
    from sfepy.base.conf import transform_regions
    defs = {}
    for name, sel in par['defs']:
        defs[name] = (sel, 'vertex')
    regs = domain.create_regions(transform_regions(defs), None,
                                 allow_empty=True)
    out = {'order': [reg.name for reg in regs],
           'vertices': dict((reg.name, nm.array(reg.vertices))
                            for reg in regs)}
    for ii, deps in enumerate(par['deps']):
        deps = dict((key, set(val)) for key, val in deps)
        out['resolved %d' % ii] = [list(bb) for bb in resolve(deps)]
    return out


def tables(work, path, scratch):
    """Tables of classes found in directories."""
    from sfepy.terms import term_table
    from sfepy.solvers import solver_table
    from sfepy.discrete.fem.meshio import io_table
    out = {}
    for key, tab in (('terms', term_table), ('solvers', solver_table)):
        out[key] = dict((name, cls.__module__ + '.' + cls.__name__)
                        for name, cls in tab.items())
    out['io'] = sorted(str(ii) for ii in io_table)
    from sfepy.discrete.fem.meshio import supported_formats
    out['formats'] = sorted(supported_formats)
    from sfepy.discrete.fem.geometry_element import GeometryElement
    from sfepy.discrete import PolySpace  # noqa
    for name in ('2_3', '2_4', '3_4', '3_8'):
        gel = GeometryElement(name)
        gel.create_surface_facet()
        out['gel ' + name] = [[[int(jj) for jj in ii] for ii in
                               gel.get_edges_per_face()]
                              if name.startswith('3') else [],
                              nm.array(gel.edges)]
    return out


WORKS = {'heat': heat, 'ed': ed, 'multi': multi, 'homog': homog, 'dg': dg,
         'regions': regions, 'tables': tables}


def gen_names(rng, num):
    pool = ['u', 'T', 'p', 'phi', 'w', 'temp', 'psi', 'alpha', 'c1', 'c2',
            'Zz', 'q0', 'velocity', 'a', 'b']
    return rng.sample(pool, num)


def gen_multi(rng):
    num = rng.randint(2, 5)
    names = gen_names(rng, num)
    given = rng.choice(['none', 'none', 'all', 'shuffled'])
    orders = list(range(num))
    if given == 'shuffled':
        rng.shuffle(orders)
    vs = []
    block = rng.random() < 0.3
    for ii, name in enumerate(names):
        if block:
            # Triangular coupling.
            pool = list(range(ii))
        else:
            pool = [jj for jj in range(num) if jj != ii]
        vs.append({'name': name, 'field': rng.choice(['f1', 'f1', 'f2']),
                   'order': None if given == 'none' else orders[ii],
                   'coupled': [[jj, round(rng.uniform(-0.3, 0.3), 3)]
                               for jj in rng.sample(
                                   pool, rng.randint(0, min(2, len(pool))))]})
    eq_order = list(range(num))
    rng.shuffle(eq_order)
    regs = [('Left', 'vertices in (x < 1e-6)'),
            ('Right', 'vertices in (x > 0.999999)'),
            ('Bottom', 'vertices in (y < 1e-6)'),
            ('Top', 'vertices in (y > 0.999999)'),
            ('Corner', 'r.Left *v r.Bottom')]
    rng.shuffle(regs)
    epbc = rng.choice([None, None, None, 'epbc', 'lcbc'])
    ebcs = []
    for ii in range(rng.randint(1, 5)):
        reg = rng.choice(['Bottom', 'Top'] if epbc
                         else ['Left', 'Right', 'Bottom', 'Top', 'Corner'])
        dofs = [[nn, round(rng.uniform(-1, 1), 3)]
                for nn in rng.sample(names, rng.randint(1, num))]
        ebcs.append([rng.choice(['e', 'bc', 'Z', 'fix']) + str(ii), reg,
                     dofs])
    # Regularize.
    ebcs.append(['zero', 'Bottom', [[nn, 0.0] for nn in names]])
    rng.shuffle(ebcs)
    if epbc == 'lcbc':
        # The corners must not be subject to both kinds of conditions.
        regs.append(('Mid', '(r.Bottom -v r.Left) -v r.Right'))
        ebcs = [[ee[0], 'Mid', ee[2]] for ee in ebcs]
    return {'vars': vs, 'eq_order': eq_order, 'regions': regs,
            'shape': rng.choice([[3, 3], [4, 3]]),
            'mats': [rng.choice(['m', 'k', 'coef']) for _ in names],
            'ebcs': ebcs, 'epbc': epbc,
            'epbc_vars': rng.sample(names, rng.randint(1, num)),
            'output_format': rng.choice(['vtk', 'vtk', 'h5', 'mesh']),
            'file_per_var': rng.random() < 0.2,
            'block_solve': block and (epbc is None),
            'add': (not block) and rng.random() < 0.15,
            'sub': rng.sample(names, rng.randint(1, num))}


def gen_heat(rng):
    return {'shape': rng.choice([[3, 3], [4, 3]]),
            'history': rng.choice([1, 1, 2]),
            'n_step': rng.randint(2, 5), 't1': 1.0,
            'ebc_fun': rng.random() < 0.5, 'mat_fun': rng.random() < 0.5,
            'second': True, 'no_order': rng.random() < 0.7,
            **rng.choice([{}, {}, {}, {'epbc': True}, {'lcbc': True}]),
            'nonlinear': rng.choice([0, 0, 1.0]),
            'ts': rng.choice(['simple', 'simple', 'adaptive']),
            'adapt': {},
            'save_restart': rng.choice([None, -1]),
            'output_format': rng.choice(['h5', 'vtk'])}


def gen_ed(rng):
    return {'shape': rng.choice([[3, 3], [4, 3]]),
            **rng.choice([{'extra': rng.choice([None, 'plain', 'deriv']),
                           'tss': 'newmark'},
                          {'extra': None,
                           'tss': rng.choice(['velocity_verlet', 'bathe',
                                              'generalized_alpha'])}]),
            'n_step': rng.randint(2, 5), 'load': rng.random() < 0.5,
            'damping': rng.random() < 0.5,
            'output_format': rng.choice(['h5', 'vtk'])}


def gen_homog(rng):
    from dst import homog as H
    par = H.gen_linear(rng) if rng.random() < 0.7 \
        else H.gen_linear(rng, micro=True)
    if par['conf'].get('compute_only'):
        rng.shuffle(par['conf']['compute_only'])
    op = {'op': 'call', 'problem': 0, 'renew': False, 'itime': None,
          'iiter': None, 'macro': H.gen_macro(rng, par, True)}
    return {'problems': [par], 'ops': [op], 'max_workers': 2,
            'sched_seed': 0}


def gen_dg(rng):
    return {'shape': rng.choice([[3, 3], [4, 3]]),
            'order': rng.choice([1, 2]), 't1': rng.choice([0.2, 0.5]),
            'limit': rng.random() < 0.5,
            'save_times': rng.choice([3, 5, 100]), 'step': rng.randrange(9)}


def gen_regions(rng):
    names = rng.sample(['A', 'b', 'Left', 'zz', 'Omega_1', 'x0', 'y', 'T1',
                        'Bottom', 'k'], rng.randint(3, 9))
    defs = []
    for ii, name in enumerate(names):
        if ii and rng.random() < 0.6:
            r1, r2 = rng.choice(names[:ii]), rng.choice(names[:ii])
            sel = 'r.%s %s r.%s' % (r1, rng.choice(['+v', '+v', '*v']), r2)
        else:
            sel = 'vertices in (%s %s %.2f)' % (
                rng.choice('xy'), rng.choice('<>'), rng.uniform(0.3, 0.7))
        defs.append([name, sel])
    rng.shuffle(defs)
    deps = []
    for _ in range(rng.randint(1, 3)):
        names = gen_names(rng, rng.randint(1, 6))
        out = []
        for ii, name in enumerate(names):
            out.append([name, [name] + rng.sample(
                names[:ii], rng.randint(0, min(ii, 2)))])
        if len(out) > 2 and rng.random() < 0.5:
            # A cycle.
            out[0][1].append(out[1][0])
        rng.shuffle(out)
        deps.append(out)
    return {'shape': [4, 4], 'defs': defs, 'deps': deps}


def gen(rng):
    kind = rng.choice(['heat'] * 3 + ['multi'] * 6 + ['homog'] * 4
                      + ['regions'] * 2 + ['ed', 'dg', 'tables'])
    fun = {'heat': gen_heat, 'multi': gen_multi, 'homog': gen_homog,
           'ed': gen_ed, 'dg': gen_dg, 'regions': gen_regions,
           'tables': lambda rng: {}}[kind]
    return {'kind': kind, 'par': fun(rng)}
