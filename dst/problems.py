"""
Small real sfepy problems used as workloads.  All data are deterministic
functions of the spec.
"""
import os
import sys

import numpy as nm


def quiet():
    from sfepy.base.base import output
    output.set_output(quiet=True)
    import warnings
    warnings.simplefilter('ignore')


def mesh_reader(shape, dims=None):
    from sfepy.mesh.mesh_generators import gen_block_mesh
    from sfepy.discrete.fem.meshio import UserMeshIO
    shape = list(shape)
    dims = [1.0] * len(shape) if dims is None else dims

    def hook(mesh, mode):
        if mode == 'read':
            return gen_block_mesh(dims, shape, 0.5 * nm.array(dims),
                                  name='block', verbose=False)
    return UserMeshIO(hook)


def make_problem(conf_dict, output_dir='.', trunk='out'):
    from sfepy.base.conf import ProblemConf, get_standard_keywords
    from sfepy.discrete import Problem
    required, other = get_standard_keywords()
    conf = ProblemConf.from_dict(conf_dict, sys.modules[__name__], required,
                                 other, verbose=False)
    conf.options.output_dir = output_dir
    pb = Problem.from_conf(conf)
    pb.setup_output(output_filename_trunk=trunk, output_dir=output_dir,
                    output_format=getattr(conf.options, 'output_format',
                                          'vtk'))
    return pb


def heat_conf(p):
    """
    Transient heat-like problem: p is a dictionary of knobs.

    shape, order, history (1, 2, ...), n_step, t1, ebc_fun, mat_fun, times (EBC
    active time interval), nonlinear, second (a second coupled variable),
    quasi, lcbc, ts ('simple', 'adaptive'), adaptive parameters.
    """
    p = dict(p)
    hist = p.get('history', 1)
    regions = {
        'Omega': 'all',
        'Left': ('vertices in (x < 1e-6)', 'facet'),
        'Right': ('vertices in (x > %.12g)' % (1.0 - 1e-6), 'facet'),
        'Bottom': ('vertices in (y < 1e-6)', 'facet'),
    }
    fields = {'t': ('real', 1, 'Omega', p.get('order', 1))}
    variables = {
        'T': ('unknown field', 't', 0, hist),
        's': ('test field', 't', 'T'),
    }
    amp = p.get('amp', 1.0)

    def bc_fun(ts, coors, bc=None, problem=None, **kwargs):
        hook = p.get('_bc_hook')
        if hook is not None:
            hook(ts)
        return (amp * nm.sin(2.0 + 3.0 * ts.time) * (1.0 + coors[:, 1])
                + 0.1 * ts.step * p.get('step_bc', 0))

    def mat_fun(ts, coors, mode=None, **kwargs):
        if mode != 'qp':
            return
        hook = p.get('_mat_hook')
        if hook is not None:
            hook(ts)
        val = 0.1 + 0.05 * coors[:, :1] + 0.02 * nm.cos(ts.time * 2.0)
        problem = kwargs.get('problem')
        if hist >= 2 and (problem is not None):
            # A parameter depending on the states up to hist steps back.
            for ii in range(2, hist + 1):
                if ts.step >= ii:
                    old = problem.equations.variables['T'](step=-ii)
                    val = val + 0.05 * nm.abs(old).mean() / ii
        return {'D': val.reshape((-1, 1, 1))}

    def ic_fun(coors, ic=None):
        return (nm.sin(5.0 * coors[:, 0]) * (1.0 + coors[:, 1]))[:, None]

    functions = {
        'bc_fun': (bc_fun,),
        'mat_fun': (mat_fun,),
        'ic_fun': (ic_fun,),
    }
    bc_val = 'bc_fun' if p.get('ebc_fun') else 1.5 * amp
    ebcs = {'left': ('Left', {'T.0': bc_val})}
    right = ('Right', {'T.0': 0.25})
    if p.get('times'):
        right = ('Right', [tuple(ii) for ii in p['times']], {'T.0': 0.25})
    ebcs['right'] = right

    if p.get('mat_fun') or (hist >= 2):
        materials = {'m': 'mat_fun'}
    else:
        materials = {'m': ({'D': 0.1},)}
    materials['k'] = ({'c': 0.35, 'r': 0.2, 'one': 1.0},)

    extra = {}
    eq = 'dw_dot.i.Omega(s, dT/dt) + dw_laplace.i.Omega(m.D, s, T)'
    if p.get('use_prev'):
        eq += ' + dw_dot.i.Omega(k.c, s, T[-1])'
    if p.get('nonlinear'):
        nc = float(p['nonlinear'])
        extra['nfun'] = lambda u: nc * 0.1 * u**3
        extra['ndfun'] = lambda u: nc * 0.3 * u**2
        eq += ' + dw_volume_nvf.i.Omega(nfun, ndfun, s, T)'
    equations = {}
    if p.get('second'):
        variables['w'] = ('unknown field', 't', 1, 1)
        variables['z'] = ('test field', 't', 'w')
        if p.get('no_order'):
            variables['T'] = ('unknown field', 't', None, hist)
            variables['w'] = ('unknown field', 't', None, 1)
        eq += ' + dw_dot.i.Omega(k.c, s, w)'
        equations['ww'] = """dw_dot.i.Omega(z, dw/dt)
            + dw_laplace.i.Omega(k.r, z, w)
            - dw_dot.i.Omega(k.c, z, T) = 0"""
        ebcs['wb'] = ('Bottom', {'w.0': 'bc_fun' if p.get('ebc_fun')
                                 else 0.3})
    equations['TT'] = eq + ' = 0'

    ts_name = p.get('ts', 'simple')
    tsc = {'t0': p.get('t0', 0.0), 't1': p.get('t1', 1.0), 'dt': None,
           'n_step': p.get('n_step', 6), 'quasistatic': bool(p.get('quasi')),
           'verbose': 0}
    if ts_name == 'adaptive':
        tsc.update(p.get('adapt', {}))
    ls = p.get('ls', 'ls.scipy_direct')
    lsc = dict(p.get('ls_conf', {}))
    solvers = {
        'ls': (ls, lsc),
        'newton': ('nls.newton', {'i_max': p.get('i_max', 3),
                                  'eps_a': p.get('eps_a', 1e-10),
                                  'is_linear': bool(p.get('is_linear')),
                                  'verbose': 0, 'report_status': False}),
        'ts': ('ts.' + ts_name, tsc),
    }
    options = {
        'ts': 'ts', 'nls': 'newton', 'ls': 'ls',
        'save_times': p.get('save_times', 'all'),
        'output_format': p.get('output_format', 'h5'),
    }
    if p.get('times') or p.get('all_dofs'):
        # Required for changing sets of EBC DOFs.
        options['active_only'] = False
    if p.get('epbc'):
        from sfepy.discrete.fem.periodic import match_x_line
        ymax = 1.0 - 1e-6
        regions['PB'] = ('vertices in (y < 1e-6)', 'facet')
        regions['PT'] = ('vertices in (y > %.12g)' % ymax, 'facet')
        functions['match_x_line'] = (match_x_line,)
        extra['epbcs'] = {'per': (['PB', 'PT'], {'T.0': 'T.0'},
                                  'match_x_line')}
    if p.get('lcbc'):
        from sfepy.discrete.fem.periodic import match_x_line
        regions['PB'] = ('vertices in (y < 1e-6)', 'facet')
        regions['PT'] = ('vertices in (y > %.12g)' % (1.0 - 1e-6), 'facet')
        functions['match_x_line'] = (match_x_line,)
        functions['shift'] = (lambda ts, coors, region:
                              0.1 * nm.ones_like(coors[:, 0])
                              * (1.0 + ts.time),)
        extra['lcbcs'] = {'sp': (['PB', 'PT'], {'T.0': 'T.0'},
                                 'match_x_line', 'shifted_periodic', 'shift')}
        # The corners must not be subject to both kinds of conditions.
        ebcs.pop('right')
        ebcs.pop('left')
        ebcs.pop('wb', None)
        regions['Mid'] = ('(r.Left -v r.PB) -v r.PT', 'vertex')
        ebcs['mid'] = ('Mid', {'T.0': bc_val})
    if isinstance(options['save_times'], list):
        options['save_times'] = nm.array(options['save_times'],
                                         dtype=nm.float64)
    if p.get('file_format'):
        options['file_format'] = p['file_format']
    if p.get('save_restart') is not None:
        options['save_restart'] = p['save_restart']
    if p.get('load_restart') is not None:
        options['load_restart'] = p['load_restart']
    return {
        'filename_mesh': mesh_reader(p.get('shape', [3, 3])),
        'regions': regions, 'fields': fields, 'variables': variables,
        'ebcs': ebcs, 'materials': materials, 'equations': equations,
        'functions': functions, 'integrals': {'i': 2},
        'ics': {'ic': ('Omega', {'T.0': 'ic_fun'})},
        'solvers': solvers, 'options': options, **extra,
    }


def ed_conf(p):
    """Elastodynamics: p['tss'], p['n_step'], p['tsc'], ..."""
    p = dict(p)
    from sfepy.mechanics.matcoefs import stiffness_from_youngpoisson
    shape = p.get('shape', [4, 3])
    dim = len(shape)
    regions = {
        'Omega': 'all',
        'Left': ('vertices in (x < 1e-6)', 'facet'),
        'Right': ('vertices in (x > %.12g)' % (1.0 - 1e-6), 'facet'),
    }

    def load_fun(ts, coors, mode=None, **kwargs):
        if mode == 'qp':
            hook = p.get('_load_hook')
            if hook is not None:
                hook(ts)
            val = nm.zeros((coors.shape[0], dim, 1))
            val[:, 0] = 0.2 * nm.sin(7.0 * ts.time)
            return {'f': val}

    def ic_du(coors, ic=None):
        val = nm.zeros_like(coors)
        val[:, 0] = p.get('v0', -1.0)
        return val

    def ic_u(coors, ic=None):
        val = nm.zeros_like(coors)
        val[:, -1] = 0.01 * coors[:, 0]
        return val

    functions = {'load_fun': (load_fun,), 'ic_du': (ic_du,), 'ic_u': (ic_u,)}
    var_names = {'u': 'u', 'du': 'du', 'ddu': 'ddu'}
    damp = ('+ dw_dot.i.Omega(solid.c, dv, du)' if p.get('damping')
            else '+ dw_zero.i.Omega(dv, du)')
    load = ' + dw_volume_lvf.i.Omega(load.f, v)' if p.get('load') else ''
    equations = {'bal': 'dw_dot.i.Omega(solid.rho, ddv, ddu) ' + damp
                 + ' + dw_lin_elastic.i.Omega(solid.D, v, u)' + load
                 + ' = 0'}
    fields = {'d': ('real', 'vector', 'Omega', 1)}
    variables = {
        'u': ('unknown field', 'd', 0),
        'du': ('unknown field', 'd', 2),
        'ddu': ('unknown field', 'd', 3),
        'v': ('test field', 'd', 'u'),
        'dv': ('test field', 'd', 'du'),
        'ddv': ('test field', 'd', 'ddu'),
    }
    ebcs = {'left': ('Left', {'u.0': 0.0, 'du.0': 0.0, 'ddu.0': 0.0})}
    if p.get('extra'):
        fields['pp'] = ('real', 1, 'Omega', 1)
        variables['p'] = ('unknown field', 'pp', 1, 1)
        variables['q'] = ('test field', 'pp', 'p')
        equations['bal'] = equations['bal'].replace(
            ' = 0', ' - dw_biot.i.Omega(solid.al, v, p) = 0')
        pt = 'dp/dt' if p['extra'] == 'deriv' else 'p'
        equations['diff'] = ('dw_dot.i.Omega(solid.c, q, %s)'
                             ' + dw_laplace.i.Omega(solid.c, q, p)'
                             ' + dw_biot.i.Omega(solid.al, u, q)'
                             ' = 0' % pt)
        if p['extra'] == 'prev':
            equations['diff'] = equations['diff'].replace(
                ' = 0', ' - dw_dot.i.Omega(solid.c, q, p[-1]) = 0')
        var_names['extra'] = ['p']
        ebcs['right'] = ('Right', {'p.0': 'bcp_fun'})
        functions['bcp_fun'] = (lambda ts, coors, **kwargs:
                                0.1 * nm.cos(5.0 * ts.time)
                                + 0 * coors[:, 0],)
    n_step = p.get('n_step', 6)
    tsc0 = {'t0': p.get('t0', 0.0), 't1': p.get('t1', 0.1), 'dt': None,
            'n_step': n_step,
            'is_linear': bool(p.get('is_linear', True)),
            'has_time_derivatives': p.get('extra') == 'deriv',
            'var_names': var_names, 'verbose': 0}
    tsc0.update(p.get('ts_conf', {}))
    solvers = {
        'ls': (p.get('ls', 'ls.scipy_direct'),
               dict(p.get('ls_conf', {'use_presolve': True,
                                      'use_mtx_digest': False}))),
        'newton': ('nls.newton', {'i_max': p.get('i_max', 1),
                                  'eps_a': p.get('eps_a', 1e-6),
                                  'eps_r': p.get('eps_a', 1e-6),
                                  'verbose': 0, 'report_status': False}),
        'ts': ('ts.' + p.get('tss', 'newmark'), tsc0),
    }
    options = {
        'ts': 'ts', 'nls': 'newton', 'ls': 'ls', 'active_only': False,
        'save_times': p.get('save_times', 'all'),
        'output_format': p.get('output_format', 'h5'),
    }
    if p.get('tsc'):
        solvers['tsc'] = (p['tsc'], dict(p.get('tsc_conf', {})))
        options['tsc'] = 'tsc'
    if p.get('save_restart') is not None:
        options['save_restart'] = p['save_restart']
    if p.get('load_restart') is not None:
        options['load_restart'] = p['load_restart']
    return {
        'filename_mesh': mesh_reader(shape),
        'regions': regions,
        'fields': fields,
        'variables': variables,
        'ebcs': ebcs,
        'materials': {
            'solid': ({'D': stiffness_from_youngpoisson(dim, 100.0, 0.3),
                       'al': 0.4 * nm.r_[nm.ones(dim),
                                         nm.zeros(dim * (dim - 1) // 2)]
                       .reshape((-1, 1)),
                       'rho': 1.0, 'c': 0.5},),
            'load': 'load_fun',
        },
        'equations': equations, 'functions': functions,
        'integrals': {'i': 2},
        'ics': {'ic': ('Omega', {'u.all': 'ic_u', 'du.all': 'ic_du'})},
        'solvers': solvers, 'options': options,
    }


def var_values(pb):
    """Values of all state variables by name (layout independent)."""
    out = {}
    for var in pb.get_variables().iter_state(ordered=False):
        out[var.name] = nm.array(var(), copy=True)
    return out
