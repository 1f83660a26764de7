"""
Importable (picklable) parts of the micro-problems used by the simulated
homogenization checks.
"""
import hashlib

import numpy as nm

import sfepy.discrete.fem.periodic as per
import sfepy.homogenization.coefs_base as cb
from sfepy.homogenization.utils import define_box_regions
from sfepy.mechanics.matcoefs import stiffness_from_youngpoisson
from sfepy.base.base import Struct

# Called as hook(name, micro index) at the beginning of each computation.
HOOK = [None]


def call_hook(name, problem):
    if HOOK[0] is not None:
        ms = getattr(problem, 'micro_state', None)
        HOOK[0](name, None if ms is None else int(ms[0]['id'][ms[1]]))


def make_mesh(filename, nx, ny, perm_seed=None, rot=False, noise=0.0,
              grade=1.0):
    """Two-material block mesh with optionally permuted vertices."""
    from sfepy.discrete.fem import Mesh
    xs = nm.linspace(0, 1, nx)**grade
    ys = nm.linspace(0, 1, ny)**grade
    coors = nm.array([(x, y) for y in ys for x in xs])
    conn = []
    mats = []
    for iy in range(ny - 1):
        for ix in range(nx - 1):
            i0 = iy * nx + ix
            conn.append([i0, i0 + 1, i0 + nx + 1, i0 + nx])
            mats.append(2 if ((ix * 7 + iy * 3) % 3 == 0) else 1)
    conn = nm.array(conn, dtype=nm.int32)
    mats = nm.array(mats, dtype=nm.int32)
    if mats.max() < 2:
        mats[0] = 2
    if mats.min() > 1:
        mats[-1] = 1
    if perm_seed is not None:
        rs = nm.random.RandomState(perm_seed)
        perm = rs.permutation(coors.shape[0])
        inv = nm.argsort(perm)
        coors = coors[perm]
        conn = inv[conn].astype(nm.int32)
    if noise:
        # Perturb the vertices of the right and top side.
        rs = nm.random.RandomState(7)
        ii = nm.where(coors[:, 0] > 1 - 1e-6)[0]
        coors[ii, 1] += noise * rs.uniform(-1, 1, ii.shape[0])
        ii = nm.where(coors[:, 1] > 1 - 1e-6)[0]
        coors[ii, 0] += noise * rs.uniform(-1, 1, ii.shape[0])
    mesh = Mesh.from_data('micro', coors, nm.zeros(coors.shape[0], nm.int32),
                          [conn], [mats], ['2_4'])
    mesh.write(filename, io='auto')


def digest_array(data):
    """A deterministic small array depending on all (nested) input values."""
    hh = hashlib.sha256()

    def add(val):
        if isinstance(val, dict):
            for key in sorted(val, key=str):
                hh.update(str(key).encode())
                add(val[key])
        elif isinstance(val, (list, tuple)):
            for vv in val:
                add(vv)
        elif hasattr(val, 'iter_solutions'):
            for kk, vv in val.iter_solutions():
                add(vv)
        elif isinstance(val, nm.ndarray) and val.dtype == object:
            for vv in val.ravel():
                add(vv)
        elif val is None or isinstance(val, str):
            hh.update(str(val).encode())
        elif hasattr(val, 'to_dict'):
            add(val.to_dict())
        else:
            # Insensitive to rounding.
            arr = nm.asarray(val, dtype=nm.float64)
            hh.update(str(arr.shape).encode())
            hh.update((nm.round(arr, 6) + 0.0).tobytes())

    add(data)
    rs = nm.random.RandomState(int.from_bytes(hh.digest()[:4], 'little'))
    return rs.uniform(1, 2, size=3)


class SynthReq(cb.CorrMiniApp):
    """A requirement whose value depends on all values it requires."""

    def __call__(self, problem=None, data=None):
        problem = self.problem if problem is None else problem
        call_hook(self.name, problem)
        self._check(data)
        val = digest_array([self.name.split('|')[0], self.salt, data])
        val = val + 0.01 * problem.domain.mesh.coors.sum()
        if getattr(problem, 'micro_state', None) is not None:
            coors = problem.get_mesh_coors(actual=True)
            val = val + 0.1 * nm.abs(coors).sum()
        if self.get('set_mat') is not None:
            # Leaves traces in the problem.
            problem.set_equations({'e': 'dw_dot.2.Y(cst.one, v, u) = 0'})
        num = problem.domain.mesh.n_nod * DIM
        return cb.CorrSolution(name=self.name,
                               state={'u': nm.resize(nm.array(val), num)})

    def _check(self, data):
        exp = set(rr for rr in self.requires if 'Volume_' not in rr)
        if set(data.keys()) != exp:
            raise RuntimeError('%s: got %s, required %s'
                               % (self.name, sorted(data), sorted(exp)))


class SynthCoef(cb.MiniAppBase):
    def __call__(self, volume, problem=None, data=None):
        problem = self.problem if problem is None else problem
        call_hook('c.' + self.name, problem)
        SynthReq._check(self, data)
        val = digest_array([self.name.split('|')[0], self.salt, data])
        val = val * self._get_volume(volume)
        if self.get('as_dict'):
            return {'a': val[:1], 'b': val[1:]}
        return val


class HookedCorr(cb.CorrDimDim):
    def __call__(self, problem=None, data=None):
        call_hook(self.name, self.problem if problem is None else problem)
        return cb.CorrDimDim.__call__(self, problem, data)


class HookedCorrN(cb.CorrDim):
    def __call__(self, problem=None, data=None):
        call_hook(self.name, self.problem if problem is None else problem)
        return cb.CorrDim.__call__(self, problem, data)


class HookedShape(cb.ShapeDimDim):
    def __call__(self, problem=None, data=None):
        call_hook(self.name, self.problem if problem is None else problem)
        return cb.ShapeDimDim.__call__(self, problem, data)


class HookedCoef(cb.CoefSymSym):
    def __call__(self, volume, problem=None, data=None):
        call_hook('c.' + self.name,
                  self.problem if problem is None else problem)
        return cb.CoefSymSym.__call__(self, volume, problem, data)


class HookedCoefNS(cb.CoefNonSymNonSym):
    def __call__(self, volume, problem=None, data=None):
        call_hook('c.' + self.name,
                  self.problem if problem is None else problem)
        return cb.CoefNonSymNonSym.__call__(self, volume, problem, data)


class HookedCoefDD(cb.CoefDimDim):
    def __call__(self, volume, problem=None, data=None):
        call_hook('c.' + self.name,
                  self.problem if problem is None else problem)
        return cb.CoefDimDim.__call__(self, volume, problem, data)


class HookedCoefOne(cb.CoefOne):
    def __call__(self, volume, problem=None, data=None):
        call_hook('c.' + self.name,
                  self.problem if problem is None else problem)
        return cb.CoefOne.__call__(self, volume, problem, data)


def mat_macro(ts, coors, mode=None, problem=None, **kwargs):
    """Material parameters depending on the macroscopic data."""
    if mode != 'qp':
        return
    md = getattr(problem, 'homogenization_macro_data', None)
    val = 1.0
    if md is not None:
        val += float(nm.abs(nm.asarray(md['load'])).sum())
    return {'k': val * (1.0 + 0.3 * coors[:, :1, None])}


def recovery(problem, corrs, macro):
    """A recovery hook: depends on all correctors and macro data."""
    call_hook('recovery', problem)
    return {'val': digest_array([corrs, macro])}


def recovery_fields(problem, corrs, macro):
    """A recovery hook reconstructing local fields."""
    from sfepy.homogenization.recovery import compute_micro_u
    # Undefined outside of the macroscopic domain.
    strain = nm.nan_to_num(nm.asarray(macro["strain"]))
    if strain.ndim == 3:
        # Given in all micro-mesh vertices.
        strain = strain.mean(axis=0)
    umic = compute_micro_u(corrs['corrs_rs'], strain, 'u', DIM)
    out = {'u_mic': Struct(name='output_data', mode='vertex', data=umic,
                           var_name='u')}
    cval = nm.full((problem.domain.mesh.n_el, 1, 1, 1),
                   float(macro['eps0']) * nm.abs(strain).sum())
    out['mark'] = Struct(name='output_data', mode='cell', data=cval)
    return out


class StateCoef(cb.MiniAppBase):
    """A coefficient depending on all micro-states."""

    def __call__(self, volume, problem=None, data=None):
        problem = self.problem if problem is None else problem
        call_hook('c.' + self.name, problem)
        states, im = problem.micro_state
        out = []
        for key in sorted(states):
            if states[key] is None:
                out.append(-1.0)
                continue
            val = nm.asarray(states[key][im], dtype=nm.float64).ravel()
            out.append(float((val * nm.cos(1.0 + nm.arange(len(val)))).sum()))
        return nm.array(out)


def update_coors(coors, macro_data, problem):
    """A micro-state update function."""
    for ii in range(coors.shape[0]):
        coors[ii] += nm.dot(coors[ii], nm.asarray(macro_data['mtx_e'][ii]).T)


DIM = 2


def conf_linear(mesh, output_dir, multi, chunk_size, max_workers,
                synth_reqs=(), synth_coefs=(), diff=False, macro=False,
                compute_only=None, store=None, filenames=False,
                save_names=False, micro=False, mesh_eps=None,
                coefs_filename='coefs', use_recovery=False, noise=False,
                stiff=70.0):
    dim = DIM
    regions = {
        'Y': 'all',
        'Ym': 'cells of group 1',
        'Yc': 'cells of group 2',
    }
    regions.update(define_box_regions(dim, (0., 0.), (1., 1.),
                                      eps=1e-3 if mesh_eps is None
                                      else 1e-2))
    materials = {
        'mat': ({'D': {'Ym': stiffness_from_youngpoisson(dim, 7.0, 0.3),
                       'Yc': stiffness_from_youngpoisson(dim, stiff, 0.2)},
                 },),
        'cst': ({'one': 1.0},),
        'dmat': ({'K': {'Ym': nm.eye(dim), 'Yc': 5.0 * nm.eye(dim)}},),
    }
    functions = {
        'match_x_plane': (per.match_x_plane,),
        'match_y_plane': (per.match_y_plane,),
    }
    if macro:
        materials['mm'] = 'mat_macro'
        functions['mat_macro'] = (mat_macro,)
    fields = {'corrector': ('real', dim, 'Y', 1)}
    variables = {
        'u': ('unknown field', 'corrector', 0),
        'v': ('test field', 'corrector', 'u'),
        'Pi': ('parameter field', 'corrector', 'u'),
        'Pi1': ('parameter field', 'corrector', '(set-to-None)'),
        'Pi2': ('parameter field', 'corrector', '(set-to-None)'),
    }
    ebcs = {'fixed_u': ('Corners', {'u.all': 0.0})}
    epbcs = {
        'periodic_x': (['Left', 'Right'], {'u.all': 'u.all'},
                       'match_x_plane'),
        'periodic_y': (['Bottom', 'Top'], {'u.all': 'u.all'},
                       'match_y_plane'),
    }
    requirements = {
        'pis': {'variables': ['u'], 'class': HookedShape},
        'corrs_rs': {
            'requires': ['pis'],
            'ebcs': ['fixed_u'],
            'epbcs': ['periodic_x', 'periodic_y'],
            'equations': {'bal':
                          """dw_lin_elastic.2.Y(mat.D, v, u) =
                          - dw_lin_elastic.2.Y(mat.D, v, Pi)"""},
            'set_variables': [('Pi', 'pis', 'u')],
            'class': HookedCorr,
        },
    }
    coefs = {
        'D': {
            'requires': ['pis', 'corrs_rs'],
            'expression': 'dw_lin_elastic.2.Y(mat.D, Pi1, Pi2)',
            'set_variables': [('Pi1', ('pis', 'corrs_rs'), 'u'),
                              ('Pi2', ('pis', 'corrs_rs'), 'u')],
            'class': HookedCoef,
        },
        'vf': {
            'expression': 'ev_volume.2.%s(u)',
            'regions': ['Ym', 'Yc'],
            'class': cb.VolumeFractions,
        },
    }
    if micro:
        coefs.pop('vf')
    if diff:
        fields['pressure'] = ('real', 1, 'Y', 1)
        variables.update({
            'p': ('unknown field', 'pressure', 1),
            'q': ('test field', 'pressure', 'p'),
            'Pp': ('parameter field', 'pressure', 'p'),
            'Pp1': ('parameter field', 'pressure', '(set-to-None)'),
            'Pp2': ('parameter field', 'pressure', '(set-to-None)'),
        })
        ebcs['fixed_p'] = ('Corners', {'p.0': 0.0})
        epbcs['periodic_px'] = (['Left', 'Right'], {'p.0': 'p.0'},
                                'match_x_plane')
        epbcs['periodic_py'] = (['Bottom', 'Top'], {'p.0': 'p.0'},
                                'match_y_plane')
        requirements['pisp'] = {'variables': ['p'],
                                'class': cb.ShapeDim}
        requirements['corrs_p'] = {
            'requires': ['pisp'],
            'ebcs': ['fixed_p'],
            'epbcs': ['periodic_px', 'periodic_py'],
            'equations': {'bal': """dw_diffusion.2.Y(dmat.K, q, p)
                          = - dw_diffusion.2.Y(dmat.K, q, Pp)"""},
            'set_variables': [('Pp', 'pisp', 'p')],
            'class': HookedCorrN,
        }
        coefs['K'] = {
            'requires': ['pisp', 'corrs_p'],
            'expression': 'dw_diffusion.2.Y(dmat.K, Pp1, Pp2)',
            'set_variables': [('Pp1', ('pisp', 'corrs_p'), 'p'),
                              ('Pp2', ('pisp', 'corrs_p'), 'p')],
            'class': HookedCoefDD,
        }
    if macro:
        coefs['M'] = {
            'expression': 'ev_integrate_mat.2.Y(mm.k, u)',
            'class': HookedCoefOne,
        }
    if save_names:
        requirements['corrs_rs']['save_name'] = 'corrs_rs'
        if diff:
            requirements['corrs_p']['save_name'] = 'corrs_p'
    for name, reqs, salt in synth_reqs:
        requirements[name] = {'requires': list(reqs), 'salt': salt,
                              'class': SynthReq}
        if salt % 3 == 0:
            requirements[name]['set_mat'] = True
    for name, reqs, salt in synth_coefs:
        coefs[name] = {'requires': list(reqs), 'salt': salt,
                       'class': SynthCoef,
                       'as_dict': (salt % 3 == 0) and not micro}
        if salt % 5 == 0:
            coefs[name]['status'] = 'auxiliary'
        if not reqs:
            coefs[name].pop('requires')
    if filenames:
        coefs['filenames'] = {}

    options = {
        'coefs': 'coefs', 'requirements': 'requirements',
        'volume': {'expression': 'ev_volume.2.Y(u)'},
        'output_dir': output_dir,
        'coefs_filename': coefs_filename,
        'multiprocessing': multi,
        'max_workers': max_workers,
        'save_formats': ['h5'],
        'return_all': True,
    }
    if chunk_size is not None:
        options['chunk_size'] = chunk_size if chunk_size > 0 else None
    if compute_only is not None:
        options['compute_only'] = compute_only
    if store is not None:
        options['store_micro_idxs'] = store
    if mesh_eps is not None:
        options['mesh_eps'] = mesh_eps
    if micro:
        options['micro_update'] = {'coors': update_coors}
    if use_recovery:
        options['recovery_hook'] = 'recovery'
        functions['recovery'] = (recovery_fields if use_recovery == 'fields'
                                 else recovery,)
    solvers = {
        'ls': ('ls.scipy_direct', {'use_presolve': True}),
        'newton': ('nls.newton', {'i_max': 1, 'eps_a': 1e-4,
                                  'verbose': 0, 'report_status': False}),
    }
    return {
        'filename_mesh': mesh, 'options': options, 'regions': regions,
        'materials': materials, 'functions': functions, 'fields': fields,
        'variables': variables, 'ebcs': ebcs, 'epbcs': epbcs,
        'coefs': coefs, 'requirements': requirements, 'solvers': solvers,
        'recovery': (recovery_fields if use_recovery == 'fields'
                     else recovery),
    }


def conf_nonlinear(mesh, output_dir, multi, chunk_size, max_workers,
                   store=None, save_names=False, mode='corr', prev=False,
                   coefs_filename='coefs', extra=(), soft=10):
    from sfepy.examples.homogenization.nonlinear_homogenization import def_mat
    dim = DIM
    regions = {
        'Y': 'all',
        'Ym': 'cells of group 1',
        'Yc': 'cells of group 2',
    }
    regions.update(define_box_regions(dim, (0., 0.), (1., 1.)))
    options = {
        'coefs': 'coefs', 'requirements': 'requirements',
        'volume': {'expression': 'ev_volume.2.Y(u)'},
        'output_dir': output_dir,
        'coefs_filename': coefs_filename,
        'multiprocessing': multi,
        'max_workers': max_workers,
        'mesh_update_variable': 'u',
        'save_formats': ['h5'],
        'return_all': True,
    }
    if mode == 'corr':
        options['micro_update'] = {'coors': [('corrs_rs', 'u', 'mtx_e')]}
    else:
        options['micro_update'] = {'coors': update_coors}
    if prev:
        options['micro_update']['coors_prev'] = None
    for name, mul, shift, prev2 in extra:
        seq = []
        if shift:
            seq.append((None, None, 'shift'))
        seq.append(('corrs_rs', 'u', 'mtx_e', mul))
        # Without a state, the correctors have to be the first.
        options['micro_update'][name] = seq[::-1]
        if prev2:
            options['micro_update'][name + '_prev'] = None
    if chunk_size is not None:
        options['chunk_size'] = chunk_size if chunk_size > 0 else None
    if store is not None:
        options['store_micro_idxs'] = store
    requirements = {
        'pis': {'variables': ['u'], 'class': HookedShape},
        'corrs_rs': {
            'requires': ['pis'],
            'ebcs': ['fixed_u'],
            'epbcs': ['periodic_ux', 'periodic_uy'],
            'equations': {'bal':
                          """dw_nonsym_elastic.2.Y(mat_he.A, v, u)
                          = - dw_nonsym_elastic.2.Y(mat_he.A, v, Pi)"""},
            'set_variables': [('Pi', 'pis', 'u')],
            'class': HookedCorr,
        },
    }
    if save_names:
        requirements['corrs_rs']['save_name'] = 'corrs'
    return {
        'filename_mesh': mesh, 'options': options, 'regions': regions,
        'fields': {'displacement': ('real', 'vector', 'Y', 1)},
        'functions': {
            'match_x_plane': (per.match_x_plane,),
            'match_y_plane': (per.match_y_plane,),
            'mat_fce': (def_mat,),
        },
        'materials': {
            'mat_he': 'mat_fce',
            'solid': ({'K': {'Ym': 1000, 'Yc': 1000},
                       'mu': {'Ym': 100, 'Yc': soft}},),
        },
        'variables': {
            'u': ('unknown field', 'displacement'),
            'v': ('test field', 'displacement', 'u'),
            'Pi': ('parameter field', 'displacement', 'u'),
            'Pi1u': ('parameter field', 'displacement', '(set-to-None)'),
            'Pi2u': ('parameter field', 'displacement', '(set-to-None)'),
        },
        'ebcs': {'fixed_u': ('Corners', {'u.all': 0.0})},
        'epbcs': {
            'periodic_ux': (['Left', 'Right'], {'u.all': 'u.all'},
                            'match_x_plane'),
            'periodic_uy': (['Bottom', 'Top'], {'u.all': 'u.all'},
                            'match_y_plane'),
        },
        'coefs': {
            'A': {
                'requires': ['pis', 'corrs_rs'],
                'expression': 'dw_nonsym_elastic.2.Y(mat_he.A, Pi1u, Pi2u)',
                'set_variables': [('Pi1u', ('pis', 'corrs_rs'), 'u'),
                                  ('Pi2u', ('pis', 'corrs_rs'), 'u')],
                'class': HookedCoefNS,
            },
            'S': {
                'expression': 'ev_integrate_mat.2.Y(mat_he.S, u)',
                'class': HookedCoefOne,
            },
            'St': {'class': StateCoef},
        },
        'requirements': requirements,
        'solvers': {
            'ls': ('ls.scipy_direct', {'use_presolve': True}),
            'newton': ('nls.newton', {'i_max': 1, 'eps_a': 1e-4,
                                      'verbose': 0,
                                      'report_status': False}),
        },
    }
