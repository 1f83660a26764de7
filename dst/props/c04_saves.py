"""
C04: a save that reports success wrote everything.

Seeded saves by all writers (meshes and data in all supported formats,
results and auxiliary files of problems, coefficients, dictionaries, ...) on
the simulated disk with faults at seeded file operations.  A save that returns
has to leave the same files as without faults; a failed save has to succeed
when it is repeated after the disk is repaired.
"""
import os
import re
import shutil

import numpy as nm

from dst import core
from dst import problems as P
from dst import simdisk as SD

# Formats: suffix, format name, cells, data modes.
FORMATS = {
    'vtk': ('.vtk', None, 'any', 'vc'), 'vtk-ascii': ('.vtk', 'vtk-ascii',
                                                      'any', 'vc'),
    'vtu': ('.vtu', None, 'any', 'vc'), 'medit': ('.mesh', None, 'any', ''),
    'meshb': ('.meshb', None, 'any', ''),
    'gmsh': ('.msh', None, 'any', 's'),
    'gmshdg': ('.msh', 'gmsh-dg', 'one', 'd'),
    'abaqus': ('.inp', None, 'any', ''), 'nastran': ('.bdf', None, 'any', ''),
    'xyz': ('.xyz', None, 'any', ''), 'netgen': ('.vol', None, 'any', ''),
    'su2': ('.su2', None, 'any', ''), 'dolfin': ('.xml', None, 'tet', ''),
    'mdpa': ('.mdpa', None, 'any', ''), 'permas': ('.dato', None, 'any', ''),
    'tetgen': ('.node', None, 'tet', ''),
    'h5': ('.h5', None, 'any', 'vc'), 'h5x': ('.h5x', None, 'any', 'vc'),
}
COMMON = ['vtk', 'vtk-ascii', 'vtu', 'medit', 'gmsh', 'gmshdg', 'h5', 'h5',
          'h5x',
          'xyz', 'abaqus', 'nastran']
OTHERS = ['dict', 'dict', 'h5obj', 'coefs-h5', 'coefs-txt', 'coefs-latex',
          'probe', 'options', 'sparse-h5', 'sparse-txt', 'state', 'state',
          'state', 'ebc', 'regions', 'groups', 'restart', 'dump',
          'spline', 'spbox', 'log', 'results', 'results', 'poly',
          'igadomain']
KINDS = ['nospc'] * 5 + ['eio'] * 4 + ['short', 'eintr', 'short', 'eintr',
                                       'deny']
CLOSE_KEY = 'hdf5-library-lost-error'


def make_mesh(spec):
    from sfepy.mesh.mesh_generators import gen_block_mesh
    from sfepy.discrete.fem import Mesh
    size = spec['size']
    cells = spec['cells']
    dim = 2 if cells in ('tri', 'quad', 'mixed') else 3
    shape = [size + 1, 3, 2][:dim]
    mesh = gen_block_mesh([1.0] * dim, shape, [0.5] * dim,
                          mat_id=spec['salt'] % 5 + 1, name='block',
                          verbose=False)
    if cells in ('tri', 'tet'):
        from sfepy.mesh.mesh_tools import triangulate
        mesh = triangulate(mesh)
    if cells == 'mixed':
        # Triangles and quadrilaterals.
        coors, _, conns, mats, _ = mesh._get_io_data()
        quads, mat = conns[0], mats[0]
        n_q = max(len(quads) // 2, 1)
        tris = nm.r_[quads[n_q:, [0, 1, 2]], quads[n_q:, [0, 2, 3]]]
        mesh = Mesh.from_data('block', coors, None, [quads[:n_q], tris],
                              [mat[:n_q], nm.r_[mat[n_q:], mat[n_q:]]],
                              ['2_4', '2_3'])
    if spec.get('groups'):
        rng = nm.random.RandomState(spec['salt'] % 1000)
        coors, _, conns, mats, descs = mesh._get_io_data()
        mesh = Mesh.from_data(
            'block', coors, rng.randint(0, 4, coors.shape[0]), conns,
            [rng.randint(1, 5, mm.shape[0]) for mm in mats], descs)
    return mesh


# Formats that do not store groups of cells, vertices.
NO_CELL_GROUPS = ('gmshdg', 'mdpa', 'netgen', 'permas', 'su2', 'xyz', 'tetgen')
NO_VERTEX_GROUPS = NO_CELL_GROUPS + ()


def alike(got, want, tol=0.0):
    """Equality up to types of containers and `tol`."""
    import scipy.sparse as sps
    from sfepy.base.base import Struct
    if isinstance(want, Struct):
        want = {kk: vv for kk, vv in want.to_dict().items()}
        got = got.to_dict() if isinstance(got, Struct) else got
    if isinstance(want, dict):
        return (isinstance(got, dict)
                and sorted(map(str, got)) == sorted(map(str, want))
                and all(alike(got[str(kk)], vv, tol)
                        for kk, vv in want.items()))
    if isinstance(want, str) or (want is None) or isinstance(want, bool):
        return (type(got) is type(want)) and (got == want)
    if sps.issparse(want):
        return (sps.issparse(got) and got.dtype == want.dtype
                and got.format == want.format and got.shape == want.shape
                and alike(got.toarray(), want.toarray(), tol))
    if isinstance(want, (list, tuple)) and not isinstance(got, nm.ndarray):
        return (len(got) == len(want)) and all(
            alike(aa, bb, tol) for aa, bb in zip(got, want))
    try:
        aa, bb = nm.asarray(got), nm.asarray(want)
        if aa.size != bb.size:
            return False
        aa, bb = aa.ravel(), bb.ravel()
        if bb.dtype.kind not in 'ifcub':
            return bool((aa == bb).all())
        return bool(nm.allclose(aa, bb, rtol=tol, atol=tol))
    except Exception:
        return False


def values(salt, *shape):
    return nm.random.RandomState(salt % (2**31 - 1)).uniform(-1, 1, shape)


def norm(val):
    """Comparable and picklable form of saved/loaded data."""
    import scipy.sparse as sps
    from sfepy.base.base import Struct
    from sfepy.base.ioutils import DataMarker
    from sfepy.discrete.fem import Mesh
    if isinstance(val, dict):
        return {str(kk): norm(vv) for kk, vv in val.items()}
    if isinstance(val, (list, tuple)):
        return [norm(vv) for vv in val]
    if isinstance(val, DataMarker):
        return norm(val.data)
    if isinstance(val, Mesh):
        return norm([val.coors, list(val.descs), val.get_conn(val.descs[0]),
                     val.cmesh.cell_groups, val.cmesh.vertex_groups])
    if isinstance(val, Struct):
        return norm({kk: vv for kk, vv in val.to_dict().items()
                     if kk != 'name'})
    if sps.issparse(val):
        return [str(val.dtype), val.toarray()]
    if isinstance(val, (nm.ndarray, nm.generic)):
        return nm.array(val)
    return val


def same(v1, v2):
    if isinstance(v1, dict):
        return isinstance(v2, dict) and (sorted(v1) == sorted(v2)) and all(
            same(v1[kk], v2[kk]) for kk in v1)
    if isinstance(v1, list):
        return isinstance(v2, list) and (len(v1) == len(v2)) and all(
            same(aa, bb) for aa, bb in zip(v1, v2))
    if isinstance(v1, nm.ndarray) or isinstance(v2, nm.ndarray):
        a1, a2 = nm.asarray(v1), nm.asarray(v2)
        return (a1.shape == a2.shape) and (a1.dtype == a2.dtype) and (
            a1.tobytes() == a2.tobytes())
    return (type(v1) is type(v2)) and (v1 == v2)


def is_hdf5(name):
    return name.endswith(('.h5', '.h5x', '.iga'))


def read_tree(filename):
    """The contents of a HDF5 file."""
    import tables as pt
    out = {}
    with pt.open_file(filename, mode='r') as fd:
        for node in fd.walk_nodes('/'):
            if node._v_pathname in ('/tstat/created', '/tstat/finished'):
                continue
            val = None
            if isinstance(node, pt.Leaf):
                val = node.read()
                if isinstance(val, list):
                    val = [norm(vv) for vv in val]
            out[node._v_pathname] = norm(val)
    return out


class PROP(core.Property):
    id = 'C04'
    rule = ('one evaluation is one save on the simulated disk with faults at'
            ' seeded file operations, compared with the same save without'
            ' faults; non-trivial if a fault fired; distinct by event trace')
    real = ['MeshIO writers and readers, Mesh.write', 'Problem.save_state,'
            ' save_ebc, save_regions, save_regions_as_groups,'
            ' save_restart', 'Coefficients, write_dict_hdf5,'
            ' write_to_hdf5, sparse matrices, probes, options, logs, splines',
            'meshio, PyTables/HDF5, h5py']
    stub = ['system calls that change files under the output directory'
            ' (LD_PRELOAD layer over real files)']
    assumptions = ['the disk reports its errors to the writing process']
    n_quick = 900
    n_thorough = 20000
    quick_budget = 200.0
    run_timeout = 120.0
    needs_shim = True

    def setup(self):
        P.quiet()
        import logging
        logging.disable(logging.CRITICAL)
        import warnings
        warnings.showwarning = lambda *args, **kwargs: None
        import meshio
        import sfepy.discrete.fem.meshio  # noqa
        import sfepy.mesh.mesh_generators  # noqa
        import sfepy.homogenization.coefficients  # noqa
        import sfepy.postprocess.time_history  # noqa
        import tables  # noqa
        try:
            import h5py  # noqa
        except ImportError:
            pass
        from sfepy.discrete import Problem  # noqa
        from sfepy.discrete.probes import LineProbe  # noqa
        # Messages of a third-party package.
        from meshio import _common
        _common.warn = lambda *args, **kwargs: None
        _common.info = lambda *args, **kwargs: None
        for name in ('_vtk._vtk_42', '_gmsh.common', '_helpers'):
            mod = meshio
            for part in name.split('.'):
                mod = getattr(mod, part, mod)
            if hasattr(mod, 'warn'):
                mod.warn = lambda *args, **kwargs: None

    # -- generation -------------------------------------------------------
    def gen(self, rng, tier, index):
        if index == 0:
            # The known finding: an error when closing a HDF5 file.
            return {'target': 'dict', 'size': 2, 'salt': 5, 'cells': 'hex',
                    'old': None, 'retry': False,
                    'faults': [{'kind': 'nospc', 'pos': 0.5, 'count': -1,
                                'arg': 0}]}
        cc = rng.random()
        if cc < 0.35:
            target = 'mesh:' + rng.choice(COMMON)
        elif cc < 0.5:
            target = 'mesh:' + rng.choice(sorted(FORMATS))
        else:
            target = rng.choice(OTHERS)
        cells = rng.choice(['quad', 'hex', 'tri', 'tet', 'mixed'])
        if target.startswith('mesh:'):
            need = FORMATS[target[5:]][2]
            if need == 'one':
                cells = 'tri' if cells == 'mixed' else cells
            elif need != 'any':
                cells = need
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            kind = rng.choice(KINDS)
            faults.append({'kind': kind, 'pos': round(rng.random(), 4),
                           'count': rng.choice([-1, -1, 1]) if kind == 'nospc'
                           else rng.choice([1, 1, 3]),
                           'arg': rng.choice([0, 0, 1000,
                                              rng.randrange(1001)])})
        size = rng.choice([2, 2, 8, 60, 400])
        if target in ('state', 'ebc', 'regions', 'groups',
                      'restart', 'dump', 'results', 'igadomain'):
            size = rng.choice([2, 6])
        return {'target': target, 'size': size,
                'salt': rng.randrange(1 << 20), 'cells': cells,
                'groups': rng.random() < 0.5,
                'old': rng.choice([None, None, rng.randrange(1 << 20)]),
                'retry': rng.random() < 0.7, 'faults': faults}

    # -- targets ----------------------------------------------------------
    def data(self, mesh, spec, modes):
        from sfepy.base.base import Struct
        out = {}
        salt = spec['salt']
        dim = mesh.dim
        if not (salt % 4):
            return out
        if ('v' in modes) or ('s' in modes):
            out['p'] = Struct(name='output_data', mode='vertex',
                              data=values(salt + 1, mesh.n_nod, 1))
        if 'v' in modes:
            out['u'] = Struct(name='output_data', mode='vertex',
                              data=values(salt + 2, mesh.n_nod, dim))
        if ('d' in modes) and (len(mesh.descs) == 1):
            nep = mesh.get_conn(mesh.descs[0]).shape[1]
            scheme = Struct(name='scheme', desc=mesh.descs[0],
                            F=values(salt + 6, 3, 3), P=values(salt, 3, 2))
            for ii, key in enumerate(['q', 'p_cell_nodes'][:1 + salt % 2]):
                out[key] = Struct(name='output_data', mode='cell_nodes',
                                  scheme=scheme,
                                  data=values(salt + 7 + ii, mesh.n_el, nep))
        if 'c' in modes:
            out['s'] = Struct(name='output_data', mode='cell',
                              data=values(salt + 3, mesh.n_el, 1, 1, 1))
            sym = dim * (dim + 1) // 2
            out['u_strain'] = Struct(name='output_data', mode='cell',
                                     data=values(salt + 4, mesh.n_el, 1, sym,
                                                 1))
            if salt % 3 == 0:
                out['grad'] = Struct(name='output_data', mode='cell',
                                     data=values(salt + 5, mesh.n_el, 1, dim,
                                                 dim))
        if ('v' in modes) and (spec['target'] in ('mesh:h5', 'mesh:h5x')):
            if (salt % 5 == 0) and not spec.get('dump'):
                out['cu'] = Struct(name='output_data', mode='custom',
                                   data={'a': [1, 2.5], 'b': 'text'})
        return out

    def n_step(self, spec):
        return 12 if spec['salt'] % 6 == 1 else 3

    def problem(self, spec):
        pp = {'shape': [3, spec['size'] + 1], 'order': 1 + spec['salt'] % 2,
              'history': 1 + spec['salt'] % 2, 'ebc_fun': True,
              'mat_fun': False, 'second': bool(spec['salt'] % 3),
              'nonlinear': 0, 'n_step': 2, 't0': 0.0, 't1': 1.0, 'i_max': 2,
              'ts': 'simple', 'all_dofs': False}
        pb = P.make_problem(P.heat_conf(pp))
        pb.time_update()
        var = pb.get_variables()
        var.init_state(values(spec['salt'], var.di.n_dof_total))
        return pb

    def adict(self, spec):
        salt, size = spec['salt'], spec['size']
        adict = {'A': values(salt, size * 40, 6), 'b': values(salt + 1, 3),
                 'n': salt, 'x': 0.5 * salt, 'text': 'text %d' % salt,
                 'sub': {'deep': {'v': values(salt + 2, 2, 2), 's': 'abc'},
                         'k': 3}}
        if salt % 2:
            adict.update({'a_b_c': 1.5, '_u': values(salt, 2), '__w': 3,
                          'sub_1_': {'_x_': {'y__': [1, 2, salt % 7]},
                                     'e': {}},
                          'i8': nm.arange(5, dtype=nm.int8) - 2,
                          'cc': values(salt, 3) + 2j * values(salt, 3),
                          'flag': nm.array([True, False]),
                          'uni': 'p\u0159\xedklad', 'l': [1.5, 2.0],
                          't': values(salt, 2, 1, 3, 2)})
        return adict

    def h5obj(self, spec):
        from sfepy.base.base import Struct
        from sfepy.base.ioutils import Cached, Uncached
        salt = spec['salt']
        mesh = make_mesh(dict(spec, size=3))
        obj = {'d': self.adict(dict(spec, salt=2 * salt)),
               'l': [1, 2.5, None, True, 'str', (1, 2)],
               'm': self.sparse(dict(spec, size=2)), 'mesh': mesh}
        if salt % 2:
            obj.update({'again': [mesh, {'m': obj['m']}],
                        'st': Struct(name='s', a=[False, {}, [], ()],
                                     b='text', c=values(salt, 3)),
                        'pk': {1, 2, salt}, 'cpl': 1 + 2j,
                        'long': [ii * salt for ii in range(12)],
                        'u_': Uncached(mesh), 'c_': Cached(obj['d']['b']),
                        'c2': [Cached(obj['d']['b'])],
                        'uni': 'p\u0159\xedklad'})
        return obj

    def coefs(self, spec):
        from sfepy.homogenization.coefficients import Coefficients
        salt, size = spec['salt'], spec['size']
        return Coefficients(A=values(salt, 6, 6), B=values(salt, 6), dim=3,
                            filenames={'a': 'x.vtk'}, V=0.25,
                            sub={'C': values(salt + 4, size * 20, 5)})

    def sparse(self, spec):
        import scipy.sparse as sps
        salt = spec['salt']
        num = min(spec['size'], 60) * 10
        shape = (num, num + (salt % 3) * 5)
        cls = sps.csr_array if salt % 2 else sps.csc_array
        mtx = cls(sps.random_array(
            shape, density=0.05, random_state=nm.random.RandomState(salt)))
        if salt % 5 == 1:
            mtx = cls(mtx * (1 + 2j))
        elif salt % 5 == 2:
            mtx = cls((mtx * 100).astype(nm.int32))
        elif salt % 5 == 3:
            mtx = cls(mtx.astype(nm.float32))
        return mtx

    def probed(self, spec):
        salt, num = spec['salt'], spec['size'] * 10
        pars = nm.linspace(0, 1, num)
        return {'u': (pars, values(salt, num, 3)),
                'p': (pars, values(salt + 1, num)),
                'S_xx': (pars, values(salt + 2, num, 3, 3) * 1e-9)}

    def opts(self, spec):
        return {'opt%03d' % ii: values(spec['salt'] + ii, 3).tolist()
                for ii in range(spec['size'])}

    def verify(self, spec, outdir):
        """
        Compare the saved files with the saved data. Returns the description
        of a difference or None.
        """
        name, salt = spec['target'], spec['salt']

        def path(fname):
            return os.path.join(outdir, fname)

        def text(fname):
            with open(path(fname), 'r', encoding='utf-8') as fd:
                return fd.read()

        def both(got, want, tol=0.0, what=name):
            if not alike(got, want, tol):
                return '%s: %s, not %s' % (what, str(got)[:300],
                                           str(want)[:300])

        if name.startswith('mesh:'):
            from sfepy.discrete.fem import Mesh
            from sfepy.discrete.fem.meshio import MeshIO
            fmt = name[5:]
            if fmt == 'dolfin':
                return None
            suffix, _, _, modes = FORMATS[fmt]
            mesh = make_mesh(spec)
            mm = Mesh.from_file(path('m' + suffix))
            coors = mm.coors[:, :mesh.dim]
            tol = 1e-11 if fmt == 'nastran' else 1e-14
            bad = (both(coors, mesh.coors, tol, 'coordinates')
                   or both(nm.abs(mm.coors[:, mesh.dim:]).max(initial=0), 0,
                           0, 'z coordinates')
                   or both(sorted(mm.descs), sorted(mesh.descs), 0,
                           'cell types'))
            if bad:
                return bad
            for dd in mesh.descs:
                bad = bad or both(mm.get_conn(dd), mesh.get_conn(dd), 0,
                                  'cells')
            if (fmt not in NO_CELL_GROUPS) and (
                    (fmt != 'abaqus') or (spec['cells'] != 'mixed')):
                # (meshio reads Abaqus groups of the last cell type only)
                bad = bad or both(mm.cmesh.cell_groups,
                                  mesh.cmesh.cell_groups, 0, 'cell groups')
            if fmt not in NO_VERTEX_GROUPS:
                bad = bad or both(mm.cmesh.vertex_groups,
                                  mesh.cmesh.vertex_groups, 0,
                                  'vertex groups')
            out = self.data(mesh, spec, modes)
            if bad or not out:
                return bad
            io = MeshIO.any_from_filename(
                path('m' + suffix),
                file_format='gmsh-dg' if fmt == 'gmshdg' else None)
            h5 = fmt in ('h5', 'h5x')
            if h5:
                n_step = self.n_step(spec)
                bad = both(list(io.read_times())[1],
                           nm.linspace(0.0, 1.0, n_step), 1e-15, 'times')
            for step in range(n_step if h5 else 1):
                dd = io.read_data(step)
                for key, val in out.items():
                    if key not in dd:
                        return 'no %s in step %d' % (key, step)
                    data = val.data
                    if (fmt == 'h5x') and (mesh.dim == 2):
                        data = self.in_3d(data)
                    if val.mode == 'custom':
                        bad = bad or both(dd[key], data, 0, key)
                        continue
                    if val.mode == 'cell_nodes':
                        data = [data]
                        bad = (bad or both(dd[key].scheme.F, val.scheme.F)
                               or both(dd[key].scheme.P, val.scheme.P)
                               or both(dd[key].scheme_name, 'scheme'))
                    bad = (bad or both(dd[key].data, data, 0, key)
                           or both(dd[key].mode, val.mode, 0, key))
                    if h5:
                        bad = bad or both(
                            io.read_data_header(key, step)[0], val.mode, 0,
                            'header of ' + key)
            if fmt == 'h5x':
                bad = bad or self.verify_xdmf(path('m.h5x'), mesh, n_step,
                                              out)
            return bad

        if name == 'dict':
            from sfepy.base.ioutils import read_dict_hdf5
            return both(read_dict_hdf5(path('d.h5')), self.adict(spec))
        if name == 'h5obj':
            import tables as pt
            from sfepy.base.ioutils import read_from_hdf5
            with pt.open_file(path('o.h5'), mode='r') as fd:
                res = read_from_hdf5(fd, fd.root.data)

            return both(norm(res), norm(self.h5obj(spec)))
        if name == 'coefs-h5':
            from sfepy.homogenization.coefficients import Coefficients
            return both(Coefficients.from_file_hdf5(path('c.h5')).to_dict(),
                        self.coefs(spec).to_dict())
        if name in ('coefs-txt', 'coefs-latex'):
            txt = text('c.txt' if name == 'coefs-txt' else 'c.tex')
            fmt = '%.10e' if name == 'coefs-txt' else '%.3e'
            coefs = self.coefs(spec).to_dict()
            for key in ('A', 'B'):
                for val in nm.ravel(coefs[key]):
                    if (fmt % val) not in txt:
                        return 'no %s of %s in the file' % (fmt % val, key)
            return None
        if name == 'sparse-h5':
            from sfepy.base import ioutils as io
            mtx = self.sparse(spec)
            bad = both(io.read_sparse_matrix_hdf5(path('s.h5')), mtx)
            for fmt in ('csr', 'csc'):
                bad = bad or both(io.read_sparse_matrix_hdf5(
                    path('s.h5'), output_format=fmt), mtx.asformat(fmt))
            return bad
        if name == 'sparse-txt':
            mtx = self.sparse(spec)
            if mtx.dtype.kind == 'c':
                return None
            rows = [ln.split() for ln in text('s.txt').splitlines()]
            if [int(ii) for ii in rows[0][:2]] != list(mtx.shape):
                return 'shape %s, not %s' % (rows[0], mtx.shape)
            mine = sorted(zip(*mtx.tocoo().coords, mtx.tocoo().data))
            got = sorted((int(ii), int(jj), float(vv))
                         for ii, jj, vv in rows[2:])
            return both(got, mine, 1e-6)
        if name == 'probe':
            from sfepy.discrete.probes import read_results
            want = {key: nm.c_[pars, vals.reshape(len(pars), -1)]
                    for key, (pars, vals) in self.probed(spec).items()}
            header, got = read_results(path('p.txt'))
            some = read_results(path('p.txt'), only_names=['p'])[1]
            return (both(got, want, 1e-15)
                    or both(some, {'p': want['p']}, 1e-15)
                    or both(header.n_point, spec['size'] * 10))
        if name == 'options':
            txt = text('o.txt')
            for key, val in self.opts(spec).items():
                if ('%s: %s\n' % (key, val)) not in txt:
                    return 'no %s: %s in the file' % (key, val)
            return None
        if name == 'dump':
            from sfepy.discrete.fem.meshio import MeshIO
            sub = dict(spec, target='mesh:h5', salt=spec['salt'] | 1,
                       dump=True)
            want = self.data(make_mesh(sub), sub, 'vc')
            names = sorted(os.listdir(outdir))
            if len(names) != 3:
                return 'files %s' % names
            for ff in names:
                got = MeshIO.any_from_filename(path(ff)).read_data(0)
                for key, val in want.items():
                    if not ((key in got) and alike(got[key].data, val.data)):
                        return '%s of %s differs' % (key, ff)
            return None
        if name in ('state', 'restart'):
            return self.verify_state(spec, path)
        if name in ('regions', 'groups'):
            from sfepy.discrete.fem import Mesh
            from sfepy.discrete.fem.meshio import MeshIO
            pb = self.problem(spec)
            if name == 'groups':
                ff = sorted(os.listdir(outdir))[0]
                got = MeshIO.any_from_filename(path(ff)).read_data(0)
            bad = None
            for reg in pb.domain.regions:
                if name == 'groups':
                    if reg.name not in got:
                        return 'no %s in %s' % (reg.name, ff)
                    mine = nm.nonzero(nm.ravel(got[reg.name].data))[0]
                    bad = bad or both(mine, reg.vertices, 0, reg.name)
                else:
                    mm = Mesh.from_file(path('r_%s.mesh' % reg.name))
                    n_c = (reg.get_cells().shape[0] if reg.has_cells()
                           else reg.facets.shape[0])
                    bad = (bad or both(mm.n_el, n_c, 0, reg.name + ' cells'))
            return bad
        if name == 'igadomain':
            from sfepy.discrete.iga.domain_generators import (
                gen_patch_block_domain)
            from sfepy.discrete.iga import io as iio
            nurbs, bmesh, regions = gen_patch_block_domain(
                [1.0, 1.0], [spec['size'] + 2, 4], [0.5, 0.5], [2, 2],
                name='iga', verbose=False)
            got = iio.read_iga_data(path('i.iga'))
            want = (nurbs.knots, nurbs.degrees, nurbs.cps, nurbs.weights,
                    nurbs.cs, nurbs.conn, bmesh.cps, bmesh.weights,
                    bmesh.conn, regions)
            return both(list(got), list(want))
        return None

    def in_3d(self, data):
        if not isinstance(data, nm.ndarray):
            return data
        flat = data.reshape((len(data), -1))
        order = {2: (3, [0, 1]), 3: (6, [0, 1, 3]), 4: (9, [0, 1, 3, 4])}
        if flat.shape[1] not in order:
            return data
        dim, where = order[flat.shape[1]]
        res = nm.zeros((len(data), dim))
        res[:, where] = flat
        return res

    def verify_xdmf(self, filename, mesh, n_step, out):
        """The description of the file refers to all the data."""
        import xml.etree.ElementTree as et
        import tables as pt
        root = et.parse(filename[:-4] + '.xdmf').getroot()
        grids = root.findall('./Domain/Grid/Grid')
        if len(grids) != n_step:
            return '%d steps in xdmf, not %d' % (len(grids), n_step)
        with pt.open_file(filename, mode='r') as fd:
            for step, grid in enumerate(grids):
                if int(grid.find('Time').get('Value')) != step:
                    return 'step %s in xdmf, not %d' % (
                        grid.find('Time').get('Value'), step)
                atts = {aa.get('Name'): aa for aa in grid.findall('Attribute')}
                for key, val in out.items():
                    if val.mode not in ('vertex', 'cell'):
                        continue
                    if key not in atts:
                        return 'no %s in xdmf' % key
                    att = atts[key]
                    if att.get('Center') != {'vertex': 'Node',
                                             'cell': 'Cell'}[val.mode]:
                        return 'center of %s in xdmf' % key
                    item = att.find('DataItem')
                    where = item.text.strip().split(':')[1]
                    if not where.startswith('/step%d/' % step):
                        return '%s in xdmf refers to %s' % (key, where)
                    got = fd.get_node(where).read()
                    want = val.data
                    if mesh.dim == 2:
                        want = self.in_3d(want)
                    dims = [int(ii) for ii in item.get('Dimensions').split()]
                    if not (alike(got, want)
                            and (nm.prod(dims) == want.size)
                            and (dims[0] == len(want))):
                        return '%s in xdmf: %s' % (key, dims)
        return None

    def verify_state(self, spec, path):
        from sfepy.discrete.fem.meshio import MeshIO
        salt = spec['salt']
        pb = self.problem(spec)
        var = pb.get_variables()
        if spec['target'] == 'restart':
            pb2 = self.problem(dict(spec, salt=salt + 6))
            pb2.load_restart(path('r.h5'))
            if not same(norm(P.var_values(pb2)), norm(P.var_values(pb))):
                return 'restart: the values differ'
            return None
        if (salt % 5 == 0) or ([None, None, 'v', 'r'][salt % 4]):
            return None
        fmt = ['vtk', 'vtu', 'h5'][salt % 3]
        got = MeshIO.any_from_filename(path('s.' + fmt)).read_data(0)
        for name in var.names:
            vv = var[name]
            if not vv.is_state():
                continue
            if name not in got:
                return 'no %s in s.%s' % (name, fmt)
            want = vv.field.get_vertices()
            mine = vv().reshape(-1, vv.n_components)
            n_v = min(len(want), len(nm.ravel(got[name].data))
                      // vv.n_components)
            data = nm.reshape(got[name].data, (-1, vv.n_components))[:n_v]
            if not nm.allclose(data, mine[:n_v], rtol=1e-14, atol=1e-14):
                return '%s in s.%s differs' % (name, fmt)
        return None

    def target(self, spec, outdir):
        """
        Returns the function saving the data and the function reading them
        back (None: the files are compared).
        """
        name, salt, size = spec['target'], spec['salt'], spec['size']
        from sfepy.base.base import Struct

        def path(fname):
            return os.path.join(outdir, fname)

        if name.startswith('mesh:'):
            suffix, fmt, _, modes = FORMATS[name[5:]]
            mesh = make_mesh(spec)
            out = self.data(mesh, spec, modes)
            kwargs = {'file_format': fmt} if fmt else {}
            if out:
                kwargs['out'] = out
            if name in ('mesh:h5', 'mesh:h5x') and out:
                from sfepy.solvers.ts import TimeStepper
                n_step = self.n_step(spec)

                def save():
                    ts = TimeStepper(0.0, 1.0, n_step=n_step)
                    for _ in ts:
                        mesh.write(path('m' + suffix), io='auto', ts=ts,
                                   **kwargs)
            else:
                def save():
                    mesh.write(path('m' + suffix), io='auto', **kwargs)

            def read():
                from sfepy.discrete.fem import Mesh
                from sfepy.discrete.fem.meshio import MeshIO
                mm = Mesh.from_file(path('m' + suffix))
                res = [mm.coors, mm.cmesh.vertex_groups,
                       mm.cmesh.cell_groups, list(mm.descs),
                       [mm.get_conn(dd) for dd in mm.descs]]
                if out:
                    io = MeshIO.any_from_filename(path('m' + suffix))
                    if name in ('mesh:h5', 'mesh:h5x'):
                        res.append(list(io.read_times()))
                        res.append([io.read_data(ss)
                                    for ss in range(n_step)])
                    else:
                        res.append(io.read_data(0))
                return norm(res)
            return save, (read if name in ('mesh:h5', 'mesh:h5x') else None)

        if name in ('dict', 'h5obj', 'coefs-h5', 'coefs-txt', 'coefs-latex'):
            big = values(salt, size * 40, 6)
            adict = self.adict(spec)
            if name == 'dict':
                from sfepy.base.ioutils import write_dict_hdf5, read_dict_hdf5
                return (lambda: write_dict_hdf5(path('d.h5'), adict),
                        lambda: norm(read_dict_hdf5(path('d.h5'))))
            if name == 'h5obj':
                import tables as pt
                from sfepy.base.ioutils import (write_to_hdf5, read_from_hdf5,
                                                HDF5ContextManager)
                obj = self.h5obj(spec)

                def save():
                    with HDF5ContextManager(path('o.h5'), mode='w') as fd:
                        write_to_hdf5(fd, fd.root, 'data', obj)

                def read():
                    with pt.open_file(path('o.h5'), mode='r') as fd:
                        res = read_from_hdf5(fd, fd.root.data)
                    return norm(res)
                return save, read
            from sfepy.homogenization.coefficients import Coefficients
            coefs = self.coefs(spec)
            if name == 'coefs-h5':
                return (lambda: coefs.to_file_hdf5(path('c.h5')),
                        lambda: norm(Coefficients.from_file_hdf5(
                            path('c.h5'))))
            if name == 'coefs-txt':
                return (lambda: coefs.to_file_txt(path('c.txt'), {'A': 'AA'},
                                                  '%.10e'), None)
            coefs = Coefficients(A=big[:6, :6], dim=3, B=values(salt, 6))
            return (lambda: coefs.to_file_latex(path('c.tex'), {}, '%.3e'),
                    None)

        if name in ('sparse-h5', 'sparse-txt'):
            from sfepy.base import ioutils as io
            from sfepy.linalg.sparse import save_sparse_txt
            mtx = self.sparse(spec)
            if name == 'sparse-txt':
                return lambda: save_sparse_txt(path('s.txt'), mtx), None
            return (lambda: io.write_sparse_matrix_hdf5(path('s.h5'), mtx),
                    lambda: norm(io.read_sparse_matrix_hdf5(path('s.h5'))))

        if name == 'probe':
            from sfepy.discrete.probes import (LineProbe, write_results,
                                               read_results)
            results = self.probed(spec)
            probe = LineProbe([0., 0, 0], [1., 0, 0], size * 10)
            probe.report()
            return (lambda: write_results(path('p.txt'), probe, results),
                    lambda: norm(read_results(path('p.txt'))[1]))

        if name == 'options':
            from sfepy.base.ioutils import save_options
            opts = self.opts(spec)
            return (lambda: save_options(path('o.txt'), [('options', opts)],
                                         save_command_line=False), None)

        if name == 'log':
            from sfepy.base.log import Log

            def save():
                log = Log([['u', 'v'], ['p']], is_plot=False,
                          log_filename=path('log.txt'), formats=[['%.8e'] * 2,
                                                                 ['%.8e']])
                for ii in range(min(size, 20)):
                    log(ii, 2.0 * ii, salt * ii)
                log(finished=True)
            return save, None

        if name in ('spline', 'spbox'):
            if name == 'spline':
                from sfepy.mesh.bspline import BSplineSurf
                num = 4 + size % 20
                cp = nm.zeros((num, num, 3))
                cp[..., 0] = nm.arange(num)[:, None]
                cp[..., 1] = nm.arange(num)
                cp[..., 2] = values(salt, num, num)
                surf = BSplineSurf((3, 3))
                surf.set_control_points(cp)
                surf.make_knot_vector(('clamped', 'clamped'))
                tt = nm.linspace(0, 1, min(4 * size, 60))
                surf.eval((tt, nm.linspace(0, 1, 20)))

                def save():
                    surf.write_surface_vtk(path('s.vtk'))
                    surf.write_control_polygon_vtk(path('cp.vtk'))
                return save, None
            from sfepy.mesh.splinebox import SplineBox
            coors = values(salt, 50, 3)
            box = SplineBox([[-1, 1]] * 3, coors, nsg=[1 + size % 10, 2, 2])
            return lambda: box.write_control_net(path('net.vtk')), None

        if name == 'poly':
            # Geometry in the Tetgen format.
            from sfepy.mesh import geom_tools as gt
            geo = gt.geometry(dim=3)
            nn = 10 * size
            pts = values(salt, nn, 3)
            for ii in range(nn):
                geo.addpoint(ii + 1, list(pts[ii]))
            return lambda: geo.to_poly_file(path('g.poly')), None

        if name == 'igadomain':
            from sfepy.discrete.iga.domain_generators import gen_patch_block_domain
            from sfepy.discrete.iga import io as iio
            try:
                nurbs, bmesh, regions = gen_patch_block_domain(
                    [1.0, 1.0], [size + 2, 4], [0.5, 0.5], [2, 2],
                    name='iga', verbose=False)
            except Exception:
                return None, None
            return (lambda: iio.write_iga_data(
                path('i.iga'), None, nurbs.knots, nurbs.degrees, nurbs.cps,
                nurbs.weights, nurbs.cs, nurbs.conn, bmesh.cps, bmesh.weights,
                bmesh.conn, regions),
                lambda: norm(list(iio.read_iga_data(path('i.iga')))))

        if name == 'dump':
            # Dump of a HDF5 file to a series of files.
            from sfepy.postprocess.time_history import dump_to_vtk
            src = os.path.abspath('src.h5')
            if not os.path.exists(src):
                sub = dict(spec, target='mesh:h5', salt=spec['salt'] | 1,
                           dump=True)
                mesh = make_mesh(sub)
                out = self.data(mesh, sub, 'vc')
                from sfepy.solvers.ts import TimeStepper
                ts = TimeStepper(0.0, 1.0, n_step=3)
                for _ in ts:
                    mesh.write(src, io='auto', ts=ts, out=out)
            return (lambda: dump_to_vtk(src, path('series')), None)

        if name == 'results':
            # A simulation saving its results.
            fmt = ['vtk', 'h5', 'h5', 'h5x'][salt % 4]

            def save():
                pp = {'shape': [3, size + 1], 'order': 1,
                      'history': 1, 'ebc_fun': True, 'mat_fun': False,
                      'second': False, 'nonlinear': 0, 'n_step': 3,
                      't0': 0.0, 't1': 1.0, 'i_max': 2, 'ts': 'simple',
                      'all_dofs': False, 'output_format': fmt}
                pb = P.make_problem(P.heat_conf(pp), outdir)
                pb.solve(verbose=False)
            if fmt == 'vtk':
                return save, None
            return save, lambda: self.read_series(path('out.' + fmt))

        pb = self.problem(spec)
        fmt = ['vtk', 'vtu', 'h5'][salt % 3]
        if name == 'state':
            lin = None
            if salt % 5 == 0:
                lin = Struct(kind='adaptive', min_level=0, max_level=2,
                             eps=1e-2)
            split = [None, None, 'variable', 'region'][salt % 4]

            def save():
                pb.save_state(path('s.' + fmt), pb.get_variables(),
                              linearization=lin, split_results_by=split)
            if fmt == 'h5':
                def read():
                    return {ff: self.read_series(path(ff))
                            for ff in sorted(os.listdir(outdir))}
                return save, read
            return save, None
        if name == 'ebc':
            return lambda: pb.save_ebc(path('e.vtk'), force=False), None
        if name == 'regions':
            return lambda: pb.save_regions(path('r')), None
        if name == 'groups':
            return lambda: pb.save_regions_as_groups(path('g')), None
        if name == 'restart':
            def read():
                pb2 = self.problem(dict(spec, salt=spec['salt'] + 6))
                pb2.load_restart(path('r.h5'))
                return norm(P.var_values(pb2))
            return lambda: pb.save_restart(path('r.h5')), read
        raise ValueError(name)

    def read_series(self, filename):
        from sfepy.discrete.fem import Mesh
        from sfepy.discrete.fem.meshio import MeshIO
        mm = Mesh.from_file(filename)
        io = MeshIO.any_from_filename(filename)
        steps, times, nts = io.read_times()
        return norm([mm.coors, [mm.get_conn(dd) for dd in mm.descs],
                     steps, times, nts,
                     [io.read_data(int(ss)) for ss in steps]])

    # -- one run ----------------------------------------------------------
    def save(self, spec, outdir, faults, retry=False):
        """
        Save in a child process.
        """
        outdir = os.path.abspath(outdir)

        def fun():
            import tables as pt
            lib = SD.get_lib()
            # Errors reported by the HDF5 library.
            errors = []

            def wrap(cls):
                init0 = cls.__init__

                def __init__(self, *args, **kwargs):
                    errors.append(cls.__name__)
                    init0(self, *args, **kwargs)
                cls.__init__ = __init__

            wrap(pt.exceptions.HDF5ExtError)
            # A file that PyTables failed to close stays open.
            stuck = []
            close0 = pt.File.close

            def close(self):
                try:
                    close0(self)
                except BaseException:
                    stuck.append(self)
                    raise
            pt.File.close = close
            save, _ = self.target(spec, outdir)
            if save is None:
                return 'skipped', None, errors
            res = ['ok', None]
            try:
                save()
            except Exception as exc:
                res[0] = 'error'
                res[1] = '%s: %s' % (type(exc).__name__, exc)
                if retry:
                    del exc
            if retry and (res[0] == 'error'):
                lib.simdisk_stop()
                try:
                    save()
                    res[0] = 'retried'
                except Exception:
                    if not stuck:
                        raise
                    res[0] = 'stuck'
            return res + [errors]

        return SD.child(fun, outdir, faults)

    def files(self, outdir):
        out = {}
        for root, _, names in os.walk(outdir):
            for name in names:
                path = os.path.join(root, name)
                with open(path, 'rb') as fd:
                    data = fd.read()
                if name == 'log.txt':
                    # Without the dates.
                    data = re.sub(rb'(?m)^# (started|ended): .*$', rb'\1',
                                  data)
                out[os.path.relpath(path, outdir)] = data
        return out

    def read(self, spec, outdir, check=False):
        outdir = os.path.abspath(outdir)

        def fun():
            _, read = self.target(spec, outdir)
            trees = {ff: read_tree(os.path.join(outdir, ff))
                     for ff in sorted(self.files(outdir)) if is_hdf5(ff)}
            return (trees, None if read is None else read(),
                    self.verify(spec, outdir) if check else None)

        return SD.child(fun, os.path.abspath("none"), timeout=20.0)

    def difference(self, spec, ref, outdir):
        """
        The description of the first difference (None if there is not any),
        and the damaged files.
        """
        ref_files, ref_read = ref
        files = self.files(outdir)
        if sorted(files) != sorted(ref_files):
            return ('files %s, expected %s' % (sorted(files),
                                               sorted(ref_files)),
                    sorted(set(ref_files) ^ set(files)))
        bad = [ff for ff in sorted(files) if files[ff] != ref_files[ff]]
        if not bad:
            return None, []
        for ff in bad:
            if not is_hdf5(ff):
                return ('%s differs: %d bytes, expected %d'
                        % (ff, len(files[ff]), len(ref_files[ff]))), bad
        out = self.read(spec, outdir)
        if out.status != 'ok':
            return ('reading: %s %s' % (out.status, getattr(out, 'msg', ''))
                    ), bad
        for ff in sorted(out.value[0]):
            new, old = out.value[0][ff], ref_read[0].get(ff)
            if not same(new, old):
                old = old or {}
                diff = [key for key in sorted(set(new) | set(old))
                        if not same(new.get(key), old.get(key))]
                return 'data of %s differ: %s' % (ff, diff[:5]), bad
        if not same(list(out.value), list(ref_read)):
            return 'the data read back differ', bad
        return None, []

    def run(self, spec, ctx):
        target = spec['target']
        os.makedirs('out')
        dry = self.save(spec, 'out', [])
        if dry.status != 'ok':
            ctx.violation('no-fault-save-failed:' + target, '%s: %s'
                          % (target, dry.status + getattr(dry, 'tb', '')))
        if dry.value[0] == 'skipped':
            ctx.event('skipped', target)
            return
        if (spec['cells'] == 'mixed') and (target in ('mesh:xyz', 'mesh:gmsh')
                                           ) and (dry.value[0] == 'error'):
            # Not supported by the formats.
            ctx.event('refused', target)
            ctx.probe('refused')
            return
        ctx.check(dry.value[0] == 'ok', 'no-fault-save-failed:' + target,
                  lambda: '%s: %s' % (target, dry.value[1]))
        n_ops = len(dry.ops)
        ctx.check(n_ops > 0, 'nothing-written', target)
        rr = self.read(spec, 'out', check=True)
        if rr.status != 'ok':
            ctx.violation('no-fault-read-failed:' + target, '%s: %s'
                          % (target, rr.status + getattr(rr, 'tb', '')))
        ctx.check(rr.value[2] is None, 'wrong-data:' + target,
                  lambda: str(rr.value[2]))
        ref = (self.files('out'), rr.value[:2] + (None,))
        # The same name: some formats refer to their files.
        shutil.rmtree('out')

        os.makedirs('out')
        if spec['old'] is not None:
            old = self.save(dict(spec, salt=spec['old'] - spec['old'] % 60
                                 + spec['salt'] % 60), 'out', [])
            ctx.check(old.status == 'ok', 'no-fault-save-failed:' + target, target)
            for ff in set(self.files('out')) - set(ref[0]):
                os.remove(os.path.join('out', ff))
        faults = [dict(ff, at=int(ff['pos'] * n_ops)) for ff in spec['faults']]
        ctx.choice_made(target, sorted((ff['kind'], ff['at'], ff['count'])
                                       for ff in faults))
        out = self.save(spec, 'out', faults, spec['retry'])
        kinds = set(ff[1] for ff in out.fired)
        for num, kind, what in out.fired:
            ctx.faults['%s:%s' % (kind, what)] += 1
        ctx.event(target, n_ops, out.status, out.error,
                  out.value and out.value[0],
                  out.value and (out.value[1] or '').split(':')[0],
                  [ff[:3] for ff in out.fired])
        if out.status == 'error':
            ctx.violation('retry-failed:' + target, '%s: a repeated save failed: %s'
                          % (target, out.tb))
        ctx.check(out.status == 'ok', 'save-' + str(out.status),
                  lambda: '%s ended with %s' % (target, out.status))
        status, msg, errors = out.value
        ctx.probe('target ' + target.split(':')[0])
        if status != 'ok':
            ctx.probe(status)
        if not (kinds - set(SD.BENIGN)):
            ctx.check(status == 'ok', 'failed-without-fault:' + target,
                      lambda: '%s: %s' % (target, msg))
        if status in ('error', 'stuck'):
            ctx.probe('reported')
            return
        diff, bad = self.difference(spec, ref, 'out')
        if diff is None:
            ctx.probe('complete')
            return
        if status == 'retried':
            ctx.violation('retry-incomplete:' + target, '%s: %s' % (target, diff))
        # HDF5 writes at given offsets, Python at the file position.
        offsets = {num: txt.split() for num, what, txt in out.ops
                   if what == 'write'}
        hard = [ff[0] for ff in out.fired if ff[1] not in SD.BENIGN]
        silent = (bool(hard) and not errors and (target != 'restart')
                  and all(is_hdf5(ff) for ff in bad
                          if not ff.endswith('.xdmf'))
                  and any(is_hdf5(ff) for ff in bad)
                  and all((num not in offsets) or (int(offsets[num][1]) >= 0)
                          for num in hard))
        key = CLOSE_KEY if silent else 'silent-loss:' + target
        if ctx.is_known(key):
            ctx.known_hits.append((key, 'data written by PyTables were lost with'
                                   ' no error reported by it, when cached data'
                                   ' could not be written (%s)' % target))
            ctx.event('known', key)
            return
        ctx.violation(key, '%s: the save returned, but %s; faults: %s'
                      % (target, diff, [ff for ff in out.fired][:4]))

    def shrink(self, spec):
        import copy
        for ii in range(len(spec['faults'])):
            if len(spec['faults']) > 1:
                cand = copy.deepcopy(spec)
                cand['faults'].pop(ii)
                yield cand
        if spec['old'] is not None:
            yield dict(spec, old=None)
        if spec['retry']:
            yield dict(spec, retry=False)
        if spec['size'] > 2:
            yield dict(spec, size=2)

    def nontrivial(self, spec, res):
        return bool(res['faults'])
