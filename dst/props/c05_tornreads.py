"""
C05: reading a damaged file ends with an error or with data of the file.

Files of all formats are written by the code under test (or by generators of
the read-only formats), cut at seeded bytes as if their writer died, and read
by the readers in a child process under a CPU budget, with short, interrupted
and failing system calls.  The reference is the result of the same reader on
the intact file.
"""
import os
import re
import signal

import numpy as nm

from dst import core
from dst import problems as P
from dst import simdisk as SD
from dst.props import c04_saves as S

# Formats read by a third-party library: only termination and the validity of
# the result are checked.
THIRD = ['vtk', 'vtk-ascii', 'vtu', 'medit', 'meshb', 'gmsh', 'abaqus',
         'nastran', 'netgen', 'su2', 'dolfin', 'mdpa', 'permas', 'tetgen']
OWN = ['xyz', 'comsol', 'hmascii', 'gambit', 'mesh3d', 'ansys', 'gmsh-dg']
HDF5 = ['h5', 'h5x', 'dict', 'coefs-h5', 'h5obj', 'sparse-h5', 'restart']
TEXT = ['probe', 'list', 'array', 'tokens']
READERS = ['mesh', 'mesh', 'mesh', 'dim', 'bbox', 'data', 'domain', 'any']
CPU = 6.0


class Hang(BaseException):
    pass


def conns_of(mesh):
    out = {}
    for desc in mesh.descs:
        conn, cells = mesh.get_conn(desc, ret_cells=True)
        out[desc] = [nm.array(conn),
                     nm.array(mesh.cmesh.cell_groups[cells])]
    return out


def write_hmascii(fn, mesh, salt):
    rng = nm.random.RandomState(salt)
    name = {'3_8': 'hexa8', '3_4': 'tetra4', '2_4': 'quad4',
            '2_3': 'tria3'}[mesh.descs[0]]
    conn, groups = conns_of(mesh)[mesh.descs[0]]
    ids = nm.arange(mesh.n_nod) * (1 + salt % 3) + 1
    coors = nm.c_[mesh.coors, nm.zeros((mesh.n_nod, 3 - mesh.dim))]
    with open(fn, 'w') as fd:
        fd.write('HMASCII Output from Simulation\n\nBEGIN DATA\n')
        for ii, cc in zip(ids, coors):
            fd.write('*node(%d,%.10g,%.10g,%.10g,0,0,0,0,0)\n' % (
                (ii,) + tuple(cc)))
        half = rng.randint(1, len(conn))
        for ic, row in enumerate(conn):
            if ic in (0, half):
                fd.write('*component(%d,"part%d",1,0)\n'
                         % (10 + (ic >= half), ic))
            fd.write('*%s(%d,1,%s)\n' % (name, ic + 1, ','.join(
                str(ids[ii]) for ii in row)))
        fd.write('END DATA\n')


def write_gambit(fn, mesh, salt):
    desc = mesh.descs[0]
    conn, _ = conns_of(mesh)[desc]
    gtype = {'3_8': 4, '3_4': 6, '2_4': 2, '2_3': 3}[desc]
    if desc == '3_8':
        conn = conn[:, [0, 1, 3, 2, 4, 5, 7, 6]]
    half = len(conn) // 2
    groups = [nm.arange(0, half), nm.arange(half, len(conn))]
    with open(fn, 'w') as fd:
        fd.write('        CONTROL INFO 2.2.30\n** GAMBIT NEUTRAL FILE\n'
                 'mesh\nPROGRAM: Gambit VERSION: 2.2.30\nJan 2020\n'
                 'NUMNP NELEM NGRPS NBSETS NDFCD NDFVL\n'
                 '%9d %9d %9d %9d %9d %9d\nENDOFSECTION\n'
                 % (mesh.n_nod, len(conn), 2, 1, mesh.dim, mesh.dim))
        fd.write('   NODAL COORDINATES 2.2.30\n')
        for ii, cc in enumerate(mesh.coors):
            fd.write('%10d %s\n' % (ii + 1, ' '.join('%.11e' % xx
                                                     for xx in cc)))
        fd.write('ENDOFSECTION\n      ELEMENTS/CELLS 2.2.30\n')
        for ii, row in enumerate(conn + 1):
            txt = ['%8d' % ic for ic in row]
            fd.write('%8d %2d %2d %s\n' % (ii + 1, gtype, len(row),
                                           ' '.join(txt[:7])))
            if len(txt) > 7:
                fd.write('               %s\n' % ' '.join(txt[7:]))
        fd.write('ENDOFSECTION\n')
        for ig, els in enumerate(groups):
            fd.write('       ELEMENT GROUP 2.2.30\n'
                     'GROUP: %10d ELEMENTS: %10d MATERIAL: %10d NFLAGS: %10d\n'
                     '                 part%d\n       0\n'
                     % (ig + 1, len(els), 2, 1, ig))
            for i0 in range(0, len(els), 10):
                fd.write(' '.join('%7d' % (ii + 1)
                                  for ii in els[i0:i0+10]) + '\n')
            fd.write('ENDOFSECTION\n')
        bcs = nm.arange(1, 4)
        fd.write(' BOUNDARY CONDITIONS 2.2.30\n'
                 '                wall       0 %9d        0        6\n'
                 % len(bcs))
        for ii in bcs:
            fd.write('%10d\n' % ii)
        fd.write('ENDOFSECTION\n')


def write_mesh3d(fn, mesh, salt):
    conn, groups = conns_of(mesh)[mesh.descs[0]]
    tets = conn if mesh.descs[0] == '3_4' else conn[:0]
    hexs = conn if mesh.descs[0] == '3_8' else conn[:0]
    with open(fn, 'w') as fd:
        fd.write('# vertices\n%d\n\n' % mesh.n_nod)
        for cc in mesh.coors:
            fd.write(' '.join('%.12g' % xx for xx in cc) + '\n')
        for sec in (tets, hexs, [], [], []):
            fd.write('\n# section\n%d\n' % len(sec))
            for row in sec:
                fd.write(' '.join('%d' % (ii + 1) for ii in row) + '\n')
        fd.write('# end\n')


def write_ansys(fn, mesh, salt):
    conn, groups = conns_of(mesh)[mesh.descs[0]]
    if mesh.descs[0] == '3_4':
        # Degenerate bricks.
        conn = conn[:, [0, 1, 2, 2, 3, 3, 3, 3]]
    with open(fn, 'w') as fd:
        fd.write('/COM,ANSYS RELEASE 12.1\n/PREP7\n'
                 'nblock,3,,%d\n(1i9,3e20.9e3)\n' % mesh.n_nod)
        for ii, cc in enumerate(mesh.coors):
            fd.write('%9d' % (ii + 1) + ''.join('%20.9e' % xx for xx in cc)
                     + '\n')
        fd.write('-1\n! elements\neblock,19,solid,,%d\n(19i9)\n' % len(conn))
        for ic, row in enumerate(conn + 1):
            vals = [1 + ic % 2, 1, 1, 1, 0, 0, 0, 0, 8, 0, ic + 1]
            fd.write(''.join('%9d' % ii for ii in vals + list(row)) + '\n')
        fd.write('-1\n')
        fd.write('CMBLOCK,LEFT,NODE,%8d ! users\n(8i10)\n' % 4)
        fd.write('%10d%10d%10d%10d\n' % (1, 2, 3, 4))


def write_list(fn, salt):
    rng = nm.random.RandomState(salt)
    vals = rng.randint(0, 10000, 40)
    with open(fn, 'w') as fd:
        fd.write('# list\n40 # items\n')
        ii = 0
        while ii < 40:
            num = rng.randint(1, 8)
            fd.write(' '.join('%d' % vv for vv in vals[ii:ii+num][:40 - ii])
                     + '\n')
            ii += num
        fd.write('end\n')


class PROP(core.Property):
    id = 'C05'
    rule = ('one evaluation is one reading of one file cut at a seeded byte'
            ' and/or read with faults; non-trivial if the file was cut or a'
            ' fault fired; distinct by event trace')
    real = ['readers of all mesh and results formats, Mesh, FEDomain, C mesh'
            ' code', 'read_dict_hdf5, read_from_hdf5, Coefficients,'
            ' probes.read_results, ioutils token readers, load_restart',
            'meshio, PyTables/HDF5']
    stub = ['writers of the read-only formats', 'read system calls'
            ' (LD_PRELOAD layer over real files)']
    assumptions = ['files are cut at their ends only']
    n_quick = 2400
    n_thorough = 40000
    quick_budget = 150.0
    run_timeout = 120.0
    needs_shim = True

    def setup(self):
        self.saver.setup()
        from sfepy.discrete.fem import FEDomain  # noqa
        import sfepy.discrete.iga.io  # noqa

    # -- generation -------------------------------------------------------
    def gen(self, rng, tier, index):
        if index == 0:
            # The known finding: a third-party reader does not terminate.
            return {'target': 'mdpa', 'size': 6, 'salt': 875052,
                    'cells': 'hex', 'reader': 'mesh', 'cut': 0.6431,
                    'sub': 0.0, 'which': 0, 'faults': []}
        if index == 1:
            # The same in another format.
            return {'target': 'tetgen', 'size': 1, 'salt': 639668,
                    'cells': 'tet', 'reader': 'mesh', 'cut': 'token',
                    'sub': 0.26409, 'which': 2, 'faults': []}
        if index == 2:
            return {'target': 'nastran', 'size': 1, 'salt': 841669,
                    'cells': 'quad', 'reader': 'bbox', 'cut': 'line',
                    'sub': 0.1166, 'which': 5, 'faults': []}
        cc = rng.random()
        if cc < 0.6:
            target = rng.choice(OWN)
        elif cc < 0.72:
            target = rng.choice(THIRD)
        elif cc < 0.85:
            target = rng.choice(TEXT)
        else:
            target = rng.choice(HDF5)
        cells = rng.choice(['quad', 'hex', 'tri', 'tet'])
        if target in ('mesh3d', 'ansys'):
            cells = rng.choice(['hex', 'tet'])
        elif target in S.FORMATS and S.FORMATS[target][2] != 'any':
            cells = S.FORMATS[target][2]
        faults = []
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 1, 3])):
                faults.append({'kind': rng.choice(['rshort', 'rshort',
                                                   'rintr', 'reio']),
                               'pos': round(rng.random(), 4),
                               'count': rng.choice([1, 1, 3, 100]),
                               'arg': rng.randrange(1001)})
        cut = None
        if (not faults) or (rng.random() < 0.3):
            cut = rng.choice([round(rng.random(), 5), round(rng.random(), 5),
                              'token', 'line', 'end%d' % rng.randrange(1, 60)])
        return {'target': target, 'size': rng.choice([1, 2, 2, 6]),
                'salt': rng.randrange(1 << 20), 'cells': cells,
                'reader': rng.choice(READERS), 'cut': cut,
                'sub': round(rng.random(), 5), 'which': rng.randrange(6),
                'faults': faults}

    # -- writers ----------------------------------------------------------
    def write(self, spec, outdir):
        """
        Write the intact files, return the main file name.
        """
        target, salt = spec['target'], spec['salt']

        def path(fname):
            return os.path.join(outdir, fname)

        if target in ('hmascii', 'gambit', 'mesh3d', 'ansys'):
            suffix = {'hmascii': '.hmascii', 'gambit': '.neu',
                      'mesh3d': '.mesh3d', 'ansys': '.cdb'}[target]
            fn = path('m' + suffix)
            globals()['write_' + target](fn, S.make_mesh(spec), salt)
            return fn
        if target == 'comsol':
            from sfepy.discrete.fem.meshio import ComsolMeshIO
            fn = path('m.txt')
            mesh = S.make_mesh(spec)
            ComsolMeshIO(fn).write(fn, mesh)
            return fn
        if target == 'gmsh-dg':
            from sfepy.base.base import Struct
            fn = path('m.0.msh')
            mesh = S.make_mesh(spec)
            nep = mesh.get_conn(mesh.descs[0]).shape[1]
            scheme = Struct(name='scheme', desc=mesh.descs[0],
                            F=S.values(salt, 3, 3), P=S.values(salt, 3, 3))
            out = {'u': Struct(mode='cell_nodes', scheme=scheme,
                               data=S.values(salt + 1, mesh.n_el, nep))}
            mesh.write(fn, io='auto', out=out, file_format='gmsh-dg')
            return fn
        if target in S.FORMATS:
            sub = dict(spec, target='mesh:' + target)
            save, _ = self.saver.target(sub, outdir)
            save()
            return path('m' + S.FORMATS[target][0])
        if target == 'list':
            write_list(path('l.txt'), salt)
            return path('l.txt')
        if target in ('array', 'tokens'):
            fn = path('a.txt')
            with open(fn, 'w') as fd:
                fd.write('# header\n\nname  12 3.5\n')
                nm.savetxt(fd, S.values(salt, 3 + 4 * spec['size'], 3))
                fd.write('last line\n')
            return fn
        name = {'probe': 'p.txt', 'dict': 'd.h5', 'coefs-h5': 'c.h5',
                'h5obj': 'o.h5', 'sparse-h5': 's.h5',                'restart': 'r.h5'}[target]
        save, _ = self.saver.target(dict(spec), outdir)
        save()
        return path(name)

    saver = S.PROP()

    # -- readers ----------------------------------------------------------
    def reader(self, spec, fn):
        """
        Returns the function reading the data.
        """
        from sfepy.discrete.fem import Mesh
        from sfepy.discrete.fem.meshio import MeshIO
        from sfepy.base import ioutils as io
        target, how = spec['target'], spec['reader']
        outdir = os.path.dirname(fn)

        def read_mesh(kind):
            kw = {'file_format': 'gmsh-dg'} if target == 'gmsh-dg' else {}
            mio = MeshIO.any_from_filename(fn, **kw)
            if kind == 'dim':
                return {'dim': mio.read_dimension()}
            if kind == 'bbox':
                return {'bbox': nm.array(mio.read_bounding_box())}
            if kind == 'data':
                if target == 'gmsh-dg':
                    out = mio.read_data(filename=fn)
                    return {'d ' + kk: vv.data for kk, vv in out.items()}
                if target in ('h5', 'h5x'):
                    out = {'times': S.norm(list(mio.read_times())),
                           'last': mio.read_last_step(),
                           'ts': S.norm(mio.read_time_stepper())}
                    out.update(('d %d' % ii, S.norm(mio.read_data(ii)))
                               for ii in range(3))
                    return out
                out = mio.read_data(0)
                return {'d ' + kk: nm.array(vv.data) for kk, vv
                        in (out or {}).items()}
            mesh = Mesh.from_file(fn, **kw)
            out = {'coors': nm.array(mesh.coors),
                   'vg': nm.array(mesh.cmesh.vertex_groups),
                   'conns': conns_of(mesh),
                   'bcs': {kk: nm.array(vv)
                           for kk, vv in mesh.nodal_bcs.items()}}
            for conn, _ in out['conns'].values():
                if len(conn) and (conn.max() >= len(out['coors'])):
                    raise RuntimeError('INVALID connectivity')
            if kind == 'domain':
                from sfepy.discrete.fem import FEDomain
                domain = FEDomain('domain', mesh)
                reg = domain.create_region('omega', 'all')
                out['volumes'] = nm.array(
                    domain.cmesh.get_volumes(mesh.cmesh.tdim))
                out['n'] = len(reg.vertices)
            return out

        if target in OWN or target in S.FORMATS:
            kind = how
            if kind == 'any':
                kind = ['mesh', 'data', 'dim'][spec['salt'] % 3]
            return lambda: read_mesh(kind)

        if target == 'probe':
            from sfepy.discrete.probes import read_results, read_header

            def read():
                if how in ('dim', 'bbox'):
                    with open(fn) as fd:
                        return {'header': S.norm(read_header(fd))}
                kw = {'only_names': ['p']} if how == 'data' else {}
                header, res = read_results(fn, **kw)
                return {'header': S.norm(header), 'res': S.norm(res)}
            return read

        if target == 'list':
            def read():
                with open(fn) as fd:
                    num = int(io.skip_read_line(fd).split()[0])
                    return {'list': io.read_list(fd, num, int)}
            return read

        if target == 'array':
            def read():
                with open(fn) as fd:
                    io.skip_read_line(fd, no_eof=True)
                    ncol = 3 if spec['salt'] % 2 else None
                    return {'array': io.read_array(
                        fd, 3 + 4 * spec['size'], ncol, nm.float64)}
            return read

        if target == 'tokens':
            def read():
                out, rows = [], []
                with open(fn) as fd:
                    if how in ('dim', 'bbox'):
                        num = 0
                        while 1:
                            line = io.skip_read_line(fd)
                            if not line:
                                break
                            rows.append(line)
                    else:
                        while 1:
                            tok = io.read_token(fd)
                            if not tok:
                                break
                            out.append(tok)
                return {'rows': rows, 'tokens': out}
            return read

        if target == 'restart':
            def read():
                pb = self.problem(dict(spec, salt=spec['salt'] + 6))
                pb.load_restart(fn)
                return S.norm(P.var_values(pb))
            return read
        _, read = self.saver.target(dict(spec), outdir)
        return None if read is None else (lambda: {'data': read()})

    def child(self, spec, outdir, fn, faults):
        fn = os.path.abspath(fn)

        def alarm(signum, frame):
            raise Hang()

        def fun():
            signal.signal(signal.SIGVTALRM, alarm)
            read = self.reader(spec, fn)
            lib = SD.get_lib()
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU, 0.5)
            try:
                try:
                    val = ('ok', read(), None)
                except Hang:
                    val = ('hang', None, 'no end after %.0f s of CPU' % CPU)
                except (Exception, SystemExit) as exc:
                    # A third-party reader calls sys.exit().
                    msg = '%s: %s' % (type(exc).__name__, exc)
                    val = ('error', None, msg)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0.0)
            lib.simdisk_stop()
            return val

        return SD.child(fun, os.path.abspath(outdir), faults)

    # -- oracle -----------------------------------------------------------
    def mesh_difference(self, spec, ref, val, token):
        """
        The torn mesh has to consist of the first items of the intact one.
        """
        def rows(name, aa, bb):
            if (len(bb) > len(aa)) or (aa.shape[1:] != bb.shape[1:]):
                return '%s: shape %s, expected %s' % (name, bb.shape, aa.shape)
            aa = aa[:len(bb)]
            diff = nm.where((aa != bb).reshape((len(aa), -1)).any(1))[0]
            if len(diff) and not (token and (len(diff) == 1)
                                  and (diff[0] == len(bb) - 1)):
                return ('%s: rows %s are %s, expected %s'
                        % (name, diff[:3], bb[diff[:3]].tolist(),
                           aa[diff[:3]].tolist()))

        msg = rows('coordinates', ref['coors'], val['coors'])
        if msg:
            return msg
        for desc in val['conns']:
            if desc not in ref['conns']:
                row = val['conns'][desc][0]
                if (spec['target'] == 'xyz') and (len(row) == 1):
                    # The format has no sizes: a torn first row is a row.
                    row = row[0][:-1] if token else row[0]
                    if any(nm.array_equal(row, cc[0][0][:len(row)])
                           for cc in ref['conns'].values()):
                        continue
                return 'cells %s' % desc
            for ii in range(2):
                if ii and (spec['target'] == 'gambit') and (
                        nm.unique(val['conns'][desc][1]).size <= 2):
                    # Groups are optional sections of the format.
                    aa, bb = ref['conns'][desc][1], val['conns'][desc][1]
                    if (len(aa) == len(bb)) and nm.all((aa == bb)
                                                       | (bb == 0)):
                        continue
                msg = rows(['connectivity', 'cell groups'][ii],
                           ref['conns'][desc][ii], val['conns'][desc][ii])
                if msg:
                    return msg
        for key, nods in val['bcs'].items():
            if (key not in ref['bcs']) or not S.same(nods, ref['bcs'][key]):
                return 'nodal BCs %s' % key

    def run(self, spec, ctx):
        target = spec['target']
        os.makedirs('out')
        try:
            fn = self.write(spec, 'out')
        except Exception as exc:
            ctx.violation('cannot-write:' + target, '%s: %s'
                          % (type(exc).__name__, exc))
        if self.reader(spec, fn) is None:
            ctx.event('skipped', target)
            return
        ref = self.child(spec, 'out', fn, [])
        ctx.check(ref.status == 'ok', 'reader-' + str(ref.status), lambda:
                  'reading the intact %s file: %s %s'
                  % (target, ref.status, getattr(ref, 'msg', '')))
        ctx.check(ref.value[0] != 'hang', 'hang:' + target, lambda:
                  'reading the intact %s file: %s' % (target, ref.value[2]))
        names = sorted(os.listdir('out'))
        if (target in OWN) and (spec['reader'] in ('mesh', 'domain')):
            ctx.check(ref.value[0] == 'ok', 'intact-error:' + target, lambda:
                      'reading the intact %s file: %s'
                      % (target, ref.value[2]))
            self.check_intact(spec, ctx, ref.value[1])
        if ref.value[0] != 'ok':
            # Not supported by this reader.
            ctx.probe('unsupported')

        token = False
        if spec['cut'] is not None:
            name = names[spec['which'] % len(names)]
            path = os.path.join('out', name)
            with open(path, 'rb') as fd:
                data = fd.read()
            cut = spec['cut']
            if isinstance(cut, str) and cut.startswith('end'):
                pos = len(data) - int(cut[3:])
            elif cut == 'line':
                ends = [mm.end() for mm in re.finditer(rb'\n', data)]
                pos = ends[int(spec['sub'] * len(ends))] if ends else 0
            elif cut == 'token':
                toks = [mm.start() + 1 + int(spec['sub'] * 97)
                        % max(mm.end() - mm.start() - 1, 1)
                        for mm in re.finditer(rb'[-+.\w]{2,}', data)]
                pos = toks[int(spec['sub'] * len(toks))] if toks else 0
            else:
                pos = int(cut * len(data))
            pos = min(max(0, pos), len(data))
            if (0 < pos < len(data)):
                token = all(re.match(rb'[-+.\w]', data[ii:ii+1])
                            for ii in (pos - 1, pos))
            with open(path, 'wb') as fd:
                fd.write(data[:pos])
            ctx.fault('cut')
            ctx.choice_made('cut', name, pos)
            ctx.event('cut', name, pos, len(data))

        n_reads = ref.n_reads or 1
        faults = [dict(ff, at=int(ff['pos'] * n_reads))
                  for ff in spec['faults']]
        ctx.choice_made(target, sorted((ff['kind'], ff['at'], ff['count'])
                                       for ff in faults))
        out = self.child(spec, 'out', fn, faults)
        for num, kind, what in out.fired:
            ctx.faults[kind] += 1
        kinds = set(ff[1] for ff in out.fired)
        ctx.check(out.status == 'ok', 'reader-' + str(out.status),
                  lambda: 'reading a %s file cut at %s (%s): %s %s'
                  % (target, spec['cut'], spec['reader'], out.status,
                     getattr(out, 'msg', '')))
        status, val, msg = out.value
        ctx.event(target, spec['reader'], status, sorted(kinds))
        ctx.probe('target ' + target)
        ctx.probe('result ' + status)
        ctx.check(status != 'hang', 'hang:' + target,
                  lambda: 'reading a %s file cut at %s (%s): %s'
                  % (target, spec['cut'], spec['reader'], msg))
        if status == 'error':
            ctx.check('INVALID' not in msg, 'invalid-mesh:' + target, msg)
            if (spec['cut'] is None) and not (kinds - set(SD.BENIGN)):
                ctx.check(ref.value[0] == 'error', 'benign-fault:' + target,
                          lambda: 'reading a %s file with %s: %s'
                          % (target, sorted(kinds), msg))
            return
        if (target in THIRD) and (spec['cut'] is not None):
            return
        if ref.value[0] != 'ok':
            # A part of the file can be supported, e.g. no data.
            ctx.check(spec['cut'] is not None, 'not-repeatable:' + target,
                      lambda: 'error: %s, then no error' % ref.value[2])
            return
        ref = ref.value[1]
        if S.same(ref, val):
            ctx.probe('equal')
            return
        if (target in HDF5) and ('reio' in kinds):
            # PyTables ignores errors of listing a group.
            return
        if (spec['cut'] is None):
            ctx.violation('read-fault:' + target, '%s: faults %s changed the'
                          ' data' % (target, sorted(kinds)))
            return
        diff = 'different data'
        if target in OWN:
            if 'coors' in val:
                diff = self.mesh_difference(spec, ref, val, token)
            elif 'bbox' in val:
                diff = None
                if not token:
                    aa, bb = ref['bbox'], val['bbox']
                    if nm.any(bb[0] < aa[0]) or nm.any(bb[1] > aa[1]):
                        diff = 'bounding box %s, expected %s' % (bb, aa)
            elif 'dim' in val:
                diff = 'dimension %s' % val['dim']
                if target == 'xyz':
                    # Zeros in the last column of the read part.
                    diff = None
            else:
                diff = None
                for key in val:
                    if not (key in ref and S.same(S.norm(ref[key]),
                                                  S.norm(val[key]))):
                        if not ('d ' in key and token):
                            diff = 'data %s' % key
        elif target == 'probe':
            # The results of the quantities written before the cut.
            bad = [key for key in val.get('res', [])
                   if not S.same(val['res'][key], ref['res'].get(key))]
            ok = S.same(val['header'], ref['header']) and (not bad or token)
            diff = None if ok else 'probe data %s' % bad
        elif target == 'tokens':
            diff = None
            for key in ('rows', 'tokens'):
                aa, bb = ref[key], val[key]
                part = aa[:len(bb)]
                if (bb[:-1] != part[:-1]) or (bb and not part[-1].startswith(
                        bb[-1])):
                    diff = '%s: %s' % (key, bb[-2:])
        elif target in ('array', 'list') and token:
            diff = None
        if diff:
            ctx.violation('wrong-data:' + target, 'a %s file cut at %s was'
                          ' read (%s) with no error: %s'
                          % (target, spec['cut'], spec['reader'], diff))

    def check_intact(self, spec, ctx, val):
        """
        The intact file of a format handled by sfepy itself.
        """
        mesh = S.make_mesh(spec)
        coors = nm.array(mesh.coors)
        if val['coors'].shape[1] > coors.shape[1]:
            coors = nm.c_[coors, nm.zeros((len(coors), 1))]
        ctx.check((val['coors'].shape == coors.shape)
                  and nm.allclose(val['coors'], coors, rtol=0, atol=1e-5),
                  'intact-coors:' + spec['target'], 'wrong coordinates')
        desc = mesh.descs[0]
        conn = conns_of(mesh)[desc][0]
        ctx.check((desc in val['conns'])
                  and nm.array_equal(val['conns'][desc][0], conn),
                  'intact-conn:' + spec['target'], 'wrong connectivity')

    def shrink(self, spec):
        import copy
        for ii in range(len(spec['faults'])):
            cand = copy.deepcopy(spec)
            cand['faults'].pop(ii)
            yield cand
        if spec['cut'] is not None and spec['faults']:
            yield dict(spec, cut=None)
        if spec['size'] > 1:
            yield dict(spec, size=1)

    def nontrivial(self, spec, res):
        return bool(res['faults'])
