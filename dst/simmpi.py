"""
Simulated MPI ranks and a stub of the parts of petsc4py used by sfepy.

The ranks are tasks of the cooperative scheduler.  Messages between two ranks
keep their order; sending is buffered or waits for the receiver, as decided by
the simulated eager limit.  PETSc objects are collective: creation, set-up,
assembling and scatters are matched by the order of calls on each rank.
Assembling applies the contributions of the ranks in a seeded order.
"""
import pickle
import random
import sys
import types

import numpy as nm

from dst.core import Violation
from dst.sched import Sched

# The world of the current run.
WORLD = [None]


class MPIError(Exception):
    pass


class PETScError(Exception):
    pass


class World(object):
    def __init__(self, ctx, seed, size, eager=1 << 30, stickiness=0.0,
                 slow=None):
        self.ctx = ctx
        self.size = size
        self.eager = eager
        self.rng = random.Random('net/%s' % seed)
        self.sched = Sched(random.Random('sched/%s' % seed), ctx)
        self.sched.stickiness = stickiness
        if slow is not None:
            self.sched.weights['rank%d' % slow] = 0.05
        self.queues = {}
        self.comms = [Comm(self, ii) for ii in range(size)]
        self.objects = {}
        self.n_msg = 0
        self.n_sync = 0

    def run(self, fun):
        """
        Run fun(comm) in all ranks, return the list of its results.
        """
        WORLD[0] = self
        tasks = [self.sched.spawn(lambda cc=cc: fun(cc), 'rank%d' % cc.rank)
                 for cc in self.comms]
        try:
            self.sched.block(lambda: all(tt.done for tt in tasks)
                             or any(tt.exc is not None for tt in tasks))
        except Violation as exc:
            for tt in tasks:
                if tt.exc is not None:
                    raise tt.exc
            raise exc
        finally:
            self.ctx.sim_time += self.sched.now
        for tt in tasks:
            if tt.exc is not None:
                raise tt.exc
        left = sum(len(qq) for qq in self.queues.values())
        self.ctx.check(left == 0, 'unreceived-messages',
                       '%d messages were not received' % left)
        return [tt.value for tt in tasks]

    def close(self):
        self.sched.close()
        WORLD[0] = None

    def me(self):
        return int(self.sched.current.name[4:])

    def exchange(self, rank, label, val, size=None):
        """
        A collective operation: returns the values of all ranks.
        """
        comm = self.comms[rank]
        num = comm.n_coll
        comm.n_coll += 1
        obj = self.objects.setdefault(num, {'label': label, 'vals': {}})
        if obj['label'] != label:
            raise Violation('collective-mismatch',
                            'rank %d calls %s, another one %s'
                            % (rank, label, obj['label']))
        obj['vals'][rank] = val
        self.n_sync += 1
        self.sched.block(lambda: len(obj['vals']) == self.size)
        return [obj['vals'][ii] for ii in range(self.size)]


class MPIComm(object):
    """The interface of mpi4py communicators."""

    def __init__(self, comm):
        self.comm = comm
        self.world = comm.world
        self.rank, self.size = comm.rank, comm.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _send(self, kind, data, dest, tag):
        world = self.world
        if not (0 <= dest < self.size):
            raise MPIError('MPI_ERR_RANK: %s' % dest)
        msg = {'kind': kind, 'data': data, 'tag': tag, 'got': False}
        world.queues.setdefault((self.rank, int(dest)), []).append(msg)
        world.n_msg += 1
        if len(data) > world.eager:
            world.sched.block(lambda: msg['got'])
        else:
            world.sched.yield_()

    def _recv(self, kind, source, tag):
        world = self.world
        sources = range(self.size) if source < 0 else [int(source)]

        def find():
            out = []
            for src in sources:
                for ii, msg in enumerate(world.queues.get((src, self.rank),
                                                          [])):
                    if (tag < 0) or (msg['tag'] == tag):
                        out.append((src, ii))
                        break
            return out

        world.sched.block(find)
        world.sched.sleep(world.rng.choice([0.0, 0.0, 0.01, 1.0]))
        src, ii = world.rng.choice(find())
        msg = world.queues[(src, self.rank)].pop(ii)
        msg['got'] = True
        if msg['kind'] != kind:
            raise MPIError('a message sent as %s is received as %s'
                           % (msg['kind'], kind))
        world.ctx.choice_made('msg', src, self.rank)
        return msg['data']

    def send(self, obj, dest, tag=0):
        self._send('object', pickle.dumps(obj), dest, tag)

    ssend = send

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        return pickle.loads(self._recv('object', source, tag))

    @staticmethod
    def _buffer(spec):
        arr = spec[0] if isinstance(spec, (list, tuple)) else spec
        if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
            raise ValueError('ndarray is not contiguous')
        if isinstance(spec, (list, tuple)) and (len(spec) > 1) \
                and isinstance(spec[-1], Datatype):
            if arr.nbytes % spec[-1].size:
                raise ValueError('message: buffer length %d is not a multiple'
                                 ' of datatype extent' % arr.nbytes)
        return arr

    def Send(self, buf, dest, tag=0):
        arr = self._buffer(buf)
        self._send('buffer', arr.tobytes('A'), dest, tag)

    def Recv(self, buf, source=-1, tag=-1, status=None):
        arr = self._buffer(buf)
        data = self._recv('buffer', source, tag)
        if len(data) > arr.nbytes:
            raise MPIError('MPI_ERR_TRUNCATE: message truncated')
        flat = arr.reshape(-1).view(nm.uint8)
        flat[:len(data)] = nm.frombuffer(data, nm.uint8)

    def barrier(self):
        self.world.exchange(self.rank, 'barrier', None)

    Barrier = barrier

    def bcast(self, obj, root=0):
        vals = self.world.exchange(self.rank, 'bcast', pickle.dumps(obj))
        return pickle.loads(vals[root])

    def allgather(self, obj):
        vals = self.world.exchange(self.rank, 'allgather', pickle.dumps(obj))
        return [pickle.loads(vv) for vv in vals]

    def gather(self, obj, root=0):
        vals = self.allgather(obj)
        return vals if self.rank == root else None

    def scatter(self, obj, root=0):
        return self.bcast(obj, root)[self.rank]

    def allreduce(self, obj, op=None):
        return sum(self.allgather(obj))


class Comm(object):
    """The interface of petsc4py communicators."""

    def __init__(self, world, rank):
        self.world = world
        self.rank = rank
        self.n_coll = 0

    @property
    def size(self):
        return self.world.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    getRank, getSize = Get_rank, Get_size

    def tompi4py(self):
        return MPIComm(self)

    def barrier(self):
        self.world.exchange(self.rank, 'barrier', None)


class SelfComm(object):
    size, rank = 1, 0

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1

    def barrier(self):
        pass


COMM_SELF = SelfComm()


class Datatype(object):
    def __init__(self, size):
        self.size = size


class InsertMode(object):
    INSERT, INSERT_VALUES = 1, 1
    ADD, ADD_VALUES = 2, 2


class ScatterMode(object):
    FORWARD, REVERSE = 'forward', 'reverse'


def get_comm(comm):
    return WORLD[0].comms[WORLD[0].me()] if comm is None else comm


def layout(comm, sizes):
    """Collective set-up of the distribution of `sizes` = (local, global)."""
    if comm is COMM_SELF:
        return [(0, sizes[0])]
    world = comm.world
    vals = world.exchange(comm.rank, 'layout', tuple(int(ii) for ii in sizes))
    offs = nm.cumsum([0] + [vv[0] for vv in vals])
    for vv in vals:
        if (vv[1] >= 0) and (vv[1] != offs[-1]):
            raise PETScError('sum of local lengths %d does not equal global'
                             ' length %d' % (offs[-1], vv[1]))
    return [(int(offs[ii]), int(offs[ii + 1])) for ii in range(world.size)]


class Vec(object):
    class Option(object):
        IGNORE_NEGATIVE_INDICES = 'ini'
        IGNORE_OFF_PROC_ENTRIES = 'iop'

    def __init__(self):
        self.comm = None
        self.sizes = None
        self.options = {}
        self.stash = []
        self.mode = None
        self.arr = None

    def create(self, comm=None):
        self.comm = get_comm(comm)
        return self

    def setSizes(self, size, bsize=None):
        self.sizes = size if isinstance(size, (tuple, list)) else (
            (size, size) if self.comm is COMM_SELF else (-1, size))

    def setUp(self):
        self.ranges = layout(self.comm, self.sizes)
        i0, i1 = self.ranges[self.comm.rank]
        self.arr = nm.zeros(i1 - i0, dtype=nm.float64)

    def getOwnershipRange(self):
        return self.ranges[self.comm.rank]

    def getSize(self):
        return self.ranges[-1][1]

    def getLocalSize(self):
        return len(self.arr)

    size = property(getSize)
    local_size = property(getLocalSize)

    def _check(self):
        if self.mode is not None:
            raise PETScError('vector is not assembled')

    def __getitem__(self, ii):
        self._check()
        return self.arr if ii is Ellipsis else self.arr.copy()[ii]

    def __setitem__(self, ii, val):
        self._check()
        self.arr[ii] = val

    def getArray(self, readonly=0):
        return self.arr

    array = property(getArray)

    def duplicate(self):
        out = Vec()
        out.comm, out.sizes, out.ranges = self.comm, self.sizes, self.ranges
        out.arr = nm.zeros_like(self.arr)
        return out

    def copy(self, result=None):
        out = self.duplicate() if result is None else result
        out.arr[:] = self.arr
        return out

    def set(self, alpha):
        self.arr[:] = alpha

    def zeroEntries(self):
        self.arr[:] = 0.0

    def setOption(self, option, flag):
        self.options[option] = flag

    def setValues(self, indices, values, addv=None):
        addv = InsertMode.INSERT if addv in (None, False) else (
            InsertMode.ADD if addv is True else addv)
        if (self.mode is not None) and (self.mode != addv):
            raise PETScError('cannot mix ADD_VALUES and INSERT_VALUES')
        self.mode = addv
        ii = nm.asarray(indices).astype(nm.int64).ravel()
        vv = nm.asarray(values, dtype=nm.float64).ravel()
        if len(ii) != len(vv):
            raise ValueError('incompatible array sizes: ni=%d, nv=%d'
                             % (len(ii), len(vv)))
        if nm.any(ii >= self.getSize()):
            raise PETScError('out of range index value %d' % ii.max())
        if nm.any(ii < 0):
            if not self.options.get('ini'):
                raise PETScError('out of range index value %d cannot be'
                                 ' negative' % ii.min())
            vv = vv[ii >= 0]
            ii = ii[ii >= 0]
        self.stash.append((ii, vv))

    def assemble(self):
        stash, self.stash, mode = self.stash, [], self.mode
        self.mode = None
        i0, i1 = self.ranges[self.comm.rank]
        if self.comm is COMM_SELF:
            parts = [(mode, stash)]
        else:
            world = self.comm.world
            parts = world.exchange(self.comm.rank, 'vec-assemble',
                                   (mode, stash))
            world.rng.shuffle(parts)
        modes = set(mm for mm, _ in parts if mm is not None)
        if len(modes) > 1:
            raise PETScError('some processors inserted, others added values')
        for mm, part in parts:
            for ii, vv in part:
                sel = (ii >= i0) & (ii < i1)
                if mm == InsertMode.ADD:
                    nm.add.at(self.arr, ii[sel] - i0, vv[sel])
                else:
                    self.arr[ii[sel] - i0] = vv[sel]

    def norm(self):
        vals = [self.arr] if self.comm is COMM_SELF else \
            self.comm.world.exchange(self.comm.rank, 'norm', self.arr.copy())
        return float(nm.linalg.norm(nm.concatenate(vals)))

    def __isub__(self, other):
        self.arr -= other.arr
        return self

    def destroy(self):
        pass


class LGMap(object):
    def create(self, indices, bsize=None, comm=None):
        self.indices = nm.array(indices, dtype=nm.int64)
        return self


class IS(object):
    def createGeneral(self, indices, comm=None):
        self.indices = nm.array(indices, dtype=nm.int64)
        return self

    def createStride(self, size, first=0, step=1, comm=None):
        self.indices = first + step * nm.arange(size)
        return self


class Mat(object):
    def __init__(self):
        self.stash = []
        self.mode = None
        self.prealloc = None
        self.assembled = False

    def create(self, comm=None):
        self.comm = get_comm(comm)
        return self

    def setType(self, mtype):
        self.mtype = mtype

    def setSizes(self, sizes, bsize=None):
        (rows, cols) = sizes
        if tuple(rows) != tuple(cols):
            raise PETScError('only square matrices are simulated')
        self.sizes = tuple(rows)

    def setPreallocationCSR(self, csr):
        indptr, indices = csr[:2]
        if len(indptr) - 1 != self.sizes[0]:
            raise ValueError('size(I) is %d, expected %d'
                             % (len(indptr), self.sizes[0] + 1))
        if nm.any(nm.asarray(indices) >= self.sizes[1]) \
                or nm.any(nm.asarray(indices) < 0):
            raise PETScError('column entry out of range in preallocation')
        self.prealloc = (nm.array(indptr), nm.array(indices))

    def setUp(self):
        self.ranges = layout(self.comm, self.sizes)
        i0, i1 = self.ranges[self.comm.rank]
        # The owned rows.
        self.rows = nm.zeros((i1 - i0, self.ranges[-1][1]))
        self.allowed = None
        if self.prealloc is not None:
            indptr, indices = self.prealloc
            self.allowed = nm.zeros(self.rows.shape, dtype=bool)
            self.allowed[nm.repeat(nm.arange(i1 - i0), nm.diff(indptr)),
                         indices] = True

    def getOwnershipRange(self):
        return self.ranges[self.comm.rank]

    def getSize(self):
        return (self.ranges[-1][1],) * 2

    def getVecs(self):
        out = []
        for _ in range(2):
            vec = Vec()
            vec.create(self.comm)
            vec.setSizes(self.sizes)
            vec.setUp()
            out.append(vec)
        return tuple(out)

    createVecs = getVecs

    def getVecLeft(self):
        return self.getVecs()[1]

    def getVecRight(self):
        return self.getVecs()[0]

    size = property(getSize)

    def setLGMap(self, rmap, cmap=None):
        self.lgmap = (rmap, rmap if cmap is None else cmap)

    def zeroEntries(self):
        self.rows[:] = 0.0

    def setOption(self, option, flag):
        pass

    def setValuesLocalCSR(self, indptr, indices, data, addv=None):
        addv = InsertMode.INSERT if addv in (None, False) else (
            InsertMode.ADD if addv is True else addv)
        if (self.mode is not None) and (self.mode != addv):
            raise PETScError('cannot mix ADD_VALUES and INSERT_VALUES')
        self.mode = addv
        num = len(indptr) - 1
        rmap, cmap = self.lgmap
        if (num > len(rmap.indices)) or (len(indices) and (
                nm.max(indices) >= len(cmap.indices))):
            raise PETScError('local index is out of range')
        rr = rmap.indices[nm.repeat(nm.arange(num), nm.diff(indptr))]
        cc = cmap.indices[indices]
        vv = nm.array(data, dtype=nm.float64)
        ok = (rr >= 0) & (cc >= 0)
        rr, cc, vv = rr[ok], cc[ok], vv[ok]
        top = self.ranges[-1][1]
        if len(rr) and ((rr.max() >= top) or (cc.max() >= top)):
            raise PETScError('argument out of range')
        self.stash.append((rr, cc, vv))

    def assemble(self, assembly=None):
        world = self.comm.world
        stash, self.stash, mode = self.stash, [], self.mode
        self.mode = None
        parts = world.exchange(self.comm.rank, 'mat-assemble', (mode, stash))
        world.rng.shuffle(parts)
        modes = set(mm for mm, _ in parts if mm is not None)
        if len(modes) > 1:
            raise PETScError('some processors inserted, others added values')
        i0, i1 = self.ranges[self.comm.rank]
        for mm, part in parts:
            for rr, cc, vv in part:
                sel = (rr >= i0) & (rr < i1)
                rr, cc, vv = rr[sel] - i0, cc[sel], vv[sel]
                if self.allowed is not None:
                    bad = nm.where(~self.allowed[rr, cc])[0]
                    if len(bad):
                        raise PETScError(
                            'inserting a new nonzero at global row/column'
                            ' (%d, %d) into matrix'
                            % (rr[bad[0]] + i0, cc[bad[0]]))
                if mm == InsertMode.ADD:
                    nm.add.at(self.rows, (rr, cc), vv)
                else:
                    self.rows[rr, cc] = vv
        self.assembled = True

    def todense(self):
        """The whole matrix (not in PETSc)."""
        return nm.concatenate(self.comm.world.exchange(
            self.comm.rank, 'todense', self.rows.copy()))


class Scatter(object):
    def create(self, vec_from, is_from, vec_to, is_to):
        self.zero = False
        self.isg = is_from.indices
        self.comm = vec_from.comm
        if len(self.isg) and ((self.isg.max() >= vec_from.getSize())
                              or (self.isg.min() < 0)):
            raise PETScError('index set is out of range')
        if is_to is not None:
            raise PETScError('not simulated')
        if len(self.isg) != vec_to.getLocalSize():
            raise PETScError('local scatter sizes do not match: %d, %d'
                             % (len(self.isg), vec_to.getLocalSize()))
        self.n_all, self.n_loc = vec_from.getSize(), len(self.isg)
        self.comm.world.exchange(self.comm.rank, 'scatter-create', None)
        return self

    @classmethod
    def toZero(cls, vec):
        self = cls()
        self.zero = True
        self.comm = vec.comm
        self.n_all = vec.getSize()
        out = Vec()
        out.create(COMM_SELF)
        out.setSizes(self.n_all if self.comm.rank == 0 else 0)
        out.setUp()
        self.isg = nm.arange(out.getLocalSize())
        self.n_loc = len(self.isg)
        self.comm.world.exchange(self.comm.rank, 'scatter-create', None)
        return self, out

    def scatter(self, vec_from, vec_to, addv=None, mode=None):
        addv = InsertMode.INSERT if addv in (None, False) else addv
        if addv != InsertMode.INSERT:
            raise PETScError('not simulated')
        world = self.comm.world
        if mode in (None, ScatterMode.FORWARD, False):
            gvec, lvec, label = vec_from, vec_to, 'scatter-forward'
        else:
            gvec, lvec, label = vec_to, vec_from, 'scatter-reverse'
        if (gvec.getSize() != self.n_all) \
                or (lvec.getLocalSize() != self.n_loc):
            raise PETScError('vector size %d not equal to scatter size'
                             % gvec.getSize())
        if label == 'scatter-forward':
            parts = world.exchange(self.comm.rank, label, gvec.arr.copy())
            lvec.arr[:] = nm.concatenate(parts)[self.isg]
        else:
            parts = world.exchange(self.comm.rank, label,
                                   (self.isg, lvec.arr.copy()))
            i0, i1 = gvec.ranges[self.comm.rank]
            world.rng.shuffle(parts)
            for ii, vv in parts:
                sel = (ii >= i0) & (ii < i1)
                gvec.arr[ii[sel] - i0] = vv[sel]

    scatterBegin = scatter

    def scatterEnd(self, *args, **kwargs):
        pass


class PC(object):
    class Type(object):
        PYTHON = 'python'

    type = 'ilu'

    def setType(self, kind):
        self.type = kind

    def getType(self):
        return self.type

    def setFieldSplitIS(self, *fields):
        self.fields = fields


class KSP(object):
    """The operator is solved directly."""

    class ConvergedReason(object):
        CONVERGED_RTOL = 2
        DIVERGED_ITS = -3

    def __init__(self):
        self.pc = PC()
        self.mtx = None
        self.reason = 0

    def create(self, comm=None):
        self.comm = get_comm(comm)
        return self

    def setType(self, kind):
        self.type = kind

    def getType(self):
        return self.type

    def getPC(self):
        return self.pc

    def setFromOptions(self):
        pass

    def setPCSide(self, side):
        pass

    def setInitialGuessNonzero(self, flag):
        pass

    def setTolerances(self, rtol=None, atol=None, divtol=None, max_it=None):
        self.rtol = rtol

    def setOperators(self, A=None, P=None):
        self.mtx = A

    def getIterationNumber(self):
        return 1

    def getConvergedReason(self):
        return self.reason

    def solve(self, vec_b, vec_x):
        dense = self.mtx.todense()
        parts = self.comm.world.exchange(self.comm.rank, 'ksp-solve',
                                         vec_b.arr.copy())
        sol = nm.linalg.solve(dense, nm.concatenate(parts))
        i0, i1 = vec_x.getOwnershipRange()
        vec_x.arr[:] = sol[i0:i1]
        self.reason = 2


class SNES(object):
    """Newton iterations with full steps."""

    class ConvergedReason(object):
        CONVERGED_FNORM_ABS = 2
        CONVERGED_FNORM_RELATIVE = 3
        CONVERGED_SNORM_RELATIVE = 4
        DIVERGED_MAX_IT = -5

    def create(self, comm=None):
        self.comm = get_comm(comm)
        return self

    def setType(self, kind):
        self.type = kind

    def getType(self):
        return self.type

    def setKSP(self, ksp):
        self.ksp = ksp

    def setFunction(self, fun, vec):
        self.fun, self.vec = fun, vec

    def setJacobian(self, fun, mtx):
        self.jac, self.mtx = fun, mtx

    def setTolerances(self, rtol=None, atol=None, stol=None, max_it=None):
        self.rtol, self.atol, self.stol = rtol, atol, stol
        self.max_it = max_it

    def setMaxFunctionEvaluations(self, num):
        pass

    def setFromOptions(self):
        pass

    def solve(self, vec_b, vec_x):
        self.n_it, self.n_fun, self.reason = 0, 0, -5
        step = vec_x.duplicate()
        err0 = None
        while True:
            self.fun(self, vec_x, self.vec)
            self.n_fun += 1
            self.norm = self.vec.norm()
            err0 = self.norm if err0 is None else err0
            if self.norm < self.atol:
                self.reason = 2
                break
            if self.n_it and (self.norm <= self.rtol * err0):
                self.reason = 3
                break
            if self.n_it >= self.max_it:
                break
            self.jac(self, vec_x, self.mtx, self.mtx)
            self.ksp.setOperators(self.mtx, self.mtx)
            self.ksp.solve(self.vec, step)
            vec_x -= step
            self.n_it += 1
        self.step = step

    def getSolutionUpdate(self):
        return self.step

    def getFunctionNorm(self):
        return self.norm

    def getIterationNumber(self):
        return self.n_it

    def getLinearSolveIterations(self):
        return self.n_it

    def getFunctionEvaluations(self):
        return self.n_fun


class _CommWorld(object):
    """PETSc.COMM_WORLD of the running rank."""

    def __getattr__(self, name):
        return getattr(get_comm(None), name)


def install():
    """
    Put the stubs in place of petsc4py and mpi4py.
    """
    petsc = types.ModuleType('petsc4py.PETSc')
    for cls in (Vec, Mat, IS, LGMap, Scatter, InsertMode, ScatterMode, PC,
                KSP, SNES):
        setattr(petsc, cls.__name__, cls)
    petsc.COMM_WORLD = _CommWorld()
    petsc.COMM_SELF = COMM_SELF
    petsc.Error = PETScError
    petsc.Options = dict
    petsc.IntType = nm.int32
    petsc.ScalarType = nm.float64
    top = types.ModuleType('petsc4py')
    top.init = lambda *args, **kwargs: None
    top.PETSc = petsc
    mpi = types.ModuleType('mpi4py.MPI')
    mpi.INTEGER4 = mpi.INT = mpi.INT32_T = Datatype(4)
    mpi.INTEGER8 = mpi.INT64_T = Datatype(8)
    mpi.DOUBLE = Datatype(8)
    mpi.SUM = 'sum'
    mtop = types.ModuleType('mpi4py')
    mtop.MPI = mpi
    for name, mod in (('petsc4py', top), ('petsc4py.PETSc', petsc),
                      ('mpi4py', mtop), ('mpi4py.MPI', mpi)):
        sys.modules[name] = mod
