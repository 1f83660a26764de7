"""
Stub backends of linear solvers that are not installed (python-mumps,
scikit-sparse), as used by the sfepy interfaces, and fault injection into the
factorization functions of SciPy and MUMPS.
"""
import sys
import types

import numpy as nm
import scipy.sparse as sps
import scipy.sparse.linalg as sla

_splu = sla.splu


def _effective(mtx, is_sym, part):
    """A symmetric solver uses only a triangle of the matrix."""
    mtx = mtx.tocoo()
    if not is_sym:
        return sps.csc_array(mtx)
    if part == 'upper':
        tri = sps.triu(mtx, k=1)
    else:
        tri = sps.tril(mtx, k=-1)
    diag = sps.diags_array(mtx.diagonal())
    return sps.csc_array(tri + tri.T + diag)


class Context(object):
    """mumps.Context of python-mumps."""

    def __init__(self, verbose=False):
        self.mtx = self.lu = None

    def set_matrix(self, mtx, symmetric=False):
        self.mtx = _effective(mtx, symmetric, 'lower')
        self.lu = None

    def factor(self):
        FAULTS.hit('factor')
        self.lu = _splu(self.mtx)

    def solve(self, rhs):
        if self.lu is None:
            raise RuntimeError('factor() has to be called first')
        return self.lu.solve(nm.array(rhs, dtype=self.mtx.dtype))

    def schur(self, schur_list):
        self.factor()

    def solve_schur(self, rhs):
        return self.solve(rhs)


def cholesky(mtx):
    FAULTS.hit('factor')
    if abs(mtx - mtx.T.conj()).max() > 1e-10 * abs(mtx).max():
        # CHOLMOD uses only a triangle.
        mtx = _effective(mtx, True, 'lower')
    lu = _splu(sps.csc_array(mtx))
    return lu.solve


class Faults(object):
    """Fails the next planned calls of factorizations."""

    def __init__(self):
        self.plan = 0
        self.fired = 0

    def hit(self, what):
        if self.plan > 0:
            self.plan -= 1
            self.fired += 1
            raise MemoryError('injected: ' + what)


FAULTS = Faults()


def install(which=None):
    """
    Select the available packages: None (those installed), 'none' (no MUMPS),
    'mumps' (the python-mumps stub instead of mumpspy), 'sksparse' (the
    CHOLMOD stub).
    """
    for name in ('mumpspy', 'mumps', 'sksparse', 'sksparse.cholmod'):
        sys.modules.pop(name, None)
    if _REAL.get('mumpspy') is not None:
        sys.modules['mumpspy'] = _REAL['mumpspy']
    if which in ('mumps', 'none'):
        sys.modules['mumpspy'] = None
    if which == 'none':
        sys.modules['mumps'] = None
    elif which == 'mumps':
        mod = types.ModuleType('mumps')
        mod.Context = Context
        sys.modules['mumps'] = mod
    elif which == 'sksparse':
        mod = types.ModuleType('sksparse')
        mod.cholmod = types.ModuleType('sksparse.cholmod')
        mod.cholmod.cholesky = cholesky
        sys.modules['sksparse'] = mod
        sys.modules['sksparse.cholmod'] = mod.cholmod


_REAL = {}


def patch_mumps():
    """Let the factorization of the real MUMPS fail on demand."""
    try:
        import mumpspy
    except ImportError:
        return
    _REAL['mumpspy'] = mumpspy
    cls = mumpspy.MumpsSolver
    call0 = cls._mumps_call

    def _mumps_call(self, job):
        if job in (2, 4, 5, 6):
            FAULTS.hit('mumps')
        return call0(self, job)
    cls._mumps_call = _mumps_call


def patch_scipy():
    """Let the SciPy functions fail on demand."""
    if getattr(sla, '_dst_patched', False):
        return
    for name in ('factorized', 'spsolve'):
        def wrap(*args, _fun=getattr(sla, name), _name=name, **kwargs):
            FAULTS.hit(_name)
            return _fun(*args, **kwargs)
        setattr(sla, name, wrap)
    sla._dst_patched = True
