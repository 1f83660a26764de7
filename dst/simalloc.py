"""
Failing allocations in the compiled core, see shim/simalloc.c.
"""
import ctypes as ct

from dst import build

_LIB = []


def install(text='/sfepy/'):
    """Patch the loaded extension modules of the code under test."""
    if not _LIB:
        lib = ct.CDLL(build.build_simalloc())
        lib.sa_patch.argtypes = [ct.c_char_p] + [ct.c_void_p] * 3
        lib.sa_arm.argtypes = [ct.c_long, ct.c_long]
        for name in ('sa_n_alloc', 'sa_n_failed', 'sa_n_live',
                     'sa_n_bad_free'):
            getattr(lib, name).restype = ct.c_long
        _LIB.append(lib)

    def fun(name):
        return ct.cast(getattr(ct.pythonapi, name), ct.c_void_p)

    return _LIB[0].sa_patch(text.encode(), fun('PyMem_Malloc'),
                            fun('PyMem_Realloc'), fun('PyMem_Free'))


def arm(first, count=1):
    _LIB[0].sa_arm(first, count)


def disarm():
    _LIB[0].sa_arm(-1, 0)


def n_alloc():
    return _LIB[0].sa_n_alloc()


def n_failed():
    return _LIB[0].sa_n_failed()


def n_live():
    return _LIB[0].sa_n_live()


def n_bad_free():
    return _LIB[0].sa_n_bad_free()
