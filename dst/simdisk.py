"""
Simulated disk: runs workloads in forked child processes with faults injected
into their file operations, see shim/simdisk.c.
"""
import ctypes
import os
import pickle
import select
import signal
import sys
import tempfile
import traceback

from dst.core import HarnessError, RunTimeout, real_time

KINDS = {'crash': 1, 'nospc': 2, 'eio': 3, 'eintr': 4, 'short': 5, 'deny': 6,
         'rshort': 7, 'rintr': 8, 'reio': 9}
# Faults that a correct program must overcome.
BENIGN = ('eintr', 'short', 'rshort', 'rintr')


def get_lib():
    lib = ctypes.CDLL(None)
    try:
        lib.simdisk_configure
    except AttributeError:
        raise HarnessError('the simulated disk is not preloaded')
    return lib


class Out(object):
    """
    status: 'ok', 'error' (an exception), 'crash' (injected), 'died', 'hang'.
    """
    status = None
    value = None
    error = None
    tb = ''

    def parse(self, txt):
        self.ops, self.fired, self.opens = [], [], []
        for line in txt.splitlines():
            ww = line.split(' ', 3)
            if ww[0] == 'O':
                self.ops.append((int(ww[1]), ww[2],
                                 ww[3] if len(ww) > 3 else ''))
            elif ww[0] == 'F':
                self.fired.append((int(ww[1]), ww[2],
                                   ww[3] if len(ww) > 3 else ''))


def child(fun, prefix, faults=(), timeout=60.0, mark=None):
    """
    Run fun() in a forked child with the simulated disk under `prefix`.
    """
    lib = get_lib()
    rfd, wfd = os.pipe()
    lfd, lpath = tempfile.mkstemp(prefix='sdlog')
    os.unlink(lpath)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0.0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(rfd)
            lib.simdisk_configure(os.path.realpath(prefix).encode(), lfd)
            for ff in faults:
                lib.simdisk_add(ctypes.c_int(KINDS[ff['kind']]),
                                ctypes.c_long(ff['at']),
                                ctypes.c_long(ff.get('count', 1)),
                                ctypes.c_long(ff.get('arg', 0)))
            try:
                val = ('ok', fun())
            except BaseException as exc:
                txt = ''.join(traceback.format_exception(*sys.exc_info()))
                val = ('error', (type(exc).__name__, str(exc)[:2000], txt))
            n_ops, n_reads = lib.simdisk_ops(), lib.simdisk_reads()
            lib.simdisk_stop()
            with os.fdopen(wfd, 'wb') as fd:
                fd.write(pickle.dumps(val + (n_ops, n_reads)))
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(wfd)
    out = Out()
    try:
        buf = b''
        end = real_time() + timeout
        hung = False
        while 1:
            rr, _, _ = select.select([rfd], [], [],
                                     max(0.0, end - real_time()))
            if not rr:
                hung = True
                break
            dat = os.read(rfd, 1 << 16)
            if not dat:
                break
            buf += dat
    except RunTimeout:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    finally:
        os.close(rfd)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    size = os.fstat(lfd).st_size
    out.parse(os.pread(lfd, size, 0).decode('utf-8', 'replace'))
    os.close(lfd)
    out.n_ops = out.n_reads = None
    if hung:
        out.status = 'hang'
    elif os.WIFEXITED(st) and os.WEXITSTATUS(st) == 137:
        out.status = 'crash'
    elif buf:
        out.status, out.value, out.n_ops, out.n_reads = pickle.loads(buf)
        if out.status == 'error':
            out.error, out.msg, out.tb = out.value
            out.value = None
    else:
        out.status = 'died'
        out.msg = 'wait status %d' % st
    return out
