"""
Simulated concurrent processes sharing a file system.

The processes are forked from a zygote (with everything loaded but
the modules executed at start-up: sfepy, its configuration and base module). The preloaded simulated disk stops each of
them before every file operation in the scratch directory; a seeded controller
decides which one continues, how much of a write is done, and which one is
killed or runs out of disk space.
"""
import hashlib
import os
import pickle
import random
import re
import select
import signal
import struct
import subprocess
import sys
import tempfile
import time

from dst.envsim import PY, VERIF, _read, _write, get_env

REAL_TIMEOUT = 60.0


class Server(object):
    def __init__(self):
        self.proc = subprocess.Popen(
            [PY, '-m', 'dst.simproc'], env=get_env(0), stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, cwd=VERIF)

    def call(self, *args):
        _write(self.proc.stdin, args)
        return _read(self.proc.stdout)

    def close(self, wait=False):
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        if not wait:
            self.proc.kill()
        self.proc.wait()
        self.proc.stdout.close()


class Proc(object):
    """A simulated process."""

    def __init__(self, name, fun, root, nospc=None):
        from dst import simdisk
        self.name = name
        self.status = 'running'
        self.n_op = 0
        ctl_r, op_w = os.pipe()
        op_r, ctl_w = os.pipe()
        self.fd_in, self.fd_out = ctl_r, ctl_w
        self.rfd, rpath = tempfile.mkstemp(prefix='sdproc')
        os.unlink(rpath)
        self.buf = b''
        self.root = os.path.realpath(root)
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(ctl_r)
                os.close(ctl_w)
                lib = simdisk.get_lib()
                lib.simdisk_configure(self.root.encode(), -1)
                if nospc is not None:
                    lib.simdisk_add(2, *[simdisk.ctypes.c_long(ii)
                                         for ii in nospc])
                lib.simdisk_pause(op_w, op_r)
                os.write(op_w, b'start \n')
                os.read(op_r, 4)
                out = fun()
                lib.simdisk_stop()
                lib.simdisk_pause(-1, -1)
                os.write(self.rfd, pickle.dumps(out))
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        os.close(op_w)
        os.close(op_r)
        self.wait()

    def wait(self):
        """Wait for the next operation or the end of the process."""
        while b'\n' not in self.buf:
            rr, _, _ = select.select([self.fd_in], [], [], REAL_TIMEOUT)
            if not rr:
                self.kill('hang')
                return
            data = os.read(self.fd_in, 1 << 12)
            if not data:
                self.finish()
                return
            self.buf += data
        line, self.buf = self.buf.split(b'\n', 1)
        what, path = line.decode('utf-8', 'replace').split(' ', 1)
        if path.startswith(self.root):
            path = path[len(self.root):].lstrip('/')
        self.op = (what, path)

    def go(self, part=1000):
        self.n_op += 1
        os.write(self.fd_out, b'%04d' % part)
        self.wait()

    def kill(self, status='killed'):
        os.kill(self.pid, signal.SIGKILL)
        self.finish(status)

    def finish(self, status=None):
        _, st = os.waitpid(self.pid, 0)
        os.close(self.fd_in)
        os.close(self.fd_out)
        size = os.fstat(self.rfd).st_size
        data = os.pread(self.rfd, size, 0)
        os.close(self.rfd)
        if status is not None:
            self.status, self.value = status, None
        elif data:
            self.status, self.value = 'done', pickle.loads(data)
        else:
            self.status, self.value = 'died', st


def normalize(path):
    """Names of temporary files contain pids and random parts."""
    return re.sub('tmp[^/]*', 'tmp*', re.sub('pyc[.][0-9]+$', 'pyc.*', path))


def play(spec, root):
    """
    spec: procs - lists of operations, sched seed, stick, torn, kills
    {proc index: op number}, nospc {proc index: (at, count, arg)}.
    """
    from dst import startwork
    rng = random.Random('sched/%s' % spec['sched'])
    hh = hashlib.sha256()
    trace = []
    procs = []
    for ii, ops in enumerate(spec['procs']):
        procs.append(Proc(ii, lambda ii=ii, ops=ops:
                          startwork.run(ii, ops, root,
                                        str(ii) in spec['nospc']),
                          root, spec['nospc'].get(str(ii))))
    current = None
    n_switch = steps = 0
    hung = False
    while 1:
        alive = [pp for pp in procs if pp.status == 'running']
        if not alive:
            break
        if (current not in alive) or (rng.random() > spec['stick']):
            new = rng.choice(alive)
            n_switch += new is not current
            current = new
        pp = current
        steps += 1
        if steps > spec['max_steps']:
            hung = True
            for pp in alive:
                pp.kill('hang')
            break
        what, path = pp.op
        hh.update(('%d %s\n' % (pp.name, what)).encode())
        if len(trace) < 3000:
            trace.append('%d %s %s' % (pp.name, what, normalize(path)))
        if spec['kills'].get(str(pp.name)) == pp.n_op:
            trace.append('%d KILLED' % pp.name)
            pp.kill()
            continue
        part = 1000
        if (what == 'write') and (rng.random() < spec['torn']):
            part = rng.randint(1, 999)
        pp.go(part)
    outs = [{'status': pp.status, 'value': pp.value, 'n_op': pp.n_op}
            for pp in procs]
    return {'outs': outs, 'trace': trace, 'hash': hh.hexdigest(),
            'steps': steps, 'switches': n_switch, 'hung': hung}


def serve():
    import warnings
    stdin, stdout = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    cache = tempfile.mkdtemp(prefix='sdcache')
    try:
        os.environ['HOME'] = cache
        if sys.pycache_prefix is None:
            sys.pycache_prefix = cache
        sys.dont_write_bytecode = False
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            from dst import startwork
            startwork.preload()
        startwork.forget()
        while 1:
            req = _read(stdin)
            if req is None:
                break
            try:
                out = play(*req)
            except BaseException:
                import traceback
                out = {'harness': traceback.format_exc()}
            _write(stdout, out)
    finally:
        import shutil
        shutil.rmtree(cache, ignore_errors=True)


if __name__ == '__main__':
    serve()
