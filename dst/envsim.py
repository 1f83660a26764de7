"""
Simulated process environments.

An environment is given by the seed of string hashing, the order of directory
listings, the memory layout (junk allocations, no address space
randomization), the clock and the state of the global random generators.  A
server process per hash seed imports the code under test; it forks a child for
each request, so that every workload starts in a new process.
"""
import os
import pickle
import random
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable


CACHE = []


def use_cache():
    """
    Compiled modules of the code under test are shared by the servers of this
    run of a check.
    """
    import atexit
    import shutil
    import tempfile
    if CACHE:
        return
    path = tempfile.mkdtemp(prefix='dstcache')
    CACHE.append(path)
    pid = os.getpid()

    def remove():
        if os.getpid() == pid:
            shutil.rmtree(path, ignore_errors=True)
    atexit.register(remove)


def get_env(hash_seed):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(hash_seed)
    env['PYTHONPATH'] = os.pathsep.join([pp for pp in sys.path if pp]
                                        + [VERIF])
    if CACHE:
        env['PYTHONPYCACHEPREFIX'] = CACHE[0]
        env.pop('PYTHONDONTWRITEBYTECODE', None)
    return env


def _no_aslr():
    import ctypes
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except OSError:
        pass


class Server(object):
    def __init__(self, hash_seed, listing):
        env = get_env(hash_seed)
        env['DST_ENV_LISTING'] = str(listing)
        self.proc = subprocess.Popen(
            [PY, '-m', 'dst.envsim'], env=env, stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, preexec_fn=_no_aslr, cwd=VERIF)

    def send(self, env, work, scratch):
        _write(self.proc.stdin, (env, work, scratch))

    def recv(self):
        return _read(self.proc.stdout)

    def close(self, wait=False):
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        if not wait:
            self.proc.kill()
        self.proc.wait()
        self.proc.stdout.close()


def _write(fd, obj):
    data = pickle.dumps(obj)
    fd.write(struct.pack('!I', len(data)) + data)
    fd.flush()


def _read(fd):
    head = fd.read(4)
    if len(head) < 4:
        return None
    num = struct.unpack('!I', head)[0]
    data = fd.read(num)
    if len(data) < num:
        return None
    return pickle.loads(data)


class Listing(object):
    """Directory listings in a seeded order."""

    def __init__(self, seed):
        self.seed = seed
        self.count = 0
        self.listdir, self.scandir = os.listdir, os.scandir

    def shuffle(self, items, key=str):
        items = sorted(items, key=key)
        if self.seed:
            self.count += 1
            random.Random('%s/%s' % (self.seed, self.count)).shuffle(items)
        return items

    def install(self):
        def listdir(path='.'):
            return self.shuffle(self.listdir(path))

        def scandir(path='.'):
            with self.scandir(path) as fd:
                items = list(fd)
            return Entries(self.shuffle(items, lambda ii: str(ii.name)))

        os.listdir, os.scandir = listdir, scandir


class Entries(object):
    def __init__(self, items):
        self.items = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def close(self):
        pass


def set_clock(offset, rate):
    import time
    for name in ('time', 'perf_counter', 'monotonic', 'process_time'):
        orig = getattr(time, name)
        setattr(time, name, lambda orig=orig: offset + rate * orig())
    localtime, gmtime, ctime = time.localtime, time.gmtime, time.ctime
    strftime, asctime = time.strftime, time.asctime
    time.localtime = lambda sec=None: localtime(
        time.time() if sec is None else sec)
    time.gmtime = lambda sec=None: gmtime(time.time() if sec is None else sec)
    time.ctime = lambda sec=None: ctime(time.time() if sec is None else sec)
    time.strftime = lambda fmt, tt=None: strftime(
        fmt, time.localtime() if tt is None else tt)
    time.asctime = lambda tt=None: asctime(
        time.localtime() if tt is None else tt)


KEEP = []


def disturb_memory(seed):
    """Small blocks of various sizes allocated and partly freed."""
    rng = random.Random('memory/%s' % seed)

    class Junk(object):
        pass

    for _ in range(400):
        objs = [Junk() if rng.random() < 0.6 else bytearray(rng.randint(1, 600))
                for _ in range(rng.randint(1, 20))]
        rng.shuffle(objs)
        KEEP.append(objs[:rng.randint(0, len(objs))])


def child(env, work, scratch):
    import numpy as nm
    listing = Listing(env['listing'])
    listing.listdir, listing.scandir = REAL
    listing.install()
    set_clock(env['clock'], env['rate'])
    disturb_memory(env['memory'])
    random.seed(env['random'])
    nm.random.seed(env['random'] % (1 << 31))
    os.environ['DST_ENV_VAR'] = 'x' * env['vars']
    path = os.path.join(scratch, env['dir'])
    os.makedirs(path)
    os.chdir(path)
    from dst import envwork
    return envwork.run(work, path, scratch)


REAL = (os.listdir, os.scandir)


def serve():
    stdin, stdout = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    Listing(int(os.environ['DST_ENV_LISTING'])).install()
    from dst import envwork
    envwork.setup()
    while 1:
        req = _read(stdin)
        if req is None:
            break
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rfd)
                import signal
                signal.alarm(120)
                out = child(*req)
                with os.fdopen(wfd, 'wb') as fd:
                    fd.write(pickle.dumps(out))
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wfd)
        with os.fdopen(rfd, 'rb') as fd:
            data = fd.read()
        _, status = os.waitpid(pid, 0)
        try:
            out = pickle.loads(data) if data else {'died': status}
        except Exception:
            out = {'died': status}
        _write(stdout, out)


if __name__ == '__main__':
    serve()
