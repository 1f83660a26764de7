"""
Resolve the source tree under test.

Python sources are always imported straight from /repo.  The compiled
extensions of /repo are used in place when the extension sources are the ones
the in-place binaries were built from (recorded digest); otherwise the current
working tree is copied into a scratch folder and its extensions are built
there, offline.  Nothing is written into /repo.
"""
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, 'build')
REPO = os.environ.get('DST_REPO', '/repo')
PY = '/opt/venv/bin/python'
DIGEST_FILE = os.path.join(HERE, 'extmods.sha256')

EXTS = ('.c', '.h', '.pyx', '.pxd', '.pyx.src', '.cmake')


def ext_sources(repo=REPO):
    out = []
    for base, dirs, files in os.walk(os.path.join(repo, 'sfepy')):
        dirs.sort()
        for name in sorted(files):
            if name == 'version.h':
                continue
            if name.endswith(EXTS) or name == 'CMakeLists.txt':
                path = os.path.join(base, name)
                # Generated .c files of cython live in _skbuild only.
                out.append(path)
    for name in ('CMakeLists.txt', 'setup.py', 'pyproject.toml'):
        path = os.path.join(repo, name)
        if os.path.exists(path):
            out.append(path)
    return out


def ext_digest(repo=REPO):
    hh = hashlib.sha256()
    for path in ext_sources(repo):
        hh.update(os.path.relpath(path, repo).encode())
        with open(path, 'rb') as fd:
            hh.update(hashlib.sha256(fd.read()).digest())
    return hh.hexdigest()


def count_pyx(repo=REPO):
    n = 0
    for base, dirs, files in os.walk(os.path.join(repo, 'sfepy')):
        n += sum(name.endswith('.pyx') for name in files)
    return n


def count_so(root):
    n = 0
    for base, dirs, files in os.walk(os.path.join(root, 'sfepy')):
        n += sum(name.endswith('.so') for name in files)
    return n


# A symbol added by a fix of the extension sources: the in-place binaries
# without it were built from older sources.
MARKER = ('cmesh.', b'errpop')


def has_marker(root):
    for base, dirs, files in os.walk(os.path.join(root, 'sfepy')):
        for name in files:
            if name.startswith(MARKER[0]) and name.endswith('.so'):
                with open(os.path.join(base, name), 'rb') as fd:
                    return MARKER[1] in fd.read()
    return False


def scratch_tree(repo=REPO):
    """Copy the working tree and build its extensions in the copy."""
    root = os.path.join(BUILD, 'tree')
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(root)
    for name in sorted(os.listdir(repo)):
        if name in ('.git', '_skbuild', 'doc'):
            continue
        src, dst = os.path.join(repo, name), os.path.join(root, name)
        if os.path.isdir(src):
            shutil.copytree(src, dst, symlinks=True,
                            ignore=shutil.ignore_patterns('*.so',
                                                          '__pycache__'))
        else:
            shutil.copy2(src, dst)
    env = dict(os.environ)
    env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '/usr/bin:/bin')
    env['PYTHONHASHSEED'] = '0'
    env.pop('PYTHONPATH', None)
    env.pop('LD_PRELOAD', None)
    if shutil.which('ccache'):
        env['CMAKE_C_COMPILER_LAUNCHER'] = 'ccache'
        env['CCACHE_DIR'] = os.path.join(BUILD, 'ccache')
        env['CCACHE_NOHASHDIR'] = '1'
    log = os.path.join(BUILD, 'build-ext.log')
    with open(log, 'w') as fd:
        ret = subprocess.call([PY, 'setup.py', 'build_ext', '--inplace'],
                              cwd=root, env=env, stdout=fd,
                              stderr=subprocess.STDOUT)
    shutil.rmtree(os.path.join(root, '_skbuild'), ignore_errors=True)
    if ret or (count_so(root) < 1):
        raise SystemExit('extension build failed, see %s' % log)
    return root


def resolve_tree(repo=REPO, verbose=True):
    digest = ext_digest(repo)
    ref = None
    if os.path.exists(DIGEST_FILE):
        with open(DIGEST_FILE) as fd:
            ref = fd.read().strip()
    if ((digest == ref) and (count_so(repo) >= count_pyx(repo))
        and has_marker(repo)):
        return repo

    stamp = os.path.join(BUILD, 'tree.digest')
    root = os.path.join(BUILD, 'tree')
    pdigest = digest + '-' + py_digest(repo)
    if os.path.exists(stamp):
        with open(stamp) as fd:
            if (fd.read().strip() == pdigest) and os.path.isdir(root):
                return root
    if verbose:
        print('extension sources differ from the in-place build,'
              ' building a scratch tree...', flush=True)
    os.makedirs(BUILD, exist_ok=True)
    root = scratch_tree(repo)
    with open(stamp, 'w') as fd:
        fd.write(pdigest)
    return root


def py_digest(repo=REPO):
    hh = hashlib.sha256()
    for base, dirs, files in os.walk(os.path.join(repo, 'sfepy')):
        dirs.sort()
        for name in sorted(files):
            if name.endswith('.py'):
                with open(os.path.join(base, name), 'rb') as fd:
                    hh.update(hashlib.sha256(fd.read()).digest())
    return hh.hexdigest()


def build_shim(name='simdisk'):
    """Compile the LD_PRELOAD disk simulator if it is not up to date."""
    src = os.path.join(HERE, 'shim', name + '.c')
    out = os.path.join(BUILD, name + '.so')
    if not os.path.exists(src):
        return None
    if (os.path.exists(out)
            and os.path.getmtime(out) >= os.path.getmtime(src)):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    subprocess.check_call(['gcc', '-O1', '-g', '-shared', '-fPIC', '-o', tmp,
                           src, '-ldl', '-lpthread'])
    os.rename(tmp, out)
    return out


def build_simalloc():
    """Compile the simulated allocator."""
    return build_shim('simalloc')


if __name__ == '__main__':
    if '--record' in sys.argv:
        with open(DIGEST_FILE, 'w') as fd:
            fd.write(ext_digest() + '\n')
    elif '--setup' in sys.argv:
        build_shim()
        build_simalloc()
        print(resolve_tree())
    else:
        build_shim()
        build_simalloc()
        print(resolve_tree(verbose=False))
