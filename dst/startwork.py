"""
Operations of starting processes (C20).
"""
import io
import os
import sys


def preload():
    import sfepy.base.base  # noqa
    import sfepy.discrete  # noqa
    import sfepy.discrete.fem  # noqa
    import sfepy.mesh.mesh_generators  # noqa
    import sfepy.applications  # noqa


def forget():
    from sfepy.base.base import output
    output.set_output(quiet=True)
    for name in ('sfepy', 'sfepy.config', 'sfepy.base', 'sfepy.base.base',
                 'sfepy.base.goptions', 'site_cfg'):
        sys.modules.pop(name, None)


def run(ii, ops, root, full=False):
    """Runs in a simulated process."""
    os.environ['HOME'] = os.path.join(root, 'home')
    os.chdir(os.path.join(root, 'work'))
    # Byte code of the sources is kept by the zygote, others in usual places.
    import importlib._bootstrap_external as ext
    orig = ext.cache_from_source

    def cache_from_source(path, *args, **kwargs):
        if not path.startswith(root):
            return orig(path, *args, **kwargs)
        if full:
            # Importlib ignores incomplete writes of byte code.
            raise NotImplementedError('no byte code')
        prefix, sys.pycache_prefix = sys.pycache_prefix, None
        try:
            return orig(path, *args, **kwargs)
        finally:
            sys.pycache_prefix = prefix
    ext.cache_from_source = cache_from_source
    path_stats = ext.SourceFileLoader.path_stats

    def stats(self, path):
        # Real times do not matter.
        out = path_stats(self, path)
        if path.startswith(root):
            out['mtime'] = 1.0
        return out
    ext.SourceFileLoader.path_stats = stats
    out = []
    for op in ops:
        try:
            val = {'ok': globals()['op_' + op['op']](ii, op)}
        except Exception as exc:
            import traceback
            val = {'error': type(exc).__name__, 'msg': str(exc)[:300],
                   'tb': traceback.format_exc()[-3000:]}
        out.append(val)
    return out


def op_start(ii, op):
    """Import sfepy, get its configuration."""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        import sfepy.base.base
        from sfepy import site_config
        txt = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    out = {'printed': txt.replace(os.environ['HOME'], '~')}
    for name in ('system', 'compile_flags', 'debug_flags', 'is_release',
                 'refmap_memory_factor', 'debug_warped_cells',
                 'python_version'):
        out[name] = getattr(site_config, name)()
    out['config_dir'] = os.path.isdir(sfepy.base.base.sfepy_config_dir)
    return out


def op_ensure(ii, op):
    from sfepy.base.ioutils import ensure_path
    name = os.path.join(op['dir'], 'file%d' % ii)
    ensure_path(name)
    with open(name, 'w') as fd:
        fd.write('data')
    return os.path.isdir(op['dir'])


def op_logfile(ii, op):
    from sfepy.base.base import Output
    name = os.path.join(op['dir'], 'log%d.txt' % ii)
    out = Output('p:', filename=name)
    out.set_output(filename=name, quiet=True)
    out('hello')
    with open(name) as fd:
        return fd.read()


def op_mesh(ii, op):
    from sfepy.base.base import output
    from sfepy.mesh.mesh_generators import gen_misc_mesh
    from sfepy.discrete.fem import Mesh
    output.set_output(quiet=True)
    name = gen_misc_mesh(op['dir'], False, 'cube', op['args'],
                         suffix=op['suffix'])
    mesh = Mesh.from_file(name)
    return {'n_nod': int(mesh.n_nod), 'n_el': int(mesh.n_el),
            'sum': round(float(mesh.coors.sum()), 8),
            'max': round(float(mesh.coors.max()), 8)}


def op_outdir(ii, op):
    """Problem output in a directory."""
    from sfepy.base.base import output, Struct
    from sfepy.discrete import Problem
    from sfepy.discrete.fem import FEDomain
    from sfepy.mesh.mesh_generators import gen_block_mesh
    output.set_output(quiet=True)
    mesh = gen_block_mesh([1.0, 1.0], [2, 2], [0.0, 0.0], name='block',
                          verbose=False)
    pb = Problem('p', domain=FEDomain('domain', mesh), auto_conf=False)
    pb.conf = Struct(options=Struct(get=lambda *args: args[-1]))
    pb.setup_output(output_dir=op['dir'], output_filename_trunk='p%d' % ii)
    name = pb.get_output_name()
    mesh.write(name, io='auto')
    return [name, os.path.isfile(name)]


def op_app(ii, op):
    from sfepy.applications import PDESolverApp
    opts = PDESolverApp.process_options({'output_dir': op['dir']})
    return [opts.output_dir, os.path.isdir(op['dir'])]


def gen_op(rng, dirs, kinds):
    kind = rng.choice(kinds)
    op = {'op': kind, 'dir': rng.choice(dirs)}
    if kind == 'mesh':
        op['dir'] = rng.choice(['meshes', 'a/meshes'])
        nn = rng.choice([2, 3, 4])
        op['args'] = [nn, 1.0, nn, 1.0, nn, 1.0]
        op['suffix'] = rng.choice(['.mesh', '.vtk'])
    return op
