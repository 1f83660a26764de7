"""
C20: concurrently starting processes.
"""
import atexit
import copy
import os

from dst import core
from dst import envsim
from dst import simproc
from dst import startwork

SERVER = []

CONFIG = """
system = 'posix'
compile_flags = ['-g', '-O2', '-Dabc']
debug_flags = []
is_release = True
refmap_memory_factor = %s
debug_warped_cells = True
"""


def call(*args):
    if not SERVER:
        SERVER.append(simproc.Server())
        atexit.register(close)
    out = SERVER[0].call(*args)
    if out is None:
        close()
        raise core.HarnessError('simulated processes server died')
    if 'harness' in out:
        raise core.HarnessError(out['harness'])
    return out


def close():
    while SERVER:
        SERVER.pop().close()


class PROP(core.Property):
    id = 'C20'
    needs_shim = True
    rule = ('2-4 processes starting (first imports, site configuration) and'
            ' creating directories, log files, outputs and cached meshes in a'
            ' common home and working directory; a seeded controller'
            ' interleaves their file operations one system call at a time,'
            ' tears writes, kills some of them or makes the disk full; each'
            ' survivor and a process started afterwards have to behave as if'
            ' alone')
    real = ['sfepy import', 'Config', 'ensure_path', 'output', 'Problem'
            ' output', 'applications', 'gen_misc_mesh', 'mesh IO']
    stub = ['process scheduler (operations are granted one by one)']
    assumptions = ['a killed process loses no completed system call',
                   'directories are not removed while in use']
    n_quick = 600
    n_thorough = 20000
    quick_budget = 150.0
    run_timeout = 300.0

    def setup(self):
        envsim.use_cache()
        server = simproc.Server()
        server.close(wait=True)

    def gen(self, rng, tier, index):
        dirs = rng.sample(['out', 'out/a', 'out/a/b/c', 'x/y', 'out/b'],
                          rng.randint(1, 3))
        n_proc = rng.choice([2, 2, 3, 3, 4])
        kinds = rng.choice([['ensure', 'logfile', 'outdir', 'app', 'mesh'],
                            ['mesh'], ['ensure', 'app'], ['logfile'],
                            ['outdir', 'mesh']])
        common = [startwork.gen_op(rng, dirs, kinds)
                  for _ in range(rng.randint(0, 3))]
        procs = []
        for ii in range(n_proc):
            ops = [copy.deepcopy(op) for op in common
                   if rng.random() < 0.85]
            ops += [startwork.gen_op(rng, dirs, kinds)
                    for _ in range(rng.randint(0, 1))]
            if rng.random() < 0.2:
                rng.shuffle(ops)
            procs.append([{'op': 'start'}] + ops)
        kills, nospc = {}, {}
        if rng.random() < 0.5:
            for ii in rng.sample(range(n_proc), rng.randint(1, n_proc - 1)):
                kills[str(ii)] = rng.choice([rng.randint(1, 15),
                                             rng.randint(1, 80)])
        elif rng.random() < 0.3:
            nospc[str(rng.randrange(n_proc))] = [
                rng.randint(0, 12), rng.choice([1, 3, -1]),
                rng.randint(0, 1000)]
        return {'procs': procs, 'sched': rng.randrange(1 << 30),
                'stick': rng.choice([0.0, 0.3, 0.7, 0.9, 0.97]),
                'torn': rng.choice([0.0, 0.5, 1.0]),
                'kills': kills, 'nospc': nospc, 'max_steps': 4000,
                'home': rng.choice(['missing', 'empty', 'empty', 'empty',
                                    'sfepy', 'config']),
                'local': rng.random() < 0.1,
                'factor': rng.choice([1, 2.5])}

    def prepare(self, spec, root):
        os.makedirs(os.path.join(root, 'work'))
        home = os.path.join(root, 'home')
        if spec['home'] != 'missing':
            os.makedirs(home)
        if spec['home'] in ('sfepy', 'config'):
            os.makedirs(os.path.join(home, '.sfepy'))
        if spec['home'] == 'config':
            with open(os.path.join(home, '.sfepy', 'site_cfg.py'),
                      'w') as fd:
                fd.write(CONFIG % spec['factor'])
        if spec['local']:
            with open(os.path.join(root, 'work', 'site_cfg.py'), 'w') as fd:
                fd.write(CONFIG % 7)

    def run(self, spec, ctx):
        n_proc = len(spec['procs'])
        # References.
        alone = dict(spec, kills={}, nospc={}, torn=0.0)
        refs = []
        for ii in range(n_proc):
            root = os.path.join(ctx.scratch, 'ref%d' % ii)
            self.prepare(spec, root)
            procs = [[] for _ in range(ii)] + [spec['procs'][ii]]
            out = call(dict(alone, procs=procs), root)
            refs.append(out['outs'][ii])
        for ii, ref in enumerate(refs):
            ctx.check(ref['status'] == 'done', 'alone:' + ref['status'],
                      lambda: 'process %d alone: %s' % (ii, ref))
            for op, val in zip(spec['procs'][ii], ref['value']):
                ctx.check('ok' in val, 'alone-error:%s' % op['op'],
                          lambda: '%s: %s' % (op, val.get('tb')))

        root = os.path.join(ctx.scratch, 'all')
        self.prepare(spec, root)
        out = call(spec, root)
        ctx.choice_made(out['hash'], out['switches'])
        for ii in sorted(spec['kills']):
            if out['outs'][int(ii)]['status'] == 'killed':
                ctx.fault('kill')
        if spec['nospc']:
            ctx.fault('disk-full')
        if spec['torn']:
            ctx.fault('torn-write')
        ctx.event(out['hash'], out['steps'],
                  [oo['status'] for oo in out['outs']])
        for line in out['trace']:
            ctx.event(line)

        for ii, oo in enumerate(out['outs']):
            if oo['status'] == 'killed':
                continue
            ctx.check(oo['status'] == 'done', 'process:' + oo['status'],
                      lambda: 'process %d: %s' % (ii, oo))
            self.compare(spec, ctx, spec['procs'][ii], oo['value'],
                         refs[ii]['value'], 'process %d' % ii,
                         str(ii) in spec['nospc'])

        # A new process.
        for ii in range(n_proc):
            procs = [[] for _ in range(ii)] + [spec['procs'][ii]]
            late = call(dict(alone, procs=procs), root)['outs'][ii]
            ctx.check(late['status'] == 'done', 'late:' + late['status'],
                      lambda: 'late process: %s' % late)
            self.compare(spec, ctx, spec['procs'][ii], late['value'],
                         refs[ii]['value'], 'late process %d' % ii, False,
                         'late-')

    def compare(self, spec, ctx, ops, vals, refs, name, full, tag=''):
        for op, val, ref in zip(ops, vals, refs):
            kind = op['op']
            ctx.probe(kind)
            if full and (val != ref):
                # Errors of a full disk have to be reported.
                ctx.check((val.get('error') == 'OSError')
                          or (kind == 'start') and ('ok' in val)
                          and ('Warning' in val['ok']['printed']),
                          'full-disk:%s' % kind,
                          lambda: '%s: %s: %s' % (name, op, val))
                if kind == 'start' and 'error' in val:
                    break
                continue
            ctx.check('error' not in val,
                      '%serror:%s:%s' % (tag, kind, val.get('error')),
                      lambda: '%s: %s: %s' % (name, op, val['tb']))
            ctx.check(val == ref, '%sdiffers:%s' % (tag, kind),
                      lambda: '%s: %s\n%s\n  instead of\n%s'
                      % (name, op, val, ref))

    def shrink(self, spec):
        if len(spec['procs']) > 2:
            for ii in range(len(spec['procs'])):
                cand = copy.deepcopy(spec)
                cand['procs'].pop(ii)
                for key in ('kills', 'nospc'):
                    cand[key] = dict((str(int(kk) - (int(kk) > ii)), val)
                                     for kk, val in cand[key].items()
                                     if int(kk) != ii)
                yield cand
        for key in ('kills', 'nospc'):
            for kk in spec[key]:
                cand = copy.deepcopy(spec)
                cand[key].pop(kk)
                yield cand
        for ii, ops in enumerate(spec['procs']):
            for jj in range(1, len(ops)):
                cand = copy.deepcopy(spec)
                cand['procs'][ii].pop(jj)
                yield cand
        if spec['torn']:
            yield dict(spec, torn=0.0)
        for stick in (0.97, 0.9):
            if spec['stick'] < stick:
                yield dict(spec, stick=stick)
