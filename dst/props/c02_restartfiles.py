"""
C02: durability of restart files.

A simulation saves its restart files on a simulated disk that gets full, fails
and returns short writes, and its process is killed at seeded file operations,
possibly in the middle of a write.  After each life only the files survive;
the newest loadable restart file has to continue the simulation exactly.
"""
import glob
import os
import re
import shutil

import numpy as nm

from dst import core
from dst import simdisk as SD
from dst.props import c01_restart as C01

KINDS = ['crash'] * 8 + ['nospc', 'nospc', 'eio', 'eio', 'short', 'eintr',
                 'deny']


class PROP(core.Property):
    id = 'C02'
    rule = ('one evaluation is a sequence of lives of one simulation whose'
            ' restart files are on the simulated disk; faults at seeded file'
            ' operations; after each life the files are loaded and continued;'
            ' non-trivial if a fault fired; distinct by event trace')
    real = C01.PROP.real + ['Python and HDF5 file layers down to the system'
                            ' call interface']
    stub = ['system calls that change files under the output directory'
            ' (LD_PRELOAD layer over real files)',
            'process death (exit without any cleanup at a file operation)']
    assumptions = ['a killed process loses what it did not pass to write();'
                   ' what was passed to write() survives (no power failures)']
    n_quick = 320
    n_thorough = 6000
    quick_budget = 150.0
    run_timeout = 120.0
    needs_shim = True

    def setup(self):
        C01.PROP.setup(self)

    def gen(self, rng, tier, index):
        base = C01.PROP().gen(rng, tier, index)
        spec = {'kind': base['kind'], 'p': base['p']}
        pp = spec['p']
        pp['n_step'] = min(pp['n_step'], 4)
        if base['kind'] == 'ed':
            pp['t1'] = 0.02 * pp['n_step']
        # 'same': the user saves the restart always to the same file.
        spec['mode'] = rng.choice([-1, -1, 0, 'same'])
        # The user saves the restart also to the automatic file.
        spec['again'] = rng.random() < 0.2
        spec['save_results'] = rng.random() < 0.2
        # Incomplete HDF5 results may block their continuation.
        pp['output_format'] = 'vtk'
        lives = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            faults = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                kind = rng.choice(KINDS)
                faults.append({'kind': kind, 'pos': round(rng.random(), 4),
                               'count': -1 if kind == 'nospc'
                               else rng.choice([1, 1, 3]),
                               'arg': rng.choice([0, 0, 1000,
                                                  rng.randrange(1001)])})
            lives.append({'faults': faults, 'scratch': rng.random() < 0.1})
        spec['lives'] = lives
        spec['cuts'] = [round(rng.random(), 5) for _ in range(4)]
        return spec

    def shrink(self, spec):
        import copy
        for ii in range(len(spec['lives'])):
            cand = copy.deepcopy(spec)
            cand['lives'].pop(ii)
            yield cand
            for jj in range(len(spec['lives'][ii]['faults'])):
                cand = copy.deepcopy(spec)
                cand['lives'][ii]['faults'].pop(jj)
                yield cand
        if spec['cuts']:
            yield dict(spec, cuts=[])
        if spec.get('again'):
            yield dict(spec, again=False)
        for ii in range(len(spec['cuts'])):
            if len(spec['cuts']) > 1:
                yield dict(spec, cuts=[spec['cuts'][ii]])
        dummy = dict(spec, crashes=[])
        for cand in C01.PROP.shrink(self, dummy):
            cand = dict(cand)
            cand.pop('crashes')
            yield cand
        if spec['p']['n_step'] > 2:
            cand = copy.deepcopy(spec)
            cand['p']['n_step'] -= 1
            yield cand

    # -- workload ---------------------------------------------------------
    def simulate(self, spec, outdir, load, mark, hook=None):
        """The simulation; mark(kind, step) records its progress."""
        from dst import problems as P
        extra = {}
        if spec['mode'] != 'same':
            extra['save_restart'] = spec['mode']
        if load is not None:
            extra['load_restart'] = load
        pb = C01.build(spec, extra, outdir, {})
        same = os.path.join(outdir, 'my-restart.h5')
        prev = [None]

        def step_hook(pb, ts, variables):
            if hook is not None:
                hook(pb, ts)
            if spec['mode'] == 'same':
                pb.save_restart(same, ts=ts)
                mark('saved', ts.step)
            elif (prev[0] is not None) and mark is not None:
                mark('saved', prev[0])
            prev[0] = ts.step
            if spec.get('again') and (spec['mode'] != 'same') \
                    and ((ts.step % 2) == 0):
                pb.save_restart(pb.get_restart_filename(ts=ts), ts=ts)
                mark('saved', ts.step)
                prev[0] = None

        pb.solve(step_hook=step_hook, save_results=spec['save_results'],
                 verbose=False)
        if (spec['mode'] != 'same') and (prev[0] is not None):
            mark('saved', prev[0])
        return P.var_values(pb)

    def life(self, spec, outdir, load, faults, count=False):
        rfd, wfd = os.pipe()

        def fun():
            def mark(kind, step):
                os.write(wfd, b'%d\n' % step)

            self.simulate(spec, outdir, load, mark)

        out = SD.child(fun, outdir, faults)
        os.close(wfd)
        with os.fdopen(rfd) as fd:
            out.saved = [int(ii) for ii in fd.read().split()]
        return out

    def resume(self, spec, path, workdir):
        """
        Load a restart file in a new process and continue to the end; returns
        the computed steps.
        """
        spec = dict(spec, mode=0, save_results=False)

        def fun():
            from dst import problems as P
            seen = []

            def hook(pb, ts):
                seen.append((int(ts.step), float(ts.time), P.var_values(pb)))

            vals = self.simulate(spec, workdir, path, lambda *args: None,
                                 hook)
            return seen, vals

        return SD.child(fun, os.path.join(workdir, 'none'))

    def check_file(self, ctx, spec, ref, last, path, step, what):
        """
        The file has to raise an error or to be exact; returns the step of
        the file or None.
        """
        out = self.resume(spec, path, 'resume')
        shutil.rmtree('resume', ignore_errors=True)
        ctx.check(out.status in ('ok', 'error'), 'load-' + str(out.status),
                  lambda: '%s: resuming ended with %s, %s'
                  % (what, out.status, getattr(out, 'msg', '')))
        if out.status == 'error':
            ctx.event('load', what, out.error)
            return None
        seen, vals = out.value
        first = seen[0][0] if seen else last + 1
        ctx.event('load', what, 'ok', first - 1)
        if step is not None:
            ctx.check(first == step + 1, 'wrong-step',
                      lambda: '%s: resumed at step %d, expected %d'
                      % (what, first, step + 1))
        ctx.check([ss[0] for ss in seen] == list(range(first, last + 1)),
                  'steps-wrong', lambda: '%s: computed steps %s'
                  % (what, [ss[0] for ss in seen]))
        for ss, time, values in seen:
            self.compare(ctx, ref, ss, time, values)
        for name in sorted(vals):
            err = nm.abs(ref[last][1][name] - vals[name]).max()
            ctx.check(err <= 1e-8 * self.scale, 'final-state-differs',
                      lambda: '%s: final state of %s differs by %g'
                      % (what, name, err))
        ctx.probe('resumed')
        return first - 1

    compare = C01.PROP.compare
    solve = C01.PROP.solve

    def files(self, outdir):
        """Restart files, the newest first."""
        found = []
        for path in glob.glob(os.path.join(outdir, 'out.restart-*.h5')):
            step = int(re.findall(r'restart-(\d+)', path)[0])
            found.append((step, os.path.abspath(path)))
        return sorted(found, reverse=True)

    def run(self, spec, ctx):
        self.ref = {}
        C01.PROP.solve(self, spec, ctx, {}, 'ref', None, None, True)
        ref = self.ref
        self.scale = C01.scale_of(ref)
        last = max(ref)
        ctx.sim_time += ref[last][0] - ref[0][0]

        # The numbers of file operations without faults.
        dry = self.life(spec, os.path.abspath('dry'), None, [])
        if dry.status != 'ok':
            ctx.violation('no-fault-run-failed', dry.status
                          + getattr(dry, 'msg', '') + dry.tb)
        ctx.check(dry.saved == list(range(0, last + 1)), 'not-saved',
                  lambda: 'restarts saved: %s' % dry.saved)
        n_ops = len(dry.ops)
        shutil.rmtree('dry')

        outdir = os.path.abspath('out')
        best = None
        load = None
        n_save = last + 1
        for il, life in enumerate(spec['lives'] + [{'faults': []}]):
            if life.get('scratch'):
                load, k0 = None, -1
            else:
                k0 = -1 if load is None else load[0]
            total = max(1, n_ops * (last - k0) // n_save)
            faults = [dict(ff, at=int(ff['pos'] * total))
                      for ff in life['faults']]
            os.makedirs(outdir, exist_ok=True)
            ctx.choice_made('life', il, k0, sorted(
                (ff['kind'], ff['at']) for ff in faults))
            if (spec['mode'] == 'same') and (load is not None):
                # The user keeps the file the simulation is started from.
                shutil.copyfile(load[1], 'loaded.h5')
                load = (load[0], os.path.abspath('loaded.h5'))
            out = self.life(spec, outdir, load and load[1], faults)
            kinds = set(ff[1] for ff in out.fired)
            for num, kind, what in out.fired:
                ctx.faults['%s:%s' % (kind, what)] += 1
            ctx.event('life', il, k0, out.status, out.error, out.saved,
                      [ff[:3] for ff in out.fired])
            ctx.check(out.status in ('ok', 'error', 'crash'),
                      'life-' + str(out.status),
                      lambda: 'the simulation ended with %s' % out.status)
            if not (kinds - set(SD.BENIGN)):
                ctx.check(out.status == 'ok', 'failed-without-fault',
                          lambda: 'the simulation failed: %s' % out.tb)
            if out.saved:
                best = out.saved[-1] if (best is None) or life.get('scratch') \
                    or (spec['mode'] == 'same') else max(best, out.saved[-1])
            if (spec['mode'] == 'same') and life.get('scratch') \
                    and not out.saved:
                # An old or a new file.
                best = None if best is None else min(best, 0)

            # The files after the life.
            found = self.files(outdir)
            same = os.path.join(outdir, 'my-restart.h5')
            if spec['mode'] == 'same':
                found = [(None, same)] if os.path.exists(same) else []
            usable = []
            for step, path in found:
                got = self.check_file(ctx, spec, ref, last, path, step,
                                      'life %d, %s' % (il,
                                                       os.path.basename(path)))
                if got is not None:
                    usable.append((got, path))
                if (spec['mode'] == 0) and (out.status == 'ok'):
                    ctx.check(got is not None, 'saved-file-unusable',
                              lambda: 'the file of step %s cannot be loaded'
                              ' though the simulation ended normally' % step)
                if (spec['mode'] == 0) and (step in out.saved):
                    ctx.check(got is not None, 'saved-file-unusable',
                              lambda: 'the file of step %s cannot be loaded'
                              ' though its saving was successful' % step)
            if spec['mode'] == 0:
                for step in out.saved:
                    ctx.check(step in [ff[0] for ff in found], 'file-missing',
                              lambda: 'the restart file of step %s is missing'
                              % step)
            if best is not None:
                ctx.check(usable and (usable[0][0] >= best), 'not-durable',
                          lambda: 'life %d: restarts were saved up to step %d,'
                          ' usable restart files after %s: %s'
                          % (il, best, out.status, usable))
            if usable:
                load = usable[0]
            ctx.probe('lives')

        # Damaged files.
        if usable and spec['cuts']:
            with open(usable[0][1], 'rb') as fd:
                data = fd.read()
            for cut in spec['cuts']:
                num = int(cut * len(data))
                with open('cut.h5', 'wb') as fd:
                    fd.write(data[:num])
                ctx.faults['truncated-file'] += 1
                self.check_file(ctx, spec, ref, last, os.path.abspath('cut.h5'),
                                usable[0][0], 'cut at %d of %d'
                                % (num, len(data)))

    def nontrivial(self, spec, res):
        return bool(res['faults'])
