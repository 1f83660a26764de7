"""
C06: the multi-process homogenization engine versus the sequential one.

The pool and the manager are simulated: worker processes interleave at every
access to the shared dictionaries, task queue and during simulated
computation times, as decided by a seeded scheduler.
"""
import copy
import os

import numpy as nm

from dst import core
from dst import homog as H


def run_ops(sess, ctx, spec, tag):
    """Run the operations of a session, return the list of their results."""
    apps = {}
    results = []
    corrs = {}
    for io, op in enumerate(spec['ops']):
        ip = op['problem']
        sess.calls = []
        if op['op'] == 'call':
            if (ip not in apps) or op.get('renew'):
                apps[ip] = sess.make_app(ip)
            app = apps[ip]
            md = H.macro_data(op)
            if md is not None:
                app.setup_macro_data(md)
            coefs, deps = app(ret_all=True, itime=op.get('itime'),
                              iiter=op.get('iiter'))
            corrs[ip] = deps
            res = {'coefs': H.plain(coefs, ''), 'deps': H.plain(deps, '')}
            res['coefs'].pop('info', None)
        else:
            if ip not in corrs:
                results.append(None)
                continue
            app = apps[ip]
            cdeps = {kk: vv for kk, vv in corrs[ip].items()}
            if op.get('fresh') and sess.multi:
                sess.multiproc.active_workers['pool'] = None
            rhook = app.he.conf.get_function('recovery')
            data = [({'eps0': 0.1, 'val': nm.array([float(vv)])},
                     'point %d' % ii) for ii, vv in enumerate(op['data'])]
            res = {'recovered': H.plain(app.he.recover(cdeps, rhook, data),
                                        '')}
        res['calls'] = sorted(map(str, sess.calls))
        ctx.event(tag, io, op['op'], len(res['calls']))
        results.append(res)
    files = {}
    for ip in apps:
        top = os.path.join(sess.scratch, ('multi' if sess.multi else 'seq')
                           + '-%d' % ip)
        files[ip] = H.list_files(top)
    return results, files


def read_saved(sess, files):
    """Contents of the saved correctors and coefficients."""
    from sfepy.homogenization.coefficients import Coefficients
    from sfepy.homogenization.micmac import get_correctors_from_file_hdf5
    out = {}
    for ip, names in files.items():
        top = os.path.join(sess.scratch, ('multi' if sess.multi else 'seq')
                           + '-%d' % ip)
        for name in names:
            path = os.path.join(top, name)
            if not name.endswith('.h5'):
                continue
            if name.startswith('coefs'):
                val = Coefficients.from_file_hdf5(path)
            else:
                val = get_correctors_from_file_hdf5(
                    dump_names={'x': path[:-3]})
            out['%d/%s' % (ip, name)] = H.plain(val, '')
            out['%d/%s' % (ip, name)].pop('_filename', None) \
                if isinstance(out['%d/%s' % (ip, name)], dict) else None
            out['%d/%s' % (ip, name)].pop('filename', None)
    return out


class PROP(core.Property):
    id = 'C06'
    rule = ('seeded sessions of 1-5 engine calls and recoveries on 1-2'
            ' micro-problems with random dependency graphs, pool sizes,'
            ' chunking and schedules of the simulated workers; coefficients,'
            ' correctors, saved files and the multiset of computations are'
            ' compared with the sequential engine')
    real = ['HomogenizationApp', 'HomogenizationEngine',
            'HomogenizationWorkerMulti', 'mini applications', 'Problem',
            'saving and reading of correctors and coefficients']
    stub = ['ProcessPoolExecutor (cooperative simulated processes, pickled'
            ' arguments and results)', 'multiprocessing manager dictionaries']
    assumptions = ['module state of a worker process that matters is the'
                   ' cache and the tolerances of periodic matching',
                   'manager dictionary operations are atomic']
    n_quick = 120
    n_thorough = 3000
    quick_budget = 150.0
    run_timeout = 120.0

    def setup(self):
        H.setup()

    def gen(self, rng, tier, index):
        problems = []
        for _ in range(rng.choice([1, 1, 2])):
            uu = rng.random()
            if uu < 0.5:
                problems.append(H.gen_linear(rng))
            elif uu < 0.75:
                problems.append(H.gen_linear(rng, micro=True))
            else:
                problems.append(H.gen_nonlinear(rng))
        ops = []
        started = set()
        for ii in range(rng.randint(1, 4)):
            ip = rng.randrange(len(problems))
            par = problems[ip]
            if ii and par['conf'].get('use_recovery') and rng.random() < 0.5 \
                    and not par.get('n_micro'):
                ops.append({'op': 'recover', 'problem': ip,
                            'fresh': rng.random() < 0.2,
                            'data': [rng.randrange(100)
                                     for _ in range(rng.randint(1, 4))]})
            else:
                op = {'op': 'call', 'problem': ip,
                      'macro': H.gen_macro(rng, par, ip not in started)}
                started.add(ip)
                if par.get('n_micro') or rng.random() < 0.3:
                    op['itime'] = ii
                if op.get('itime') is not None and rng.random() < 0.3:
                    op['iiter'] = rng.randrange(3)
                if rng.random() < 0.1:
                    op['renew'] = True
                    op['macro'] = H.gen_macro(rng, par, True)
                ops.append(op)
        return {'problems': problems, 'ops': ops,
                'max_workers': rng.choice([1, 2, 2, 3, 4]),
                'cpus': rng.choice([2, 4, 8]),
                'slow_parent': rng.random() < 0.3,
                'stick': rng.choice([0.0, 0.5, 0.9]),
                'sched_seed': rng.randrange(1 << 30)}

    def run(self, spec, ctx):
        seq = H.Session(ctx, spec, False, ctx.scratch)
        try:
            ref, rfiles = run_ops(seq, ctx, spec, 'seq')
        finally:
            seq.close()
        multi = H.Session(ctx, spec, True, ctx.scratch)
        try:
            res, files = run_ops(multi, ctx, spec, 'multi')
        finally:
            multi.close()
        for io, (rr, vv) in enumerate(zip(ref, res)):
            if rr is None:
                continue
            kind = spec['ops'][io]['op']
            for key in rr:
                if key == 'calls':
                    continue
                H.compare(ctx, '%s-differ' % key, rr[key], vv[key],
                          'op %d' % io)
            if kind == 'call':
                ctx.check(rr['calls'] == vv['calls'], 'computed-once',
                          lambda: 'op %d: computations %s expected, got %s'
                          % (io, rr['calls'], vv['calls']))
        H.compare(ctx, 'saved-files', {str(kk): vv
                                       for kk, vv in rfiles.items()},
                  {str(kk): vv for kk, vv in files.items()}, 'files')
        H.compare(ctx, 'saved-data', read_saved(seq, rfiles),
                  read_saved(multi, files), 'files')
        ctx.probe('calls', sum(op['op'] == 'call' for op in spec['ops']))
        ctx.probe('recoveries',
                  sum(op['op'] == 'recover' for op in spec['ops']))
        ctx.probe('micro-problems', sum(pp.get('n_micro') or 0
                                        for pp in spec['problems']))

    def shrink(self, spec):
        yield from core.Property.shrink(self, spec)
        if len(spec['problems']) > 1:
            for ip in range(len(spec['problems'])):
                cand = copy.deepcopy(spec)
                cand['problems'].pop(1 - ip)
                cand['ops'] = [dict(op, problem=0) for op in spec['ops']
                               if op['problem'] == ip]
                if cand['ops']:
                    yield cand
        for ip, par in enumerate(spec['problems']):
            conf = par['conf']
            for key in ('synth_coefs', 'synth_reqs'):
                for ii in range(len(conf.get(key, []))):
                    cand = copy.deepcopy(spec)
                    item = cand['problems'][ip]['conf'][key].pop(ii)
                    name = ('c.' if key == 'synth_coefs' else '') + item[0]
                    cc = cand['problems'][ip]['conf']
                    for other in cc['synth_coefs'] + cc['synth_reqs']:
                        other[1] = [dd for dd in other[1] if dd != name]
                    if cc.get('compute_only'):
                        cc['compute_only'] = [dd for dd in cc['compute_only']
                                              if dd != item[0]] or ['D']
                    yield cand
            for key, val in (('diff', False), ('filenames', False),
                             ('save_names', False), ('compute_only', None)):
                if conf.get(key) and not (key == 'diff'):
                    cand = copy.deepcopy(spec)
                    cand['problems'][ip]['conf'][key] = val
                    yield cand
        if spec['max_workers'] > 1:
            cand = copy.deepcopy(spec)
            cand['max_workers'] -= 1
            yield cand


if __name__ == '__main__':
    pass
