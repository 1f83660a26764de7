"""
C07: failing workers of the multi-process homogenization engine.

As C06, with errors raised by computations in worker processes, results that
cannot be sent back, deaths of workers and of the manager connection at seeded
points of seeded schedules.
"""
import copy

import numpy as nm

from dst import core
from dst import homog as H
from dst.sched import SimKilled
from dst.props import c06_parallel as C06

KINDS = ['raise', 'raise', 'raise', 'memory', 'interrupt', 'exit',
         'unpicklable', 'die', 'die', 'manager']


class ManagerFault(OSError):
    pass


class PROP(core.Property):
    id = 'C07'
    rule = ('seeded sessions of 2-5 engine calls and recoveries on 1-2'
            ' micro-problems over simulated workers in which a seeded'
            ' computation fails or kills its worker; the call must raise, the'
            ' others must give the sequential results')
    real = C06.PROP.real
    stub = C06.PROP.stub
    assumptions = C06.PROP.assumptions + [
        'a dead worker breaks the pool as in CPython: all its futures raise'
        ' BrokenProcessPool']
    n_quick = 160
    n_thorough = 4000
    quick_budget = 150.0
    run_timeout = 120.0

    def setup(self):
        H.setup()

    def gen(self, rng, tier, index):
        problems = []
        for _ in range(rng.choice([1, 1, 2])):
            uu = rng.random()
            if uu < 0.5:
                problems.append(H.gen_linear(rng))
            elif uu < 0.75:
                problems.append(H.gen_linear(rng, micro=True))
            else:
                problems.append(H.gen_nonlinear(rng))
        ops = []
        for ii in range(rng.randint(2, 4)):
            ip = rng.randrange(len(problems))
            par = problems[ip]
            if ii and par['conf'].get('use_recovery') and rng.random() < 0.4 \
                    and not par.get('n_micro'):
                op = {'op': 'recover', 'problem': ip,
                      'data': [rng.randrange(100)
                               for _ in range(rng.randint(1, 4))]}
            else:
                # Zero strains, so that each call is idempotent.
                op = {'op': 'call', 'problem': ip,
                      'macro': H.gen_macro(rng, par, True)}
                if par.get('n_micro') or rng.random() < 0.3:
                    op['itime'] = ii
            if (ii == 0) or (rng.random() < 0.3):
                op['fault'] = {'at': int(rng.choice([0, 1, 2, 3])
                                         if rng.random() < 0.4
                                         else rng.randrange(30)),
                               'kind': rng.choice(KINDS)}
            ops.append(op)
        return {'problems': problems, 'ops': ops,
                'max_workers': rng.choice([1, 2, 2, 3, 4]),
                'cpus': rng.choice([2, 4, 8]),
                'slow_parent': rng.random() < 0.3,
                'stick': rng.choice([0.0, 0.5, 0.9]),
                'sched_seed': rng.randrange(1 << 30)}

    def one(self, sess, apps, corrs, op):
        """One operation, returns comparable results."""
        ip = op['problem']
        if op['op'] == 'call':
            if ip not in apps:
                apps[ip] = sess.make_app(ip)
            app = apps[ip]
            md = H.macro_data(op)
            if md is not None:
                app.setup_macro_data(md)
            coefs, deps = app(ret_all=True, itime=op.get('itime'))
            corrs[ip] = deps
            return {'coefs': H.plain(coefs, ''), 'deps': H.plain(deps, '')}
        app = apps[ip]
        cdeps = {kk: vv for kk, vv in corrs[ip].items()}
        rhook = app.he.conf.get_function('recovery')
        data = [({'eps0': 0.1, 'val': nm.array([float(vv)])},
                 'point %d' % ii) for ii, vv in enumerate(op['data'])]
        return {'recovered': H.plain(app.he.recover(cdeps, rhook, data), '')}

    def reference(self, ctx, spec):
        """Each operation in its own sequential session."""
        refs = []
        for op in spec['ops']:
            sess = H.Session(ctx, spec, False, ctx.scratch)
            try:
                apps, corrs = {}, {}
                if op['op'] == 'recover':
                    call = {'op': 'call', 'problem': op['problem']}
                    md = [oo.get('macro') for oo in spec['ops']
                          if oo['problem'] == op['problem']
                          and oo.get('macro')]
                    call['macro'] = md[0] if md else None
                    self.one(sess, apps, corrs, call)
                refs.append(self.one(sess, apps, corrs, op))
            finally:
                sess.close()
        return refs

    def run(self, spec, ctx):
        # The macro data do not change, so that all calls are repeatable.
        first = {}
        spec = copy.deepcopy(spec)
        for op in spec['ops']:
            if op['op'] == 'call':
                op['macro'] = first.setdefault(op['problem'], op['macro'])
        refs = self.reference(ctx, spec)
        sess = H.Session(ctx, spec, True, ctx.scratch)
        apps, corrs = {}, {}
        try:
            for io, op in enumerate(spec['ops']):
                if (op['op'] == 'recover') and op['problem'] not in corrs:
                    continue
                self.install(sess, ctx, op.get('fault'))
                if sess.fault is None:
                    # A long-lived application or a new one.
                    if (op['op'] == 'call') and (io % 2):
                        apps.pop(op['problem'], None)
                err = None
                try:
                    res = self.one(sess, apps, corrs, op)
                except (core.Violation, core.RunTimeout, SimKilled,
                        core.HarnessError):
                    raise
                except BaseException as exc:
                    if not sess.fault_fired:
                        raise
                    err = exc
                fired = sess.fault_fired
                ctx.event(io, op['op'], 'fault' if fired else 'ok',
                          type(err).__name__)
                if fired:
                    ctx.check(err is not None, 'failure-not-reported',
                              lambda: 'op %d: %s in a worker, but the call'
                              ' returned %s' % (io, op['fault']['kind'],
                                                str(res)[:1000]))
                    ctx.probe('failed-calls')
                    continue
                for key in refs[io]:
                    H.compare(ctx, '%s-differ' % key, refs[io][key],
                              res[key], 'op %d' % io)
                ctx.probe('good-calls')
        finally:
            sess.close()

    def install(self, sess, ctx, fault):
        sess.fault_fired = False
        sess.fault = None
        world = sess.world
        world.epoch += 1
        world.fault_hook = None
        if fault is None:
            return
        if fault['kind'] == 'manager':
            count = [0]

            def hook(what):
                if (sess.sched.current is sess.sched.main
                        or world.active.epoch != world.epoch):
                    return
                count[0] += 1
                if (count[0] > fault['at']) and not sess.fault_fired:
                    sess.fault_fired = True
                    ctx.fault('worker-manager')
                    raise ManagerFault('simulated failure of the connection')

            world.fault_hook = hook
        else:
            sess.fault = dict(fault, at=sess.n_hook + fault['at'])

    def nontrivial(self, spec, res):
        return bool(res['faults']) and res['n_checks'] > 0

    def shrink(self, spec):
        yield from C06.PROP.shrink(self, spec)
        for io, op in enumerate(spec['ops']):
            if op.get('fault'):
                cand = copy.deepcopy(spec)
                cand['ops'][io].pop('fault')
                yield cand
