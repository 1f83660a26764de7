"""
C11: live plotting never loses, reorders or blocks logged data.

The logging and the plotting processes are tasks of the cooperative scheduler
connected by a simulated pipe; sleeping and drawing take simulated time.
"""
import os
import random

import numpy as nm

from dst import core
from dst.sched import Sched

NAMES = ['a', 'b', 'energy', 'res', 'q', 'z1', 'z2', 'w', 'err', 'e(u)']
ERRORS = (OSError, EOFError)


def decode(val):
    return complex(*val) if isinstance(val, list) else val


class PROP(core.Property):
    id = 'C11'
    rule = ('one evaluation is one seeded interleaving of a logging process'
            ' and its plotting processes over one seeded history of logging'
            ' calls; non-trivial if something was drawn; distinct by event'
            ' trace')
    real = ['Log', 'LogPlotter', 'Output', 'read_log']
    stub = ['multiprocessing spawn context, process and pipe (pickled'
            ' messages, limited capacity)', 'time.sleep (simulated clock)',
            'atexit', 'matplotlib.pyplot (records what is drawn)']
    assumptions = ['a message is received whole or not at all']
    n_quick = 8000
    n_thorough = 60000
    quick_budget = 120.0
    run_timeout = 60.0

    def setup(self):
        from dst import simmp
        simmp.install()
        import sfepy.base.log  # noqa
        import sfepy.base.log_plotter  # noqa
        from sfepy.base.base import output
        output.set_output(quiet=True)

    # -- generation -------------------------------------------------------
    def gen_group(self, rng, names):
        num = min(len(names), rng.choice([0, 1, 1, 2, 2, 3]))
        take = [names.pop(rng.randrange(len(names))) for _ in range(num)]
        kwargs = rng.choice([None, {'color': 'r'}, {'marker': 'o'}, 'list'])
        if kwargs == 'list':
            kwargs = [{'color': rng.choice('rgb'), 'alpha': 0.5}
                      for _ in take]
        return {'names': take, 'yscale': rng.choice(['linear', 'log', None]),
                'xlabel': rng.choice(['', 'time', 'it']),
                'ylabel': rng.choice(['', 'y']), 'kwargs': kwargs}

    def gen(self, rng, tier, index):
        names = list(NAMES)
        groups = [self.gen_group(rng, names)
                  for _ in range(rng.choice([1, 1, 2, 3]))]
        for gg in groups:
            gg['yscale'] = gg['yscale'] or 'linear'
        cur = list(groups)
        ops = []
        cplx = rng.random() < 0.2
        n_op = rng.choice([3, 6, 12, 25])
        n_save = 0
        for _ in range(n_op):
            cc = rng.random()
            if (cc < 0.05) and names:
                gg = self.gen_group(rng, names)
                cur.append(gg)
                ops.append({'op': 'group', 'group': gg})
            elif cc < 0.15:
                ops.append({'op': 'vlines', 'kwargs': rng.choice(
                    [{}, {'color': 'k', 'alpha': 0.3}]),
                    'igs': self.gen_igs(rng, cur)})
            elif cc < 0.27:
                n_save += 1
                ops.append({'op': 'save', 'name': 'fig%d.png' % n_save})
            elif cc < 0.40:
                ops.append({'op': 'wait'})
            elif cc < 0.46:
                ops.append({'op': 'pause', 'dt': rng.choice([0.0, 0.3, 2.0])})
            elif cc < 0.52:
                ops.append({'op': 'badlog', 'how': rng.choice(['number',
                                                               'array'])})
            elif cc < 0.54:
                ops.append({'op': 'finish', 'how': rng.choice(['call',
                                                               'method'])})
            else:
                igs = self.gen_igs(rng, cur)
                sel = range(len(cur)) if igs is None else igs
                num = sum(len(cur[ig]['names']) for ig in sel)
                args = []
                for _ in range(num):
                    val = round(rng.uniform(-10, 10), 3)
                    if cplx and (rng.random() < 0.3):
                        val = [val, 1.0]
                    args.append(val)
                xs = None
                if rng.random() < 0.4:
                    xs = [rng.choice([None, round(rng.uniform(0, 9), 2)])
                          for _ in cur]
                ops.append({'op': 'log', 'igs': igs, 'args': args, 'x': xs})
        if rng.random() < 0.5:
            ops.append({'op': 'save', 'name': 'final.png'})
        if rng.random() < 0.6:
            ops.append({'op': 'finish', 'how': rng.choice(['call',
                                                           'method'])})
        faults = []
        if rng.random() < 0.3:
            faults.append({'kind': 'kill-plotter',
                           'at': int(rng.random() ** 2 * 400)})
        if rng.random() < 0.1:
            faults.append({'kind': 'save-error', 'at': rng.randrange(3)})
        return {'groups': groups, 'ops': ops, 'faults': faults,
                'aggregate': rng.choice([1, 3, 100]),
                'sleep': rng.choice([0.01, 1.0, 1.0]),
                'draw': rng.choice([0.0, 0.1, 3.0]),
                'capacity': rng.choice([1, 200, 1000, 65536]),
                'weight': rng.choice([0.02, 0.2, 1.0, 5.0, 50.0]),
                'stick': rng.choice([0.0, 0.5, 0.9, 0.98]),
                'legends': rng.random() < 0.7,
                'text': rng.random() < 0.5,
                'sched': rng.randrange(1 << 30)}

    def gen_igs(self, rng, cur):
        if rng.random() < 0.65:
            return None
        return sorted(rng.sample(range(len(cur)), rng.randint(1, len(cur))))

    # -- model ------------------------------------------------------------
    def compare_line(self, got, x, y, num):
        """got lines of one name vs. the first num items of the model."""
        x, y = x[:num], y[:num]
        if any(isinstance(ii, complex) for ii in y):
            exp = [[float(nm.real(ii)) for ii in y],
                   [float(nm.imag(ii)) for ii in y]]
        else:
            exp = [list(y)]
        return (len(got) == len(exp)
                and all(list(gg[1]) == list(x) and list(gg[2]) == ee
                        for gg, ee in zip(got, exp)))

    def check_figure(self, ctx, what, snap, model, full, seen=None,
                     before=None):
        """
        Compare a drawn figure with the model; full: it has to contain
        everything, otherwise a prefix of each series at least as long as in
        the last drawing.
        """
        lines, vlines, groups = (model['lines'], model['vlines'],
                                 model['groups'])
        n_ax = len(snap)
        if full:
            ctx.check(n_ax == len(groups), 'axes-wrong',
                      lambda: '%s: %d axes, %d groups'
                      % (what, n_ax, len(groups)))
        for ig in range(min(n_ax, len(groups))):
            ax, gg = snap[ig], groups[ig]
            n_line = 0
            for ip, name in enumerate(gg['names']):
                x, y = lines.get((ig, ip), ([], []))
                got = [ll for ll in ax['lines']
                       if ll[0] in (name, 'Re ' + name, 'Im ' + name)]
                n_line += len(got)
                num = len(got[0][1]) if got else 0
                if full:
                    ctx.check(num == len(x), 'data-missing',
                              lambda: '%s: %d items of %s drawn, %d logged'
                              % (what, num, name, len(x)))
                ctx.check(num <= len(x), 'data-unknown',
                          lambda: '%s: %d items of %s drawn, %d logged'
                          % (what, num, name, len(x)))
                if seen is not None:
                    ctx.check(num >= seen.get((ig, ip), 0), 'data-lost',
                              lambda: '%s: %d items of %s drawn, %d before'
                              % (what, num, name, seen[(ig, ip)]))
                    seen[(ig, ip)] = num
                if num:
                    ctx.check(self.compare_line(got, x, y, num),
                              'data-differ',
                              lambda: '%s: %s drawn for %s, logged: %s'
                              % (what, got, name, (x, y)))
                    kwargs = gg['kwargs'] or {}
                    if isinstance(kwargs, list):
                        kwargs = kwargs[ip]
                    for key in kwargs:
                        ctx.check(got[0][3].get(key) == kwargs[key],
                                  'kwargs-lost', lambda: '%s: %s drawn with'
                                  ' %s' % (what, name, got[0][3]))
                    ctx.check(ax['scale'] == (gg['yscale'] or 'linear'),
                              'scale-wrong', lambda: '%s: %s, not %s'
                              % (what, ax['scale'], gg['yscale']))
            ctx.check(n_line == len(ax['lines']), 'lines-unknown',
                      lambda: '%s: group %d has lines %s' %
                      (what, ig, [ll[0] for ll in ax['lines']]))
            vl = [list(ii) for ii in vlines.get(ig, [])]
            got = [[xx, kw] for xx, kw in ax['vlines']]
            if full:
                ctx.check(got == vl, 'vlines-differ',
                          lambda: '%s: vertical lines %s in %d, expected %s'
                          % (what, got, ig, vl))
            else:
                ctx.check(got == vl[:len(got)], 'vlines-differ',
                          lambda: '%s: vertical lines %s in %d, expected %s'
                          % (what, got, ig, vl))

    def run(self, spec, ctx):
        from dst import simmp
        from sfepy.base.log import Log, read_log
        import sfepy.base.log_plotter as lp
        rng = random.Random(spec['sched'])
        drng = random.Random(spec['sched'] + 1)
        sched = Sched(rng, ctx, max_switches=400000)
        sched.weights = {'plotter': spec['weight']}
        sched.stickiness = spec['stick']
        world = simmp.World(sched, ctx, spec['capacity'])
        if spec['draw'] > 0.0:
            world.draw_time = lambda: drng.uniform(0.0, spec['draw'])
        count = [0, 0]
        faults = {ff['kind']: ff['at'] for ff in spec['faults']}

        def killer():
            count[0] += 1
            if (count[0] >= faults.get('kill-plotter', 1e9)):
                for proc in world.procs:
                    if proc.is_alive():
                        sched.kill(proc._task)
                        ctx.fault('kill-plotter')
                        faults.pop('kill-plotter')
                        world.failed = True
                        break

        def save_fault(name):
            if count[1] == faults.get('save-error', -1):
                ctx.fault('save-error')
                world.failed = True
                count[1] += 1
                raise OSError(13, 'Permission denied', name)
            count[1] += 1

        world.failed = False
        world.fig0 = None
        world.killer = killer
        world.save_fault = save_fault
        model = {'lines': {}, 'vlines': {}, 'groups': []}
        drawn = {}

        def on_draw(fig):
            ctx.probe('draws')
            if world.failed and (fig is not world.fig0):
                # A new process started after the failure.
                return
            if fig is world.figures[-1]:
                world.fig0 = fig
                try:
                    self.check_figure(ctx, 'drawing', fig.shown, model, False,
                                      drawn)
                except core.Violation as exc:
                    world.violation = world.violation or exc

        world.on_draw = on_draw
        simmp.WORLD = world
        try:
            self.workload(spec, ctx, world, sched, Log, model, drawn)
            self.check_violation(world)
        finally:
            simmp.WORLD = None
            sched.close()
            lp.LogPlotter.output.set_output(quiet=True)
        ctx.sim_time += sched.now
        for proc in world.procs:
            if not world.failed:
                ctx.check(proc.exc is None, 'plotter-failed',
                          lambda: 'the plotting process failed: %r'
                          % proc.exc)
        if spec['text']:
            log, info = read_log('log.txt')
            for key in sorted(set(model['text']) | set(log)):
                xs, ys, vs = log.get(key, ([], [], []))
                ref = model['text'].get(key, ([], []))
                ctx.check((list(xs) == list(ref[0]))
                          and (len(ys) == len(ref[1])) and all(
                              abs(a - b) <= 1e-3 * abs(b) for a, b
                              in zip(ys, ref[1])), 'text-log-differs',
                          lambda: 'text log of %d: %s, %s, expected %s'
                          % (key, xs, ys, ref))

    def check_violation(self, world):
        if world.violation is not None:
            raise world.violation

    def workload(self, spec, ctx, world, sched, Log, model, drawn):
        groups = model['groups']
        groups.extend(spec['groups'])
        xs = [[] for _ in groups]
        text = model['text'] = {}
        log = Log([gg['names'] for gg in groups],
                  plot_kwargs=[gg['kwargs'] or {} for gg in groups],
                  xlabels=[gg['xlabel'] for gg in groups],
                  ylabels=[gg['ylabel'] for gg in groups],
                  yscales=[gg['yscale'] for gg in groups],
                  aggregate=spec['aggregate'], sleep=spec['sleep'],
                  show_legends=spec['legends'],
                  log_filename='log.txt' if spec['text'] else None)
        live = False
        n_sent = 0
        ended = False   # Finished at least once: the text log is closed.

        def call(fun, *args, **kwargs):
            """Errors are allowed only after a fault."""
            try:
                fun(*args, **kwargs)
            except ERRORS as exc:
                self.check_violation(world)
                ctx.check(world.failed, 'logging-failed',
                          lambda: 'no fault, but: %r' % exc)
                ctx.event('error', type(exc).__name__)
                ctx.probe('errors')
                return False
            self.check_violation(world)
            return True

        def n_saved(name):
            return sum(ss[0] == name for fig in world.figures
                       for ss in fig.saved)

        for io, op in enumerate(spec['ops']):
            kind = op['op']
            ctx.event('op', io, kind, '%.3f' % sched.now)
            if kind == 'log':
                sel = list(range(len(groups))) if op['igs'] is None \
                    else op['igs']
                if not live:
                    # A new plotting process knows only the new data.
                    model['lines'].clear()
                    model['vlines'].clear()
                    drawn.clear()
                live = True
                off = nm.cumsum([0] + [len(gg['names']) for gg in groups])
                args = [decode(ii) for ii in op['args']]
                it = iter(args)
                for ig in sel:
                    x = None if op['x'] is None else op['x'][ig]
                    if x is None:
                        x = xs[ig][-1] + 1 if xs[ig] else 0
                    xs[ig].append(x)
                    for ip in range(len(groups[ig]['names'])):
                        val = next(it)
                        line = model['lines'].setdefault((ig, ip), ([], []))
                        line[0].append(x)
                        line[1].append(val)
                        if not ended:
                            tt = text.setdefault(int(off[ig] + ip), ([], []))
                            tt[0].append(x)
                            tt[1].append(val)
                kwargs = {}
                if op['igs'] is not None:
                    kwargs['igs'] = op['igs']
                if op['x'] is not None:
                    kwargs['x'] = op['x']
                call(log, *args, **kwargs)
            elif kind == 'badlog':
                # A refused call logs nothing.
                num = sum(len(gg['names']) for gg in groups)
                if op['how'] == 'array':
                    if not num:
                        continue
                    args = [1.0] * (num - 1) + [nm.array([1.0, 2.0])]
                else:
                    args = [1.0] * (num + 1)
                try:
                    log(*args)
                    ok = True
                except (IndexError, ValueError):
                    ok = False
                self.check_violation(world)
                ctx.check(not ok, 'wrong-call-accepted',
                          lambda: '%d arguments of %d' % (len(args), num))
                ctx.probe('refused')
            elif kind == 'group':
                gg = op['group']
                groups.append(gg)
                xs.append([])
                call(log.add_group, gg['names'], gg['kwargs'], gg['yscale'],
                     gg['xlabel'], gg['ylabel'])
            elif kind == 'vlines':
                sel = range(len(groups)) if op['igs'] is None else op['igs']
                if live:
                    for ig in sel:
                        if xs[ig]:
                            model['vlines'].setdefault(ig, []).append(
                                [xs[ig][-1], op['kwargs']])
                call(log.plot_vlines, op['igs'], **op['kwargs'])
            elif kind == 'save':
                num = n_saved(op['name'])
                ok = call(log, save_figure=op['name'])
                if live and ok and not world.failed:
                    ctx.check(n_saved(op['name']) == num + 1, 'not-saved',
                              lambda: 'figure %s is not saved' % op['name'])
                    snap = world.figures[-1].saved[-1]
                    ctx.check(snap[0] == op['name'], 'wrong-figure',
                              lambda: '%s saved' % snap[0])
                    self.check_figure(ctx, op['name'], snap[1], model, True)
                    ctx.probe('saved')
                elif live and ok:
                    # The fault did not concern this call or it was not
                    # noticed.
                    ctx.check(n_saved(op['name']) == num + 1, 'not-saved',
                              lambda: 'figure %s is not saved, no error'
                              % op['name'])
            elif kind == 'pause':
                sched.sleep(op['dt'])
            elif kind == 'wait':
                n_draw = (world.n_sent - n_sent) // spec['aggregate'] + 4
                n_sent = world.n_sent
                sched.sleep(n_draw * (spec['sleep'] + spec['draw'] + 0.01))
                self.check_violation(world)
                if live and not world.failed:
                    fig = world.figures[-1]
                    ctx.check(fig.shown is not None, 'not-drawn',
                              'nothing drawn')
                    self.check_figure(ctx, 'display after waiting',
                                      fig.shown, model, True)
                    ctx.probe('waited')
            elif kind == 'finish':
                if op['how'] == 'call':
                    call(log, finished=True)
                else:
                    call(log.terminate)
                ended = True
                if not world.failed:
                    self.check_ended(ctx, world)
                live = False
                if world.failed:
                    # The state after a failed termination is not specified.
                    break

        # The end of the program.
        for fun, args, kwargs in reversed(list(world.atexit)):
            call(fun, *args, **kwargs)
        if not world.failed:
            self.check_ended(ctx, world)
        else:
            # The daemon processes are terminated at exit.
            for proc in world.procs:
                if proc.is_alive():
                    proc.terminate()
                    proc.join()

    def check_ended(self, ctx, world):
        for proc in world.procs:
            ctx.check(not proc.is_alive(), 'not-terminated',
                      'the plotting process runs after the termination')
        for fig in world.figures:
            ctx.check(fig.closed, 'not-closed', 'a figure is not closed')

    def nontrivial(self, spec, res):
        return res['probes'].get('draws', 0) > 0
