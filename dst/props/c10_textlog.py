"""
C10: the text log records exactly what was logged.

A logging process runs on a simulated disk that kills it, gets full or fails
at seeded file operations; what the surviving file reads back as is compared
with a model, which is the list of the items logged.
"""
import os

import numpy as nm

from dst import core
from dst import simdisk as SD

KINDS = ['crash'] * 6 + ['nospc', 'nospc', 'eio', 'short', 'eintr', 'deny']

FORMATS = [None, '{:.3e}', '{:.16e}', '%.5f', '{}', '%s', '{:d}', '%g',
           '{: .8e}', '%e']

LABELS = ['iteration', '', None, 'time [s]', 'a, b', 'x: y', '$\\sigma$',
          'error: rel., abs.', '#1']

NAMES = ['x', 'energy', 'E(u)', 'res. norm', 'a-b', '$\\alpha$', 'eigenvalue',
         'b2', 'q/p', '|r|']

KWARGS = [{}, {'color': 'r'}, {'ls': '--', 'marker': 'o'}, None]

SPECIAL = {'nan': nm.nan, 'inf': nm.inf, '-inf': -nm.inf}


def decode(val):
    """JSON item to a value to be logged."""
    kind, vv = val
    if kind == 'f':
        return float(vv)
    if kind == 'i':
        return int(vv)
    if kind == 'c':
        return complex(*vv)
    if kind == 's':
        return SPECIAL[vv]
    if kind == 'a0':
        return nm.array(vv)
    if kind == 'a1':
        return nm.array([vv])
    if kind == 'f32':
        return nm.float32(vv)
    if kind == 'bad':
        return nm.array([1.0, 2.0])
    raise ValueError(kind)


def scalar(val):
    val = decode(val)
    return val.ravel()[0] if isinstance(val, nm.ndarray) else val


def text_of(fmt, val):
    fmt = '{:.3e}' if fmt is None else fmt
    return (fmt % (val,)) if '%' in fmt else fmt.format(val)


def parse(txt):
    try:
        return float(txt)
    except ValueError:
        return complex(txt.replace(' ', ''))


def same(a, b):
    a, b = complex(a), complex(b)
    return all((x == y) or (x != x and y != y)
               for x, y in ((a.real, b.real), (a.imag, b.imag)))


class PROP(core.Property):
    id = 'C10'
    rule = ('one evaluation is one history of logging calls of a process on'
            ' the simulated disk with faults at seeded file operations,'
            ' followed by reading the file; non-trivial if something was'
            ' logged; distinct by event trace')
    real = ['Log', 'Output', 'read_log', 'write_log', 'Python file layer']
    stub = ['system calls that change files (LD_PRELOAD layer over real'
            ' files)', 'process death (exit without any cleanup at a file'
            ' operation)']
    assumptions = ['data names do not contain commas, colons and quotes'
                   ' (separators of the log file format)',
                   'completed write() calls survive the process death']
    n_quick = 2000
    n_thorough = 60000
    quick_budget = 120.0
    run_timeout = 60.0
    needs_shim = True

    def setup(self):
        import sfepy.base.log  # noqa
        from sfepy.base.base import output
        output.set_output(quiet=True)

    # -- generation -------------------------------------------------------
    def gen_group(self, rng):
        num = rng.choice([0, 1, 1, 2, 3]) if rng.random() < 0.9 else 5
        names = rng.sample(NAMES, num)
        ints = [rng.random() < 0.15 for _ in names]
        fmts = None
        if rng.random() < 0.7:
            fmts = [rng.choice(FORMATS[1:]) for _ in names]
            fmts = [('{:d}' if ii else ff) if (ff == '{:d}') == ii
                    else ('{:d}' if ii else '{:.16e}')
                    for ii, ff in zip(ints, fmts)]
        return {'names': names, 'formats': fmts,
                'xlabel': rng.choice(LABELS), 'ylabel': rng.choice(LABELS),
                'yscale': rng.choice(['linear', 'log']),
                'kwargs': rng.choice(KWARGS)}

    def gen_value(self, rng, fmt):
        if fmt == '{:d}':
            return ['i', rng.randrange(-1000, 100000)]
        cc = rng.random()
        if (cc < 0.12) and (fmt in (None, '{:.3e}', '{:.16e}', '{}', '%s')):
            return ['c', [rng.uniform(-10, 10), rng.uniform(-1e-3, 1e5)]]
        if cc < 0.2:
            return ['s', rng.choice(sorted(SPECIAL))]
        val = rng.choice([1.0, 1e-12, 1e12, 1e-310, 1e300]) \
            * rng.uniform(-1.0, 1.0)
        kind = rng.choice(['f', 'f', 'f', 'a0', 'a1'])
        if cc < 0.28:
            kind = 'i'
            val = rng.randrange(-100, 100)
        return [kind, val]

    def gen(self, rng, tier, index):
        groups = [self.gen_group(rng) for _ in range(rng.choice([0, 1, 1, 2, 2,
                                                                 3]))]
        # Old data names can be only used once.
        used = set()
        for gg in groups:
            keep = [ii for ii, nn in enumerate(gg['names']) if nn not in used]
            gg['names'] = [gg['names'][ii] for ii in keep]
            if gg['formats'] is not None:
                gg['formats'] = [gg['formats'][ii] for ii in keep]
            used.update(gg['names'])
        ops = []
        n_extra = 0
        cur = list(groups)
        for _ in range(rng.choice([2, 4, 8, 15, 30])):
            cc = rng.random()
            if (cc < 0.06) and (n_extra < 2):
                gg = self.gen_group(rng)
                n_extra += 1
                cur.append(gg)
                ops.append({'op': 'group', 'group': gg})
                continue
            if cc < 0.18:
                igs = None
                if cur and (rng.random() < 0.5):
                    igs = sorted(rng.sample(range(len(cur)),
                                            rng.randint(1, len(cur))))
                ops.append({'op': 'vlines', 'igs': igs})
                continue
            if cc < 0.22:
                ops.append({'op': 'verbose', 'value': rng.random() < 0.5})
                continue
            igs = None
            if cur and (rng.random() < 0.35):
                igs = sorted(rng.sample(range(len(cur)),
                                        rng.randint(1, len(cur))))
            sel = range(len(cur)) if igs is None else igs
            args = []
            for ig in sel:
                gg = cur[ig]
                for ii in range(len(gg['names'])):
                    fmt = None if gg['formats'] is None else gg['formats'][ii]
                    args.append(self.gen_value(rng, fmt))
            xs = None
            if rng.random() < 0.5:
                xs = [rng.choice([None, rng.uniform(0, 10),
                                  rng.randrange(100)]) for _ in cur]
            bad = None
            if args and (rng.random() < 0.07):
                bad = rng.choice(['array', 'few', 'many'])
                if bad == 'array':
                    args[rng.randrange(len(args))] = ['bad', 0]
                elif bad == 'few':
                    args.pop()
                elif igs is None:
                    args.append(['f', 1.0])
                else:
                    bad = None
            ops.append({'op': 'log', 'igs': igs, 'args': args, 'x': xs,
                        'bad': bad})
        if rng.random() < 0.6:
            ops.append({'op': 'finish', 'how': rng.choice(['call',
                                                           'terminate'])})
            if rng.random() < 0.3:
                ops.append({'op': 'finish', 'how': 'terminate'})
        faults = []
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            kind = rng.choice(KINDS)
            faults.append({'kind': kind, 'pos': round(rng.random(), 4),
                           'count': -1 if kind == 'nospc'
                           else rng.choice([1, 1, 3]),
                           'arg': rng.choice([0, 0, 1000,
                                              rng.randrange(1001)])})
        return {'groups': groups, 'ops': ops, 'faults': faults,
                'dir': rng.random() < 0.2,
                'quiet': rng.random() < 0.2,
                'rewrite': rng.random() < 0.3,
                'partial': rng.random() < 0.3}

    # -- workload ---------------------------------------------------------
    def workload(self, spec, filename, mark):
        from sfepy.base.log import Log
        from sfepy.base.goptions import goptions
        groups = spec['groups']

        goptions['verbose'] = not spec['quiet']
        mark('start')
        log = Log([gg['names'] for gg in groups],
                  plot_kwargs=[gg['kwargs'] or {} for gg in groups],
                  xlabels=[gg['xlabel'] for gg in groups],
                  ylabels=[gg['ylabel'] for gg in groups],
                  yscales=[gg['yscale'] for gg in groups],
                  formats=[gg['formats'] for gg in groups],
                  is_plot=False, log_filename=filename)
        mark('created')
        for io, op in enumerate(spec['ops']):
            mark('begin', io)
            if op['op'] == 'log':
                kwargs = {}
                if op['igs'] is not None:
                    kwargs['igs'] = op['igs']
                if op['x'] is not None:
                    kwargs['x'] = op['x']
                args = [decode(ii) for ii in op['args']]
                try:
                    log(*args, **kwargs)
                except (IndexError, ValueError) as exc:
                    if op['bad'] is None:
                        raise
                    mark('refused', io)
                    continue
            elif op['op'] == 'group':
                gg = op['group']
                log.add_group(gg['names'], gg['kwargs'], gg['yscale'],
                              gg['xlabel'], gg['ylabel'], gg['formats'])
            elif op['op'] == 'vlines':
                log.plot_vlines(op['igs'])
            elif op['op'] == 'verbose':
                goptions['verbose'] = op['value']
            elif op['op'] == 'finish':
                if op['how'] == 'call':
                    log(finished=True)
                else:
                    log.terminate()
            mark('end', io)

    # -- model ------------------------------------------------------------
    def model(self, spec):
        """
        The items of the file: (op index, key, x, value text or None for
        vlines).
        """
        groups = [dict(gg) for gg in spec['groups']]
        xs = [[] for _ in groups]
        items = []
        finished = False
        refused = set()
        for io, op in enumerate(spec['ops']):
            if op['op'] == 'group':
                groups.append(op['group'])
                xs.append([])
            elif op['op'] == 'finish':
                finished = True
            elif op['op'] in ('log', 'vlines'):
                if op.get('bad') is not None:
                    refused.add(io)
                    continue
                off = nm.cumsum([0] + [len(gg['names']) for gg in groups])
                sel = range(len(groups)) if op['igs'] is None else op['igs']
                args = list(op.get('args', []))
                for ig in sel:
                    gg = groups[ig]
                    if op['op'] == 'log':
                        x = None if op['x'] is None else op['x'][ig]
                        if x is None:
                            x = xs[ig][-1] + 1 if xs[ig] else 0
                        xs[ig].append(x)
                    for ip in range(len(gg['names'])):
                        if op['op'] == 'log':
                            val = scalar(args.pop(0))
                            fmt = None if gg['formats'] is None \
                                else gg['formats'][ip]
                            txt = text_of(fmt, val)
                        else:
                            txt = None
                        if not finished:
                            items.append((io, int(off[ig] + ip),
                                          xs[ig][-1] if xs[ig] else None,
                                          txt))
        return groups, items, refused

    def series(self, items):
        """What read_log() has to return for the items."""
        log = {}
        for io, key, x, txt in items:
            xs, ys, vs = log.setdefault(key, ([], [], []))
            if txt is None:
                if xs:
                    vs.append(xs[-1])
            else:
                xs.append(x)
                ys.append(parse(txt))
        return log

    def agrees(self, log, ref):
        for key, (xs, ys, vs) in ref.items():
            if key not in log:
                if len(xs) or len(vs):
                    return 'no data %d' % key
                continue
            for name, aa, bb in zip(('x', 'y', 'vlines'), log[key],
                                    (xs, ys, vs)):
                if len(aa) != len(bb):
                    return '%s of %d: %d items, expected %d' \
                        % (name, key, len(aa), len(bb))
                for ii, (a, b) in enumerate(zip(aa, bb)):
                    if not same(a, b):
                        return '%s[%d] of %d: %s, expected %s' \
                            % (name, ii, key, a, b)
        for key in log:
            if (key not in ref) and len(log[key][0]):
                return 'unknown data %s' % key
        return None

    def check_info(self, ctx, spec, info, what):
        """The header describes the groups the log was created with."""
        groups = spec['groups']
        ctx.check(sorted(info) == list(range(len(groups))), 'info-wrong',
                  lambda: '%s: groups %s, expected %d'
                  % (what, sorted(info), len(groups)))
        for ig, gg in enumerate(groups):
            xl, yl, ys, names, kwargs = info[ig]
            exp = (gg['xlabel'] or '', gg['ylabel'] or '', gg['yscale'],
                   gg['names'], [gg['kwargs'] or {}] * len(gg['names']))
            got = (xl, yl, ys, list(names),
                   list(kwargs)[:len(gg['names'])])
            ctx.check(got == exp, 'info-wrong',
                      lambda: '%s: group %d: %s, expected %s'
                      % (what, ig, got, exp))

    def run(self, spec, ctx):
        from sfepy.base.base import Output
        from sfepy.base.log import read_log, write_log
        outdir = os.path.abspath('out')
        os.mkdir(outdir)
        filename = os.path.join(outdir, 'log.txt')
        if spec['dir']:
            filename = os.path.join(outdir, 'a', 'b', 'log.txt')

        def life(where, faults):
            rfd, wfd = os.pipe()

            def fun():
                def mark(what, io=-1):
                    os.write(wfd, ('%s %d\n' % (what, io)).encode())
                self.workload(spec, where, mark)
            out = SD.child(fun, outdir, faults, timeout=30.0)
            os.close(wfd)
            with os.fdopen(rfd) as fd:
                out.marks = [(ii.split()[0], int(ii.split()[1]))
                             for ii in fd.read().splitlines()]
            return out

        groups, items, refused = self.model(spec)
        faults = spec['faults']
        if faults:
            dry = life(os.path.join(outdir, 'dry.txt'), [])
            n_ops = len(dry.ops)
            faults = [dict(ff, at=int(ff['pos'] * max(1, n_ops)))
                      for ff in faults]
            # The rule of the simulated disk: numbers are those of one life.
        ctx.choice_made('life', sorted((ff['kind'], ff['at'])
                                       for ff in faults))
        out = life(filename, faults)
        for num, kind, what in out.fired:
            ctx.faults['%s:%s' % (kind, what)] += 1
        kinds = set(ff[1] for ff in out.fired) - set(SD.BENIGN)
        ctx.event('life', out.status, out.error, len(out.marks),
                  [ff[:2] for ff in out.fired])
        ctx.check(out.status in ('ok', 'error', 'crash'),
                  'logging-' + out.status, lambda: 'logging ended with %s'
                  % out.status)
        if not kinds:
            ctx.check(out.status == 'ok', 'logging-failed',
                      lambda: 'logging failed: %s' % out.tb)
        elif kinds != {'crash'}:
            # A disk error occurred.
            ctx.check(out.status != 'ok', 'error-not-reported',
                      lambda: 'a disk error was not reported: %s'
                      % (out.fired,))
            if out.status == 'error':
                ctx.check(out.error in ('OSError', 'PermissionError',
                                        'FileNotFoundError'),
                          'wrong-error', lambda: out.tb)
        got_refused = set(io for what, io in out.marks if what == 'refused')
        done = set(io for what, io in out.marks if what == 'end')
        seen = set(io for what, io in out.marks if what == 'begin')
        ctx.check(got_refused <= refused, 'call-refused',
                  lambda: 'valid calls %s were refused'
                  % sorted(got_refused - refused))
        ctx.check(not (done & refused), 'invalid-call-accepted',
                  lambda: 'invalid calls %s were accepted'
                  % sorted(done & refused))
        if not out.marks or (('created', -1) not in out.marks):
            ctx.probe('not-created')
            return

        # The items that have to be in the file, and those of the call in
        # progress.
        sure = [ii for ii in items if ii[0] in done]
        last = max(seen) if seen else -1
        perhaps = [] if (last in done) or (last in refused) \
            else [ii for ii in items if ii[0] == last]
        log, info = read_log(filename)
        self.check_info(ctx, spec, info, 'file')
        errs = []
        for num in range(len(perhaps) + 1):
            err = self.agrees(log, self.series(sure + perhaps[:num]))
            ctx.n_checks += 1
            if err is None:
                break
            errs.append(err)
        else:
            ctx.violation('log-differs', 'after %s: %s' % (out.status, errs))
        n_item = len(sure) + num
        ctx.event('items', n_item)
        ctx.probe('items', n_item)
        with open(filename) as fd:
            txt = fd.read()
        if (out.status == 'ok') and any(op['op'] == 'finish'
                                        for op in spec['ops']):
            ctx.check((txt.splitlines() or [''])[-1].startswith('# ended:'),
                      'no-end', 'the end of the log is not marked')

        # Reading a log being written: any incomplete prefix of the file.
        if spec['partial']:
            start = 0
            lines = txt.splitlines(True)
            head = 0
            while (head < len(lines)) and lines[head].startswith('#'):
                start += len(lines[head])
                head += 1
            size = len(txt.encode())
            for frac in (0.3, 0.5, 0.8, 0.97):
                cut = start + int(frac * (size - start))
                with open('cut.txt', 'wb') as fd:
                    fd.write(txt.encode()[:cut])
                ctx.faults['truncated-file'] += 1
                log2, info2 = read_log('cut.txt')
                n_line = txt.encode()[:cut].count(b'\n')
                body = [ll for ll in lines[:n_line]
                        if not ll.startswith('#')]
                err = self.agrees(log2, self.series(
                    (sure + perhaps)[:len(body)]))
                ctx.check(err is None, 'prefix-differs',
                          lambda: 'the first %d bytes: %s' % (cut, err))

        if spec['rewrite'] and log:
            # Needs data of all names of the header.
            n_data = sum(len(gg['names']) for gg in spec['groups'])
            ref = self.series(sure + perhaps[:num])
            ok = all((key in ref) and
                     (len(set(ref[key][0])) == len(ref[key][0]))
                     and len(set(ref[key][2])) == len(ref[key][2])
                     for key in range(n_data)) and (n_data > 0)
            if ok:
                out2 = Output('', filename='again.txt')
                write_log(lambda *args: out2(*args, verbose=True), log, info)
                log3, info3 = read_log('again.txt')
                self.check_info(ctx, spec, info3, 'rewritten')
                ref = {key: ref[key] for key in range(n_data)}
                for key, (xs, ys, vs) in log3.items():
                    # Written with 16 digits.
                    for a, b in zip(ys, ref[key][1]):
                        ctx.check(same(a, b) or abs(a - b)
                                  <= 1e-14 * abs(b), 'rewrite-differs',
                                  lambda: '%s != %s' % (a, b))
                    ref[key] = (ref[key][0], list(ys), ref[key][2])
                err = self.agrees(log3, ref)
                ctx.check(err is None, 'rewrite-differs', err)
                ctx.probe('rewritten')

    def nontrivial(self, spec, res):
        return res['probes'].get('items', 0) > 0
