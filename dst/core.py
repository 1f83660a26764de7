"""
Core of the deterministic simulation machinery: seeds, event logs, seeded
search over runs, minimisation, replay, evidence.

One run is a pure function of its *spec*, a JSON-able dictionary drawn from
one PRNG seeded by (VERIF_SEED, property, run index); the spec holds the
workload, the schedule seed and the fault sequence.
"""
import collections
import copy
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')

real_time = time.time
real_perf = time.perf_counter


class Violation(Exception):
    def __init__(self, key, msg, data=None):
        Exception.__init__(self, '%s: %s' % (key, msg))
        self.key = key
        self.msg = msg
        self.data = data


class HarnessError(Exception):
    pass


class RunTimeout(BaseException):
    """A run exceeded its wall-clock backstop."""


class Ctx(object):
    """Per-run context: event log, fault and probe counters, simulated time."""

    def __init__(self, prop, spec, known=()):
        self.prop = prop
        self.spec = spec
        self.known = list(known)
        self.known_hits = []
        self.log = []
        self.hash = hashlib.sha256()
        self.n_events = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.sched = hashlib.sha256()
        self.n_sched = 0
        self.sim_time = 0.0
        self.n_checks = 0
        self.scratch = None
        self.keep_log = False

    def event(self, *args):
        txt = ' '.join(str(ii) for ii in args)
        self.hash.update(txt.encode('utf-8', 'replace') + b'\n')
        self.n_events += 1
        if self.keep_log or (len(self.log) < 400):
            self.log.append(txt)

    def choice_made(self, *args):
        """Record a scheduling/fault decision, the measure of distinct
        interleavings."""
        self.sched.update((' '.join(str(ii) for ii in args)
                           + '\n').encode('utf-8', 'replace'))
        self.n_sched += 1

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.event('fault', kind)
        self.choice_made('fault', kind, self.n_events)

    def probe(self, name, n=1):
        self.probes[name] += n

    def is_known(self, key):
        return any(kk['key'] == key for kk in self.known)

    def violation(self, key, msg, data=None):
        """Raise unless the exact key is a listed known finding."""
        if self.is_known(key):
            self.known_hits.append((key, msg))
            self.event('known', key)
            return
        raise Violation(key, msg, data)

    def check(self, cond, key, msg, data=None):
        self.n_checks += 1
        if not cond:
            self.violation(key, msg() if callable(msg) else msg, data)

    def result(self):
        return {
            'hash': self.hash.hexdigest(),
            'sched': self.sched.hexdigest(),
            'n_sched': self.n_sched,
            'n_events': self.n_events,
            'faults': dict(self.faults),
            'probes': dict(self.probes),
            'sim_time': self.sim_time,
            'n_checks': self.n_checks,
            'known': self.known_hits,
        }


class Property(object):
    """Base class of simulated checks."""
    id = None
    level = 'exploration'
    technique = 'deterministic simulation with fault injection'
    rule = ''
    real = []
    stub = []
    assumptions = []
    n_quick = 50
    n_thorough = 1000
    run_timeout = 60.0
    quick_budget = 240.0
    thorough_budget = 820.0
    n_workers = 8
    fork_each = False
    needs_shim = False

    def setup(self):
        """Import the code under test."""

    def gen(self, rng, tier, index):
        raise NotImplementedError

    def run(self, spec, ctx):
        raise NotImplementedError

    def shrink(self, spec):
        """Yield smaller candidate specs."""
        for key in ('faults', 'ops', 'sched'):
            val = spec.get(key)
            if not isinstance(val, list) or not val:
                continue
            n = len(val)
            size = n
            while size >= 1:
                for ii in range(0, n, size):
                    cand = copy.deepcopy(spec)
                    cand[key] = val[:ii] + val[ii+size:]
                    if len(cand[key]) < n:
                        yield cand
                size //= 2

    def nontrivial(self, spec, res):
        return res['n_checks'] > 0

    def describe(self, spec, res):
        return {'spec': spec, 'events': res['n_events'],
                'trace': res['hash'][:16]}


def spec_rng(seed, pid, index):
    return random.Random('%s/%s/%s' % (seed, pid, index))


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as fd:
        data = json.load(fd)
    return [kk for kk in data.get('findings', []) if kk['property'] == pid]


def _alarm(signum, frame):
    raise RunTimeout()


SFEPY_ROOT = None


def in_sut(tb):
    """True if the exception passed through the code under test."""
    import sfepy
    root = os.path.dirname(os.path.abspath(sfepy.__file__)) + os.sep
    for fs in traceback.extract_tb(tb):
        if os.path.abspath(fs.filename).startswith(root):
            return True
    return False


def sut_frame(tb):
    import sfepy
    root = os.path.dirname(os.path.abspath(sfepy.__file__)) + os.sep
    last = None
    for fs in traceback.extract_tb(tb):
        if os.path.abspath(fs.filename).startswith(root):
            last = os.path.basename(fs.filename) + ':' + fs.name
    return last


def _rm_scratch(path):
    import shutil
    if path and os.path.isdir(path) and ('dst-' in os.path.basename(path)):
        shutil.rmtree(path, ignore_errors=True)


def run_one(prop, spec, known, keep_log=False):
    """
    Run one simulated execution in this process. Returns a result dict with
    'status' in ok, violation, harness, hang.
    """
    import tempfile
    ctx = Ctx(prop, spec, known)
    ctx.keep_log = keep_log
    scratch = tempfile.mkdtemp(prefix='dst-')
    ctx.scratch = scratch
    cwd = os.getcwd()
    os.chdir(scratch)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, prop.run_timeout)
    status, key, msg = 'ok', None, None
    pystate = random.getstate()
    try:
        try:
            prop.run(spec, ctx)

        finally:
            signal.setitimer(signal.ITIMER_REAL, 0.0)

    except Violation as exc:
        status, key, msg = 'violation', exc.key, exc.msg

    except RunTimeout:
        status, key = 'violation', 'no-progress'
        msg = ('the run did not finish within the wall-clock backstop of %s s'
               % prop.run_timeout)
        if ctx.is_known(key):
            ctx.known_hits.append((key, msg))
            status = 'ok'

    except HarnessError as exc:
        status, key = 'harness', 'harness'
        msg = ''.join(traceback.format_exception(*sys.exc_info()))

    except Exception as exc:
        tb = sys.exc_info()[2]
        txt = ''.join(traceback.format_exception(*sys.exc_info()))
        if in_sut(tb):
            status = 'violation'
            key = 'unexpected-exception:%s:%s' % (type(exc).__name__,
                                                  sut_frame(tb))
            msg = txt[-3000:]
            if ctx.is_known(key):
                ctx.known_hits.append((key, msg))
                status = 'ok'
        else:
            status, key, msg = 'harness', 'harness', txt[-4000:]

    finally:
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        _rm_scratch(scratch)
        random.setstate(pystate)

    res = ctx.result()
    res.update(status=status, key=key, msg=msg)
    if keep_log:
        res['log'] = ctx.log
    return res


def run_forked(prop, spec, known, keep_log=False, timeout=None):
    """Run one spec in a forked child; a killed or hung child is reported."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            os.setpgid(0, 0)
            res = run_one(prop, spec, known, keep_log=keep_log)
            with os.fdopen(wfd, 'wb') as fd:
                fd.write(json.dumps(res).encode())
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(wfd)
    return _collect(prop, pid, rfd,
                    (prop.run_timeout if timeout is None else timeout) + 30.0)


def _collect(prop, pid, rfd, timeout):
    import select
    buf = b''
    end = real_time() + timeout
    hung = False
    while 1:
        left = end - real_time()
        if left <= 0:
            hung = True
            break
        rr, _, _ = select.select([rfd], [], [], left)
        if not rr:
            hung = True
            break
        dat = os.read(rfd, 1 << 16)
        if not dat:
            break
        buf += dat
    os.close(rfd)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    _, st = os.waitpid(pid, 0)
    base = Ctx(prop, {}).result()
    if hung:
        base.update(status='violation', key='no-progress',
                    msg='the run hung (killed after %.0f s)' % timeout)
        return base
    try:
        return json.loads(buf.decode())
    except ValueError:
        base.update(status='violation',
                    key='process-died:%s' % (os.WTERMSIG(st)
                                             if os.WIFSIGNALED(st)
                                             else os.WEXITSTATUS(st)),
                    msg='the process running the simulation died,'
                        ' wait status %d' % st)
        return base


def _worker(prop, seed, tier, indices, known, wfd, deadline):
    fd = os.fdopen(wfd, 'wb')
    for index in indices:
        if real_time() > deadline:
            break
        rng = spec_rng(seed, prop.id, index)
        try:
            spec = prop.gen(rng, tier, index)
            spec = json.loads(json.dumps(spec))
        except Exception:
            res = {'status': 'harness', 'key': 'gen',
                   'msg': traceback.format_exc()}
            fd.write(json.dumps({'index': index, 'spec': None,
                                 'res': res}).encode() + b'\n')
            break
        fd.write(json.dumps({'start': index}).encode() + b'\n')
        fd.flush()
        t0 = real_time()
        if prop.fork_each:
            res = run_forked(prop, spec, known)
        else:
            res = run_one(prop, spec, known)
        res['wall'] = real_time() - t0
        fd.write(json.dumps({'index': index, 'spec': spec,
                             'res': res}).encode() + b'\n')
        fd.flush()
        if (res['status'] in ('violation', 'harness')
                and os.environ.get('DST_ALL') is None):
            break
    fd.close()


def search(prop, seed, tier, n_runs, known, budget, n_workers):
    """Run n_runs seeded runs on forked workers; results in index order."""
    import selectors
    sys.stdout.flush()
    sys.stderr.flush()
    n_workers = max(1, min(n_workers, n_runs))
    deadline = real_time() + budget
    sel = selectors.DefaultSelector()
    workers = {}
    for iw in range(n_workers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                os.setpgid(0, 0)
                _worker(prop, seed, tier, range(iw, n_runs, n_workers),
                        known, wfd, deadline)
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(0)
        os.close(wfd)
        workers[rfd] = {'pid': pid, 'buf': b'', 'current': None,
                        't': real_time(), 'iw': iw}
        sel.register(rfd, selectors.EVENT_READ)

    out = {}
    stop_at = None
    while workers:
        for key, _ in sel.select(timeout=1.0):
            ww = workers[key.fd]
            dat = os.read(key.fd, 1 << 16)
            if not dat:
                sel.unregister(key.fd)
                os.close(key.fd)
                _, st = os.waitpid(ww['pid'], 0)
                if ww['current'] is not None:
                    # Died in the middle of a run.
                    index = ww['current']
                    spec = json.loads(json.dumps(
                        prop.gen(spec_rng(seed, prop.id, index), tier,
                                 index)))
                    res = Ctx(prop, {}).result()
                    if ww.get('killed'):
                        res.update(status='violation', key='no-progress',
                                   msg='the run hung and was killed')
                    else:
                        sig = (os.WTERMSIG(st) if os.WIFSIGNALED(st)
                               else os.WEXITSTATUS(st))
                        res.update(status='violation',
                                   key='process-died:%s' % sig,
                                   msg='process died, status %d' % st)
                    res['wall'] = real_time() - ww['t']
                    out[index] = (spec, res)
                workers.pop(key.fd)
                continue
            ww['buf'] += dat
            while b'\n' in ww['buf']:
                line, ww['buf'] = ww['buf'].split(b'\n', 1)
                rec = json.loads(line.decode())
                if 'start' in rec:
                    ww['current'] = rec['start']
                    ww['t'] = real_time()
                else:
                    ww['current'] = None
                    out[rec['index']] = (rec['spec'], rec['res'])
        now = real_time()
        for fd, ww in list(workers.items()):
            limit = 2 * prop.run_timeout + 60.0
            if (ww['current'] is not None and not ww.get('killed')
                    and (now - ww['t']) > limit):
                ww['killed'] = True
                try:
                    os.killpg(ww['pid'], signal.SIGKILL)
                except OSError:
                    os.kill(ww['pid'], signal.SIGKILL)
    return out


def minimise(prop, spec, key, known, budget):
    """Greedy minimisation of a failing spec, keeping the violation key."""
    end = real_time() + budget
    n_tried = 0
    best = spec
    progress = True
    while progress and (real_time() < end):
        progress = False
        for cand in prop.shrink(copy.deepcopy(best)):
            if real_time() > end:
                break
            n_tried += 1
            cand = json.loads(json.dumps(cand))
            if cand == best:
                continue
            res = run_forked(prop, cand, known)
            if (res['status'] == 'violation') and (res['key'] == key):
                best = cand
                progress = True
                break
    return best, n_tried


def write_replay(prop, seed, index, spec, key, msg, orig=None, log=None):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-seed%s-run%s.json'
                        % (prop.id, seed, index))
    with open(path, 'w') as fd:
        json.dump({'property': prop.id, 'seed': seed, 'run': index,
                   'key': key, 'message': msg, 'spec': spec,
                   'original_spec': orig, 'trace': log}, fd, indent=1)
        fd.write('\n')
    return path


def replay_in_fresh_process(path):
    import subprocess
    cmd = [sys.executable, os.path.join(HERE, 'run.py'), '--replay', path]
    env = dict(os.environ)
    pp = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                        stderr=subprocess.STDOUT, timeout=300)
    return pp.returncode, pp.stdout.decode('utf-8', 'replace')


def check(prop, seed, tier):
    t0 = real_time()
    known = load_known(prop.id)
    prop.setup()
    n_runs = prop.n_quick if tier == 'quick' else prop.n_thorough
    n_runs = int(os.environ.get('DST_RUNS', n_runs))
    budget = prop.quick_budget if tier == 'quick' else prop.thorough_budget
    print('%s: seed=%s tier=%s runs=%d' % (prop.id, seed, tier, n_runs),
          flush=True)
    results = search(prop, seed, tier, n_runs, known, budget, prop.n_workers)
    t_search = real_time() - t0

    # Determinism self-check on a sample: same spec, other process, same log.
    n_rep, n_diff = 0, 0
    sample = sorted(ii for ii, (sp, rr) in results.items()
                    if rr['status'] == 'ok')
    sample = sample[::max(1, len(sample) // 4)][:4]
    for ii in sample:
        if (real_time() - t0) > budget + 60:
            break
        spec, res = results[ii]
        again = run_forked(prop, spec, known)
        n_rep += 1
        n_diff += (again['hash'] != res['hash'])

    harness = [(ii, sp, rr) for ii, (sp, rr) in sorted(results.items())
               if rr['status'] == 'harness']
    bad = [(ii, sp, rr) for ii, (sp, rr) in sorted(results.items())
           if rr['status'] == 'violation']

    faults, probes = collections.Counter(), collections.Counter()
    for sp, rr in results.values():
        faults.update(rr.get('faults', {}))
        probes.update(rr.get('probes', {}))
    hits = collections.Counter()
    hit_msgs = {}
    for ii, (sp, rr) in sorted(results.items()):
        for key, msg in rr.get('known', []):
            hits[key] += 1
            hit_msgs.setdefault(key, msg)
    traces = set(rr['hash'] for sp, rr in results.values() if 'hash' in rr)
    scheds = set(rr['sched'] for sp, rr in results.values()
                 if rr.get('n_sched'))
    nontriv = set(rr['hash'] for sp, rr in results.values()
                  if ('hash' in rr) and prop.nontrivial(sp, rr))
    sim_time = sum(rr.get('sim_time', 0.0) for sp, rr in results.values())
    samples = [prop.describe(sp, rr) for ii, (sp, rr)
               in sorted(results.items())[:3] if 'hash' in rr]

    wall = real_time() - t0
    ev = {
        'property': prop.id, 'tier': tier, 'seed': int(seed),
        'level': prop.level,
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(nontriv),
            'rule': prop.rule,
            'samples': samples,
            'requested_runs': n_runs,
            'runs_per_hour': round(3600.0 * len(results)
                                   / max(t_search, 1e-3), 1),
            'oracle_checks': sum(rr.get('n_checks', 0)
                                 for sp, rr in results.values()),
            'simulated_time_s': round(sim_time, 6),
            'fault_kinds': dict(sorted(faults.items())),
            'probes': dict(sorted(probes.items())),
            'distinct_event_traces': len(traces),
            'distinct_interleavings': len(scheds),
            'interleaving_measure': 'SHA-256 over the sequence of scheduler'
                                    ' and fault decisions of a run',
            'determinism_reruns': n_rep,
            'determinism_mismatches': n_diff,
            'real_components': prop.real,
            'stub_components': prop.stub,
            'known_findings_hit': dict(hits),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(wall, 3),
        'violations': len(bad),
    }

    code = 0
    if os.environ.get('DST_KEYS'):
        cnt, first = collections.Counter(), {}
        for ii, sp, rr in bad + harness:
            cnt[rr['key']] += 1
            first.setdefault(rr['key'], (ii, sp, rr['msg']))
        for key, num in cnt.most_common():
            print('%5d %s (run %d)\n   %s\n   %s'
                  % (num, key, first[key][0], (first[key][2] or '')[-1200:],
                     json.dumps(first[key][1])[:600]))
        return 3
    if bad:
        ii, spec, res = bad[0]
        print('run %d violates %s: %s\n%s' % (ii, prop.id, res['key'],
                                              (res['msg'] or '')[:2000]),
              flush=True)
        small, n_tried = minimise(prop, spec, res['key'], known,
                                  45.0 if tier == 'quick' else 120.0)
        final = run_forked(prop, small, known, keep_log=True)
        if (final['status'] != 'violation') or (final['key'] != res['key']):
            small = spec
            final = run_forked(prop, small, known, keep_log=True)
        path = write_replay(prop, seed, ii, small, res['key'],
                            final.get('msg') or res['msg'],
                            orig=spec if small != spec else None,
                            log=final.get('log'))
        try:
            rcode, rout = replay_in_fresh_process(path)
        except Exception as exc:
            rcode, rout = -1, str(exc)
        ev['coverage']['minimisation_runs'] = n_tried
        ev['coverage']['replay_reproduced'] = (rcode == 1)
        print('minimised in %d runs; replay in a fresh process %s'
              % (n_tried, 'reproduces it' if rcode == 1
                 else 'exited with %s' % rcode))
        print('message: %s' % (final.get('msg') or res['msg'] or '')[:1500])
        print('VIOLATION property=%s replay=%s' % (prop.id, path), flush=True)
        code = 1

    elif harness:
        ii, spec, res = harness[0]
        print('harness error in run %d:\n%s' % (ii, res['msg']), flush=True)
        code = 2

    elif not results:
        print('no run finished')
        code = 2

    listed = {kk['key']: kk for kk in known}
    for key in sorted(hits):
        print('KNOWN-FINDING: property=%s %s (%d runs; key %s)'
              % (prop.id, listed[key].get('what', hit_msgs[key]), hits[key],
                 key), flush=True)

    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, prop.id + '.json')
    with open(path, 'w') as fd:
        json.dump(ev, fd, indent=1, default=str)
        fd.write('\n')
    print('%s: %d runs, %d distinct traces, %d interleavings, faults %s,'
          ' probes %s, reruns %d/%d differ, %.1f s'
          % (prop.id, len(results), len(traces), len(scheds), dict(faults),
             dict(probes), n_diff, n_rep, wall), flush=True)
    return code
