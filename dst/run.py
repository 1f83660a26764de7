"""
run.py PROPERTY [quick|thorough]   check a property
run.py --replay FILE               replay one recorded failure exactly
run.py --spec PROPERTY INDEX       run one generated spec, print its log
run.py --selftest PROPERTY N       print the event-log hashes of N runs
"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from dst import core  # noqa: E402


def preload():
    """Start again with the simulated disk (inactive) preloaded."""
    from dst import build
    shim = build.build_shim()
    if os.environ.get('LD_PRELOAD') != shim:
        os.environ['LD_PRELOAD'] = shim
        os.execv(sys.executable, [sys.executable] + sys.argv)


def load(pid):
    pdir = os.path.join(HERE, 'props')
    for name in sorted(os.listdir(pdir)):
        if name.lower().startswith(pid.lower() + '_') and name.endswith('.py'):
            mod = importlib.import_module('dst.props.' + name[:-3])
            prop = mod.PROP()
            if prop.needs_shim:
                preload()
            return prop
    raise SystemExit('unknown property ' + pid)


def main():
    args = sys.argv[1:]
    seed = os.environ.get('VERIF_SEED', '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if args[0] == '--replay':
        with open(args[1]) as fd:
            rec = json.load(fd)
        prop = load(rec['property'])
        prop.setup()
        known = core.load_known(prop.id)
        res = core.run_forked(prop, rec['spec'], known, keep_log=True)
        for line in res.get('log', []):
            print('  ' + line)
        print(res['status'], res['key'])
        print(res['msg'])
        if res['status'] == 'violation':
            print('VIOLATION property=%s replay=%s' % (prop.id, args[1]))
            return 1 if res['key'] == rec['key'] else 3
        return 0 if res['status'] == 'ok' else 2

    if args[0] == '--spec':
        prop = load(args[1])
        prop.setup()
        index = int(args[2])
        spec = prop.gen(core.spec_rng(seed, prop.id, index), tier, index)
        spec = json.loads(json.dumps(spec))
        print(json.dumps(spec))
        res = core.run_one(prop, spec, core.load_known(prop.id),
                           keep_log=True)
        for line in res.get('log', []):
            print('  ' + line)
        res.pop('log', None)
        print(json.dumps(res, indent=1)[:6000])
        if res['msg']:
            print(res['msg'])
        return 0

    if args[0] == '--min':
        # Minimise runs and print the results (for development).
        prop = load(args[1])
        prop.setup()
        known = core.load_known(prop.id)
        for index in args[2:]:
            index = int(index)
            spec = prop.gen(core.spec_rng(seed, prop.id, index), tier, index)
            spec = json.loads(json.dumps(spec))
            res = core.run_forked(prop, spec, known)
            print('== run', index, res['status'], res['key'])
            if res['status'] == 'violation':
                spec, num = core.minimise(prop, spec, res['key'], known, 60.0)
                res = core.run_forked(prop, spec, known, keep_log=True)
            print(json.dumps(spec))
            for line in res.get('log', [])[-60:]:
                print('  ' + line)
            print(res['msg'], flush=True)
        return 0

    if args[0] == '--selftest':
        prop = load(args[1])
        prop.setup()
        for index in range(int(args[2])):
            spec = prop.gen(core.spec_rng(seed, prop.id, index), tier, index)
            spec = json.loads(json.dumps(spec))
            res = core.run_forked(prop, spec, core.load_known(prop.id))
            print(index, res['hash'], res['status'], res['key'], flush=True)
        return 0

    if len(args) > 1:
        tier = args[1]
    return core.check(load(args[0]), seed, tier)


if __name__ == '__main__':
    sys.exit(main())
