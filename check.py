#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]     decide one property
   check.py replay FILE                           replay a violation exactly
   check.py selftest [N]                          determinism of the simulator
"""
import json, os, subprocess, sys, tempfile, shutil, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
LANES = int(os.environ.get('VERIF_LANES', 8))

# property -> (runs per lane, wall cap per lane in seconds) per tier
BUDGET = {'quick': (4000, 40), 'thorough': (200000, 780)}


def hashseed(vseed, lane):
    return (vseed * 8191 + lane * 131 + 17) % 4294967295

def spawn(args, hs):
    env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    return subprocess.Popen([PY, '-X', 'utf8', '-s', os.path.join(ROOT, 'check.py')] + [str(a) for a in args],
                            env=env, stdin=subprocess.DEVNULL)


def decide(prop, tier):
    vseed = int(os.environ.get('VERIF_SEED', '1') or 1)
    nruns, wall = BUDGET[tier]
    nruns = int(os.environ.get('VERIF_RUNS', nruns))
    wall = float(os.environ.get('VERIF_WALL', wall))
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix='pcsim.')
    try:
        ps = []
        for lane in range(LANES):
            out = os.path.join(tmp, f'lane{lane}.json')
            ps.append((lane, out, spawn(['lane', prop, vseed, lane, nruns, wall, out], hashseed(vseed, lane))))
        bad = None
        extra = None
        if prop == 'C15':
            from sim import restart
            extra = restart.run(PY, vseed, 30 if tier == 'quick' else 1500)
        lanes = []
        for lane, out, p in ps:
            rc = p.wait()
            if rc != 0 or not os.path.exists(out):
                bad = f'lane {lane} ended with status {rc}'
                continue
            with open(out) as f:
                lanes.append(json.load(f))
        viols = sorted((l['viol'] for l in lanes if l['viol']), key=lambda v: (v['i'], v['lane']))
        errors = [l['error'] for l in lanes if l['error']]
        report = None
        if viols:
            if os.environ.get('VERIF_NOSHRINK'):
                print(f'VIOLATION property={prop} replay=none {viols[0]["res"]["cls"]}: {viols[0]["res"]["msg"]}')
                return 1
            report = minimise(prop, vseed, viols[0], tmp, 60 if tier == 'quick' else 120)
        elif extra and extra['violation']:
            report = save(prop, {'kind': 'restart', 'prop': prop, 'res': extra['violation']})
            print(extra['violation']['msg'])
        evidence(prop, tier, vseed, lanes, extra, time.monotonic() - t0, 1 if report else 0, errors)
        known = {}
        for l in lanes:
            for k, n in l['known'].items():
                known[k] = known.get(k, 0) + n
        for k, n in sorted(known.items()):
            print(f'KNOWN-FINDING: property={prop} {k} (seen in {n} runs)')
        if report:
            print(f'VIOLATION property={prop} replay={report}')
            return 1
        if errors:
            print(f'ERROR: seed {errors[0]["seed"]} lane {errors[0]["lane"]}: {errors[0]["res"]["status"]}: {errors[0]["res"].get("msg")}')
            return 2
        if bad:
            print('ERROR: ' + bad)
            return 2
        runs = sum(l['runs'] for l in lanes)
        print(f'{prop}: held in {runs} simulated runs ({sum(l["steps"] for l in lanes)} steps, '
              f'{sum(l["switches"] for l in lanes)} context switches), {time.monotonic() - t0:.1f} s')
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def save(prop, d):
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    import hashlib
    s = json.dumps(d, indent=1)
    path = os.path.join(ROOT, 'replays', f'{prop}-{hashlib.sha256(s.encode()).hexdigest()[:10]}.json')
    with open(path, 'w') as f:
        f.write(s)
    return path


def minimise(prop, vseed, v, tmp, budget):
    lane = v['lane']
    hs = hashseed(vseed, lane)
    d = {'kind': 'sim', 'prop': prop, 'vseed': vseed, 'lane': lane, 'seed': v['plan']['seed'], 'hashseed': hs,
         'plan': v['plan'], 'res': v['res'], 'original_ops': sum(len(t) for p in v['plan']['phases'] for t in p)}
    inp, out = os.path.join(tmp, 'shrink.in'), os.path.join(tmp, 'shrink.out')
    with open(inp, 'w') as f:
        json.dump(d, f)
    p = spawn(['shrink', inp, out, budget], hs)
    try:
        p.wait(budget + 90)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    if os.path.exists(out):
        with open(out) as f:
            d = json.load(f)
    d['res'] = {k: x for k, x in d['res'].items() if k not in ('stats', 'ops')}
    path = save(prop, d)
    # The file must fail the same way in a fresh process.
    again = subprocess.run([PY, os.path.join(ROOT, 'check.py'), 'replay', path, '-q'], stdout=subprocess.PIPE, text=True)
    n = sum(len(t) for ph in d['plan']['phases'] for t in ph)
    print(f'seed {d["seed"]} (lane {lane}): {d["res"]["cls"]}: {d["res"]["msg"]}')
    print(f'minimised from {d["original_ops"]} to {n} operations, {len(d["plan"].get("sched") or [])} forced switches'
          f' in {d.get("tries", 0)} tries; replayed in a fresh process: '
          + ('reproduced' if again.returncode == 1 else f'NOT reproduced (status {again.returncode})'))
    return path


REAL = ['pcollections._list', 'pcollections._set', 'pcollections._dict', 'pcollections._lazy', 'pcollections.abc.*',
        'pcollections.util', 'phamt (the compiled C extension)', 'CPython threads (one runs at a time)', 'pickle, copy']
STUB = ['threading.Lock/RLock (simulated: same semantics, blocking decided by the scheduler)',
        'time.* (simulated clock)', 'thread scheduling (seeded, at bytecode instructions of the package)',
        'signal delivery (simulated interrupts at the points where CPython looks for signals)',
        'allocation failure (MemoryError before allocating instructions)', 'hash seed (salted key hashes; PYTHONHASHSEED per lane)',
        'disk (in-memory records with torn and lost writes; C15)', 'interpreter recursion limit for a lazy that asks for itself (depth 40)']


def evidence(prop, tier, vseed, lanes, extra, wall, nviol, errors):
    stats, ops, inter, states, digs = {}, {}, set(), set(), set()
    for l in lanes:
        for d, s in ((stats, l['stats']), (ops, l['ops'])):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        inter.update(l['inter'])
        states.update(l['states'])
        digs.update(l['digests'])
    runs = sum(l['runs'] for l in lanes)
    lwall = max([l['wall'] for l in lanes] or [0.001])
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': min(len(digs), sum(l['nontrivial'] for l in lanes)),
        'rule': 'distinct event-log digests (operations, outcomes, lock and lazy events, faults) among runs that executed at least '
                'two operations and had a context switch or a fired fault (or are single-client by plan)',
        'samples': [s for l in lanes for s in l['samples']][:6],
        'runs_per_hour': int(runs / max(lwall, .001) * 3600),
        'seeds': runs,
        'seeds_per_hour': int(runs / max(lwall, .001) * 3600),
        'simulated_seconds': round(sum(l['simtime'] for l in lanes), 1),
        'steps': sum(l['steps'] for l in lanes),
        'context_switches': sum(l['switches'] for l in lanes),
        'runs_with_switches': sum(l['multi'] for l in lanes),
        'runs_with_faults': sum(l['fault_runs'] for l in lanes),
        'faults_fired': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault_')},
        'probes': {k: v for k, v in sorted(stats.items()) if not k.startswith(('fault_', 'foreign_', 'blocked_by'))},
        'distinct_interleavings': len(inter),
        'interleaving_measure': 'digest of the full list of (task, instruction count, next task) switches',
        'distinct_final_states': len(states),
        'operations': ops,
        'unrepeatable': [u for l in lanes for u in l['unrepeatable']],
        'foreign_mismatches': {k[8:]: v for k, v in sorted(stats.items()) if k.startswith('foreign_')},
        'real_components': REAL,
        'stubbed_components': STUB,
        'harness_errors': [f'{e["res"]["status"]} seed {e["seed"]}' for e in errors],
    }
    if extra is not None:
        cov['real_restarts'] = extra['coverage']
    ev = {'property': prop, 'tier': tier, 'seed': vseed, 'level': 'exploration', 'coverage': cov,
          'assumptions': [
              'Element equality is an equivalence relation consistent with hashing (no NaN), and elements are not mutated while stored.',
              'A thread switch inside C code of phamt or the interpreter does not happen (the GIL is on).',
              'Operations on one transient are confined to one thread.'],
          'wall_s': round(wall, 2), 'violations': nviol}
    if os.environ.get('VERIF_NOSHRINK'):
        return
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    path = os.path.join(ROOT, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)


def main(argv):
    cmd = argv[0]
    if cmd == 'lane':
        from sim import runner
        prop, vseed, lane, nruns, wall, out = argv[1:7]
        runner.lane_main(prop, int(vseed), int(lane), int(nruns), float(wall), out, keep=len(argv) > 7)
        return 0
    if cmd == 'shrink':
        from sim import runner
        runner.shrink_main(argv[1], argv[2], float(argv[3]))
        return 0
    if cmd == 'replay':
        with open(argv[1]) as f:
            d = json.load(f)
        if d['kind'] == 'restart':
            from sim import restart
            return restart.replay(PY, d)
        if os.environ.get('PYTHONHASHSEED') != str(d['hashseed']):
            p = spawn(argv, d['hashseed'])
            return p.wait()
        from sim import runner
        res, d = runner.replay_main(argv[1], '-q' not in argv)
        same = res['status'] == 'viol' and res['cls'] == d['res']['cls'] and res['msg'] == d['res']['msg'] \
            and res.get('digest') == d['res'].get('digest')
        if res['status'] == 'viol':
            print(f'VIOLATION property={d["prop"]} replay={argv[1]}' + ('' if same else ' (differs from the recorded run)'))
            return 1
        return 0 if res['status'] == 'ok' else 2
    if cmd == 'selftest':
        return selftest(int(argv[1]) if len(argv) > 1 else 40)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    return decide(cmd, tier)


def selftest(n):
    """Every seed twice, in separate processes, at different worker counts: same logs."""
    from sim import scen
    tmp = tempfile.mkdtemp(prefix='pcsim.')
    bad = 0
    try:
        for prop in scen.SCEN:
            logs = []
            for rep, width in ((0, 8), (1, 3)):
                got, todo, live = {}, list(range(8)), []
                while todo or live:
                    while todo and len(live) < width:
                        lane = todo.pop(0)
                        out = os.path.join(tmp, f'{prop}.{rep}.{lane}.json')
                        live.append((lane, out, spawn(['lane', prop, 7, lane, n, 900, out, 'keep'], hashseed(7, lane))))
                    lane, out, p = live.pop(0)
                    p.wait()
                    with open(out) as f:
                        d = json.load(f)
                    got[lane] = (d.get('log'), (d['viol'] or {}).get('res', {}).get('msg'), d['steps'], d['error'])
                logs.append(got)
            same = logs[0] == logs[1]
            bad += not same
            print(prop, 'identical' if same else 'DIVERGED', sum(len(v[0] or ()) for v in logs[0].values()), 'runs')
            if not same:
                for lane in range(8):
                    if logs[0][lane] != logs[1][lane]:
                        print('  lane', lane, [x for x, y in zip(logs[0][lane][0] or (), logs[1][lane][0] or ()) if x != y][:3], logs[0][lane][1:], logs[1][lane][1:])
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
