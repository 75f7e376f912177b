"""Lanes of simulated runs, minimisation, replay files and evidence."""
import json, os, sys, time as _time, select, signal, struct, random, re, resource, copy, hashlib
from . import core

_mono = _time.monotonic          # the real clock, captured before the seams go in
_walltime = _time.time

CHILD_WALL = 60.0
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child_run(plan, pc, wfd):
    """Runs in the forked child; never returns."""
    import gc
    gc.disable()
    from . import scen
    sys.setrecursionlimit(3000)
    def finish(res):
        try:
            data = json.dumps(res, default=repr).encode()
            data = struct.pack('<I', len(data)) + data
            while data:
                data = data[os.write(wfd, data):]
        finally:
            os._exit(0)
    try:
        scen.execute(plan, pc, finish)
    except BaseException as e:
        import traceback
        finish({'status': 'harness', 'msg': ''.join(traceback.format_exception(e))[-3000:]})
    os._exit(3)


def run_forked(plan, pc, wall=CHILD_WALL):
    if plan.get('big'):
        from . import scen
        scen.prebuild(plan, pc)
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child_run(plan, pc, w)
    os.close(w)
    buf = b''
    end = _mono() + wall
    killed = False
    while True:
        left = end - _mono()
        if left <= 0:
            killed = True
            break
        if select.select([r], [], [], left)[0]:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    if killed:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if killed:
        return {'status': 'wall', 'msg': f'run exceeded {wall} s of wall time'}
    if len(buf) >= 4:
        n = struct.unpack('<I', buf[:4])[0]
        if len(buf) == n + 4:
            return json.loads(buf[4:])
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
            return {'status': 'viol', 'cls': 'native-crash', 'msg': f'the interpreter died of signal {s}', 'sched': None, 'first': None}
        return {'status': 'wall', 'msg': f'the run was ended by signal {s}'}
    return {'status': 'harness', 'msg': f'the run gave no result (status {st})'}


def limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


def plan_seed(vseed, lane, i):
    return (vseed << 40) ^ (lane << 32) ^ i


def load_known():
    out = []
    try:
        with open(os.path.join(ROOT, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) id=(\S+) match=(.*)$', line.strip())
                if m:
                    out.append((m[1], m[2], re.compile(m[3])))
    except OSError:
        pass
    return out
def known_match(known, prop, res):
    for p, i, rx in known:
        if p == prop and rx.search(f'{res.get("cls")}: {res.get("msg")}'):
            return i
    return None


def merge(d, s):
    for k, v in s.items():
        d[k] = d.get(k, 0) + v


def lane_main(prop, vseed, lane, nruns, wall, out, keep=False):
    """Run one lane; a fresh interpreter whose PYTHONHASHSEED the caller chose."""
    limits()
    pc = core.load_package()
    from . import scen
    known = load_known()
    t0 = _mono()
    agg = {'runs': 0, 'steps': 0, 'simtime': 0.0, 'stats': {}, 'ops': {}, 'inter': [], 'states': [], 'digests': [],
           'switches': 0, 'nontrivial': 0, 'viol': None, 'error': None, 'known': {}, 'abandoned': 0, 'fault_runs': 0, 'samples': [], 'multi': 0, 'unrepeatable': []}
    inter, states, digs = set(), set(), set()
    for i in range(nruns):
        if _mono() - t0 > wall:
            break
        seed = plan_seed(vseed, lane, i)
        plan = scen.make_plan(prop, seed)
        res = run_forked(plan, pc)
        agg['runs'] += 1
        st = res['status']
        if st == 'viol':
            kid = known_match(known, prop, res)
            if kid is not None:
                agg['known'][kid] = agg['known'].get(kid, 0) + 1
                continue
            # One seed is one execution: what does not happen again is no finding, unless
            # it keeps on happening.
            if not any(run_forked(plan, pc)['status'] == 'viol' for _ in range(4)):
                agg['unrepeatable'].append([seed, res.get('cls'), res.get('msg')])
                if len(agg['unrepeatable']) < 4:
                    continue
            agg['viol'] = {'plan': plan, 'res': res, 'i': i, 'lane': lane}
            break
        if st != 'ok':
            agg['error'] = {'seed': seed, 'res': res, 'i': i, 'lane': lane}
            break
        agg['steps'] += res['steps']
        agg['simtime'] += res['now']
        agg['switches'] += res['switches']
        merge(agg['stats'], res['stats'])
        merge(agg['ops'], res['ops'])
        inter.add(res['inter'])
        states.add(res['state'])
        digs.add(res['digest'])
        faults = sum(v for k, v in res['stats'].items() if k.startswith('fault_'))
        if faults:
            agg['fault_runs'] += 1
        if res['switches']:
            agg['multi'] += 1
        if res['stats'].get('ops', 0) > 1 and (res['switches'] or faults or len(plan['phases'][0]) == 1):
            agg['nontrivial'] += 1
        if keep:
            agg.setdefault('log', []).append([seed, res['digest'], res['nlog']])
        if i in (0, 7):
            agg['samples'].append({'seed': seed, 'tasks': [len(t) for p in plan['phases'] for t in p],
                                   'first_ops': [o['o'] for o in plan['phases'][0][0][:6]],
                                   'policy': {k: v for k, v in plan['policy'].items() if k != 'seed'},
                                   'hash': plan['cfg']['hash'], 'steps': res['steps'], 'switches': res['switches'],
                                   'faults_fired': {k: v for k, v in res['stats'].items() if k.startswith('fault_')}})
    agg['wall'] = _mono() - t0
    agg['inter'], agg['states'], agg['digests'] = sorted(inter), sorted(states), sorted(digs)
    with open(out, 'w') as f:
        json.dump(agg, f)


# ------------------------------------------------------------------ minimising
def prune(plan):
    """A copy with empty phases and trailing empty tasks kept legal."""
    return plan

class Shrinker:
    def __init__(self, pc, plan, res, budget):
        self.pc = pc
        self.end = _mono() + budget
        self.cls = res['cls']
        self.tries = 0
        self.best = copy.deepcopy(plan)
        self.res = res
        b = copy.deepcopy(plan)
        if res.get('sched') is not None:
            b['sched'], b['first'] = res['sched'], res['first']
        if b['sched'] is not None and self.fails(b) is not None:
            self.best = b
    def left(self):
        return _mono() < self.end
    def fails(self, plan):
        self.tries += 1
        r = run_forked(plan, self.pc, 30)
        return r if r['status'] == 'viol' and r.get('cls') == self.cls else None
    def accept(self, cand):
        """Does the candidate still fail, under some schedule?  Keeps it if so."""
        if not self.left():
            return False
        r = self.fails(cand)
        if r is None and cand.get('sched'):
            c2 = copy.deepcopy(cand)
            c2['sched'], c2['first'] = None, None
            for pol in ({'kind': 'none'}, c2['policy'], dict(c2['policy'], seed=1), dict(c2['policy'], seed=2)):
                c2['policy'] = pol
                r = self.fails(c2)
                if r is not None:
                    break
                if not self.left():
                    return False
        if r is None:
            return False
        c = copy.deepcopy(cand)
        c['sched'], c['first'] = r['sched'] or [], r['first']
        r2 = self.fails(c)
        if r2 is None:
            return False
        self.best, self.res = c, r2
        return True
    def ddmin(self, get, put):
        """Drop chunks of a list inside the plan."""
        n = 2
        while self.left():
            xs = get(self.best)
            if not xs:
                return
            size = max(1, len(xs) // n)
            done = False
            i = 0
            while i < len(get(self.best)) and self.left():
                xs = get(self.best)
                cand = copy.deepcopy(self.best)
                put(cand, xs[:i] + xs[i + size:])
                if self.accept(cand):
                    done = True
                else:
                    i += size
            if size == 1 and not done:
                return
            n = n if done and size > 1 else n * 2
            if size == 1 and done:
                continue
    def run(self):
        b = self.best
        at = self.res.get('at')
        # nothing after the failing operation matters to the task that failed
        for ph in range(len(b['phases'])):
            for ti in range(len(self.best['phases'][ph])):
                if not self.best['phases'][ph][ti]:
                    continue
                cand = copy.deepcopy(self.best)
                cand['phases'][ph][ti] = []
                self.accept(cand)
        for rnd in range(3):
            before = json.dumps(self.best)
            for ph in range(len(self.best['phases'])):
                for ti in range(len(self.best['phases'][ph])):
                    self.ddmin(lambda p: p['phases'][ph][ti], lambda p, v: p['phases'][ph].__setitem__(ti, v))
            for ph in range(len(self.best['phases'])):
                for ti in range(len(self.best['phases'][ph])):
                    for oi in range(len(self.best['phases'][ph][ti])):
                        for x in 'fc':
                            if x in self.best['phases'][ph][ti][oi]:
                                cand = copy.deepcopy(self.best)
                                del cand['phases'][ph][ti][oi][x]
                                self.accept(cand)
            self.ddmin(lambda p: p['setup'], lambda p, v: p.__setitem__('setup', v))
            for si in range(len(self.best['setup'])):
                if self.best['setup'][si].get('drift'):
                    self.ddmin(lambda p: [1] * bool(p['setup'][si]['drift']), lambda p, v: p['setup'][si].__setitem__('drift', p['setup'][si]['drift'] if v else 0))
                self.ddmin(lambda p: p['setup'][si]['a'], lambda p, v: p['setup'][si].__setitem__('a', v))
            if self.best.get('chain'):
                self.ddmin(lambda p: p['chain'], lambda p, v: p.__setitem__('chain', v))
            if self.best.get('lz'):
                self.ddmin(lambda p: p['lz'], lambda p, v: p.__setitem__('lz', v))
            if self.best.get('sched'):
                self.ddmin(lambda p: p['sched'] or [], lambda p, v: p.__setitem__('sched', v))
            if json.dumps(self.best) == before or not self.left():
                break
        # drop the empty tasks at the end of single-phase plans
        return self.best, self.res


def shrink_main(inp, out, budget):
    limits()
    pc = core.load_package()
    with open(inp) as f:
        d = json.load(f)
    s = Shrinker(pc, d['plan'], d['res'], budget)
    plan, res = s.run()
    d.update(plan=plan, res={k: v for k, v in res.items() if k not in ('sched', 'first')}, tries=s.tries)
    with open(out, 'w') as f:
        json.dump(d, f, indent=1)


def replay_main(path, verbose=True):
    """Exit status 1 if the recorded violation happens again, exactly."""
    limits()
    with open(path) as f:
        d = json.load(f)
    pc = core.load_package()
    plan = dict(d['plan'], keeplog=True)
    res = run_forked(plan, pc)
    if verbose:
        for line in res.get('log') or ():
            print('  ' + line)
        if res['status'] == 'viol':
            print(f'{res["cls"]}: {res["msg"]}')
        else:
            print(f'{res["status"]}: {res.get("msg", "no violation")}')
    return res, d
