"""Real process restarts for C15.

The simulated restarts change the hashes of client keys inside one process, but
string, bytes and frozenset hashing belongs to the interpreter and changes only
with PYTHONHASHSEED.  Each case here is a chain of interpreters with different
hash seeds: every one loads what the previous one stored, checks it against the
builtin model regenerated from the seed, edits it, and stores it again.  Each
process is single-threaded and a function of (case seed, step, hash seed).
"""
import json, os, random, subprocess, sys, tempfile, shutil, pickle, copy, pickletools

HERE = os.path.abspath(__file__)
REPO = os.environ.get('PCOLL_REPO', '/repo')
KINDS = ('plist', 'llist', 'tlist', 'tllist', 'pset', 'tset', 'pdict', 'ldict', 'tdict', 'tldict')
LAZY = ('llist', 'tllist', 'ldict', 'tldict')


class Bad(Exception):
    pass


class Key:
    "A client key whose hash follows the interpreter's string hash."
    def __init__(self, s):
        self.s = s
    def __hash__(self):
        return hash(self.s) % 5
    def __eq__(self, o):
        return type(o) is Key and o.s == self.s
    def __repr__(self):
        return f'Key({self.s})'
    def __reduce__(self):
        return (Key, (self.s,))


class L:
    "In a model: a lazy cell with this value; forced before pickling."
    def __init__(self, v):
        self.v = v
def ident(v):
    return v


def token(rng, pc, d=0):
    k = rng.randrange(12 if d else 14)
    n = rng.randrange(8)
    if k < 4: return f's{n}'
    if k < 5: return f'b{n}'.encode()
    if k < 6: return n
    if k < 7: return (f't{n}', n)
    if k < 8: return frozenset((f'f{n}', f'g{n % 3}'))
    if k < 9: return None
    if k < 10: return Key(f'k{n}')
    if k < 11: return n + .5
    if k < 12: return (-1, -2, 2**61 - 1, 2**61, -2**63, 2**80, '', ())[n]
    if k < 13: return ('@plist', tuple(token(rng, pc, 1) for _ in range(rng.randrange(4))))
    return ('@pset', tuple(f'e{rng.randrange(9)}' for _ in range(rng.randrange(4))))


def real(x, pc):
    "Nested collections are written as tagged tuples in the model."
    if type(x) is tuple and len(x) == 2 and x[0] == '@plist':
        r = pc.plist([real(y, pc) for y in x[1]])
        hash(r)
        return r
    if type(x) is tuple and len(x) == 2 and x[0] == '@pset':
        r = pc.pset(x[1])
        hash(r)
        return r
    return x
def norm(x):
    return ('@pset', tuple(sorted(set(x[1])))) if type(x) is tuple and x and x[0] == '@pset' else x


def fam(kind):
    return 'list' if kind.endswith('list') else 'set' if kind.endswith('set') else 'dict'

def fresh(kind, m, pc):
    c = getattr(pc, kind)
    lazyk = kind in LAZY
    val = (lambda x, i: pc.lazy(ident, real(x, pc)) if lazyk and i % 3 == 0 else real(x, pc))
    if fam(kind) == 'list':
        return c([val(x, i) for i, x in enumerate(m)])
    if fam(kind) == 'set':
        return c([real(x, pc) for x in m])
    return c([(real(k, pc), val(v, i)) for i, (k, v) in enumerate(m.items())])


def check(kind, o, m, pc, why):
    def bad(msg):
        raise Bad(f'{why}: {kind} {msg}')
    if type(o) is not getattr(pc, kind):
        bad(f'came back as {type(o).__name__}')
    if len(o) != len(m):
        bad(f'has {len(o)} items, expected {len(m)}')
    f = fam(kind)
    if f == 'list':
        e = [real(x, pc) for x in m]
        if list(o) != e:
            bad(f'holds {list(o)!r}, expected {e!r}')
        for i in range(len(e)):
            if o[i] != e[i] or o[i - len(e)] != e[i]:
                bad(f'[{i}] is {o[i]!r}, expected {e[i]!r}')
    elif f == 'set':
        e = [real(x, pc) for x in m]
        got = list(o)
        if len(got) != len(e) or not all(x in got for x in e):
            bad(f'holds {got!r}, expected {e!r}')
        for x in e:
            if x not in o:
                bad(f'does not find {x!r}, which it holds')
        for n in range(8):
            if (f's{n}' in o) != (f's{n}' in m):
                bad(f'membership of s{n} is wrong')
    else:
        e = [(real(k, pc), real(v, pc)) for k, v in m.items()]
        if list(o.items()) != e or list(o) != [k for k, _ in e] or list(o.values()) != [v for _, v in e]:
            bad(f'holds {list(o.items())!r}, expected {e!r}')
        for k, v in e:
            if k not in o or o[k] != v:
                bad(f'does not find {k!r}, which it holds')
        for n in range(8):
            if (f's{n}' in o) != (f's{n}' in m):
                bad(f'membership of s{n} is wrong')
    n = fresh(kind, m, pc)
    if not (o == n) or not (n == o):
        bad(f'is not equal to one built here from the same items')
    if kind[0] != 't' and hash(o) != hash(n):
        bad(f'has another hash than one built here from the same items')


def edit(rng, kind, o, m, pc):
    "A short random history applied to the collection and to the model."
    f = fam(kind)
    t = kind[0] == 't'
    for _ in range(rng.randrange(7)):
        x = token(rng, pc)
        x = norm(x)
        rx = real(x, pc)
        r = rng.randrange(10)
        if f == 'list':
            if r < 4:
                o = (o.append(rx), o)[1] if t else o.append(rx)
                m.append(x)
            elif r < 6:
                o = (o.insert(0, rx), o)[1] if t else o.prepend(rx)
                m.insert(0, x)
            elif r < 8 and m:
                i = rng.randrange(len(m))
                if t: o[i] = rx
                else: o = o.set(i, rx)
                m[i] = x
            elif m:
                i = rng.randrange(len(m))
                if t: del o[i]
                else: o = o.delete(i)
                del m[i]
        elif f == 'set':
            if r < 7 or not m:
                if t: o.add(rx)
                else: o = o.add(rx)
                if x not in m: m.append(x)
            else:
                y = m.pop(rng.randrange(len(m)))
                if t: o.discard(real(y, pc))
                else: o = o.discard(real(y, pc))
        else:
            v = rng.randrange(100)
            if r < 7 or not m:
                if t: o[rx] = v
                else: o = o.set(rx, v)
                m[x] = v
            else:
                y = list(m)[rng.randrange(len(m))]
                del m[y]
                if t: del o[real(y, pc)]
                else: o = o.drop(real(y, pc))
    return o


def start(rng, kind, pc):
    n = rng.choice((0, 1, 2, 5, 12, 40))
    if fam(kind) == 'list':
        m = [norm(token(rng, pc)) for _ in range(n)]
    elif fam(kind) == 'set':
        m = []
        for _ in range(n):
            x = norm(token(rng, pc))
            if x not in m:
                m.append(x)
    else:
        m = {}
        for _ in range(n):
            m[norm(token(rng, pc))] = norm(token(rng, pc))
    return fresh(kind, m, pc), m


STEPS = 3

def child(seed, step, path):
    """Replays the model through steps 0..step; objects exist only from the file."""
    sys.path.insert(0, REPO)
    sys.modules['restart'] = sys.modules['__main__']
    for c in (Key, L):
        c.__module__ = 'restart'
    import pcollections as pc
    if not os.path.realpath(pc.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise Bad('wrong package')
    stats = {'loads': 0, 'torn': 0, 'checks': 0}
    stored = None
    if step:
        with open(path, 'rb') as f:
            stored = pickle.load(f)
    out = []
    for k, kind in enumerate(KINDS):
        rng = random.Random(f'{seed}/{kind}')
        # Models of earlier steps, rebuilt without using their objects.
        o, m = start(rng, kind, pc)
        for s in range(step):
            rng2 = random.Random(f'{seed}/{kind}/{s}')
            o = edit(rng2, kind, o, m, pc)
        if step:
            data = stored[k]
            o = pickle.loads(data)
            stats['loads'] += 1
            check(kind, o, m, pc, f'loaded after restart {step}')
            stats['checks'] += 1
            for _ in range(3):
                cut = data[:rng.randrange(len(data))]
                try:
                    r = pickle.loads(cut)
                except Exception:
                    stats['torn'] += 1
                else:
                    raise Bad(f'{kind}: a pickle of {len(data)} bytes cut to {len(cut)} loaded as {r!r}')
        rng2 = random.Random(f'{seed}/{kind}/{step}')
        o = edit(rng2, kind, o, m, pc)
        if kind[0] != 't' and rng2.randrange(2):
            hash(o)
        proto = rng2.randrange(pickle.HIGHEST_PROTOCOL + 1)
        data = pickle.dumps(o, proto)
        check(kind, o, m, pc, f'after pickling with protocol {proto} in step {step}')
        for c in (copy.copy, copy.deepcopy):
            check(kind, c(o), m, pc, f'{c.__name__} in step {step}')
            stats['checks'] += 1
        out.append(data)
    with open(path + '.new', 'wb') as f:
        pickle.dump(out, f)
    os.replace(path + '.new', path)
    print(json.dumps(stats))


def chain(PY, seed):
    "One case: STEPS interpreters with different hash seeds; None or a message."
    tmp = tempfile.mkdtemp(prefix='pcrestart.')
    stats = {}
    try:
        for step in range(STEPS):
            env = dict(os.environ, PYTHONHASHSEED=str((seed * 7919 + step * 104729) % 4294967295), PYTHONDONTWRITEBYTECODE='1')
            env.pop('PYTHONPATH', None)
            p = subprocess.run([PY, '-s', HERE, 'child', str(seed), str(step), os.path.join(tmp, 'disk')],
                               env=env, capture_output=True, text=True, timeout=120, stdin=subprocess.DEVNULL)
            if p.returncode != 0:
                return stats, f'step {step} (PYTHONHASHSEED={env["PYTHONHASHSEED"]}): ' + (p.stderr.strip().splitlines() or ['died'])[-1]
            for k, v in json.loads(p.stdout.splitlines()[-1]).items():
                stats[k] = stats.get(k, 0) + v
        return stats, None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(PY, vseed, n):
    tot, viol = {'chains': 0, 'processes': 0}, None
    for i in range(n):
        seed = vseed * 100003 + i
        stats, msg = chain(PY, seed)
        tot['chains'] += 1
        tot['processes'] += STEPS
        for k, v in stats.items():
            tot[k] = tot.get(k, 0) + v
        if msg is not None:
            viol = {'cls': 'pickle', 'msg': f'restart seed {seed}: {msg}', 'seed': seed}
            break
    return {'violation': viol, 'coverage': tot}


def replay(PY, d):
    stats, msg = chain(PY, d['res']['seed'])
    if msg is None:
        print('no violation')
        return 0
    full = f'restart seed {d["res"]["seed"]}: {msg}'
    print(full)
    print(f'VIOLATION property=C15 replay=restart:{d["res"]["seed"]}' + ('' if full == d['res']['msg'] else ' (differs from the recorded run)'))
    return 1


if __name__ == '__main__':
    if sys.argv[1] == 'child':
        child(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
