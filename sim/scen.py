"""Scenarios (one per property), plan generation and the execution of one plan."""
import json, os, random, sys, gc, hashlib
from . import core, world, ops, odd, proto, inner, churn, walk, cost, text, retain, mini
from .core import Violation, HarnessError
from .world import quiet, LZ

VALUE_CB = ('hash', 'eq', 'cb')

def names(*groups):
    return [n for n, (f, g) in ops.OPS.items() if any(x in g for x in groups)]

# Each scenario: families, lazy kinds?, weights by op-group or op name, relevant
# violation classes, fault kinds, number of tasks, extra config.
class Scen:
    def __init__(self, prop, relevant, weights, fams, tasks=(1, 4), nops=(6, 40), faults=(), pfault=(0, .15, .35),
                 lazy=0.0, cfg=None, toks=('K', 'K', 'K', 'int', 'str', 'mix', 'mix', 'nest'), gen=None, phases=1):
        self.prop, self.relevant, self.weights, self.fams = prop, frozenset(relevant), weights, fams
        self.tasks, self.nops, self.faults, self.pfault = tasks, nops, faults, pfault
        self.lazy, self.cfg, self.toks, self.gen, self.phases = lazy, cfg or {}, toks, gen, phases

GENERAL = {'no-progress', 'deadlock'}
SCEN = {}
def scen(prop, *a, **k):
    SCEN[prop] = Scen(prop, *a, **k)

ALLFAM = ('list', 'set', 'dict')
LONG = dict.fromkeys(('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C19', 'C20'), .04)
VISITS = ('C01', 'C05', 'C06', 'C07', 'C08', 'C12', 'C13', 'C20')
PF = ('hash', 'eq', 'lt', 'key', 'iter', 'cb', 'intr', 'intr', 'mem')

scen('C01', {'changed'} | GENERAL,
     {'list': 3, 'set': 3, 'dict': 3, 'tlist': 2, 'tset': 2, 'tdict': 2, 'thaw': 3, 'freeze': 3, 'audit': 6, 'hash': 3, 'imm': 2, 'reflect': 3, 'iter': 1},
     ALLFAM, faults=PF, lazy=.4, nops=(10, 50))
scen('C02', {'result'} | GENERAL, {'list': 10, 'thaw': .3, 'tlist': .5, 'freeze': .5, 'p.hash': .3}, ('list',),
     faults=PF, lazy=.35, nops=(8, 40))
scen('C03', {'result'} | GENERAL, {'set': 10, 'thaw': .3, 'tset': .5, 'freeze': .5, 'p.hash': .3}, ('set',),
     faults=PF, nops=(8, 40))
scen('C04', {'result'} | GENERAL, {'dict': 10, 'thaw': .3, 'tdict': .5, 'freeze': .5, 'p.hash': .3}, ('dict',),
     faults=PF, lazy=.35, nops=(8, 40))
TF = ('hash', 'eq', 'lt', 'key', 'iter', 'cb', 'cb')
scen('C05', {'tresult', 'fault-effect', 'freeze'} | GENERAL, {'tlist': 10, 'freeze': 1, 'thaw': 1, 'list': .3}, ('list',),
     faults=TF, tasks=(1, 3), lazy=.35, nops=(8, 45))
scen('C06', {'tresult', 'fault-effect', 'freeze'} | GENERAL, {'tset': 10, 'freeze': 1, 'thaw': 1, 'set': .3}, ('set',),
     faults=TF, tasks=(1, 3), nops=(8, 45))
scen('C07', {'tresult', 'fault-effect', 'freeze'} | GENERAL, {'tdict': 10, 'freeze': 1, 'thaw': 1, 'dict': .3}, ('dict',),
     faults=TF, tasks=(1, 3), lazy=.35, nops=(8, 45))
scen('C08', {'freeze', 'changed', 'tchanged', 'leak'} | GENERAL,
     {'tlist': 3, 'tset': 3, 'tdict': 3, 'freeze': 5, 'thaw': 5, 'audit': 6, 'conv': 2, 'list': .5, 'set': .5, 'dict': .5, 'z.peek': .7}, ALLFAM,
     faults=PF, lazy=.4, nops=(10, 50))
LZREL = {'lazy-once', 'lazy-ready', 'lazy-value', 'needless-wait'}
scen('C09', LZREL | GENERAL | {'lock-leaked'},
     {'z.force': 6, 'z.once': 3, 'z.ready': 4, 'z.unlazy': 1, 'z.via': 4, 'z.new': 1, 'z.bad': .1, 'z.repr': .3, 'l.iter': .3, 'd.views': .3, 'z.readyall': .5}, ('list', 'dict'),
     tasks=(2, 5), nops=(3, 14), faults=('intr', 'intr', 'fn', 'lockintr'), pfault=(0, 0, .1, .3), lazy=1.0, toks=('int',),
     cfg={'lzgen': True})
scen('C10', {'lazy-error', 'lazy-once', 'lazy-ready', 'lazy-value', 'lock-leaked', 'fault-masked'} | GENERAL,
     {'z.force': 5, 'z.once': 5, 'z.ready': 2, 'z.unlazy': 1, 'z.via': 3, 'z.new': 1, 'z.readyall': .3}, ('list', 'dict'),
     tasks=(1, 4), nops=(3, 14), faults=('intr', 'intr', 'intr', 'fn', 'lockintr'), pfault=(.2, .5, .8), lazy=1.0, toks=('int',),
     cfg={'lzgen': True, 'failing': True})
scen('C11', {'lazy-error', 'lock-leaked', 'lazy-value', 'needless-wait'} | GENERAL,
     {'z.force': 6, 'z.via': 4, 'z.once': 2, 'z.self': .7, 'z.new': 1, 'z.readyall': .7, 'p.hash': .7, 'l.iter': .4, 'd.views': .4}, ('list', 'dict'),
     tasks=(2, 5), nops=(2, 10), faults=('fn', 'lockintr', 'intr'), pfault=(0, 0, .2), lazy=1.0, toks=('int',),
     cfg={'lzgen': True, 'deps': True})
scen('C12', {'force', 'lazycoll', 'result', 'tresult', 'freeze', 'lazy-once', 'hash', 'eq'} | GENERAL,
     {'list': 5, 'dict': 5, 'tlist': 2, 'tdict': 2, 'freeze': 1, 'thaw': 1, 'z.peek': 4, 'z.repr': .2, 'z.readyall': .4, 'z.force': 1, 'p.hash': .4}, ('list', 'dict'),
     tasks=(1, 4), lazy=1.0, faults=('fn', 'fn', 'hash', 'eq'), pfault=(0, 0, .1), cfg={'lazyonly': True})
scen('C13', {'fault-effect', 'fault-masked', 'changed', 'hash'} | GENERAL,
     {'list': 4, 'set': 4, 'dict': 4, 'tlist': 2, 'tset': 2, 'tdict': 2, 'freeze': 1, 'thaw': 1, 'hash': 2, 'audit': 1}, ALLFAM,
     faults=PF, pfault=(.5, .8), lazy=.35, tasks=(1, 3), toks=('K', 'K', 'K', 'mix'))
scen('C14', {'iter'} | GENERAL,
     {'i.open': 4, 'i.step': 9, 'i.edit': 6, 'i.view': 1, 'i.viewread': 2, 'tlist': 3, 'tset': 3, 'tdict': 4, 'freeze': .5, 'thaw': .5, 'list': .3, 'set': .3, 'dict': .3}, ALLFAM,
     faults=(), lazy=.2, nops=(10, 60), cfg={'maxtrs': 2, 'pfail': 0, 'walks': True})
scen('C16', {'hash', 'eq', 'fault-effect'} | GENERAL,
     {'p.hash': 5, 'q.twin': 6, 'q.eq': 5, 'q.lookup': 3, 'q.teq': 2, 'list': 1, 'set': 1, 'dict': 1, 'thaw': .5, 'tlist': .5, 'tset': .5, 'tdict': .5, 'freeze': .7}, ALLFAM,
     faults=('hash', 'eq', 'cb', 'intr', 'fn'), lazy=.4, nops=(8, 40))
scen('C15', {'pickle', 'changed'} | GENERAL,
     {'k.dump': 6, 'k.load': 6, 'k.copy': 3, 'k.tdump': 3, 'p.hash': 2, 'list': 2, 'set': 2, 'dict': 2, 'thaw': 1, 'freeze': 1, 'tlist': 1, 'tset': 1, 'tdict': 1}, ALLFAM,
     faults=('hash', 'eq', 'iter', 'cb', 'fn'), pfault=(0, 0, .15), tasks=(1, 2), lazy=.35, nops=(5, 25), phases=3)
scen('C17', {'text', 'force'} | GENERAL,
     {'x.str': 8, 'x.fmt': 1, 'x.view': 1, 'x.json': 3, 'x.mk': 6, 'list': 2, 'set': 2, 'dict': 2, 'tlist': 1, 'tset': 1, 'tdict': 1, 'thaw': 1, 'freeze': 1, 'z.force': .5}, ALLFAM,
     faults=('repr', 'intr', 'mem', 'fn', 'hash', 'cb'), pfault=(0, 0, .1, .2), lazy=.5, nops=(8, 40), cfg={'render': True}, toks=('int', 'K', 'str', 'mix'))
scen('C18', {'cost'} | GENERAL, {'c.edit': 6, 'c.tedit': 4, 'c.thaw': 3, 'c.freeze': 3, 'c.read': 2}, ALLFAM,
     faults=('hash', 'eq', 'cb', 'intr', 'mem'), pfault=(0, 0, .15), tasks=(1, 3), nops=(10, 60), cfg={'big': True})


scen('C19', {'retained'} | GENERAL,
     {'list': 3, 'set': 3, 'dict': 3, 'tlist': 3, 'tset': 3, 'tdict': 3, 'freeze': 2, 'thaw': 2, 'hash': .5, 'i.open': 1, 'i.step': 2, 'i.view': .5, 'z.force': 2, 'z.once': 1, 'z.via': 1, 'z.readyall': .3, 'conv': 1},
     ALLFAM, faults=PF + ('fn',), lazy=.6, nops=(8, 45), tasks=(1, 4), toks=('K', 'K', 'K', 'nest'), cfg={'mem': True})

scen('C20', {'result', 'tresult', 'fault-effect', 'fault-masked', 'changed', 'hash', 'eq', 'freeze', 'pickle', 'text'} | GENERAL,
     {'list': 5, 'set': 5, 'dict': 5, 'tlist': 5, 'tset': 5, 'tdict': 5, 'freeze': 1, 'thaw': 1, 'p.hash': .5, 'q.eq': 1, 'q.teq': .5, 'k.copy': .5,
      'x.str': .7, 'x.json': .3},
     ALLFAM, faults=PF, tasks=(1, 3), nops=(8, 45), lazy=.5, cfg={'abc': True})

# ------------------------------------------------------------------ generation
def logu(rng, hi):
    return int(2 ** (rng.random() * hi))

def make_plan(prop, seed):
    rng = random.Random(f'{prop}/{seed}')
    sc = SCEN[prop]
    cfg = dict(sc.cfg)
    fams = list(sc.fams)
    if len(fams) == 3 and rng.random() < .5:
        fams = rng.sample(fams, rng.choice((1, 1, 2)))
    cfg['fams'] = fams
    cfg['tok'] = rng.choice(sc.toks)
    cfg['special'] = rng.random() < .3
    cfg['odd'] = rng.random() < .25 and prop != 'C15'
    cfg['nkeys'] = rng.choice((3, 5, 8, 12, 20, 40))
    cfg['hash'] = rng.choice(world.HASH_MODES)
    if prop == 'C14' and rng.random() < .5:
        cfg['hash'] = rng.choice(('collide', 'const', 'pairs', 'small'))
    cfg['salt'] = rng.randrange(5)
    cfg['recent'] = rng.random() < .5
    cfg['huge'] = rng.random() < .03
    cfg['maxpool'] = rng.choice((12, 24, 48))
    cfg['lazy'] = rng.random() < sc.lazy
    if cfg.get('abc'):
        cfg['abc'] = rng.choice(('base', 'base', 'sub'))
        cfg['lazy'] = cfg['lazy'] and cfg['abc'] == 'sub'
    cfg['plazy'] = rng.choice((20, 50, 80))
    cfg['rawlazy'] = cfg['lazy'] and rng.random() < .2 and 'lzgen' not in cfg
    cfg['maxlz'] = rng.choice((4, 8, 16))
    if cfg['lazy']:
        if cfg.get('failing'):
            cfg['pfail'] = rng.choice((20, 50, 80))
        else:
            cfg.setdefault('pfail', rng.choice((0, 0, 10, 40)))
        cfg['failkinds'] = rng.choice((['exc'], ['exc', 'exc', 'mem'], ['exc', 'exit'], ['exc', 'intr', 'exit', 'mem']))
        cfg['pnap'] = rng.choice((0, 20, 60))
        cfg['pdep'] = rng.choice((30, 60, 80)) if cfg.get('deps') else rng.choice((0, 0, 30, 60))
    ntasks = rng.randint(*sc.tasks)
    long = 0
    if prop in LONG and rng.random() < LONG[prop]:
        long = rng.choice((70, 130, 260, 520, 1030, 1100, 2050))
        if cfg['hash'] in world.HEAVY and fams != ['list']:
            long = rng.choice((40, 70, 100))
        cfg['long'] = True
        cfg['nkeys'] = long + long // 8
        cfg['recent'] = False
        if cfg['tok'] == 'nest':
            cfg['tok'] = 'mix'
        ntasks = min(ntasks, 2)
    w = {}
    for g, x in sc.weights.items():
        ns = [g] if g in ops.OPS else names(g)
        for n in ns:
            w[n] = max(w.get(n, 0), x * (1.0 if g in ops.OPS else 10.0 / max(1, len(ns))) if True else 0)
    # keep only ops whose family is enabled
    def enabled(n):
        g = ops.OPS[n][1][0].rstrip('!')
        f = {'list': 'list', 'set': 'set', 'dict': 'dict', 'tlist': 'list', 'tset': 'set', 'tdict': 'dict'}.get(g)
        return f is None or f in fams
    w = {n: x for n, x in w.items() if enabled(n)}
    # swarm: drop a random subset of the ops, boost a few
    keys = sorted(w)
    keep = rng.choice((1.0, .7, .4))
    chosen = [n for n in keys if rng.random() < keep] or [rng.choice(keys)]
    ww = []
    for n in chosen:
        ww.append(w[n] * rng.choice((.3, 1, 1, 3)))
    nphases = rng.randint(1, sc.phases)
    lo, hi = sc.nops
    pf = rng.choice(sc.pfault) if sc.faults else 0
    kinds = sorted(set(rng.sample(sc.faults, rng.randint(1, len(sc.faults))))) if sc.faults else []
    pv = rng.choice((0, .15, .4)) if prop in VISITS else 0
    phases = []
    for ph in range(nphases):
        tasks = []
        for i in range(ntasks):
            nops = rng.randint(lo, hi if not long else min(hi, 14)) // (1 if ntasks < 3 else 2) // (1 if nphases == 1 else 2) + 1
            lst = []
            for n in rng.choices(chosen, ww, k=nops):
                o = {'o': n, 'a': [rng.randrange(1 << 20) for _ in range(6)]}
                if pf and rng.random() < pf:
                    k = rng.choice(kinds)
                    if k in ('intr', 'mem'):
                        o['f'] = [k, logu(rng, 6.5)]
                    elif k == 'lockintr':
                        o['f'] = [k, rng.randint(1, 6)]
                    else:
                        o['f'] = [k, logu(rng, 4), rng.randrange(30)]
                if pv and rng.random() < pv:
                    o['c'] = [logu(rng, 4), rng.randrange(1 << 16)]
                lst.append(o)
            tasks.append(lst)
        phases.append(tasks)
    setup = []
    for f in fams:
        for i in range(rng.randint(1, 4)):
            n = rng.choice((0, 1, 2, 4, 8, 12, 12, 33 if rng.random() < .3 else 6))
            setup.append({'fam': f, 'a': [rng.randrange(1 << 40) for _ in range(n)], 'k': rng.randrange(100),
                          'pre': rng.choice((0, 0, 1, 3, n))})
    if long:
        f = rng.choice(fams)
        setup = [s for s in setup if s['fam'] != f]
        setup.append({'fam': f, 'a': [rng.randrange(1 << 40)], 'k': rng.randrange(100), 'long': long,
                      'pre': rng.choice((0, 0, 1, 33, long // 2, long))})
    if rng.random() < .2:
        for s in setup:
            s['drift'] = rng.choice((0, 1, 2, 31, 33, 64, 70, 150, 300, 1100))
    nlz = rng.randint(1, 8) if cfg.get('lzgen') else 0
    lz = [rng.randrange(1 << 60) for _ in range(nlz)]
    chain = []
    if nlz and prop in ('C09', 'C10', 'C11') and rng.random() < .1:
        # Mostly ones that work, so that a failure deep down is seen from far above.
        chain = [rng.randrange(1 << 60) // 100 * 100 + (99 if rng.random() < .9 else 0) for _ in range(rng.choice((4, 9, 17, 33, 40)))]
    if ntasks == 1:
        pol = {'kind': 'none'}
    elif rng.random() < .25:
        pol = {'kind': 'pct', 'depth': rng.randint(1, 5), 'horizon': rng.choice((200, 1000, 4000, 12000)), 'seed': rng.getrandbits(60)}
    else:
        pol = {'kind': 'rand', 'gap': rng.choice((3, 8, 20, 60, 200, 1000)), 'seed': rng.getrandbits(60),
               'cbp': rng.choice((0, .1, .4)), 'lockp': rng.choice((.1, .5)), 'opp': rng.choice((.1, .5))}
    crash = []
    if sc.phases > 1:
        cfg['rawlazy'] = False
        cfg['rehash'] = [rng.choice(world.HASH_MODES) for _ in range(3)]
        if long:
            cfg['rehash'] = [m if m not in world.HEAVY or long <= 100 else 'mixed' for m in cfg['rehash']]
        for ph in range(nphases - 1):
            crash.append([ph * 10 + rng.randrange(ntasks), rng.randint(50, 6000)] if rng.random() < .5 else None)
    big = []
    if cfg.get('big'):
        cfg['hash'], cfg['salt'] = rng.choice(('good', 'chains')), 0
        setup = []
        for f in fams:
            big.append({'fam': f, 'n': rng.choice((4096, 5000, 8193, 12000)), 'lazy': rng.random() < .25, 'pre': rng.choice((0, 1, 4)) if f == 'list' else 0,
                        'how': rng.choice((0, 1, 2)), 'hash': cfg['hash'], 'a': [rng.choice((0, 33)), rng.choice((0, 2))]})
    return {'prop': prop, 'seed': seed, 'crash': crash, 'cfg': cfg, 'setup': setup, 'lz': lz, 'chain': chain, 'phases': phases, 'policy': pol, 'big': big,
            'sched': None, 'first': None}


# ------------------------------------------------------------------- execution
# Collections with a past: many items came and went before what they hold now.
PAST = 1 << 30
def drifted_list(ctor, s, xs, p):
    k, j = s['drift'], s['k'] // 2 % 4
    if j == 0:          # what was in front is gone
        x = ctor(range(k))
        for y in xs[p:]:
            x = x.append(y)
        for i in range(k):
            x = x.delete(0)
        for y in reversed(xs[:p]):
            x = x.prepend(y)
    elif j == 1:        # what was behind is gone, and all lies far in front
        x = ctor([0])
        for i in range(k - 1):
            x = x.prepend(i)
        for y in reversed(xs):
            x = x.prepend(y)
        for i in range(k):
            x = x.delete()
    elif j == 2:        # a queue, edited in place
        x = ctor(range(k)).transient()
        for y in xs:
            x.append(y)
        for i in range(k):
            del x[0]
        x = ctor(x)
    else:               # taken out from between
        x = ctor(xs[:p]).transient()
        for i in range(k):
            x.append(i)
        for y in xs[p:]:
            x.append(y)
        for i in range(k):
            del x[p]
        x = ctor(x)
    return x
def drifted_set(ctor, s, xs):
    k, j = s['drift'], s['k'] // 2 % 4
    h = 0 if j < 2 else len(xs) // 2
    x = ctor(xs[:h])
    if j % 2:
        x = x.transient()
        for i in range(k):
            x.add(PAST + i)
        for y in xs[h:]:
            x.add(y)
        for i in range(k):
            x.discard(PAST + i)
        return ctor(x)
    for i in range(k):
        x = x.add(PAST + i)
    for y in xs[h:]:
        x = x.add(y)
    for i in range(k):
        x = x.discard(PAST + i)
    return x
def drifted_dict(ctor, s, ps):
    k, j = s['drift'], s['k'] // 2 % 4
    h = 0 if j < 2 else len(ps) // 2
    x = ctor(ps[:h])
    if j % 2:
        x = x.transient()
        for i in range(k):
            x[PAST + i] = i
        for y, v in ps[h:]:
            x[y] = v
        for i in range(k):
            del x[PAST + i]
        return ctor(x)
    for i in range(k):
        x = x.set(PAST + i, i)
    for y, v in ps[h:]:
        x = x.set(y, v)
    for i in range(k):
        x = x.drop(PAST + i)
    return x

def build(w, plan):
    """The initial pool, made in the client's main thread before the tasks start."""
    cfg = w.cfg
    for x in plan.get('lz', ()):
        w.newlz(x)
    z = None
    for x in plan.get('chain', ()):        # each needs the one before
        z = w.newlz(x, z)
    for s in plan['setup']:
        fam = s['fam']
        kind = {'list': 'plist', 'set': 'pset', 'dict': 'pdict'}[fam]
        if fam != 'set' and cfg.get('lazy') and (cfg.get('lazyonly') or cfg.get('lzgen') or s['k'] % 2):
            kind = {'list': 'llist', 'dict': 'ldict'}[fam]
        ctor = w.kinds[kind]
        a = s['a']
        if s.get('long') and a:
            # Many items from one number; shorter is simpler.
            a = a + [(a[0] + i * 77777777777) % (1 << 40) for i in range(s['long'] - 1)]
        ks = [a[0] + i for i in range(s['long'])] if s.get('long') and a else a
        try:
            if fam == 'list':
                m = [w.cell(x, kind) for x in a]
                p = min(s.get('pre', 0), len(m))
                if s.get('drift'):
                    obj = drifted_list(ctor, s, [w.raw(c) for c in m], p)
                else:
                    obj = ctor([w.raw(c) for c in m[p:]])
                    for c in reversed(m[:p]):
                        obj = obj.prepend(w.raw(c))
            elif fam == 'set':
                xs = [w.tok(x) for x in ks]
                m = set(xs)
                obj = drifted_set(ctor, s, xs) if s.get('drift') else ctor(xs)
            else:
                ps = [(w.tok(k), w.cell(x >> 20, kind)) for k, x in zip(ks, a)]
                m = dict(ps)
                rs = [(k, w.raw(v)) for k, v in ps]
                obj = drifted_dict(ctor, s, rs) if s.get('drift') else ctor(rs)
        except Exception as e:
            for c in ('result', 'freeze'):
                w.viol(c, f'building a {kind} raised {type(e).__name__}: {e}')
            continue
        d = w.diff(kind, obj, m)
        if d is not None:
            w.viol('result', f'{kind} built from items: {d}')
            try:
                m = w.observed(kind, obj)
            except Exception:
                continue
        w.adopt(kind, obj, m)
    for fam in cfg['fams']:
        if w.pick(fam, 0) is None:
            kind = {'list': 'plist', 'set': 'pset', 'dict': 'pdict'}[fam]
            w.adopt(kind, w.kinds[kind](), {'list': [], 'set': set(), 'dict': {}}[fam])
    if cfg.get('lzgen'):
        wire(w)
    if cfg.get('big'):
        cost.build(w, plan)

def wire(w):
    "Let some cells be read by others through a lazy collection that holds them."
    homes = {}
    for e in w.pool:
        if e.kind in ('llist', 'ldict'):
            it = enumerate(e.model) if e.kind == 'llist' else e.model.items()
            for k, c in it:
                if isinstance(c, LZ):
                    homes.setdefault(c.id, (e.obj, k))
    for z in w.lzs:
        if z.id in homes and z.id % 2:
            z.via = homes[z.id]

def body(w, lst):
    def run(t):
        for i, o in enumerate(lst):
            t.opno = i
            w.sim.point('opp')
            f, groups = ops.OPS[o['o']]
            fam = {'tlist': 'list', 'tset': 'set', 'tdict': 'dict'}.get(groups[0], groups[0].rstrip('!'))
            if fam in world.FAMILY.values() and w.pick(fam, 0) is None:
                continue
            w.sim.stat('ops')
            w.opcount[o['o']] = w.opcount.get(o['o'], 0) + 1
            f(w, t, o, o['a'])
    return run

def final_body(w):
    def run(t):
        w.sim.event('final')
        for te in list(w.tes):
            if te.alive:
                w.audit_t(te, 'tchanged', ' changed without an edit')
        w.fault_free = True
        for z in w.lzs:
            if not z.self_dep and not (w.cfg.get('mem') and z.failures and z.id % 2):
                ops.force_one(w, t, {}, z, f'{z!r}() after all faults stopped', lambda: z.lazy())
        if 'lazycoll' in w.relevant or 'lazy-value' in w.relevant:
            for e in list(w.pool):
                if e.kind == 'llist':
                    w.perform(t, {}, 'list(llist) at the end', lambda: list(e.obj), lambda: ops.It(ops.view(w, e)), [e], True, cls='lazycoll')
                elif e.kind == 'ldict':
                    w.perform(t, {}, 'list(ldict.items()) at the end', lambda: list(e.obj.items()), lambda: ops.It(list(ops.view(w, e).items())), [e], True, cls='lazycoll')
        for (err, inj, name) in w.held_errors:
            own = set(map(id, inj))
            ch = world.chain(err)
            if not any(id(x) in own for x in ch):
                w.viol('lazy-error', f'{name}: the error delivered earlier no longer reports the failure it was raised for')
            for x in ch:
                if isinstance(x, core.FAULTS) and id(x) not in own:
                    w.viol('lazy-error', f'{name}: the error delivered earlier now reports {x!r}, a failure of another attempt')
                    break
    return run

def in_package(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(core.PKG):
            return True
        tb = tb.tb_next
    return False

def execute(plan, pc, finish):
    """Run one plan in this process; `finish(result)` must not return on violations."""
    sim = core.Sim(plan)
    sc = SCEN[plan['prop']]
    w = world.World(sim, pc, plan['cfg'], sc.relevant)
    w.opcount = {}
    core.NLOOKUP = plan['cfg'].get('abc') == 'base'
    if plan['cfg'].get('abc'):
        mini.install(w, pc, plan['cfg']['abc'])
    if plan['cfg'].get('mem'):
        retain.start(w)
    def result(v):
        if v is not None and not isinstance(v, (Violation, HarnessError)) and in_package(v):
            v = Violation('unreadable', f'the package raised {type(v).__name__}: {v} while a collection was being read')
        r = {'steps': sum(t.count for t in sim.tasks), 'switches': sim.total_switch, 'now': sim.now,
             'stats': sim.stats, 'ops': w.opcount, 'digest': sim.log.hexdigest()[:24], 'nlog': sim.nlog,
             'inter': hashlib.sha256(repr(sim.sched_log).encode()).hexdigest()[:16]}
        if sim.keep_log is not None:
            r['log'] = sim.keep_log
        if v is None:
            r['status'] = 'ok'
        elif isinstance(v, Violation):
            r.update(status='viol', cls=v.cls, msg=v.msg, sched=sim.sched_log, first=sim.firsts)
            ts = core.CUR
            r['at'] = [ts.id, ts.opno] if ts is not None else None
        else:
            import traceback
            r.update(status='harness', cls='harness', msg=''.join(traceback.format_exception(v))[-3000:], sched=sim.sched_log, first=sim.firsts)
        return r
    sim.finish_cb = lambda v: finish(result(v))
    sim.idle_cb = w.idle
    core.S = sim
    pol = plan['policy']
    try:
        build(w, plan)
        total = 0
        for ph, tasks in enumerate(plan['phases']):
            if ph:
                restart(w, ph)
            core.instrument(True)
            cr = plan.get('crash') or []
            sim.crash = list(cr[ph]) if ph < len(cr) and cr[ph] else None
            sim.run([body(w, lst) for lst in tasks], ph * 10)
            total += sum(t.count for t in sim.tasks)
        for e in w.pool:
            w.audit(e)
        sim.run([final_body(w)], 90, {'kind': 'none'})
        core.instrument(False)
        e = None
        npool = len(w.pool)
        state = hashlib.sha256(repr([(e.kind, sorted(map(repr, e.model)) if e.fam == 'set' else e.model) for e in w.pool]).encode()).hexdigest()[:16]
        if plan['cfg'].get('mem'):
            m = retain.finish(w, plan)
            if m is not None:
                w.viol('retained', m)
        r = result(None)
        r['steps'] = total
        r['pool'] = npool
        r['state'] = state
        r['foreign'] = {k: v for k, v in sim.stats.items() if k.startswith('foreign_')}
        finish(r)
    except (Violation, HarnessError) as e:
        finish(result(e))
    except BaseException as e:
        finish(result(e))

def prebuild(plan, pc):
    for s in plan.get('big') or ():
        cost.base(pc, s)

def restart(w, ph):
    """Process restart: memory is lost, hashes change, only the disk survives."""
    w.sim.event('restart', ph)
    w.sim.stat('fault_restart')
    core.process_died()
    w.pool.clear()
    w.tes.clear()
    w.its.clear()
    w.held_errors.clear()
    w.lzs.clear()
    w.byid.clear()
    world.HashFn.salt = w.cfg['salt'] + 3 * ph
    if w.cfg.get('rehash'):
        world.HashFn.mode = w.cfg['rehash'][ph % len(w.cfg['rehash'])]
    for fam in w.cfg['fams']:
        kind = {'list': 'plist', 'set': 'pset', 'dict': 'pdict'}[fam]
        w.adopt(kind, w.kinds[kind](), {'list': [], 'set': set(), 'dict': {}}[fam])
