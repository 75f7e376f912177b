"""What an operation costs, in simulated steps and in memory (C18).

Steps are the simulator's own clock: bytecode instructions the package executes
on behalf of one operation of one task, however it was interleaved.  Memory is
the peak of what was allocated while the operation ran (tracemalloc, which the
C extension's trie nodes are visible to), taken when no other task ran in between.
Both are compared with a bound that grows with log2(n) only; anything that visits
every item of a collection of thousands exceeds it many times over."""
import builtins
import tracemalloc
from . import core, world
from .world import K, quiet
from .ops import op

ABSENT = object()

def step_bound(n, k):
    return (k + 1) * (1500 + 60 * n.bit_length())
def mem_bound(n, k):
    return (k + 1) * (8000 + 700 * n.bit_length())

class Big:
    """A big version: how long it must be and, by difference from its base, what it holds."""
    __slots__ = ('fam', 'kind', 'obj', 'n', 'base', 'diff')
    def __init__(self, fam, kind, obj, n, base, diff):
        self.fam, self.kind, self.obj, self.n, self.base, self.diff = fam, kind, obj, n, base, diff
    def has(self, k):
        v = self.diff.get(k, self)
        return (k in self.base) if v is self else v is not ABSENT

def key(w, x):
    c = x % 4
    return x - 1000 if c < 2 else K(x) if c == 2 else f'k{x}'

CACHE = {}
def base(pc, s):
    """A big collection made once per interpreter, before the runs fork from it."""
    mode = s.get('hash', 'good')
    ck = (s['fam'], s['n'], s['lazy'], s['pre'], s['how'], mode, tuple(s['a']))
    b = CACHE.get(ck)
    if b is not None:
        return b
    hs = world.HashFn.mode, world.HashFn.salt
    world.HashFn.mode, world.HashFn.salt = mode, 0
    sim, core.S = core.S, None
    try:
        b = CACHE[ck] = _base(pc, s)
    finally:
        world.HashFn.mode, world.HashFn.salt = hs
        core.S = sim
    return b
def _base(pc, s):
    fam, n, a = s['fam'], s['n'], s['a']
    lazyk = s['lazy'] and fam != 'set'
    kind = ('l' if lazyk else 'p') + fam
    val = (lambda i: pc.lazy(int, i) if i % 3 == 0 else i) if lazyk else (lambda i: i)
    if fam == 'list':
        pre = n * s['pre'] // 4
        if s['how'] == 1:
            t = (pc.tllist if lazyk else pc.tlist)()
            for i in range(n - pre):
                t.append(val(i))
            for i in range(pre):
                t.prepend(val(i))
            obj = t.persistent()
        else:
            obj = getattr(pc, kind)([val(i) for i in range(n - pre)])
            for i in range(pre):
                obj = obj.prepend(val(i))
        return Big(fam, kind, obj, n, (), {})
    keys = {}
    i = a[0]
    while len(keys) < n:
        keys[key(None, i)] = None
        i += 1 + a[1]
    extra = []
    if s['how']:
        while len(extra) < n // 2:
            extra.append(key(None, i))
            i += 1 + a[1]
    # The members that are dropped again lie between the others.
    mixed = [k for two in zip(keys, extra) for k in two] + list(keys)[len(extra):]
    if fam == 'set':
        t = pc.tset(mixed)
        if s['how'] == 2:
            t = t.persistent()
        for k in extra:
            if s['how'] == 2:
                t = t.discard(k)
            else:
                t.discard(k)
    else:
        t = (pc.tldict if lazyk else pc.tdict)([(k, val(j)) for j, k in enumerate(mixed)])
        if s['how'] == 2:
            t = t.persistent()
        for k in extra:
            if s['how'] == 2:
                t = t.drop(k)
            else:
                del t[k]
    return Big(fam, kind, t if s['how'] == 2 else t.persistent(), n, keys, {})

def build(w, plan):
    w.bigt = {}
    w.big = [base(w.pc, s) for s in plan['big']]
    tracemalloc.start(1)

def member(e, x):
    "A key that is often present (base keys, then looked up in the difference)."
    if x % 4:
        ks = e.diff if e.diff and x % 4 == 1 else None
        if ks:
            return list(ks)[x // 4 % len(ks)]
        i = x // 4 % 64
        for j, k in enumerate(e.base):
            if j == i:
                return k
    return None

def measured(w, t, o, name, e, fn, k=0):
    sim = w.sim
    fault = o.get('f')
    n = max(e.n, 2)
    for attempt in range(2):
        sw, c0 = sim.total_switch, t.count
        tracemalloc.reset_peak()
        m0 = tracemalloc.get_traced_memory()[0]
        act, err = w.call(t, fn, fault)
        m1 = tracemalloc.get_traced_memory()[1]
        used, peak = t.count - c0, m1 - m0
        if used > step_bound(n, k):
            w.viol('cost', f'{name} on {n} items took {used} steps; O(log n) allows {step_bound(n, k)}')
        if sim.total_switch == sw:
            sim.stat('memory_measured')
            if peak > mem_bound(n, k):
                w.viol('cost', f'{name} on {n} items used {peak // 1000} kB of memory; O(log n) allows {mem_bound(n, k) // 1000} kB')
        sim.stat('cost_measured')
        fired = t.fired
        sim.event('op', t.id, t.opno, name, used, fired is not None, err is not None)
        t.fired_kind = None
        if fired is None:
            break
        fault = None
    if err is not None and not isinstance(err, (KeyError, IndexError)):
        w.viol('cost', f'{name} raised {type(err).__name__}: {err}')
    return act, err

class Again:
    "An iterable that is nothing else, and can be gone through again."
    def __init__(self, items):
        self.items = items
    def __iter__(self):
        return iter(self.items)
def some(w, x, items, o):
    "A few items as an iterable of any kind (an edit that a fault interrupts is made once more)."
    pc, iter = w.pc, Again if o.get('f') else builtins.iter
    return (list, tuple, set, frozenset, iter, pc.pset, pc.plist, pc.tset, dict.fromkeys, pc.tlist)[x % 10](items)
def somes(w, x, items):
    "A few items as a set of any kind."
    pc = w.pc
    return (set, frozenset, pc.pset, pc.tset, lambda y: dict.fromkeys(y).keys())[x % 5](items)
def somem(w, x, pairs, o):
    "A few pairs as a mapping or an iterable of pairs."
    pc, iter = w.pc, Again if o.get('f') else builtins.iter
    return (list, tuple, dict, iter, pc.pdict, pc.tdict, pc.plist, lambda y: dict(y).items(), pc.ldict)[x % 9](pairs)

def keep(w, b):
    if len(w.big) >= 8:
        w.big.pop(b.n % 3)
    w.big.append(b)
def check_len(w, name, obj, n):
    with quiet():
        got = len(obj)
    if got != n:
        w.viol('cost', f'{name}: len() is {got}, expected {n}')

@op('c.edit', 'cost')
def _(w, t, o, a):
    if not w.big:
        return
    e = w.big[a[0] % len(w.big)]
    obj, x = e.obj, a[3]
    if e.fam == 'list':
        n = e.n
        i = a[2] % n
        if x % 3 == 0:
            i -= n
        v = -5 - x % 3
        with quiet():
            few = (list, tuple, Again if o.get('f') else iter, w.pc.plist, w.pc.tlist, lambda y: dict(enumerate(y)).values())[a[4] % 6]([v, v])
            few2 = (list, w.pc.plist)[a[4] % 2]([v, v])
        nm, fn, d = [
            (f'set({i})', lambda: obj.set(i, v), 0), ('append', lambda: obj.append(v), 1), ('prepend', lambda: obj.prepend(v), 1),
            ('delete()', lambda: obj.delete(), -1), ('delete(0)', lambda: obj.delete(0), -1), ('drop(-1)', lambda: obj.drop(-1), -1),
            ('pop()', lambda: obj.pop()[1], -1), ('pop(0)', lambda: obj.pop(0)[1], -1), ('insert(0)', lambda: obj.insert(0, v), 1),
            ('insert(n)', lambda: obj.insert(n, v), 1), ('+ [v]', lambda: obj + [v], 1), ('extend([u, v])', lambda: obj.extend([v, v]), 2),
            ('extend(few)', lambda: obj.extend(few), 2), ('+ few', lambda: obj + few2, 2), ('insert(1)', lambda: obj.insert(1, v), 1),
            ('insert(-1)', lambda: obj.insert(-1, v), 1), ('delete(-1)', lambda: obj.delete(-1), -1), ('delete(1)', lambda: obj.delete(1), -1)][a[1] % 18]
        nm = f'{e.kind}.{nm}'
        r, err = measured(w, t, o, nm, e, fn, 2 if d == 2 else 1)
        if err is None:
            check_len(w, nm, r, n + d)
            keep(w, Big(e.fam, e.kind, r, n + d, (), {}))
        return
    with quiet():
        k = member(e, a[2])
        if k is None:
            k = key(w, 1 << 22 | a[2])
        has = e.has(k)
        k2 = key(w, 1 << 23 | a[3])
        k3 = key(w, 1 << 24 | a[4])
        d = dict(e.diff)
        ks = [k]
    add, rem = {k: True}, {k: ABSENT}
    if e.fam == 'set':
        with quiet():
            f1, f2 = some(w, x, [k, k2, k3], o), some(w, x, [k, k2], o)
            s1, s2 = somes(w, x, [k, k2, k3]), somes(w, x, [k, k2])
        nm, fn, ch, m = [
            ('add', lambda: obj.add(k), add, 1), ('add(new)', lambda: obj.add(k2), {k2: True}, 1), ('discard', lambda: obj.discard(k), rem, 1),
            ('remove', lambda: obj.remove(k), rem, 1), ('pop', lambda: obj.pop(), None, 1),
            ('addall', lambda: obj.addall(f1), {k: True, k2: True, k3: True}, 3),
            ('discardall', lambda: obj.discardall(f2), {k: ABSENT, k2: ABSENT}, 2),
            ('removeall', lambda: obj.removeall(f2), {k: ABSENT, k2: ABSENT}, 2),
            ('union', lambda: obj.union(f1), {k: True, k2: True, k3: True}, 3),
            ('|', lambda: obj | s1, {k: True, k2: True, k3: True}, 3),
            ('difference', lambda: obj.difference(f2), {k: ABSENT, k2: ABSENT}, 2),
            ('-', lambda: obj - s2, {k: ABSENT, k2: ABSENT}, 2)][a[1] % 12]
    else:
        v = w.pc.lazy(int, x) if e.kind[0] == 'l' and x % 2 else x
        with quiet():
            f2, f1, f3 = somem(w, a[4], [(k, v), (k2, v)], o), somem(w, x, [(k3, v)], o), some(w, x, [k, k2], o)
        nm, fn, ch, m = [
            ('set', lambda: obj.set(k, v), add, 1), ('set(new)', lambda: obj.set(k2, v), {k2: True}, 1), ('drop', lambda: obj.drop(k), rem, 1),
            ('delete', lambda: obj.delete(k), rem, 1), ('pop', lambda: obj.pop(k, None)[1], rem, 1), ('popitem', lambda: obj.popitem(), None, 1),
            ('setdefault', lambda: obj.setdefault(k, v), add, 1), ('update', lambda: obj.update(f2), {k: True, k2: True}, 2),
            ('update({})', lambda: obj.update({k2: v}), {k2: True}, 1), ('update(x, y)', lambda: obj.update(f2, f1), {k: True, k2: True, k3: True}, 3),
            ('update(**kw)', lambda: obj.update(zz=v), {'zz': True}, 1), ('setall', lambda: obj.setall(f3, [v, v]), {k: True, k2: True}, 2),
            ('dropall', lambda: obj.dropall(f3), {k: ABSENT, k2: ABSENT}, 2), ('deleteall', lambda: obj.deleteall([k]), rem, 1),
            ('type(x, **kw)', lambda: type(obj)(obj, zz=v), {'zz': True}, 1)][a[1] % 15]
    nm = f'{e.kind}.{nm}'
    r, err = measured(w, t, o, nm, e, fn, m)
    if err is not None:
        return
    if ch is None:
        (kk, r) = r
        if e.fam == 'dict':
            kk = kk[0]
        ch = {kk: ABSENT}
    with quiet():
        n = e.n
        for kk, v in ch.items():
            n += (v is not ABSENT) - e.has(kk)
            d[kk] = v
    check_len(w, nm, r, n)
    keep(w, Big(e.fam, e.kind, r, n, e.base, d))

@op('c.thaw', 'cost')
def _(w, t, o, a):
    if not w.big:
        return
    e = w.big[a[0] % len(w.big)]
    tk = {'plist': 'tlist', 'llist': 'tllist', 'pset': 'tset', 'pdict': 'tdict', 'ldict': 'tldict'}[e.kind]
    c = a[1] % 3
    tr = e.obj
    if c == 0:
        nm, fn = f'{e.kind}.transient', lambda: tr.transient()
    elif c == 1:
        nm, fn = f'{tk}({e.kind})', lambda: getattr(w.pc, tk)(tr)
    else:
        nm, fn = f'{e.kind}({e.kind})', lambda: w.kinds[e.kind](tr)
    r, err = measured(w, t, o, nm, e, fn)
    if err is None:
        check_len(w, nm, r, e.n)
        if c < 2:
            l = w.bigt.setdefault(t.id, [])
            if len(l) >= 4:
                l.pop(0)
            l.append(Big(e.fam, e.kind, r, e.n, e.base, dict(e.diff)))

def tpick(w, t, a):
    l = w.bigt.get(t.id)
    return l[a % len(l)] if l else None

@op('c.freeze', 'cost')
def _(w, t, o, a):
    e = tpick(w, t, a[0])
    if e is None:
        return
    c = a[1] % 3
    obj = e.obj
    if c == 0:
        nm, fn = f'transient {e.kind}: persistent', lambda: obj.persistent()
    elif c == 1:
        nm, fn = f'{e.kind}(transient)', lambda: w.kinds[e.kind](obj)
    else:
        nm, fn = f'transient {e.kind}: copy', lambda: obj.copy()
    r, err = measured(w, t, o, nm, e, fn, 1)
    if err is None:
        check_len(w, nm, r, e.n)
        b = Big(e.fam, e.kind, r, e.n, e.base, dict(e.diff))
        if c < 2:
            keep(w, b)
        else:
            w.bigt[t.id].append(b)

@op('c.tedit', 'cost')
def _(w, t, o, a):
    e = tpick(w, t, a[0])
    if e is None:
        return
    obj, x = e.obj, a[3]
    if e.fam == 'list':
        n = e.n
        if not n:
            return
        i = a[2] % n
        v = -9 - x % 3
        with quiet():
            few = (list, tuple, Again if o.get('f') else iter, w.pc.plist, w.pc.tlist, lambda y: dict(enumerate(y)).values())[a[4] % 6]([v, v])
            few2 = (list, w.pc.plist)[a[4] % 2]([v, v])
        nm, fn, d = [
            (f'[{i}] = v', lambda: obj.__setitem__(i, v), 0), ('append', lambda: obj.append(v), 1), ('prepend', lambda: obj.prepend(v), 1),
            ('del [-1]', lambda: obj.__delitem__(-1), -1), ('del [0]', lambda: obj.__delitem__(0), -1), ('pop()', lambda: obj.pop() and None, -1),
            ('pop(0)', lambda: obj.pop(0) and None, -1), ('insert(0)', lambda: obj.insert(0, v), 1), ('insert(n)', lambda: obj.insert(n, v), 1),
            ('extend(few)', lambda: obj.extend(few), 2), ('+= few', lambda: obj.__iadd__(few2) and None, 2), ('insert(1)', lambda: obj.insert(1, v), 1)][a[1] % 12]
        r, err = measured(w, t, dict(o, f=None), f'transient {e.kind}: {nm}', e, fn, 2)
        if err is None:
            e.n += d
            check_len(w, nm, obj, e.n)
        else:
            w.bigt[t.id].remove(e)
        return
    with quiet():
        k = member(e, a[2])
        if k is None:
            k = key(w, 1 << 22 | a[2])
        k2 = key(w, 1 << 23 | a[3])
    add, rem = {k: True}, {k: ABSENT}
    if e.fam == 'set':
        with quiet():
            f2, s2 = some(w, x, [k, k2], o), somes(w, x, [k, k2])
        nm, fn, ch = [
            ('add', lambda: obj.add(k), add), ('add(new)', lambda: obj.add(k2), {k2: True}), ('discard', lambda: obj.discard(k), rem),
            ('remove', lambda: obj.remove(k), rem), ('pop', lambda: obj.pop(), None),
            ('addall', lambda: obj.addall(f2), {k: True, k2: True}), ('update', lambda: obj.update(f2), {k: True, k2: True}),
            ('|=', lambda: obj.__ior__(s2) and None, {k: True, k2: True}), ('-=', lambda: obj.__isub__(s2) and None, {k: ABSENT, k2: ABSENT}),
            ('discardall', lambda: obj.discardall(f2), {k: ABSENT, k2: ABSENT}), ('difference_update', lambda: obj.difference_update(f2), {k: ABSENT, k2: ABSENT})][a[1] % 11]
    else:
        v = w.pc.lazy(int, x) if e.kind[0] == 'l' and x % 2 else x
        with quiet():
            f2 = somem(w, a[4], [(k, v), (k2, v)], o)
        nm, fn, ch = [
            ('[k] = v', lambda: obj.__setitem__(k, v), add), ('[new] = v', lambda: obj.__setitem__(k2, v), {k2: True}), ('del [k]', lambda: obj.__delitem__(k), rem),
            ('pop', lambda: obj.pop(k, None) and None, rem), ('popitem', lambda: obj.popitem(), None), ('setdefault', lambda: obj.setdefault(k, v) and None, add),
            ('update', lambda: obj.update(f2), {k: True, k2: True}), ('update(**kw)', lambda: obj.update(zz=v), {'zz': True})][a[1] % 8]
    r, err = measured(w, t, dict(o, f=None), f'transient {e.kind}: {nm}', e, fn, 2)
    if err is not None:
        return
    if ch is None:
        ch = {(r[0] if e.fam == 'dict' else r): ABSENT}
    with quiet():
        for kk, v in ch.items():
            e.n += (v is not ABSENT) - e.has(kk)
            e.diff[kk] = v
    check_len(w, nm, obj, e.n)

@op('c.read', 'cost')
def _(w, t, o, a):
    e = (tpick(w, t, a[0] // 2) if a[0] % 2 else None) or (w.big[a[0] // 2 % len(w.big)] if w.big else None)
    if e is None or not e.n:
        return
    obj = e.obj
    if e.fam == 'list':
        i = a[2] % e.n
        nm, fn = [(f'[{i}]', lambda: obj[i]), ('len', lambda: len(obj)), ('iter step', lambda: next(iter(obj))), (f'[{i}:{i + 3}]', lambda: obj[i:i + 3]),
            ('str', lambda: str(obj)), ('last step', lambda: next(reversed(obj))), ('== []', lambda: obj == []), ('bool', lambda: bool(obj))][a[1] % 8]
    else:
        with quiet():
            k = member(e, a[2])
            if k is None:
                k = key(w, 1 << 22 | a[2])
        opts = [('in', lambda: k in obj), ('len', lambda: len(obj)), ('iter step', lambda: next(iter(obj)))]
        opts += [('str', lambda: str(obj)), ('bool', lambda: bool(obj))]
        if e.fam == 'set':
            s1 = somes(w, a[3], [k])
            opts += [('>= few', lambda: obj >= s1), ('<= few', lambda: obj <= s1), ('== few', lambda: obj == s1), ('> few', lambda: obj > s1),
                     ('few <= x', lambda: s1 <= obj), ('isdisjoint(few)', lambda: obj.isdisjoint(s1))]
        if e.fam == 'dict':
            opts += [('get', lambda: obj.get(k)), ('[k]', lambda: obj[k]), ('in keys()', lambda: k in obj.keys()), ('items() step', lambda: next(iter(obj.items())))]
        nm, fn = opts[a[1] % len(opts)]
    measured(w, t, o, f'{e.kind} {nm}', e, fn, 2)
