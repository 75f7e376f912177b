"""Long histories in one operation: a collection is edited many times over (a queue that
moves on, a key that comes and goes), and only then looked at.  What is kept inside moves
far from where it started while the contents stay small."""
from . import world
from .world import mcopy, LZ
from .ops import op, zread, open_it, step, _tl, _ts, _td, P, V, NONE, BIG
from .inner import plain

def length(a):
    a %= 24
    return 320 if a == 0 else 130 if a == 1 else 70 if a < 4 else 24 if a < 8 else 9 if a < 16 else 5

def lscript(w, e, a):
    "A list of ('+', i, cell) and ('-', i), with i 0 for the front, 1 for the back, 2 in between."
    k, mode = length(a[3]), a[1] % 7
    cs = [w.cell(x, e.kind) for x in a[2:5]] + list(e.model[:3])
    c = lambda i: cs[i % len(cs)]
    if mode >= 5 and len(e.model) > 40:
        mode -= 5
    if mode == 0:
        return [x for i in range(k) for x in (('+', 1, c(i)), ('-', 0))]
    if mode == 1:
        return [x for i in range(k) for x in (('+', 0, c(i)), ('-', 1))]
    if mode == 2:
        return [('+', 1, c(i)) for i in range(k)] + [('-', 0)] * (k + a[5] % 4)
    if mode == 3:
        return [('+', 0, c(i)) for i in range(k)] + [('-', 1)] * (k + a[5] % 4)
    if mode == 4:
        j = 1 + a[5] % 9
        out = [('+', i % 2, c(i)) for i in range(j)]
        return out + [x for i in range(k) for x in (('-', i // j % 2), ('+', 1 - i // j % 2, c(i)))]
    k = min(k, 70)
    if mode == 5:
        return [x for i in range(k) for x in (('+', 2, c(i)), ('-', i % 3))]
    return [x for i in range(k) for x in (('+', i % 3, c(i)), ('-', 2))]

def lmodel(m, sc):
    for s in sc:
        n = len(m)
        i = (0, n, n // 3)[s[1]]
        if s[0] == '+':
            m.insert(i, s[2])
        elif n:
            del m[i - 1 if i == n else i]
    return m

@op('l.churn', 'list')
def _(w, t, o, a):
    e = w.pick('list', a[0])
    if len(e.model) > 2 * BIG:
        return
    sc = lscript(w, e, a)
    def fn():
        x = e.obj
        for s in sc:
            n = len(x)
            if s[0] == '+':
                r = w.raw(s[2])
                x = x.prepend(r) if s[1] == 0 else x.append(r) if s[1] == 1 else x.insert(n // 3, r)
            elif n:
                x = x.delete(0) if s[1] == 0 else x.delete() if s[1] == 1 else x.delete(n // 3)
        return x
    w.perform(t, o, f'{len(sc)} edits of a {e.kind} (mode {a[1] % 7})', fn, lambda: P(e.kind, lmodel(list(e.model), sc)), [e])
@op('tl.churn', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    if len(te.model) > 2 * BIG:
        return
    sc = lscript(w, te, a)
    def fn():
        x = te.obj
        for s in sc:
            n = len(x)
            if s[0] == '+':
                r = w.raw(s[2])
                x.prepend(r) if s[1] == 0 else x.append(r) if s[1] == 1 else x.insert(n // 3, r)
            elif n:
                del x[0 if s[1] == 0 else -1 if s[1] == 1 else n // 3]
    w.mutate(t, {}, f'{len(sc)} edits of a {te.kind} (mode {a[1] % 7})', te, fn, lambda m: (lmodel(m, sc), NONE)[1])

ROUND = (16, 64, 128, 256)

def kscript(w, e, a, val):
    "A list of ('+', key, value) and ('-', key)."
    k, mode = length(a[3]), a[1] % 6
    if world.HashFn.mode in world.HEAVY:       # chains are walked one by one
        k = min(k, 24 if len(e.model) < 24 else 5)
    ks = [plain(w, a[2] + i) for i in range(6)] + list(e.model)[:3]
    if mode == 5:       # two edits for good in a round number of edits
        x, y, z = (plain(w, a[2] + i) for i in range(3))
        if len({x, y, z}) == 3:
            k = ROUND[a[3] // 24 % 4 if world.HashFn.mode not in world.HEAVY else 0]
            x, y, u, z = (('-' if q in e.model else '+', q, val(i)) for i, q in enumerate((x, y, z, z)))
            return [x, y] + [u, ('+' if z[0] == '-' else '-', *z[1:])] * (k // 2 - 1)
        mode = 0
    if mode == 0:       # comes and goes
        x = ks[0]
        return [s for i in range(k) for s in (('+', x, val(i)), ('-', x))][a[5] % 2:]
    if mode == 1:       # goes and comes
        return [s for i in range(k) for s in (('-', ks[i % len(ks)]), ('+', ks[i % len(ks)], val(i)))]
    if mode == 2:       # several in turn
        j = 1 + a[5] % len(ks)
        return [s for i in range(k) for s in (('+', ks[i % len(ks)], val(i)), ('-', ks[(i + j) % len(ks)]))]
    if mode == 3:       # many come, most go
        xs = [plain(w, a[2] + 5 * i) for i in range(min(k, BIG))]
        return [('+', x, val(i)) for i, x in enumerate(xs)] + [('-', x) for x in xs[a[5] % 3:]] + [('+', xs[-1], val(1))]
    return [('+', ks[i * i % len(ks)], val(i)) if i % 3 else ('-', ks[i % len(ks)]) for i in range(k)]

def smodel(m, sc):
    for s in sc:
        m.add(s[1]) if s[0] == '+' else m.discard(s[1])
    return m
def dmodel(m, sc):
    for s in sc:
        if s[0] == '+':
            m[s[1]] = s[2]
        else:
            m.pop(s[1], None)
    return m

def started(w, t, te, a):
    "A walk that is under way while the edits are made."
    if not w.cfg.get('walks') or a[4] % 2 or any(isinstance(c, LZ) for c in zread(te)):
        return None
    r = open_it(w, t, te, ('iter', 'keys', 'values', 'items')[a[4] // 2 % 4] if te.fam == 'dict' else 'iter')
    if r is not None and a[5] % 3:
        if not step(w, t, r):
            t.its.remove(r)
            return None
    return r

@op('s.churn', 'set')
def _(w, t, o, a):
    e = w.pick('set', a[0])
    if len(e.model) > 2 * BIG:
        return
    sc = kscript(w, e, a, lambda i: None)
    def fn():
        x = e.obj
        for s in sc:
            x = x.add(s[1]) if s[0] == '+' else x.discard(s[1])
        return x
    w.perform(t, o, f'{len(sc)} edits of a pset (mode {a[1] % 6})', fn, lambda: P('pset', smodel(set(e.model), sc)), [e])
@op('ts.churn', 'tset')
def _(w, t, o, a):
    te = _ts(w, t, a[0])
    if len(te.model) > 2 * BIG:
        return
    sc = kscript(w, te, a, lambda i: None)
    r = started(w, t, te, a)
    def fn():
        x = te.obj
        for s in sc:
            x.add(s[1]) if s[0] == '+' else x.discard(s[1])
    w.mutate(t, {}, f'{len(sc)} edits of a tset (mode {a[1] % 6})', te, fn, lambda m: (smodel(m, sc), NONE)[1])
    te.kver += 1        # it may have changed and changed back
    if r is not None and r in t.its and not step(w, t, r):
        t.its.remove(r)
def values(w, e, a):
    cs = [w.cell(x, e.kind) for x in a[2:4]] + list(e.model.values())[:2]
    return lambda i: cs[i % len(cs)]
@op('d.churn', 'dict')
def _(w, t, o, a):
    e = w.pick('dict', a[0])
    if len(e.model) > 2 * BIG:
        return
    sc = kscript(w, e, a, values(w, e, a))
    def fn():
        x = e.obj
        for s in sc:
            x = x.set(s[1], w.raw(s[2])) if s[0] == '+' else x.drop(s[1])
        return x
    w.perform(t, o, f'{len(sc)} edits of a {e.kind} (mode {a[1] % 6})', fn, lambda: P(e.kind, dmodel(mcopy(e.model), sc)), [e])
@op('td.churn', 'tdict')
def _(w, t, o, a):
    te = _td(w, t, a[0])
    if len(te.model) > 2 * BIG:
        return
    sc = kscript(w, te, a, values(w, te, a))
    r = started(w, t, te, a)
    def fn():
        x = te.obj
        for s in sc:
            if s[0] == '+':
                x[s[1]] = w.raw(s[2])
            elif s[1] in x:
                del x[s[1]]
    w.mutate(t, {}, f'{len(sc)} edits of a {te.kind} (mode {a[1] % 6})', te, fn, lambda m: (dmodel(m, sc), NONE)[1])
    te.kver += 1        # it may have changed and changed back
    if r is not None and r in t.its and not step(w, t, r):
        t.its.remove(r)
