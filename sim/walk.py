"""One edit under a walk: an iterator is opened on a transient, taken some way, one edit of
a kind chosen for it is made, and the walk goes on until it ends or refuses."""
from .world import LZ, quiet
from .ops import op, open_it, step, zread, NONE, BIG
from .inner import plain

@op('i.edit', 'iter')
def _(w, t, o, a):
    fams = w.cfg['fams']
    fam = fams[a[0] % len(fams)]
    te = w.ensure_t(t, fam, a[1])
    if te is None or len(te.model) > 2 * BIG or any(isinstance(c, LZ) for c in zread(te)):
        return
    for k in range(1 + a[5] % 4):
        if te.alive:
            one(w, t, te, fam, a, k * 5)
def one(w, t, te, fam, a, d):
    if len(te.model) < 2 + (a[0] + d) % 3:
        ks = [plain(w, a[1] + d + i) for i in range(6)]
        x = te.obj
        if fam == 'list':
            w.mutate(t, {}, f'extend of a {te.kind}', te, lambda: x.extend(ks), lambda m: (m.extend(ks), NONE)[1])
        elif fam == 'set':
            w.mutate(t, {}, f'addall of a {te.kind}', te, lambda: x.addall(ks), lambda m: (m.update(ks), NONE)[1])
        else:
            w.mutate(t, {}, f'update of a {te.kind}', te, lambda: x.update([(k, 0) for k in ks]), lambda m: (m.update((k, 0) for k in ks), NONE)[1])
        if not te.alive:
            return
    n = len(te.model)
    its = []
    a = [x + d for x in a]
    for i in range(1 + a[2] % 2):
        r = open_it(w, t, te, ('iter', 'keys', 'values', 'items')[(a[3] + i) % 4] if fam == 'dict' else 'iter')
        if r is None:
            return
        j = (0, 1, 2, n // 2, max(n - 1, 0))[(a[4] + 2 * i) % 5]
        while r.pos + len(r.seen) < j and step(w, t, r):
            pass
        its.append(r)
    for i in range(1 + (a[5] % 4 == 0)):
        edit(w, t, te, fam, a[5] // 4 % 1009 + i * 7, a[5] // 4036 + i)
    for _ in range(3 if a[2] % 3 else n + 3):
        for r in its:
            if not r.done and not step(w, t, r):
                r.done = True
    for r in its:
        if r.done and r in t.its:
            t.its.remove(r)

def edit(w, t, te, fam, a, b):
    if not te.alive:
        return
    x = te.obj
    ks = list(te.model)
    n = len(ks)
    c = w.cell(a + 1, te.kind) if fam != 'set' else None
    if isinstance(c, LZ):
        c = b
    if fam == 'list':
        i, k = b % n if n else 0, a % 8
        if k == 0 or not n:
            f, g = lambda: x.append(c), lambda m: m.append(c)
        elif k == 1:
            f, g = lambda: x.prepend(c), lambda m: m.insert(0, c)
        elif k == 2:
            f, g = lambda: x.insert(i, c), lambda m: m.insert(i, c)
        elif k == 3:
            f, g = lambda: x.__setitem__(i, c), lambda m: m.__setitem__(i, c)
        elif k == 4:
            f, g = lambda: x.clear(), lambda m: m.clear()
        elif k == 5:
            f, g = lambda: x.__delitem__(0), lambda m: m.__delitem__(0)
        elif k == 6:
            f, g = lambda: x.__delitem__(-1), lambda m: m.__delitem__(-1)
        else:
            f, g = lambda: x.__delitem__(i), lambda m: m.__delitem__(i)
        what = ('append', 'prepend', 'insert', 'set', 'clear', 'del first', 'del last', 'del')[k]
    else:
        # Mostly a key that is there: the edit takes it away, or leaves it be.
        k = ks[b % n] if n and a % 8 < 6 else plain(w, b)
        kind = a // 8 % 8
        with quiet():
            has = k in te.model
        if fam == 'set':
            if a % 8 == 7:
                kind = 7 if kind > 5 else 5
            if kind < 3:
                what, f, g = 'discard', lambda: x.discard(k), lambda m: m.discard(k)
            elif kind < 5 and has:
                what, f, g = 'remove', lambda: x.remove(k), lambda m: m.discard(k)
            elif kind == 7:
                what, f, g = 'clear', lambda: x.clear(), lambda m: m.clear()
            else:
                what, f, g = 'add', lambda: x.add(k), lambda m: m.add(k)
        else:
            if a % 8 == 7:
                kind = 7 if kind > 5 else 5
            if kind < 2 and has:
                what, f, g = 'del', lambda: x.__delitem__(k), lambda m: m.__delitem__(k)
            elif kind < 4:
                what, f, g = 'pop', lambda: x.pop(k, None) and None, lambda m: m.pop(k, None) and None
            elif kind == 7:
                what, f, g = 'clear', lambda: x.clear(), lambda m: m.clear()
            elif kind == 4:
                what, f, g = 'setdefault', lambda: x.setdefault(k, c) and None, lambda m: m.setdefault(k, c) and None
            else:
                what, f, g = 'set', lambda: x.__setitem__(k, c), lambda m: m.__setitem__(k, c)
    def fn():
        f()
    def ap(m):
        g(m)
        return NONE
    w.mutate(t, {}, f'{what} of a {te.kind} under a walk', te, fn, ap)
