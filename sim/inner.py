"""Comparisons that edit: an operation of a transient calls an element's equality (or
hash), and that call edits the very transient.  As with the builtin set and dict, the
operation is then one on what the call-back left (or, if a comparison fails, is not
made); a list goes on by position."""
from .core import Violation, HarnessError
from .world import K, quiet, mcopy, V
from .ops import op, _tl, _ts, _td, BIG, NONE, rd

def edits(w, te, a):
    "What the call-back does: one to three edits with the keys and elements in play."
    out, x = [], a[3]
    for i in range(1 + a[3] % 3):
        x = (x * 1103515245 + 12345 + a[4]) & 0x7fffffff
        c, y = x % 8, x >> 4
        if te.fam == 'list':
            out.append((('append', 'prepend', 'delete', 'delete', 'set', 'set', 'insert', 'clear' if y % 4 == 0 else 'delete')[c], y, plain(w, y // 3)))
        else:
            out.append((('add', 'add', 'drop', 'drop', 'drop', 'again', 'swap', 'clear' if y % 4 == 0 else 'drop')[c], plain(w, y), y // 64 % 9))
    return out
def plain(w, y):
    k = w.tok(y)
    return k if type(k) in (int, str, K) else K(y % 12)

def edit(fam, x, sc, model):
    for nm, y, z in sc:
        if fam == 'list':
            n = len(x)
            if nm == 'clear':
                x.clear()
            elif nm == 'append':
                x.append(z)
            elif nm == 'prepend':
                x.insert(0, z) if model else x.prepend(z)
            elif nm == 'insert':
                x.insert(y % (n + 1), z)
            elif n and nm == 'delete':
                del x[y % n]
            elif n:
                x[y % n] = z
        elif nm == 'clear':
            x.clear()
        elif fam == 'set':
            if nm == 'add':
                x.add(y)
            else:
                x.discard(y)
                if nm == 'again':
                    x.add(y)
        elif nm == 'add':
            x[y] = z
        elif nm == 'swap':
            if y in x:
                x[y] = z
        else:
            if y in x:
                del x[y]
            if nm == 'again':
                x[y] = z

def inner(w, t, o, a, te, name, fn, mfn):
    """fn(x) edits or asks the transient; mfn(m, hook) does it to the model, after
    whatever the call-back did (sets, dicts) or calling hook at each comparison (lists)."""
    pc = w.pc
    if len(te.model) > BIG or not isinstance(te.obj, (pc.tlist, pc.tset, pc.tdict)):
        return
    sim, fam = w.sim, te.fam
    sc, at, fired = edits(w, te, a), 1 + a[2] // 16 % 3, []
    def visit(kind):
        if kind != 'eq' and (kind != 'hash' or a[3] % 32 < 24):
            t.visit = [1, visit]        # this one was not a comparison
            return
        with quiet():
            fired.append(kind)
            edit(fam, te.obj, sc, False)
    if fam == 'list':
        bad = [c for c in te.model if type(c) not in (int, str, K)]
        if bad:
            return
    m = mcopy(te.model)
    calls = [0]
    def hook():
        calls[0] += 1
        if calls[0] == at:
            edit(fam, m, sc, True)
    nm = f'{te.kind}.{name} while a comparison edits it: {sc}'
    f = o.get('f')
    if f and f[0] not in ('eq', 'hash', 'cb'):
        f = None
    act, err = w.call(t, lambda: fn(te.obj), f, True, [at, visit])
    kind = t.fired_kind
    t.fired_kind = None
    with quiet():
        try:
            if fam == 'list' and t.fired is None:
                exp = mfn(m, hook)
            else:
                if fired:
                    edit(fam, m, sc, True)
                # A failure leaves what the call-back did and nothing else.
                exp = NONE if t.fired is not None else mfn(m, None)
        except (Violation, HarnessError):
            raise
        except Exception as e:
            exp = ('e', type(e))
    out = w.settle(t, nm, act, err, exp, 'tresult', kind)
    sim.event('inner', t.id, t.opno, name, len(fired), out)
    if fired:
        sim.stat('inner_edits')
    d = w.diff(te.kind, te.obj, m)
    if d is not None:
        w.viol('tresult', f'after {nm}: {d}')
        w.resync(te)
    else:
        te.kver += 1
        w.settled(te, w.relazy(te.kind, te.obj, m))
        if a[1] % 2:
            w.frozen(te, te.model, f'after {nm}: persistent()')

def member(w, te, x):
    "Often a key that is there, as another object."
    if x % 3 and te.model:
        k = list(te.model)[x // 3 % len(te.model)]
        return K(k.n) if type(k) is K else k if type(k) in (int, str) else plain(w, x)
    return plain(w, x)

@op('tl.inner', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    x = member(w, te, a[1])
    if type(x) is not K:
        x = K(a[1] % 12)
    def walk(m, hook):
        i = 0
        while i < len(m):
            y = m[i]
            i += 1
            if y is not x:
                hook()
            yield i - 1, y is x or y == x
    def has(m, hook):
        return V(any(e for i, e in walk(m, hook)))
    def count(m, hook):
        return V(sum([e for i, e in walk(m, hook)]))
    def index(m, hook):
        for i, e in walk(m, hook):
            if e:
                return V(i)
        raise ValueError
    nm, fn, mfn = [('in', lambda l: x in l, has), ('count', lambda l: l.count(x), count)][a[2] % 2]
    inner(w, t, o, a, te, f'{nm}({x})', fn, mfn)

@op('ts.inner', 'tset')
def _(w, t, o, a):
    te = _ts(w, t, a[0])
    x = member(w, te, a[1])
    def add(m, _):
        m.add(x)
        return NONE
    def disc(m, _):
        m.discard(x)
        return NONE
    nm, fn, mfn = [('in', lambda s: x in s, lambda m, _: V(x in m)), ('add', lambda s: s.add(x), add), ('discard', lambda s: s.discard(x), disc)][a[2] % 3]
    inner(w, t, o, a, te, f'{nm}({x})', fn, mfn)

@op('td.inner', 'tdict')
def _(w, t, o, a):
    te = _td(w, t, a[0])
    x, v = member(w, te, a[1]), a[4] % 5
    def put(m, _):
        m[x] = v
        return NONE
    def rem(m, _):
        del m[x]
        return NONE
    r = lambda c: rd(w, te, c)
    nm, fn, mfn = [('in', lambda d: x in d, lambda m, _: V(x in m)), ('[]', lambda d: d[x], lambda m, _: V(r(m[x]))),
                   ('get', lambda d: d.get(x, 7), lambda m, _: V(r(m.get(x, 7)))), ('[] =', lambda d: d.__setitem__(x, v), put),
                   ('del', lambda d: d.__delitem__(x), rem), ('pop', lambda d: d.pop(x), lambda m, _: V(m.pop(x))),
                   ('pop or', lambda d: d.pop(x, 7), lambda m, _: V(m.pop(x, 7)))][a[2] % (7 if te.kind == 'tdict' else 5)]
    inner(w, t, o, a, te, f'{nm} {x}', fn, mfn)
