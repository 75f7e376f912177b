"""Wrong calls and the rarer ways to make a collection.

A wrong call (an operand, an argument or a number of arguments that the builtin
refuses) is refused with the same class of error, and nothing changes; what a bulk
edit took before it met the bad item stays, as it does in the builtin.
"""
import operator
from . import core
from .world import quiet, K, LZ, V, P, T, LAZY_KINDS
from .ops import op, kwname, view, zread, NONE, dprefix, stok, dkey, rd

class Alien:
    "What no collection knows."
    __slots__ = ()
    def __repr__(self):
        return 'Alien'

def refuse(cls):
    def f(*a):
        raise cls
    return f

BIN = {'&': operator.and_, '|': operator.or_, '-': operator.sub, '^': operator.xor, '+': operator.add}
INP = {'&=': operator.iand, '|=': operator.ior, '-=': operator.isub, '^=': operator.ixor, '+=': operator.iadd}
REL = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}

def alien(a):
    return (5, None, Alien(), 2.5)[a % 4]

def wrong(w, t, o, a, e, trans):
    """-> (name, call, error class)"""
    fam, obj, x = e.fam, e.obj, alien(a[3])
    k = a[2] % 9
    lst = [(n, f) for n, f in BIN.items() if (n == '+') == (fam == 'list')]
    if fam == 'dict':
        lst = [(n, f) for n, f in BIN.items() if n != '+']
    n, f = lst[a[4] % len(lst)]
    if k == 0:
        return f'{e.kind} {n} {x!r}', lambda: f(obj, x), TypeError
    if k == 1:
        return f'{x!r} {n} {e.kind}', lambda: f(x, obj), TypeError
    if k == 2:
        n, f = list(REL.items())[a[4] % 4]
        return f'{e.kind} {n} {x!r}', lambda: f(obj, x), TypeError
    if k == 3:
        n, f = list(REL.items())[a[4] % 4]
        return f'{x!r} {n} {e.kind}', lambda: f(x, obj), TypeError
    if k == 4:
        c = w.kinds[e.kind]
        y = a[4] % 3
        if y == 0:
            return f'{e.kind}(x, y)', lambda: c([], []), TypeError
        if y == 1:
            return f'{e.kind}({x!r})', lambda: c(x), TypeError
        if fam == 'dict':
            return f'{e.kind}([{x!r}])', lambda: c([x]), TypeError
        return f'{e.kind}(name=[])', lambda: c(name=[]), TypeError
    if k == 5 and fam == 'list':
        return f'{e.kind}["0"]', lambda: obj['0'], TypeError
    if k == 5 and fam == 'set':
        return f'{e.kind}[0]', lambda: obj[0], TypeError
    if k == 5:
        m = ('pop', 'setdefault', 'get')[a[4] % 3]
        args = ((), (1, 2, 3))[a[4] // 3 % 2] if m != 'setdefault' else ((), (1, 2, 3))[a[4] // 3 % 2]
        return f'{e.kind}.{m}{args}', lambda: getattr(obj, m)(*args), TypeError
    if k == 6 and fam == 'set':
        m = ('issubset', 'issuperset', 'isdisjoint', 'union', 'intersection', 'difference', 'symmetric_difference')[a[4] % 7]
        return f'{e.kind}.{m}({x!r})', lambda: getattr(obj, m)(x), TypeError
    if k == 6 and fam == 'list':
        m = ('pop', 'index', 'insert')[a[4] % 3]
        args = (('0',), (), ('0', 1))[a[4] % 3]
        return f'{e.kind}.{m}{args}', lambda: getattr(obj, m)(*args), TypeError
    if (k == 6 or k == 7) and (trans or fam != 'set'):
        m = 'update' if fam != 'list' else 'extend'
        return f'{e.kind}.{m}({x!r})', lambda: getattr(obj, m)(x), TypeError
    return f'hash-less {e.kind}', None, None

def wrongop(fam, trans):
    def run(w, t, o, a):
        e = w.ensure_t(t, fam, a[0]) if trans else w.pick(fam, a[0])
        if trans and a[1] % 3 == 0 and fam != 'dict':
            x = alien(a[3])
            ns = ['+='] if fam == 'list' else ['&=', '|=', '-=', '^=']
            n = ns[a[4] % len(ns)]
            name, call, err = f'{e.kind} {n} {x!r}', lambda: INP[n](e.obj, x), TypeError
        else:
            name, call, err = wrong(w, t, o, a, e, trans)
            if call is None:
                return
        if trans:
            w.mutate(t, o, name, e, call, refuse(err))
        else:
            w.perform(t, o, name, call, refuse(err), [e], zread(e))
    return run
op('l.wrong', 'list')(wrongop('list', False))
op('s.wrong', 'set')(wrongop('set', False))
op('d.wrong', 'dict')(wrongop('dict', False))
op('tl.wrong', 'tlist')(wrongop('list', True))
op('ts.wrong', 'tset')(wrongop('set', True))
op('td.wrong', 'tdict')(wrongop('dict', True))

# ------------------------------------------- bulk arguments that go bad half-way
def pairs(w, a, kind):
    "Some good pairs, then one that is none, then a good one."
    good = []
    for i in range(a[2] % 4):
        good.append((w.tok(a[3] + i * 31), w.cell(a[4] + i * 17, kind)))
    c = a[1] % 3
    bad, err = ((5, TypeError), ((1, 2, 3), ValueError), ((1,), ValueError))[c]
    raw = [(k, w.raw(v)) for k, v in good] + [bad, (w.tok(a[3] + 999), 7)]
    return good, raw, err
@op('d.badpairs', 'dict')
def _(w, t, o, a):
    e = w.pick('dict', a[0])
    good, raw, err = pairs(w, a, e.kind)
    if a[1] // 3 % 2:
        w.perform(t, o, f'{e.kind}(pairs, one bad)', lambda: w.kinds[e.kind](raw), refuse(err))
    else:
        w.perform(t, o, f'{e.kind}.update(pairs, one bad)', lambda: e.obj.update(raw), refuse(err), [e])
@op('td.badpairs', 'tdict')
def _(w, t, o, a):
    te = w.ensure_t(t, 'dict', a[0])
    good, raw, err = pairs(w, a, te.kind)
    def ap(m):
        for k, v in good:
            m[k] = v
        raise err
    w.mutate(t, o, f'{te.kind}.update(pairs, one bad)', te, lambda: te.obj.update(raw), ap, dprefix(good))

# ------------------------------------------------------- the rarer constructors
@op('l.empty', 'list')
def _(w, t, o, a):
    empties(w, t, o, a, 'list')
@op('s.empty', 'set')
def _(w, t, o, a):
    empties(w, t, o, a, 'set')
@op('d.empty', 'dict')
def _(w, t, o, a):
    empties(w, t, o, a, 'dict')
def empties(w, t, o, a, fam):
    lazyk = fam != 'set' and w.cfg.get('lazy') and a[0] % 2
    base = w.cfg.get('abc') == 'base'
    none = [] if fam == 'list' else set() if fam == 'set' else {}
    p, tr = ('l' if lazyk else 'p') + fam, 'tl' + fam if lazyk else 't' + fam
    P_, T_ = w.kinds[p], w.kinds[tr]
    c = a[1] % 6
    if c == 0:
        w.perform(t, o, f'{p}()', lambda: P_(), lambda: P(p, none))
    elif c == 1:
        w.perform(t, o, f'{tr}()', lambda: T_(), lambda: T(tr, none), cls='tresult')
    elif c == 2 and not base:
        w.perform(t, o, f'{p}.empty', lambda: P_.empty, lambda: P(p, none))
    elif c == 3 and not base:
        w.perform(t, o, f'{tr}.empty()', lambda: T_.empty(), lambda: T(tr, none), cls='tresult')
    elif fam == 'dict' and c >= 4:
        kind = (p, tr)[c - 4]
        kw = {kwname(a[2] + i): w.cell(a[3] + i * 13, kind) for i in range(a[2] // 8 % 4)}
        raw = {k: w.raw(v) for k, v in kw.items()}
        w.perform(t, o, f'{kind}(**kw)', lambda: w.kinds[kind](**raw), lambda: (P if c == 4 else T)(kind, dict(kw)), cls='result' if c == 4 else 'tresult')
    else:
        w.perform(t, o, f'{p}(())', lambda: P_(()), lambda: P(p, none))
