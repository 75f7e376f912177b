"""Client operations: what is called, and what a builtin would have answered."""
import operator, pickle, copy, types, collections, collections.abc
from . import core
from .core import HarnessError
from .world import (quiet, K, LV, LZ, V, P, T, Tup, Self, Any, It, Bag, FAMILY, LAZY_KINDS,
                    THAW, FREEZE, Entry, TE, Mismatch, mcopy, closure)

OPS = {}
def op(name, *groups):
    def deco(f):
        OPS[name] = (f, groups)
        return f
    return deco

def view(w, e):
    "The contents a reader of e sees (lazy kinds dereference)."
    lazyk = e.kind in LAZY_KINDS
    m = e.model
    if e.fam == 'list':
        return [w.deref(c) for c in m] if lazyk else list(m)
    if e.fam == 'set':
        return set(m)
    return {k: w.deref(v) for k, v in m.items()} if lazyk else dict(m)
def rd(w, e, cell):
    return w.deref(cell) if e.kind in LAZY_KINDS else cell
def zs(e):
    "The lazy cells of e."
    if e is None or e.fam == 'set':
        return ()
    return [c for c in (e.model if e.fam == 'list' else e.model.values()) if isinstance(c, LZ)]
def zread(e):
    return zs(e) if e is not None and e.kind in LAZY_KINDS else ()
UNHASHABLE = ([],)

class Unorderable:
    pass

def rawlist(w, cells):
    return [w.raw(c) for c in cells]

def lit(w, a, kind, n=None):
    "A few cells, for bulk arguments."
    n = a % 6 if n is None else n
    a //= 6
    out = []
    for i in range(n):
        out.append(w.cell(a + i * 7919, kind))
        a = a * 31 + 17 & 0xfffffff
    return out

def toks(w, a):
    n = a % 6
    a //= 6
    out = []
    for i in range(n):
        out.append(w.tok(a))
        a = (a * 1103515245 + 12345) & 0x7fffffff
    return out

# A bulk argument: (object given to the package, cells the model sees, lazies it may force, deps)
def seqarg(w, t, a, kind, e=None, pers=True):
    c = a % 8
    a //= 8
    if c <= 1:
        o = w.pick('list', a)
        if o is not None and pers:
            return o.obj, view(w, o), zread(o), [o]
    if c == 2:
        o = w.pick_t(t, 'list', a)
        if o is not None:
            return o.obj, view(w, o), zread(o), [o]
    xs = lit(w, a, kind)
    r = rawlist(w, xs)
    if c == 3:
        return w.feed(r), xs, (), []
    if c == 4:
        return tuple(r), xs, (), []
    if c == 5:
        return iter(r), xs, (), []
    return r, xs, (), []


# ====================================================================== lists
def _list(w, a):
    return w.pick('list', a)
BIG = 70

@op('l.set', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    i = w.goodidx(a[1], len(e.model))
    c = w.cell(a[2], e.kind)
    if e.model and a[3] % 7 == 0:
        c = e.model[a[3] // 7 % len(e.model)]
    def exp():
        m = list(e.model)
        m[i] = c
        return P(e.kind, m)
    w.perform(t, o, f'{e.kind}.set({i})', lambda: e.obj.set(i, w.raw(c)), exp, [e])
@op('l.append', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    c = w.cell(a[2], e.kind)
    w.perform(t, o, f'{e.kind}.append', lambda: e.obj.append(w.raw(c)), lambda: P(e.kind, list(e.model) + [c]), [e])
@op('l.prepend', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    c = w.cell(a[2], e.kind)
    w.perform(t, o, f'{e.kind}.prepend', lambda: e.obj.prepend(w.raw(c)), lambda: P(e.kind, [c] + list(e.model)), [e])
@op('l.insert', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    i = w.idx(a[1], len(e.model))
    c = w.cell(a[2], e.kind)
    def exp():
        m = list(e.model)
        m.insert(i, c)
        return P(e.kind, m)
    w.perform(t, o, f'{e.kind}.insert({i})', lambda: e.obj.insert(i, w.raw(c)), exp, [e])
@op('l.delete', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    i = w.goodidx(a[1], len(e.model))
    dflt = a[2] % 5 == 0
    def exp():
        m = list(e.model)
        del m[-1 if dflt else i]
        return P(e.kind, m)
    w.perform(t, o, f'{e.kind}.delete({"" if dflt else i})', (lambda: e.obj.delete()) if dflt else (lambda: e.obj.delete(i)), exp, [e])
@op('l.drop', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    n = len(e.model)
    i = w.goodidx(a[1], n)
    dflt = a[2] % 5 == 0
    j = -1 if dflt else i
    def exp():
        if j >= n or j < -n:
            return Self(e)
        m = list(e.model)
        del m[j]
        return P(e.kind, m)
    w.perform(t, o, f'{e.kind}.drop({"" if dflt else i})', (lambda: e.obj.drop()) if dflt else (lambda: e.obj.drop(i)), exp, [e])
@op('l.pop', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    n = len(e.model)
    i = w.goodidx(a[1], n)
    dflt = a[2] % 5 == 0
    j = -1 if dflt else i
    def exp():
        m = list(e.model)
        c = m.pop(j)
        return Tup(V(rd(w, e, c)), P(e.kind, m))
    f = [e.model[j]] if -n <= j < n else []
    w.perform(t, o, f'{e.kind}.pop({"" if dflt else i})', (lambda: e.obj.pop()) if dflt else (lambda: e.obj.pop(i)), exp, [e], f if e.kind in LAZY_KINDS else ())
def present(w, e, a):
    "A value to look for: often one that is there."
    vw = view(w, e)
    vals = list(vw.values()) if isinstance(vw, dict) else list(vw)
    if vals and a % 3:
        v = vals[a // 3 % len(vals)]
        if type(v) is K and a % 2:
            v = K(v.n)
        if type(v) is LV:
            v = LV(v.n)
        return v
    return w.tok(a // 3)
@op('l.remove', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    v = present(w, e, a[1])
    def exp():
        i = view(w, e).index(v)
        m = list(e.model)
        del m[i]
        return P(e.kind, m)
    w.perform(t, o, f'{e.kind}.remove', lambda: e.obj.remove(w.raw(v)), exp, [e], zread(e))
@op('l.extend', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    _, xs, f, deps = seqarg(w, t, a[1], e.kind, e)
    if len(e.model) + len(xs) > BIG and len(xs) > 6:
        return
    mk = lambda: seqarg_obj(w, t, a[1], e.kind, xs, deps)
    w.perform(t, o, f'{e.kind}.extend', lambda: e.obj.extend(mk()), lambda: P(e.kind, list(e.model) + xs), [e] + deps, f)
def seqarg_obj(w, t, a, kind, xs, deps):
    c = a % 8
    if deps:
        return deps[0].obj
    r = rawlist(w, xs)
    return w.feed(r) if c == 3 else tuple(r) if c == 4 else iter(r) if c == 5 else oddseq(r, a // 8 % 8) if c == 6 else r
class SeqProto:
    "Iterable through __getitem__ alone."
    def __init__(self, xs):
        self.xs = xs
    def __getitem__(self, i):       # no call-back: an IndexError means the end
        return self.xs[i]
class OnlyIter:
    "Iterable, and nothing else."
    def __init__(self, xs):
        self.xs = xs
    def __iter__(self):
        if core.CUR is not None:
            core.S.callback('iter')
        return iter(self.xs)
def oddseq(r, c):
    "The same items in other iterables."
    if c == 0:
        return SeqProto(r)
    if c == 1:
        return OnlyIter(r)
    if c == 2:
        return collections.deque(r)
    if c == 3:
        return dict(enumerate(r)).values()
    if c == 4:
        return map(lambda x: x, r)
    if c == 5:
        return reversed(r[::-1])
    if c == 6:
        return collections.UserList(r)
    return r
class OddMap(collections.abc.Mapping):
    "A mapping of the client's own."
    def __init__(self, d):
        self.d = d
    def __getitem__(self, k):
        return self.d[k]
    def __iter__(self):
        return iter(self.d)
    def __len__(self):
        return len(self.d)
@op('l.add', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    c = a[1] % 6
    if c < 3:
        x = w.pick('list', a[2])
        arg, xs, f, deps, nm = x.obj, view(w, x), zread(x), [x], x.kind
    elif c == 5:
        w.perform(t, o, f'{e.kind} + tuple', lambda: e.obj + (1,), lambda: [] + (1,), [e])
        return
    else:
        xs = lit(w, a[2], e.kind)
        arg, f, deps, nm = rawlist(w, xs), (), [], 'list'
    if len(e.model) + len(xs) > 2 * BIG:
        return
    fn = (lambda: operator.iadd(e.obj, arg)) if c == 0 else (lambda: e.obj + arg)
    w.perform(t, o, f'{e.kind} + {nm}', fn, lambda: P(e.kind, list(e.model) + xs), [e] + deps, f)
@op('l.radd', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    xs = lit(w, a[2], e.kind)
    arg = rawlist(w, xs)
    w.perform(t, o, f'list + {e.kind}', lambda: arg + e.obj, lambda: P(e.kind, xs + list(e.model)), [e])
@op('l.mul', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    k = a[1] % 5 - 1
    if len(e.model) * k > 2 * BIG:
        k = a[1] % 2
    if not e.model and a[3] % 4 == 0:
        k = (1 << 60, -1 << 60, True, 1 << 40)[a[3] // 4 % 4]
    fn = (lambda: k * e.obj) if a[2] % 2 else (lambda: e.obj * k)
    w.perform(t, o, f'{e.kind} * {k}', fn, lambda: P(e.kind, list(e.model) * k), [e], zread(e))
def slc(a, n):
    def b(x):
        x, y = divmod(x, 4)
        return None if y == 0 else x % (2 * n + 7) - n - 3
    step = (None, None, None, 1, 2, 3, -1, -2, -3, 5)[a[3] % 10]
    if a[3] % 97 == 0:
        step = 0
    return slice(b(a[1]), b(a[2]), step)
@op('l.slice', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    s = slc(a, len(e.model))
    w.perform(t, o, f'{e.kind}[{s.start}:{s.stop}:{s.step}]', lambda: e.obj[s], lambda: P(e.kind, list(e.model)[s]), [e])
@op('l.get', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    i = w.goodidx(a[1], len(e.model))
    n = len(e.model)
    f = [e.model[i]] if -n <= i < n and e.kind in LAZY_KINDS else ()
    w.perform(t, o, f'{e.kind}[{i}]', lambda: e.obj[i], lambda: V(view(w, e)[i]), [e], f)
class Ix:
    "An integer-like index (what numpy integers are)."
    __slots__ = ('i',)
    def __init__(self, i):
        self.i = i
    def __index__(self):
        return self.i
    def __repr__(self):
        return f'Ix({self.i})'
class IxRaise:
    def __index__(self):
        raise ZeroDivisionError('no index')
    def __repr__(self):
        return 'IxRaise()'
def oddidx(w, a, n):
    "Something unusual in the place of an index."
    i = w.goodidx(a // 16, n)
    return (lambda: Ix(i), lambda: Ix(i), lambda: Ix(i), lambda: Ix(i), lambda: True, lambda: False, lambda: float(i), lambda: 0.0,
            lambda: None, lambda: 'a', lambda: (i,), lambda: IxRaise(), lambda: 1 << 70, lambda: -1 << 70, lambda: Ix(1 << 70),
            lambda: 1.5)[a % 16]()
def fit(i):
    "Builtin lists refuse indices that do not fit a machine word; clamp those."
    j = operator.index(i)
    return max(-10**9, min(10**9, j))
@op('l.oddidx', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    n = len(e.model)
    i = oddidx(w, a[1], n)
    c = a[2] % 7
    m = list(e.model)
    lazyk = e.kind in LAZY_KINDS
    def touched():
        try:
            return [m[i]] if lazyk else ()
        except Exception:
            return ()
    x = w.cell(a[3], e.kind)
    nm = e.kind
    if c == 0:
        def exp():
            m[fit(i)] = x
            return P(e.kind, m)
        w.perform(t, o, f'{nm}.set({i!r})', lambda: e.obj.set(i, w.raw(x)), exp, [e])
    elif c == 1:
        def exp():
            m.insert(fit(i), x)
            return P(e.kind, m)
        w.perform(t, o, f'{nm}.insert({i!r})', lambda: e.obj.insert(i, w.raw(x)), exp, [e])
    elif c == 2:
        def exp():
            m.pop(fit(i))
            return P(e.kind, m)
        w.perform(t, o, f'{nm}.delete({i!r})', lambda: e.obj.delete(i), exp, [e])
    elif c == 3:
        def exp():
            j = operator.index(i)
            if not -n <= j < n:
                return Self(e)
            del m[j]
            return P(e.kind, m)
        w.perform(t, o, f'{nm}.drop({i!r})', lambda: e.obj.drop(i), exp, [e])
    elif c == 4:
        f = touched()
        def exp():
            z = m.pop(fit(i))
            return Tup(V(rd(w, e, z)), P(e.kind, m))
        w.perform(t, o, f'{nm}.pop({i!r})', lambda: e.obj.pop(i), exp, [e], f)
    elif c == 5:
        w.perform(t, o, f'{nm}[{i!r}]', lambda: e.obj[i], lambda: V(view(w, e)[i]), [e], touched())
    else:
        j = oddidx(w, a[4], n) if a[3] % 2 else None
        s = slice(*((i, j) if a[4] % 2 else (j, i)), (None, Ix(2), Ix(-1), 1, -1, 1.0, 'a', 0)[a[5] % 8])
        w.perform(t, o, f'{nm}[{s!r}]', lambda: e.obj[s], lambda: P(e.kind, m[s]), [e])
@op('tl.oddidx', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    n = len(te.model)
    i = oddidx(w, a[1], n)
    c = a[2] % 6
    def touched():
        try:
            return [te.model[i]] if te.kind in LAZY_KINDS else ()
        except Exception:
            return ()
    x = w.cell(a[3], te.kind)
    nm = te.kind
    if c == 0:
        def fn():
            te.obj[i] = w.raw(x)
        def ap(m):
            m[fit(i)] = x
            return NONE
        w.mutate(t, o, f'{nm}[{i!r}] = v', te, fn, ap)
    elif c == 1:
        w.mutate(t, o, f'{nm}.insert({i!r})', te, lambda: te.obj.insert(i, w.raw(x)), lambda m: (m.insert(fit(i), x), NONE)[1])
    elif c == 2:
        def fn():
            del te.obj[i]
        def ap(m):
            del m[fit(i)]
            return NONE
        w.mutate(t, o, f'del {nm}[{i!r}]', te, fn, ap)
    elif c == 3:
        w.mutate(t, o, f'{nm}.pop({i!r})', te, lambda: te.obj.pop(i), lambda m: V(rd(w, te, m.pop(fit(i)))), force=touched())
    elif c == 4:
        w.perform(t, o, f'{nm}[{i!r}]', lambda: te.obj[i], lambda: V(view(w, te)[i]), [te], touched(), cls='tresult')
    else:
        j = oddidx(w, a[4], n) if a[3] % 2 else None
        s = slice(*((i, j) if a[4] % 2 else (j, i)), (None, Ix(2), Ix(-1), 1, -1, 1.0, 'a', 0)[a[5] % 8])
        w.perform(t, o, f'{nm}[{s!r}]', lambda: te.obj[s], lambda: T(te.kind, list(te.model)[s]), [te], cls='tresult')
def keyfn(w, c):
    def f(x):
        if core.CUR is not None:
            core.S.callback('key')
        n = w.byid[id(x)].id if isinstance(x, w.lazyt) else x.id if isinstance(x, LZ) else getattr(x, 'n', None)
        if n is None:
            n = x if isinstance(x, int) else len(repr(x))
        return (n % 3) if c else -n
    return f
@op('l.sort', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    kw = {}
    if a[1] % 3:
        kw['key'] = keyfn(w, a[1] % 3 == 1)
    if a[2] % 2:
        kw['reverse'] = True
    w.perform(t, o, f'{e.kind}.sort', lambda: e.obj.sort(**kw), lambda: P(e.kind, sorted(view(w, e), **kw)), [e], zread(e))
@op('l.reverse', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    w.perform(t, o, f'{e.kind}.reverse', lambda: e.obj.reverse(), lambda: P(e.kind, list(reversed(e.model))), [e], zread(e))
@op('l.index', 'list', 'read')
def _(w, t, o, a):
    e = _list(w, a[0])
    v = present(w, e, a[1])
    n = len(e.model)
    args = ()
    if a[2] % 2:
        args = (w.idx(a[2] // 2, n),)
        if a[3] % 2:
            args += (w.idx(a[3] // 2, n),)
        if a[4] % 8 == 0:
            args = tuple(oddidx(w, a[4] // 8 + i * 5, n) if a[5] >> i & 1 else x for i, x in enumerate(args))
            if None in args:
                args = ()
    w.perform(t, o, f'{e.kind}.index({", ".join(["v"] + [str(x) for x in args])})', lambda: e.obj.index(w.raw(v), *args), lambda: V(view(w, e).index(v, *args)), [e], zread(e))
@op('l.count', 'list', 'read')
def _(w, t, o, a):
    e = _list(w, a[0])
    v = present(w, e, a[1])
    w.perform(t, o, f'{e.kind}.count', lambda: e.obj.count(w.raw(v)), lambda: V(view(w, e).count(v)), [e], zread(e))
@op('l.in', 'list', 'read')
def _(w, t, o, a):
    e = _list(w, a[0])
    v = present(w, e, a[1])
    w.perform(t, o, f'v in {e.kind}', lambda: w.raw(v) in e.obj, lambda: V(v in view(w, e)), [e], zread(e))
CMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
def cmparg(w, t, e, a):
    c = a % 9
    a //= 9
    if c <= 2:
        x = w.pick('list', a)
        return x.obj, view(w, x), zread(x), [x]
    if c == 3:
        x = w.pick_t(t, 'list', a)
        if x is not None:
            return x.obj, view(w, x), zread(x), [x]
    if c <= 6:          # a builtin list close to the contents
        vw = view(w, e)
        if vw and a % 4:
            i = a // 4 % len(vw)
            k = a // 64 % 4
            if k == 0:
                vw = vw[:i]
            elif k == 1:
                vw[i] = w.tok(a, True)
            elif k == 2:
                vw = vw + [w.tok(a, True)]
        return rawlist(w, vw), vw, (), []
    if c == 7:
        return (1, 2), (1, 2), (), []
    return 3, 3, (), []
@op('l.cmp', 'list', 'read')
def _(w, t, o, a):
    e = _list(w, a[0])
    arg, m, f, deps = cmparg(w, t, e, a[1])
    nm = list(CMP)[a[2] % 6]
    rev = a[3] % 3 == 0
    fn = CMP[nm]
    call = (lambda: fn(arg, e.obj)) if rev else (lambda: fn(e.obj, arg))
    exp = (lambda: V(fn(m, view(w, e)))) if rev else (lambda: V(fn(view(w, e), m)))
    name = f'{type(arg).__name__} {nm} {e.kind}' if rev else f'{e.kind} {nm} {type(arg).__name__}'
    w.perform(t, o, name, call, exp, [e] + deps, list(zread(e)) + list(f), cls='result')
@op('l.clear', 'list')
def _(w, t, o, a):
    e = _list(w, a[0])
    w.perform(t, o, f'{e.kind}.clear', lambda: e.obj.clear(), lambda: P(e.kind, []), [e])
@op('l.iter', 'list', 'read')
def _(w, t, o, a):
    e = _list(w, a[0])
    if a[1] % 2:
        w.perform(t, o, f'iter({e.kind})', lambda: list(e.obj), lambda: It(view(w, e)), [e], zread(e))
    else:
        w.perform(t, o, f'reversed({e.kind})', lambda: list(reversed(e.obj)), lambda: It(list(reversed(view(w, e)))), [e], zread(e))
@op('l.len', 'list', 'read')
def _(w, t, o, a):
    e = _list(w, a[0])
    w.perform(t, o, f'len({e.kind})', lambda: (len(e.obj), bool(e.obj)), lambda: V((len(e.model), bool(e.model))), [e])
CONV = {'plist': ('llist', 'tlist', 'tllist', 'plist'), 'llist': ('plist', 'llist', 'tllist'),
        'tlist': ('plist', 'llist', 'tlist'), 'tllist': ('llist',),
        'pdict': ('ldict', 'tdict', 'tldict', 'pdict'), 'ldict': ('pdict', 'ldict', 'tldict', 'tdict'),
        'tdict': ('pdict', 'ldict', 'tdict', 'tldict'), 'tldict': ('ldict', 'tdict', 'tldict'),
        'pset': ('pset', 'tset'), 'tset': ('pset', 'tset')}
def convert(w, t, o, e, a, cls='freeze'):
    to = CONV[e.kind][a % len(CONV[e.kind])]
    ctor = w.kinds[to]
    force, m = (), e.model
    if e.kind in LAZY_KINDS and to not in LAZY_KINDS:
        m, force = view(w, e), zs(e)
    m = mcopy(m)
    kw = {}
    if e.fam == 'dict' and a // 8 % 4 == 0:
        x = a // 32
        kw = {kwname(x + i): w.cell(x + i * 7, to) for i in range(1 + x % 2)}
        with quiet():
            m.update(kw)
    raw = {k: w.raw(v) for k, v in kw.items()}
    w.perform(t, o, f'{to}({e.kind}{", **kw" if kw else ""})', lambda: ctor(e.obj, **raw), lambda: (T if to in FREEZE else P)(to, m), [e], force, cls=cls)
@op('l.conv', 'list', 'conv')
def _(w, t, o, a):
    e = _list(w, a[0])
    convert(w, t, o, e, a[1])
def kwname(i):
    "A keyword; any name may be one, also those of the parameters of the call."
    return ('self', 'cls', 'args', 'arg', 'kw', 'obj', 'key')[i // 8 % 7] if i % 8 == 5 else f'k{i % 8}'
@op('l.new', 'list')
def _(w, t, o, a):
    kind = ('plist', 'llist')[a[0] % 2] if w.cfg.get('lazy') else 'plist'
    _, xs, f, deps = seqarg(w, t, a[1], kind, pers=False)
    if deps:
        return
    big = a[2] % 40
    if big == 0:
        xs = xs + [w.tok(i * 11 + 1, True) for i in range(30 + a[2] // 40 % 40)]
    elif big == 1 and w.cfg.get('huge') and a[2] // 40 % 5 == 0:
        xs = xs + [(i * 7) % 1000 for i in range(1024 + a[2] // 200 % 70)]
    if kind == 'plist':
        xs = [x if not isinstance(x, LZ) or w.cfg.get('rawlazy') else x.val for x in xs]
    w.perform(t, o, f'{kind}(items)', lambda: w.kinds[kind](seqarg_obj(w, t, a[1], kind, xs, [])), lambda: P(kind, xs))
@op('l.new0', 'list')
def _(w, t, o, a):
    kind = ('plist', 'llist')[a[0] % 2] if w.cfg.get('lazy') else 'plist'
    w.perform(t, o, f'{kind}()', lambda: w.kinds[kind](), lambda: P(kind, []))
@op('l.copy', 'list', 'conv')
def _(w, t, o, a):
    e = _list(w, a[0])
    w.perform(t, o, f'{e.kind}.copy', lambda: e.obj.copy(), lambda: Self(e), [e])

def imm(w, t, o, a, fam):
    e = w.pick(fam, a[0])
    obj = e.obj
    names = []
    for c in type(obj).__mro__:
        s = c.__dict__.get('__slots__', ())
        names += [s] if isinstance(s, str) else list(s)
    key = 0
    if fam == 'dict' and e.model:
        key = list(e.model)[a[2] % len(e.model)]
    def f_seti():
        obj[key] = 5
    def f_deli():
        del obj[key]
    def f_setn():
        setattr(obj, names[a[2] % len(names)] if names else 'x', None)
    def f_deln():
        delattr(obj, names[a[2] % len(names)] if names else 'x')
    def f_new():
        obj.some_new_name = 1
    fn = (f_seti, f_deli, f_setn, f_deln, f_new)[a[1] % 5]
    op2 = dict(o)
    op2.pop('f', None)
    act, err = w.call(t, fn, None)
    w.sim.event('op', t.id, t.opno, 'imm', err is not None)
    if err is None:
        w.viol('changed', f'{fn.__name__[2:]} on a {e.kind} did not raise')
    w.audit(e, 'changed', f' by a refused assignment')
SKIP = {'__class__', '__init_subclass__', '__subclasshook__', '__new__', '__class_getitem__', '__abstractmethods__', '_abc_impl'}
def reflect(w, t, o, a, fam):
    "Whatever method there is, with whatever arguments: the collection stays what it is."
    e = w.pick(fam, a[0])
    obj = e.obj
    names = [n for n in dir(type(obj)) if n not in SKIP and callable(getattr(type(obj), n, None))]
    nm = names[a[1] % len(names)]
    def arg(x):
        c = x % 9
        x //= 9
        if c == 0 or 'mul' in nm and e.fam == 'list':
            return x % 7 - 3
        if c in (1, 2):
            f = ('list', 'set', 'dict')[x % 3] if c == 1 else fam
            other = w.pick(f, x // 3) if f in w.cfg['fams'] else None
            return other.obj if other is not None else ()
        if c == 3:
            return [w.tok(x), w.tok(x * 31 + 7)]
        if c == 4:
            with quiet():
                return {w.tok(x): 1, w.tok(x * 31 + 7): 2}
        if c == 5:
            with quiet():
                return {w.tok(x), w.tok(x * 31 + 7)}
        if c == 6:
            return [(w.tok(x), 3)]
        if c == 7 and e.fam != 'list' and e.model:
            with quiet():
                xs = w.contents(e.kind, e.obj)
            k = xs[x % len(xs)]
            return k[0] if e.fam == 'dict' and type(k) is tuple and len(k) == 2 else k
        return w.tok(x)
    n = (0, 1, 1, 1, 2, 2, 3)[a[2] % 7]
    args = [arg(x) for x in a[3:3 + n]]
    if nm in ('__setattr__', '__delattr__') and args:
        args[0] = (getattr(type(obj), '__slots__', ()) or ('x',))[a[3] % 3 % max(1, len(getattr(type(obj), '__slots__', ())))]
    def fn():
        r = getattr(obj, nm)(*args)
        if a[2] // 7 % 2 and hasattr(r, '__next__'):
            for i, x in enumerate(r):
                if i > 50:
                    break
        return r
    act, err = w.call(t, fn, None)
    w.sim.event('op', t.id, t.opno, 'reflect', nm, err is not None)
    w.audit(e, 'changed', f' by {nm}')
    if nm in ('__setattr__', '__delattr__', '__setitem__', '__delitem__') and err is None and len(args) == (1 if 'del' in nm else 2):
        w.viol('changed', f'{nm} on a {e.kind} did not raise')
@op('l.reflect', 'list!', 'reflect')
def _(w, t, o, a):
    reflect(w, t, o, a, 'list')
@op('s.reflect', 'set!', 'reflect')
def _(w, t, o, a):
    reflect(w, t, o, a, 'set')
@op('d.reflect', 'dict!', 'reflect')
def _(w, t, o, a):
    reflect(w, t, o, a, 'dict')
@op('l.imm', 'list!', 'imm')
def _(w, t, o, a):
    imm(w, t, o, a, 'list')
@op('s.imm', 'set!', 'imm')
def _(w, t, o, a):
    imm(w, t, o, a, 'set')
@op('d.imm', 'dict!', 'imm')
def _(w, t, o, a):
    imm(w, t, o, a, 'dict')


# ======================================================================= sets
def _set(w, a):
    return w.pick('set', a)
def stok(w, e, a):
    "An element: often a member."
    m = e.model
    if m and a % 2:
        xs = w.contents(e.kind, e.obj) if not a % 3 else None
        with quiet():
            # The model set has no defined order: take members in the library's order.
            xs = w.contents(e.kind, e.obj)
        if xs:
            x = xs[a // 2 % len(xs)]
            return K(x.n) if type(x) is K else x
    return w.tok(a // 2)
def setarg(w, t, a, e=None, iters=False):
    """-> (make, model set, deps, name)"""
    c = a % (8 if iters else 6)
    a //= 8
    if c <= 1:
        x = w.pick('set', a)
        return (lambda: x.obj), set(x.model), [x], x.kind
    if c == 2:
        x = w.pick_t(t, 'set', a)
        if x is not None:
            return (lambda: x.obj), set(x.model), [x], x.kind
    with quiet():
        xs = toks(w, a)
        if e is not None and e.model and a % 3 == 0:
            mem = w.contents(e.kind, e.obj)
            xs = xs + [mem[(a // 3 + i) % len(mem)] for i in range(a % 4)]
        m = set(xs)
    if c == 6:
        return (lambda: w.feed(xs)), m, [], 'iterator'
    if c == 7:
        k = a // 7 % 12
        if k >= 8:
            with quiet():
                d = dict.fromkeys(xs, 1)
            d = (d, types.MappingProxyType(d), OddMap(d), d.keys())[k - 8]
            return (lambda: d), m, [], type(d).__name__
        return (lambda: oddseq(list(xs), k)), m, [], 'list'
    if c == 5:
        with quiet():
            d = dict.fromkeys(xs)
        return (lambda: d.keys()), m, [], 'dict_keys'
    with quiet():
        r = (set if c == 3 else frozenset)(xs)
    return (lambda: r), m, [], type(r).__name__

def holds(obj, xs, pre=()):
    """What a client put in is what is there, not something equal to it (of several equal
    ones, any)."""
    with quiet():
        if len(xs) > 2 * BIG:
            return obj
        seen, ids = set(pre), set(map(id, obj))
        many = collections.Counter(xs)
        for x in xs:
            if many[x] == 1 and x not in seen and id(x) not in ids:
                raise Mismatch(f'{x!r} was put in, but it holds something else that is equal')
    return obj
@op('s.add', 'set')
def _(w, t, o, a):
    e = _set(w, a[0])
    x = stok(w, e, a[1])
    if a[2] % 60 == 0:
        w.perform(t, o, 'pset.add(list)', lambda: e.obj.add([]), lambda: set().add([]), [e])
        return
    w.perform(t, o, 'pset.add', lambda: holds(e.obj.add(x), [x], e.model), lambda: P('pset', e.model | {x}), [e])
@op('s.discard', 'set')
def _(w, t, o, a):
    e = _set(w, a[0])
    x = stok(w, e, a[1])
    w.perform(t, o, 'pset.discard', lambda: e.obj.discard(x), lambda: P('pset', e.model - {x}) if x in e.model else Self(e), [e])
@op('s.remove', 'set')
def _(w, t, o, a):
    e = _set(w, a[0])
    x = stok(w, e, a[1])
    def exp():
        m = set(e.model)
        m.remove(x)
        return P('pset', m)
    w.perform(t, o, 'pset.remove', lambda: e.obj.remove(x), exp, [e])
@op('s.pop', 'set')
def _(w, t, o, a):
    e = _set(w, a[0])
    def chk(act):
        if type(act) is not tuple or len(act) != 2:
            raise Mismatch(f'returned {w.sh(act)}')
        with quiet():
            if act[0] not in e.model:
                raise Mismatch(f'popped {w.sh(act[0])}, not a member')
            return Tup(V(act[0]), P('pset', e.model - {act[0]}))
    def exp():
        if not e.model:
            raise KeyError()
        return Any(chk)
    w.perform(t, o, 'pset.pop', lambda: e.obj.pop(), exp, [e])
@op('s.bulk', 'set')
def _(w, t, o, a):
    e = _set(w, a[0])
    nm = ('addall', 'discardall', 'removeall', 'union', 'difference')[a[1] % 5]
    mk, m, deps, an = setarg(w, t, a[2], e, True)
    if len(e.model) + len(m) > BIG and len(m) > 8:
        return
    if nm == 'removeall':
        def exp():
            if not m <= e.model:
                raise KeyError()
            return P('pset', e.model - m)
        # a list argument may name an element twice: removing it twice is an error
        if an in ('iterator', 'list'):
            with quiet():
                xs = list(mk())
            def exp():
                r = set(e.model)
                for x in xs:
                    r.remove(x)
                return P('pset', r)
    elif nm in ('addall', 'union'):
        exp = lambda: P('pset', e.model | m)
    else:
        exp = lambda: P('pset', e.model - m)
    w.perform(t, o, f'pset.{nm}({an})', lambda: getattr(e.obj, nm)(mk()), exp, [e] + deps)
@op('s.algebra', 'set')
def _(w, t, o, a):
    e = _set(w, a[0])
    nm = ('union', 'intersection', 'difference', 'symmetric_difference')[a[1] % 4]
    n = 1 if nm == 'symmetric_difference' else a[4] % 4
    args = [setarg(w, t, a[2] + i * 7919 + i * a[3], e, True) for i in range(n)]
    if len(e.model) + sum(len(x[1]) for x in args) > 2 * BIG:
        return
    deps = [d for x in args for d in x[2]]
    w.perform(t, o, f'pset.{nm}({", ".join(x[3] for x in args)})', lambda: getattr(e.obj, nm)(*[x[0]() for x in args]),
              lambda: P('pset', getattr(e.model, nm)(*[x[1] for x in args])), [e] + deps)
SOP = {'&': operator.and_, '|': operator.or_, '-': operator.sub, '^': operator.xor}
@op('s.oper', 'set')
def _(w, t, o, a):
    e = _set(w, a[0])
    nm = list(SOP)[a[1] % 4]
    f = SOP[nm]
    if a[3] % 40 == 0:
        w.perform(t, o, f'pset {nm} list', lambda: f(e.obj, [1]), lambda: f(set(), [1]), [e])
        return
    mk, m, deps, an = setarg(w, t, a[2], e)
    if len(e.model) + len(m) > 2 * BIG:
        return
    rev = a[3] % 3 == 0 and an != 'dict_keys'
    if rev:
        kind = an if an in ('pset', 'tset') else 'pset'
        w.perform(t, o, f'{an} {nm} pset', lambda: f(mk(), e.obj), lambda: (T if kind == 'tset' else P)(kind, f(m, e.model)), [e] + deps)
    else:
        w.perform(t, o, f'pset {nm} {an}', lambda: f(e.obj, mk()), lambda: P('pset', f(e.model, m)), [e] + deps)
def setcmp_op(w, t, o, a, e, cls):
    nm = ('==', '!=', '<', '<=', '>', '>=', 'isdisjoint', 'issubset', 'issuperset')[a[1] % 9]
    if nm in CMP:
        if a[3] % 20 == 0:
            x = ([1], (1,), 'ab', {1: 2})[a[3] // 20 % 4]
            w.perform(t, o, f'{e.kind} {nm} {type(x).__name__}', lambda: CMP[nm](e.obj, x), lambda: V(CMP[nm](e.model, x)), [e], cls=cls)
            return
        mk, m, deps, an = setarg(w, t, a[2], e)
        if a[3] % 4 == 0:
            with quiet():
                m = set(e.model)
                if m and a[3] // 4 % 3 == 0:
                    m.discard(w.contents(e.kind, e.obj)[a[3] % len(m)])
                elif a[3] // 4 % 3 == 1:
                    m.add(w.tok(a[2]))
            mk, deps, an = (lambda: m), [], 'set'
        if a[4] % 3 == 0:
            w.perform(t, o, f'{an} {nm} {e.kind}', lambda: CMP[nm](mk(), e.obj), lambda: V(CMP[nm](m, e.model)), [e] + deps, cls=cls)
        else:
            w.perform(t, o, f'{e.kind} {nm} {an}', lambda: CMP[nm](e.obj, mk()), lambda: V(CMP[nm](e.model, m)), [e] + deps, cls=cls)
    else:
        mk, m, deps, an = setarg(w, t, a[2], e, True)
        w.perform(t, o, f'{e.kind}.{nm}({an})', lambda: getattr(e.obj, nm)(mk()), lambda: V(getattr(e.model, nm)(m)), [e] + deps, cls=cls)
@op('s.cmp', 'set', 'read')
def _(w, t, o, a):
    setcmp_op(w, t, o, a, _set(w, a[0]), 'result')
@op('s.in', 'set', 'read')
def _(w, t, o, a):
    e = _set(w, a[0])
    if a[2] % 60 == 0:
        w.perform(t, o, '[] in pset', lambda: [] in e.obj, lambda: V([1] in frozenset([1])), [e])
        return
    x = stok(w, e, a[1])
    w.perform(t, o, 'x in pset', lambda: x in e.obj, lambda: V(x in e.model), [e])
@op('s.iter', 'set', 'read')
def _(w, t, o, a):
    e = _set(w, a[0])
    w.perform(t, o, 'iter(pset)', lambda: list(e.obj), lambda: Bag(list(e.model)), [e])
@op('s.len', 'set', 'read')
def _(w, t, o, a):
    e = _set(w, a[0])
    w.perform(t, o, 'len(pset)', lambda: (len(e.obj), bool(e.obj)), lambda: V((len(e.model), bool(e.model))), [e])
@op('s.clear', 'set')
def _(w, t, o, a):
    e = _set(w, a[0])
    w.perform(t, o, 'pset.clear', lambda: e.obj.clear(), lambda: P('pset', set()), [e])
@op('s.conv', 'set', 'conv')
def _(w, t, o, a):
    convert(w, t, o, _set(w, a[0]), a[1])
@op('s.copy', 'set', 'conv')
def _(w, t, o, a):
    e = _set(w, a[0])
    w.perform(t, o, 'pset.copy', lambda: e.obj.copy(), lambda: Self(e), [e])
@op('s.new', 'set')
def _(w, t, o, a):
    mk, m, deps, an = setarg(w, t, a[0], None, True)
    if a[1] % 20 == 0:
        with quiet():
            xs = [w.tok(i * 11 + 1) for i in range(30 + a[2] % 40)]
            m = set(xs)
        mk = lambda: w.feed(xs)
    elif a[1] % 20 == 1:
        w.perform(t, o, 'pset()', lambda: w.kinds['pset'](), lambda: P('pset', set()))
        return
    elif a[1] % 20 == 2 and w.cfg.get('huge') and a[2] % 4 == 0:
        m = set(range(1024 + a[2] % 70))
        mk = lambda: range(1024 + a[2] % 70)
    def fn():
        x = mk()
        return holds(w.kinds['pset'](x), x if type(x) in (list, tuple, set, frozenset) else ())
    w.perform(t, o, f'pset({an})', fn, lambda: P('pset', m), deps)


# ====================================================================== dicts
def _dict(w, a):
    return w.pick('dict', a)
def dkey(w, e, a):
    if e.model and a % 2:
        ks = list(e.model)
        x = ks[a // 2 % len(ks)]
        return K(x.n) if type(x) is K else x
    return w.tok(a // 2)
def pairs(w, a, kind):
    n = a % 6
    a //= 6
    out = []
    for i in range(n):
        out.append((w.tok(a), w.cell(a // 64, kind)))
        a = (a * 1103515245 + 12345) & 0x7fffffff
    return out
def rawpairs(w, ps):
    return [(k, w.raw(v)) for k, v in ps]
class SubDict(dict):
    # (OrderedDict and ChainMap mask errors raised while their own keys are looked up.)
    pass
def maparg(w, t, a, kind, ent=True):
    """-> (make, pairs for the model, lazies forced, deps, name)"""
    c = a % 7
    a //= 7
    if c <= 1 and ent:
        x = w.pick('dict', a)
        return (lambda: x.obj), list(view(w, x).items()), zread(x), [x], x.kind
    if c == 2 and ent:
        x = w.pick_t(t, 'dict', a)
        if x is not None:
            return (lambda: x.obj), list(view(w, x).items()), zread(x), [x], x.kind
    ps = pairs(w, a, kind)
    rp = rawpairs(w, ps)
    if c == 3:
        return (lambda: w.feed(rp)), ps, (), [], 'iterator'
    if c == 4:
        with quiet():
            ps2 = list(dict(ps).items())
            d = dict(rp)
            k = a // 7 % 9
            if k < 6:
                d = (types.MappingProxyType(d), OddMap(d), SubDict(d), collections.UserDict(d), d.items(), OddMap(d))[k]
        return (lambda: d), ps2, (), [], type(d).__name__
    if c == 5:
        k = a // 7 % 5
        if k == 0:
            return (lambda: [list(p) for p in rp]), ps, (), [], 'list'
        if k == 1:
            return (lambda: zip([p[0] for p in rp], [p[1] for p in rp])), ps, (), [], 'list'
        if k == 2:
            return (lambda: oddseq(list(rp), a // 35 % 8)), ps, (), [], 'list'
        if k == 3:
            return (lambda: [iter(p) for p in rp]), ps, (), [], 'list'
    return (lambda: list(rp)), ps, (), [], 'list'

@op('d.set', 'dict')
def _(w, t, o, a):
    e = _dict(w, a[0])
    k = dkey(w, e, a[1])
    c = w.cell(a[2], e.kind)
    if a[3] % 60 == 0:
        w.perform(t, o, f'{e.kind}.set([])', lambda: e.obj.set([], 1), lambda: {}[[]], [e])
        return
    if k in e.model and a[3] % 5 == 0:
        c = e.model[k]
    def exp():
        m = dict(e.model)
        m[k] = c
        return P(e.kind, m)
    w.perform(t, o, f'{e.kind}.set', lambda: holds(e.obj.set(k, w.raw(c)), [k], e.model), exp, [e])
@op('d.drop', 'dict')
def _(w, t, o, a):
    e = _dict(w, a[0])
    k = dkey(w, e, a[1])
    def exp():
        if k not in e.model:
            return Self(e)
        m = dict(e.model)
        del m[k]
        return P(e.kind, m)
    w.perform(t, o, f'{e.kind}.drop', lambda: e.obj.drop(k), exp, [e])
@op('d.delete', 'dict')
def _(w, t, o, a):
    e = _dict(w, a[0])
    k = dkey(w, e, a[1])
    def exp():
        m = dict(e.model)
        del m[k]
        return P(e.kind, m)
    w.perform(t, o, f'{e.kind}.delete', lambda: e.obj.delete(k), exp, [e])
@op('d.pop', 'dict')
def _(w, t, o, a):
    e = _dict(w, a[0])
    k = dkey(w, e, a[1])
    dflt = (w.tok(a[2]),) if a[2] % 2 else ()
    def exp():
        if k not in e.model and dflt:
            return Tup(V(dflt[0]), Self(e))
        m = dict(e.model)
        c = m.pop(k)
        return Tup(V(rd(w, e, c)), P(e.kind, m))
    f = [e.model[k]] if e.kind in LAZY_KINDS and k in e.model else ()
    w.perform(t, o, f'{e.kind}.pop', lambda: e.obj.pop(k, *dflt), exp, [e], f)
def popitem_force(e):
    return zread(e)
@op('d.popitem', 'dict')
def _(w, t, o, a):
    e = _dict(w, a[0])
    def chk(act):
        if type(act) is not tuple or len(act) != 2 or type(act[0]) is not tuple or len(act[0]) != 2:
            raise Mismatch(f'returned {w.sh(act)}')
        with quiet():
            (k, v), _d = act
            if k not in e.model:
                raise Mismatch(f'popped key {w.sh(k)}, which is no key')
            m = dict(e.model)
            c = m.pop(k)
            if e.kind in LAZY_KINDS and isinstance(c, LZ):
                for z in t.called:
                    if z.id not in closure([c]):
                        w.viol('force', f'{e.kind}.popitem called the function of {z!r}, another item')
            return Tup(V((k, rd(w, e, c))), P(e.kind, m))
    def exp():
        if not e.model:
            raise KeyError()
        return Any(chk)
    w.perform(t, o, f'{e.kind}.popitem', lambda: e.obj.popitem(), exp, [e], zread(e))
@op('d.setdefault', 'dict')
def _(w, t, o, a):
    e = _dict(w, a[0])
    k = dkey(w, e, a[1])
    c = w.cell(a[2], e.kind)
    one = a[3] % 4 == 0
    def exp():
        if k in e.model:
            return Self(e)
        m = dict(e.model)
        m[k] = None if one else c
        return P(e.kind, m)
    w.perform(t, o, f'{e.kind}.setdefault', (lambda: e.obj.setdefault(k)) if one else (lambda: e.obj.setdefault(k, w.raw(c))), exp, [e])
@op('d.update', 'dict')
def _(w, t, o, a):
    e = _dict(w, a[0])
    args = [maparg(w, t, a[1] + i * 7919, e.kind) for i in range((1, 1, 1, 2, 0)[a[2] % 5])]
    if len(e.model) + sum(len(x[1]) for x in args) > 2 * BIG:
        return
    kw = {kwname(a[3] // 7 + i): w.cell(a[3] + i, e.kind) for i in range(a[3] % 3)} if a[4] % 3 == 0 else {}
    def exp():
        m = dict(e.model)
        for x in args:
            m.update(x[1])
        m.update(kw)
        return P(e.kind, m)
    f = [z for x in args for z in x[2]]
    deps = [d for x in args for d in x[3]]
    w.perform(t, o, f'{e.kind}.update({", ".join(x[4] for x in args)}{", **kw" if kw else ""})',
              lambda: e.obj.update(*[x[0]() for x in args], **{k: w.raw(v) for k, v in kw.items()}), exp, [e] + deps, f)
@op('d.setall', 'dict')
def _(w, t, o, a):
    e = _dict(w, a[0])
    ps = pairs(w, a[1], e.kind)
    ks = [k for k, v in ps]
    vs = [w.raw(v) for k, v in ps]
    if a[2] % 3 == 0:
        vs = vs + [1]
    def exp():
        m = dict(e.model)
        m.update(ps)
        return P(e.kind, m)
    w.perform(t, o, f'{e.kind}.setall', lambda: e.obj.setall(w.feed(ks) if a[2] % 2 else ks, w.feed(vs) if a[3] % 2 else vs), exp, [e])
@op('d.dropall', 'dict')
def _(w, t, o, a):
    e = _dict(w, a[0])
    nm = ('dropall', 'deleteall')[a[2] % 2]
    ks = [dkey(w, e, (a[1] + i * 7919) * (2 if a[3] % 3 == 0 else 1) + (1 if a[3] % 3 == 1 else 0)) for i in range(a[1] % 5)]
    def exp():
        m = dict(e.model)
        for k in ks:
            if nm == 'dropall':
                m.pop(k, None)
            else:
                del m[k]
        return P(e.kind, m)
    w.perform(t, o, f'{e.kind}.{nm}', lambda: getattr(e.obj, nm)(w.feed(ks) if a[2] // 2 % 2 else ks), exp, [e])
@op('d.get', 'dict', 'read')
def _(w, t, o, a):
    e = _dict(w, a[0])
    c = a[2] % 5
    if a[3] % 60 == 0:
        w.perform(t, o, f'{e.kind}[[]]', lambda: e.obj[[]], lambda: {}[[]], [e])
        return
    k = dkey(w, e, a[1])
    f = [e.model[k]] if e.kind in LAZY_KINDS and k in e.model else ()
    if c <= 1:
        w.perform(t, o, f'{e.kind}[k]', lambda: e.obj[k], lambda: V(view(w, e)[k]), [e], f)
    elif c == 2:
        w.perform(t, o, f'{e.kind}.get(k)', lambda: e.obj.get(k), lambda: V(view(w, e).get(k)), [e], f)
    elif c == 3:
        w.perform(t, o, f'{e.kind}.get(k, d)', lambda: e.obj.get(k, 'dflt'), lambda: V(view(w, e).get(k, 'dflt')), [e], f)
    else:
        w.perform(t, o, f'k in {e.kind}', lambda: k in e.obj, lambda: V(k in e.model), [e])
VIEWFN = {'&': operator.and_, '|': operator.or_, '-': operator.sub, '^': operator.xor, '==': operator.eq, '!=': operator.ne, '<=': operator.le,
          '<': operator.lt, '>=': operator.ge, '>': operator.gt, 'isdisjoint': lambda x, y: x.isdisjoint(y)}
VIEWOPS = sorted(VIEWFN)
def vset(w, exp):
    "A view operator gives a set with these members, or this boolean."
    if isinstance(exp, bool):
        return V(exp)
    def chk(act):
        with quiet():
            ok = isinstance(act, collections.abc.Set) and len(act) == len(exp) and set(act) == exp
        if not ok:
            raise Mismatch(f'gave {w.sh(act)}, expected {w.mshow(exp)}')
    return Any(chk)
def dviews(w, t, o, a, e, cls):
    vn = ('keys', 'values', 'items')[a[1] % 3]
    c = a[2] % 9
    f = zread(e) if vn != 'keys' else ()
    if c >= 6 and (vn == 'values' or vn == 'items' and e.kind not in LAZY_KINDS and any(isinstance(x, LZ) for x in e.model.values())):
        c -= 6
    mv = lambda: list(getattr(view(w, e), vn)())
    lv = lambda: getattr(e.obj, vn)()
    if c == 0:
        w.perform(t, o, f'list({e.kind}.{vn}())', lambda: list(lv()), lambda: It(mv()), [e], f, cls=cls)
    elif c == 1:
        w.perform(t, o, f'reversed({e.kind}.{vn}())', lambda: list(reversed(lv())), lambda: It(mv()[::-1]), [e], f, cls=cls)
    elif c == 2:
        w.perform(t, o, f'len({e.kind}.{vn}())', lambda: len(lv()), lambda: V(len(e.model)), [e], cls=cls)
    elif c == 3 or vn != 'keys' and c == 4:
        k = dkey(w, e, a[3])
        if vn == 'keys':
            x = k
        else:
            v = present(w, e, a[4])
            if a[4] % 5 == 0 and e.model:
                v = None
            elif k in e.model and a[4] % 2:
                v = rd(w, e, e.model[k])
            x = v if vn == 'values' else (k, v)
        wx = w.raw(x) if not isinstance(x, tuple) else (x[0], w.raw(x[1]))
        w.perform(t, o, f'x in {e.kind}.{vn}()', lambda: wx in lv(), lambda: V(x in getattr(view(w, e), vn)()), [e], f, cls=cls)
    elif c == 4:
        w.perform(t, o, f'list({e.kind})', lambda: list(e.obj), lambda: It(list(e.model)), [e], cls=cls)
    elif c >= 6:
        k = dkey(w, e, a[3])
        mview = lambda: getattr(view(w, e), vn)()
        if c == 6 and vn == 'items':
            x = (k, (k,), (k, rd(w, e, e.model[k]), 1) if k in e.model else 'xy', [k, 1], '', None)[a[4] % 6]
            if isinstance(x, tuple):
                x2 = tuple(w.raw(y) for y in x)
            else:
                x2 = x
            w.perform(t, o, f'{w.sh(x)} in {e.kind}.items()', lambda: x2 in lv(), lambda: V(x in mview()), [e], f, cls=cls)
            return
        with quiet():
            base = list(mview())
            y = [x for i, x in enumerate(base) if a[4] >> i % 16 & 1]
            if a[3] % 3:
                y += [w.tok(a[3] + i) if vn == 'keys' else (w.tok(a[3] + i), w.tok(a[4])) for i in range(a[3] % 3)]
            y = set(y)
        nm = VIEWOPS[a[4] // 16 % len(VIEWOPS)]
        g = VIEWFN[nm]
        left = a[4] // 256 % 3 == 0 and nm != 'isdisjoint'
        if left:
            w.perform(t, o, f'set {nm} {e.kind}.{vn}()', lambda: g(y, lv()), lambda: vset(w, g(y, mview())), [e], f, cls=cls)
        else:
            w.perform(t, o, f'{e.kind}.{vn}() {nm} set', lambda: g(lv(), y), lambda: vset(w, g(mview(), y)), [e], f, cls=cls)
    else:
        w.perform(t, o, f'reversed({e.kind})', lambda: list(reversed(e.obj)), lambda: It(list(e.model)[::-1]), [e], cls=cls)
@op('d.views', 'dict', 'read')
def _(w, t, o, a):
    dviews(w, t, o, a, _dict(w, a[0]), 'result')
def dcmp(w, t, o, a, e, cls):
    c = a[1] % 7
    f = list(zread(e))
    deps = []
    if c <= 2:
        x = w.pick('dict', a[2])
        arg, m, deps = x.obj, view(w, x), [x]
        f += zread(x)
    elif c <= 5:
        m = view(w, e)
        k = a[2] % 5
        if k == 0 and m:
            m.pop(list(m)[a[2] // 5 % len(m)])
        elif k == 1 and m:
            m[list(m)[a[2] // 5 % len(m)]] = w.tok(a[3])
        elif k == 2:
            m[w.tok(a[3])] = w.tok(a[4])
        elif k == 3:
            m = dict(reversed(list(m.items())))
        with quiet():
            arg = {k: w.raw(v) for k, v in m.items()}
    else:
        arg = m = ([], 3, (1,))[a[2] % 3]
    nm = ('==', '!=')[a[3] % 2]
    fn = CMP[nm]
    if a[4] % 3 == 0:
        w.perform(t, o, f'{type(arg).__name__} {nm} {e.kind}', lambda: fn(arg, e.obj), lambda: V(fn(m, view(w, e))), [e] + deps, f, cls=cls)
    else:
        w.perform(t, o, f'{e.kind} {nm} {type(arg).__name__}', lambda: fn(e.obj, arg), lambda: V(fn(view(w, e), m)), [e] + deps, f, cls=cls)
@op('d.cmp', 'dict', 'read')
def _(w, t, o, a):
    dcmp(w, t, o, a, _dict(w, a[0]), 'result')
@op('d.len', 'dict', 'read')
def _(w, t, o, a):
    e = _dict(w, a[0])
    w.perform(t, o, f'len({e.kind})', lambda: (len(e.obj), bool(e.obj)), lambda: V((len(e.model), bool(e.model))), [e])
@op('d.clear', 'dict')
def _(w, t, o, a):
    e = _dict(w, a[0])
    w.perform(t, o, f'{e.kind}.clear', lambda: e.obj.clear(), lambda: P(e.kind, {}), [e])
@op('d.conv', 'dict', 'conv')
def _(w, t, o, a):
    convert(w, t, o, _dict(w, a[0]), a[1])
@op('d.copy', 'dict', 'conv')
def _(w, t, o, a):
    e = _dict(w, a[0])
    w.perform(t, o, f'{e.kind}.copy', lambda: e.obj.copy(), lambda: Self(e), [e])
@op('d.new', 'dict')
def _(w, t, o, a):
    kind = ('pdict', 'ldict')[a[0] % 2] if w.cfg.get('lazy') else 'pdict'
    c = a[1] % 20
    if c == 0:
        w.perform(t, o, f'{kind}()', lambda: w.kinds[kind](), lambda: P(kind, {}))
        return
    mk, ps, f, deps, an = maparg(w, t, a[2], kind, False)
    if c == 1:
        ps = [(w.tok(i * 11 + 1), i) for i in range(30 + a[3] % 40)]
        mk = lambda: w.feed(rawpairs(w, ps))
    elif c == 2 and w.cfg.get('huge') and a[3] % 4 == 0:
        ps = [(i, i) for i in range(1024 + a[3] % 70)]
        mk = lambda: rawpairs(w, ps)
    kw = {}
    if c in (3, 4, 5):
        kw = {kwname(a[4] // 7 + i): w.cell(a[4] + i, kind) for i in range(a[4] % 4)}
    if c == 5:
        w.perform(t, o, f'{kind}(**kw)', lambda: w.kinds[kind](**{k: w.raw(v) for k, v in kw.items()}), lambda: P(kind, dict(kw)))
        return
    def exp():
        m = dict(ps)
        m.update(kw)
        return P(kind, m)
    def fn():
        x = mk()
        ks = list(x) if type(x) is dict else [p[0] for p in x] if type(x) in (list, tuple) and all(type(p) is tuple for p in x) else ()
        return holds(w.kinds[kind](x, **{k: w.raw(v) for k, v in kw.items()}), ks, kw)
    w.perform(t, o, f'{kind}({an}{", **kw" if kw else ""})', fn, exp)

@op('d.keyset', 'dict', 'read')
def _(w, t, o, a):
    e = _dict(w, a[0])
    nm = list(SOP)[a[1] % 4]
    f = SOP[nm]
    with quiet():
        m = set(toks(w, a[2]))
    w.perform(t, o, f'{e.kind}.keys() {nm} set', lambda: f(e.obj.keys(), m), lambda: V(f(set(e.model), m)), [e])


# ---------------------------------------------------------- hash, freeze, thaw
@op('p.hash', 'hash')
def _(w, t, o, a):
    fam = ('list', 'set', 'dict')[a[0] % 3]
    e = w.pick(fam, a[1]) or (w.pool[a[1] % len(w.pool)] if w.pool else None)
    if e is None:
        return
    def chk(act):
        if type(act) is not int:
            raise Mismatch(f'gave {w.sh(act)}')
        if e.hash is None:
            e.hash = act
        elif e.hash != act:
            w.viol('hash', f'hash() of {e.kind} #{e.no} was {e.hash}, now {act}')
        # Equal values of one family known so far must agree.
        with quiet():
            for x in w.pool:
                if x is not e and x.hash is not None and x.fam == e.fam and len(x.model) == len(e.model) \
                        and x.hash != act and view(w, x) == view(w, e):
                    w.viol('hash', f'equal collections hash differently: {x.kind} #{x.no} {x.hash}, {e.kind} #{e.no} {act}: {w.mshow(e.model)}')
        return None
    w.perform(t, o, f'hash({e.kind})', lambda: hash(e.obj), lambda: Any(chk), [e], zread(e), cls='hash')
@op('p.audit', 'audit')
def _(w, t, o, a):
    if w.pool:
        e = w.pool[a[0] % len(w.pool)]
        ok = w.audit(e, a=a[1])
        w.sim.event('audit', t.id, e.no, ok)
@op('p.thaw', 'thaw')
def _(w, t, o, a):
    fam = w.cfg['fams'][a[0] % len(w.cfg['fams'])]
    e = w.pick(fam, a[1])
    if e is None:
        return
    k = THAW[e.kind]
    m = mcopy(e.model)
    w.perform(t, o, f'{e.kind}.transient', lambda: e.obj.transient(), lambda: T(k, m), [e], cls='freeze')
@op('t.freeze', 'freeze')
def _(w, t, o, a):
    fam = w.cfg['fams'][a[0] % len(w.cfg['fams'])]
    te = w.ensure_t(t, fam, a[1])
    if te is None:
        return
    k = FREEZE[te.kind]
    m = mcopy(te.model)
    w.perform(t, o, f'{te.kind}.persistent', lambda: te.obj.persistent(), lambda: P(k, m), [te], cls='freeze')
@op('t.copy', 'freeze')
def _(w, t, o, a):
    fam = w.cfg['fams'][a[0] % len(w.cfg['fams'])]
    te = w.ensure_t(t, fam, a[1])
    if te is None:
        return
    m = mcopy(te.model)
    w.perform(t, o, f'{te.kind}.copy', lambda: te.obj.copy(), lambda: T(te.kind, m), [te], cls='freeze')
@op('t.conv', 'freeze')
def _(w, t, o, a):
    fam = w.cfg['fams'][a[0] % len(w.cfg['fams'])]
    te = w.ensure_t(t, fam, a[1])
    if te is not None:
        convert(w, t, o, te, a[2])
@op('t.audit', 'audit')
def _(w, t, o, a):
    ts = [x for x in t.trs if x.alive]
    if ts:
        te = ts[a[0] % len(ts)]
        ok = w.audit_t(te, 'tchanged', ' changed without an edit', a[1])
        w.sim.event('taudit', t.id, te.no, ok)


# ============================================================ transient lists
def _tl(w, t, a):
    te = w.ensure_t(t, 'list', a)
    return te
def lprefix(xs):
    def f(pre, post, obs):
        n = len(pre)
        return len(obs) >= n and len(obs) - n <= len(xs) and eqcells(obs[:n], pre) and eqcells(obs[n:], xs[:len(obs) - n])
    return f
def eqcell(x, y):
    # obs may hold the value where the model holds the lazy cell
    if isinstance(y, LZ) and not isinstance(x, LZ):
        return type(x) is LV and x.n == y.val.n
    if isinstance(x, LZ) and not isinstance(y, LZ):
        return type(y) is LV and y.n == x.val.n
    return x is y or x == y
def eqcells(a, b):
    return len(a) == len(b) and all(eqcell(x, y) for x, y in zip(a, b))
def permutation(pre, post, obs):
    left = list(pre)
    if len(obs) != len(left):
        return False
    for x in obs:
        for i, y in enumerate(left):
            if eqcell(x, y):
                del left[i]
                break
        else:
            return False
    return True
NONE = V(None)

@op('tl.set', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    i = w.goodidx(a[1], len(te.model))
    c = w.cell(a[2], te.kind)
    def fn():
        te.obj[i] = w.raw(c)
    def ap(m):
        m[i] = c
        return NONE
    w.mutate(t, o, f'{te.kind}[{i}] = v', te, fn, ap)
@op('tl.del', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    i = w.goodidx(a[1], len(te.model))
    def fn():
        del te.obj[i]
    def ap(m):
        del m[i]
        return NONE
    w.mutate(t, o, f'del {te.kind}[{i}]', te, fn, ap)
@op('tl.append', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    c = w.cell(a[2], te.kind)
    w.mutate(t, o, f'{te.kind}.append', te, lambda: te.obj.append(w.raw(c)), lambda m: (m.append(c), NONE)[1])
@op('tl.prepend', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    c = w.cell(a[2], te.kind)
    w.mutate(t, o, f'{te.kind}.prepend', te, lambda: te.obj.prepend(w.raw(c)), lambda m: (m.insert(0, c), NONE)[1])
@op('tl.insert', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    i = w.idx(a[1], len(te.model))
    c = w.cell(a[2], te.kind)
    w.mutate(t, o, f'{te.kind}.insert({i})', te, lambda: te.obj.insert(i, w.raw(c)), lambda m: (m.insert(i, c), NONE)[1])
@op('tl.pop', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    n = len(te.model)
    i = w.goodidx(a[1], n)
    args = () if a[2] % 4 == 0 else (i,)
    j = args[0] if args else -1
    f = [te.model[j]] if te.kind in LAZY_KINDS and -n <= j < n else ()
    w.mutate(t, o, f'{te.kind}.pop{args}', te, lambda: te.obj.pop(*args), lambda m: V(rd(w, te, m.pop(*args))), force=f)
@op('tl.remove', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    v = present(w, te, a[1])
    def ap(m):
        vw = [rd(w, te, c) for c in m]
        del m[vw.index(v)]
        return NONE
    w.mutate(t, o, f'{te.kind}.remove', te, lambda: te.obj.remove(w.raw(v)), ap, force=zread(te))
@op('tl.extend', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    c = a[3] % 6
    if c == 0:
        if len(te.model) > BIG:
            return
        xs = view(w, te)
        mk, f, deps, nm = (lambda: te.obj), zread(te), [], 'itself'
    else:
        _, xs, f, deps = seqarg(w, t, a[1], te.kind)
        if len(te.model) + len(xs) > 2 * BIG:
            return
        mk, nm = (lambda: seqarg_obj(w, t, a[1], te.kind, xs, deps)), 'items'
        if deps and deps[0] is te:
            deps = []
    def ap(m):
        m.extend(xs)
        return NONE
    if c == 1 and (deps or a[1] % 8 == 7):
        def fn():
            x = te.obj
            x += mk()
            if x is not te.obj:
                raise Mismatch('+= gave another object')
        w.mutate(t, o, f'{te.kind} += {nm}', te, fn, ap, lprefix(xs), [d for d in deps if isinstance(d, Entry)], f)
    else:
        w.mutate(t, o, f'{te.kind}.extend({nm})', te, lambda: te.obj.extend(mk()), ap, lprefix(xs), [d for d in deps if isinstance(d, Entry)], f)
@op('tl.iadd', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    if len(te.model) > BIG:
        return
    xs = view(w, te)
    def fn():
        x = te.obj
        x += te.obj
        return x is te.obj
    w.mutate(t, o, f'{te.kind} += itself', te, fn, lambda m: (m.extend(xs), V(True))[1], lprefix(xs), (), zread(te))
@op('tl.imul', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    k = a[1] % 5 - 1
    if len(te.model) * k > 2 * BIG:
        k = a[1] % 2
    if not te.model and a[3] % 4 == 0:
        k = (1 << 60, -1 << 60, True, 1 << 40)[a[3] // 4 % 4]
    vw = view(w, te)
    def fn():
        x = te.obj
        x *= k
        return x is te.obj
    def ap(m):
        n = len(m)
        m *= k
        m[n:] = vw * max(0, k - 1)
        return V(True)
    w.mutate(t, o, f'{te.kind} *= {k}', te, fn, ap, lprefix(vw * max(0, k - 1)), force=zread(te))
@op('tl.sort', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    kw = {}
    if a[1] % 3:
        kw['key'] = keyfn(w, a[1] % 3 == 1)
    if a[2] % 2:
        kw['reverse'] = True
    def ap(m):
        m[:] = sorted([rd(w, te, c) for c in m], **kw)
        return NONE
    w.mutate(t, o, f'{te.kind}.sort', te, lambda: te.obj.sort(**kw), ap, permutation, (), zread(te))
@op('tl.reverse', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    w.mutate(t, o, f'{te.kind}.reverse', te, lambda: te.obj.reverse(), lambda m: (m.reverse(), NONE)[1], permutation, (), zread(te))
@op('tl.clear', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    w.mutate(t, o, f'{te.kind}.clear', te, lambda: te.obj.clear(), lambda m: (m.clear(), NONE)[1])
@op('tl.read', 'tlist')
def _(w, t, o, a):
    te = _tl(w, t, a[0])
    c = a[1] % 9
    n = len(te.model)
    f = zread(te)
    if c == 0:
        i = w.goodidx(a[2], n)
        fc = [te.model[i]] if te.kind in LAZY_KINDS and -n <= i < n else ()
        w.perform(t, o, f'{te.kind}[{i}]', lambda: te.obj[i], lambda: V(view(w, te)[i]), [te], fc, cls='tresult')
    elif c == 1:
        s = slc(a, n)
        w.perform(t, o, f'{te.kind}[{s.start}:{s.stop}:{s.step}]', lambda: te.obj[s], lambda: T(te.kind, list(te.model)[s]), [te], cls='tresult')
    elif c == 2:
        v = present(w, te, a[2])
        w.perform(t, o, f'v in {te.kind}', lambda: w.raw(v) in te.obj, lambda: V(v in view(w, te)), [te], f, cls='tresult')
    elif c == 3:
        v = present(w, te, a[2])
        w.perform(t, o, f'{te.kind}.count', lambda: te.obj.count(w.raw(v)), lambda: V(view(w, te).count(v)), [te], f, cls='tresult')
    elif c == 4:
        v = present(w, te, a[2])
        args = ()
        if a[3] % 2:
            args = (w.idx(a[3] // 2, n),)
            if a[4] % 2:
                args += (w.idx(a[4] // 2, n),)
            if a[5] % 8 == 0:
                args = tuple(oddidx(w, a[5] // 32 + i * 5, n) if a[5] // 8 >> i & 1 else x for i, x in enumerate(args))
                if None in args:
                    args = ()
        w.perform(t, o, f'{te.kind}.index({", ".join(["v"] + [str(x) for x in args])})', lambda: te.obj.index(w.raw(v), *args), lambda: V(view(w, te).index(v, *args)), [te], f, cls='tresult')
    elif c == 5:
        if a[2] % 2:
            w.perform(t, o, f'iter({te.kind})', lambda: list(te.obj), lambda: It(view(w, te)), [te], f, cls='tresult')
        else:
            w.perform(t, o, f'reversed({te.kind})', lambda: list(reversed(te.obj)), lambda: It(view(w, te)[::-1]), [te], f, cls='tresult')
    elif c == 6:
        arg, m, f2, deps = cmparg(w, t, te, a[2])
        nm = list(CMP)[a[3] % 6]
        fn = CMP[nm]
        if a[4] % 3 == 0:
            w.perform(t, o, f'{type(arg).__name__} {nm} {te.kind}', lambda: fn(arg, te.obj), lambda: V(fn(m, view(w, te))), [te] + deps, list(f) + list(f2), cls='tresult')
        else:
            w.perform(t, o, f'{te.kind} {nm} {type(arg).__name__}', lambda: fn(te.obj, arg), lambda: V(fn(view(w, te), m)), [te] + deps, list(f) + list(f2), cls='tresult')
    elif c == 7:
        w.perform(t, o, f'len({te.kind})', lambda: (len(te.obj), bool(te.obj)), lambda: V((n, bool(n))), [te], cls='tresult')
    else:
        k = a[2] % 4
        if k == 0:
            r = a[3] % 4 - 1
            if n * r > 2 * BIG:
                return
            vw = view(w, te)
            w.perform(t, o, f'{te.kind} * {r}', (lambda: te.obj * r) if a[4] % 2 else (lambda: r * te.obj), lambda: T(te.kind, [] if r < 1 else list(te.model) + vw * (r - 1)), [te], f, cls='tresult')
            return
        xs = lit(w, a[3], te.kind)
        arg = rawlist(w, xs)
        if k == 1:
            w.perform(t, o, f'list + {te.kind}', lambda: arg + te.obj, lambda: T(te.kind, xs + list(te.model)), [te], cls='tresult')
        elif k == 2:
            x = w.pick('list', a[4])
            if n + len(x.model) < 2 * BIG:
                w.perform(t, o, f'{te.kind} + {x.kind}', lambda: te.obj + x.obj, lambda: T(te.kind, list(te.model) + view(w, x)), [te, x], zread(x), cls='tresult')
        else:
            w.perform(t, o, f'{te.kind} + list', lambda: te.obj + arg, lambda: T(te.kind, list(te.model) + xs), [te], cls='tresult')
@op('tl.new', 'tlist')
def _(w, t, o, a):
    kind = ('tlist', 'tllist')[a[0] % 2] if w.cfg.get('lazy') else 'tlist'
    _, xs, f, deps = seqarg(w, t, a[1], kind, pers=False)
    if deps:
        return
    if a[2] % 10 == 0:
        xs = []
        w.perform(t, o, f'{kind}()', lambda: w.kinds[kind](), lambda: T(kind, []), cls='tresult')
        return
    w.perform(t, o, f'{kind}(items)', lambda: w.kinds[kind](seqarg_obj(w, t, a[1], kind, xs, [])), lambda: T(kind, xs), cls='tresult')


# ============================================================= transient sets
def _ts(w, t, a):
    return w.ensure_t(t, 'set', a)
def between(pre, post, obs):
    return (pre & post) <= obs <= (pre | post)
def one(te, nm, x):
    with quiet():
        was = x in te.model
    r = getattr(te.obj, nm)(x)
    if nm == 'add' and not was:
        holds(te.obj, [x])
    return r
@op('ts.one', 'tset')
def _(w, t, o, a):
    te = _ts(w, t, a[0])
    nm = ('add', 'add', 'discard', 'remove')[a[1] % 4]
    if a[3] % 60 == 0:
        w.mutate(t, o, f'tset.{nm}([])', te, lambda: getattr(te.obj, nm)([1]), lambda m: V(frozenset([[1]])))
        return
    x = stok(w, te, a[2])
    w.mutate(t, o, f'tset.{nm}', te, lambda: one(te, nm, x), lambda m: V(getattr(m, nm)(x)))
@op('ts.pop', 'tset')
def _(w, t, o, a):
    te = _ts(w, t, a[0])
    pre = te.model
    def chk(act):
        if act not in pre:
            raise Mismatch(f'popped {w.sh(act)}, not a member')
        return V(act), pre - {act}
    def ap(m):
        if not m:
            raise KeyError()
        return Any(chk)
    w.mutate(t, o, 'tset.pop', te, lambda: te.obj.pop(), ap)
@op('ts.bulk', 'tset')
def _(w, t, o, a):
    te = _ts(w, t, a[0])
    nm = ('addall', 'discardall', 'removeall', 'update', 'difference_update', 'intersection_update',
          'symmetric_difference_update')[a[1] % 7]
    if a[3] % 6 == 0:
        mk, deps, an = (lambda: te.obj), [], 'itself'
        with quiet():
            mset = set(te.model)
        if nm == 'removeall':
            nm = 'discardall'
    else:
        mk, mset, deps, an = setarg(w, t, a[2], te, True)
        deps = [d for d in deps if isinstance(d, Entry)]
    if len(te.model) + len(mset) > 2 * BIG:
        return
    xs = None
    if nm == 'removeall':
        with quiet():
            xs = list(mk())
    def ap(m):
        if nm in ('addall', 'update'):
            m |= mset
        elif nm == 'discardall' or nm == 'difference_update':
            m -= mset
        elif nm == 'removeall':
            for x in xs:
                m.remove(x)
        elif nm == 'intersection_update':
            m &= mset
        else:
            m ^= mset
        return NONE
    st = between
    if nm == 'removeall':
        st = lambda pre, post, obs: obs <= pre and pre - obs <= set(xs)
    w.mutate(t, o, f'tset.{nm}({an})', te, lambda: getattr(te.obj, nm)(mk()), ap, st, deps)
@op('ts.ioper', 'tset')
def _(w, t, o, a):
    te = _ts(w, t, a[0])
    nm = list(SOP)[a[1] % 4]
    f = {'&': operator.iand, '|': operator.ior, '-': operator.isub, '^': operator.ixor}[nm]
    if a[3] % 4 == 0:
        mk, deps, an = (lambda: te.obj), [], 'itself'
        with quiet():
            mset = set(te.model)
    elif a[3] % 40 == 1:
        w.mutate(t, o, f'tset {nm}= list', te, lambda: f(te.obj, [1]), lambda m: f(m, [1]))
        return
    else:
        mk, mset, deps, an = setarg(w, t, a[2], te)
        deps = [d for d in deps if isinstance(d, Entry)]
    if len(te.model) + len(mset) > 2 * BIG:
        return
    w.mutate(t, o, f'tset {nm}= {an}', te, lambda: f(te.obj, mk()) is te.obj, lambda m: (f(m, mset), V(True))[1], between, deps)
@op('ts.clear', 'tset')
def _(w, t, o, a):
    te = _ts(w, t, a[0])
    w.mutate(t, o, 'tset.clear', te, lambda: te.obj.clear(), lambda m: (m.clear(), NONE)[1])
@op('ts.read', 'tset')
def _(w, t, o, a):
    te = _ts(w, t, a[0])
    c = a[5] % 6
    if c == 0:
        setcmp_op(w, t, o, a, te, 'tresult')
    elif c == 1:
        x = stok(w, te, a[1])
        w.perform(t, o, 'x in tset', lambda: x in te.obj, lambda: V(x in te.model), [te], cls='tresult')
    elif c == 2:
        w.perform(t, o, 'iter(tset)', lambda: list(te.obj), lambda: Bag(list(te.model)), [te], cls='tresult')
    elif c == 3:
        w.perform(t, o, 'len(tset)', lambda: (len(te.obj), bool(te.obj)), lambda: V((len(te.model), bool(te.model))), [te], cls='tresult')
    elif c == 4:
        nm = ('union', 'intersection', 'difference', 'symmetric_difference')[a[1] % 4]
        n = 1 if nm == 'symmetric_difference' else a[4] % 3
        args = [setarg(w, t, a[2] + i * 7919 + i * a[3], te, True) for i in range(n)]
        if len(te.model) + sum(len(x[1]) for x in args) > 2 * BIG:
            return
        deps = [d for x in args for d in x[2]]
        w.perform(t, o, f'tset.{nm}({", ".join(x[3] for x in args)})', lambda: getattr(te.obj, nm)(*[x[0]() for x in args]),
                  lambda: T('tset', getattr(te.model, nm)(*[x[1] for x in args])), [te] + deps, cls='tresult')
    else:
        nm = list(SOP)[a[1] % 4]
        f = SOP[nm]
        mk, m, deps, an = setarg(w, t, a[2], te)
        if len(te.model) + len(m) > 2 * BIG:
            return
        if a[3] % 3 == 0 and an != 'dict_keys':
            kind = an if an in ('pset', 'tset') else 'tset'
            w.perform(t, o, f'{an} {nm} tset', lambda: f(mk(), te.obj), lambda: (T if kind == 'tset' else P)(kind, f(m, te.model)), [te] + deps, cls='tresult')
        else:
            w.perform(t, o, f'tset {nm} {an}', lambda: f(te.obj, mk()), lambda: T('tset', f(te.model, m)), [te] + deps, cls='tresult')
@op('ts.new', 'tset')
def _(w, t, o, a):
    mk, m, deps, an = setarg(w, t, a[0], None, True)
    w.perform(t, o, f'tset({an})', lambda: w.kinds['tset'](mk()), lambda: T('tset', m), deps, cls='tresult')


# ============================================================ transient dicts
def _td(w, t, a):
    return w.ensure_t(t, 'dict', a)
def dprefix(ps):
    def f(pre, post, obs):
        m = dict(pre)
        n = 0
        while True:
            if list(m) == list(obs) and all(eqcell(obs[k], m[k]) for k in m):
                return True
            if n == len(ps):
                return False
            m[ps[n][0]] = ps[n][1]
            n += 1
    return f
@op('td.set', 'tdict')
def _(w, t, o, a):
    te = _td(w, t, a[0])
    k = dkey(w, te, a[1])
    c = w.cell(a[2], te.kind)
    if a[3] % 60 == 0:
        k = []
    def fn():
        was = False
        if type(k) is not list:
            with quiet():
                was = k in te.model
        te.obj[k] = w.raw(c)
        if not was:
            holds(te.obj, [k])
    def ap(m):
        m[k] = c
        return NONE
    w.mutate(t, o, f'{te.kind}[k] = v', te, fn, ap)
@op('td.del', 'tdict')
def _(w, t, o, a):
    te = _td(w, t, a[0])
    k = dkey(w, te, a[1])
    def fn():
        del te.obj[k]
    def ap(m):
        del m[k]
        return NONE
    w.mutate(t, o, f'del {te.kind}[k]', te, fn, ap)
@op('td.pop', 'tdict')
def _(w, t, o, a):
    te = _td(w, t, a[0])
    k = dkey(w, te, a[1])
    args = (w.tok(a[2]),) if a[2] % 2 else ()
    f = [te.model[k]] if te.kind in LAZY_KINDS and k in te.model else ()
    w.mutate(t, o, f'{te.kind}.pop', te, lambda: te.obj.pop(k, *args), lambda m: V(rd(w, te, m.pop(k, *args))), force=f)
@op('td.popitem', 'tdict')
def _(w, t, o, a):
    te = _td(w, t, a[0])
    pre = te.model
    def chk(act):
        if type(act) is not tuple or len(act) != 2 or act[0] not in pre:
            raise Mismatch(f'returned {w.sh(act)}')
        m = dict(pre)
        c = m.pop(act[0])
        return V((act[0], rd(w, te, c))), m
    def ap(m):
        if not m:
            raise KeyError()
        return Any(chk)
    w.mutate(t, o, f'{te.kind}.popitem', te, lambda: te.obj.popitem(), ap, force=zread(te))
@op('td.setdefault', 'tdict')
def _(w, t, o, a):
    te = _td(w, t, a[0])
    k = dkey(w, te, a[1])
    c = w.cell(a[2], te.kind)
    f = [te.model[k]] if te.kind in LAZY_KINDS and k in te.model else ()
    def ap(m):
        new = k not in m
        r = m.setdefault(k, c)
        # On insertion a lazy default may come back as it is or as its value.
        if new and isinstance(c, LZ) and te.kind in LAZY_KINDS:
            return Any(lambda act: ((V(c) if act is c.lazy else V(c.val)), m))
        return V(rd(w, te, r))
    w.mutate(t, o, f'{te.kind}.setdefault', te, lambda: te.obj.setdefault(k, w.raw(c)), ap, force=f)
@op('td.update', 'tdict')
def _(w, t, o, a):
    te = _td(w, t, a[0])
    args = [maparg(w, t, a[1] + i * 7919, te.kind) for i in range((1, 1, 1, 2, 0)[a[2] % 5])]
    if len(te.model) + sum(len(x[1]) for x in args) > 2 * BIG:
        return
    for x in args:
        if te in x[3]:
            args = [x]
            break
    kw = {kwname(a[3] // 7 + i): w.cell(a[3] + i, te.kind) for i in range(a[3] % 3)} if a[4] % 3 == 0 else {}
    ps = [p for x in args for p in x[1]] + list(kw.items())
    def ap(m):
        m.update(ps)
        return NONE
    f = [z for x in args for z in x[2]]
    deps = [d for x in args for d in x[3] if isinstance(d, Entry)]
    w.mutate(t, o, f'{te.kind}.update({", ".join(x[4] for x in args)}{", **kw" if kw else ""})', te,
             lambda: te.obj.update(*[x[0]() for x in args], **{k: w.raw(v) for k, v in kw.items()}), ap, dprefix(ps), deps, f)
@op('td.clear', 'tdict')
def _(w, t, o, a):
    te = _td(w, t, a[0])
    w.mutate(t, o, f'{te.kind}.clear', te, lambda: te.obj.clear(), lambda m: (m.clear(), NONE)[1])
@op('td.read', 'tdict')
def _(w, t, o, a):
    te = _td(w, t, a[0])
    c = a[5] % 6
    k = dkey(w, te, a[1])
    f = [te.model[k]] if te.kind in LAZY_KINDS and k in te.model else ()
    if c == 0:
        w.perform(t, o, f'{te.kind}[k]', lambda: te.obj[k], lambda: V(view(w, te)[k]), [te], f, cls='tresult')
    elif c == 1:
        w.perform(t, o, f'{te.kind}.get', lambda: (te.obj.get(k), te.obj.get(k, 5)), lambda: V((view(w, te).get(k), view(w, te).get(k, 5))), [te], f, cls='tresult')
    elif c == 2:
        w.perform(t, o, f'k in {te.kind}', lambda: k in te.obj, lambda: V(k in te.model), [te], cls='tresult')
    elif c == 3:
        dviews(w, t, o, [a[0], a[2], a[3], a[1], a[4]], te, 'tresult')
    elif c == 4:
        dcmp(w, t, o, a, te, 'tresult')
    else:
        w.perform(t, o, f'len({te.kind})', lambda: (len(te.obj), bool(te.obj)), lambda: V((len(te.model), bool(te.model))), [te], cls='tresult')
@op('td.new', 'tdict')
def _(w, t, o, a):
    kind = ('tdict', 'tldict')[a[0] % 2] if w.cfg.get('lazy') else 'tdict'
    mk, ps, f, deps, an = maparg(w, t, a[2], kind, False)
    kw = {kwname(a[4] // 7 + i): w.cell(a[4] + i, kind) for i in range(a[4] % 3)} if a[3] % 4 == 0 else {}
    def exp():
        m = dict(ps)
        m.update(kw)
        return T(kind, m)
    w.perform(t, o, f'{kind}({an}{", **kw" if kw else ""})', lambda: w.kinds[kind](mk(), **{k: w.raw(v) for k, v in kw.items()}), exp, cls='tresult')


# ====================================== bulk edits whose iterable edits as well
def script(w, te, a):
    "What a client's generator does while a bulk edit reads it: yields, edits, freezes."
    fam, out, x = te.fam, [], a[1]
    for i in range(2 + a[2] % 7):
        x = (x * 1103515245 + 12345 + a[3]) & 0x7fffffff
        c, y = x % 10, x >> 4
        if c < 4:
            out.append(('y', (w.tok(y), w.cell(y // 64, te.kind)) if fam == 'dict' else w.tok(y) if fam == 'set' else w.cell(y, te.kind)))
        elif c == 4:
            out.append(('freeze',))
        elif fam == 'list':
            out.append((('append', 'prepend', 'insert', 'delete', 'set')[c - 5], y, w.cell(y // 3, te.kind)))
        elif fam == 'set':
            out.append((('add', 'discard', 'discard', 'add', 'clear' if y % 3 == 0 else 'discard')[c - 5], w.tok(y)))
        else:
            out.append((('set', 'pop', 'pop', 'setdefault', 'clear' if y % 3 == 0 else 'pop')[c - 5], w.tok(y), w.cell(y // 64, te.kind)))
    return out
def play(w, te, obj, sc, model, frozen):
    """The generator; `obj` is the transient or, when `model`, the builtin."""
    raw = (lambda c: c) if model else w.raw
    fam = te.fam
    for st in sc:
        k = st[0]
        if k == 'y':
            if core.CUR is not None:
                core.S.callback('iter')
            yield (st[1][0], raw(st[1][1])) if fam == 'dict' else raw(st[1]) if fam == 'list' else st[1]
        elif k == 'freeze':
            frozen.append(mcopy(obj) if model else obj.persistent())
        elif k == 'clear':
            obj.clear()
        elif fam == 'set':
            getattr(obj, k)(st[1])
        elif fam == 'dict':
            if k == 'set':
                obj[st[1]] = raw(st[2])
            elif k == 'pop':
                if st[1] in obj:
                    del obj[st[1]]
            elif st[1] not in obj:
                obj[st[1]] = raw(st[2])
        else:
            n = len(obj)
            i = st[1] % (n + 1)
            if k == 'append':
                obj.append(raw(st[2]))
            elif k == 'prepend':
                obj.insert(0, st[2]) if model else obj.prepend(raw(st[2]))
            elif k == 'insert':
                obj.insert(i, raw(st[2]))
            elif i < n:
                if k == 'delete':
                    del obj[i]
                else:
                    obj[i] = raw(st[2])
def reentrant(w, t, o, a, te, call, mcall, name):
    if len(te.model) > BIG:
        return
    sc = script(w, te, a)
    fr, mfr = [], []
    def ap(m):
        mfr.clear()
        mcall(m, play(w, te, m, sc, True, mfr))
        return NONE
    forced = list(zread(te)) + [st[2] for st in sc if len(st) > 2 and isinstance(st[2], LZ)] + \
        [x for st in sc if st[0] == 'y' for x in (st[1] if type(st[1]) is tuple else (st[1],)) if isinstance(x, LZ)]
    te.kver += 1        # what it changes it may change back
    if w.mutate(t, {'o': o['o']}, f'{te.kind}.{name}(a generator that edits it)', te, lambda: call(te.obj, play(w, te, te.obj, sc, False, fr)), ap, force=forced) == 'ok':
        kind = FREEZE[te.kind]
        for obj, m in zip(fr, mfr):
            d = w.diff(kind, obj, m)
            if d is not None:
                w.viol('freeze' if 'freeze' in w.relevant else 'leak', f'{te.kind}.persistent() while {name} was running: {d}')
            else:
                w.adopt(kind, obj, w.relazy(kind, obj, m))
@op('tl.reent', 'tlist')
def _(w, t, o, a):
    reentrant(w, t, o, a, _tl(w, t, a[0]), lambda x, g: x.extend(g), lambda m, g: m.extend(g), 'extend')
@op('ts.reent', 'tset')
def _(w, t, o, a):
    nm = ('addall', 'addall', 'discardall')[a[4] % 3]
    def mcall(m, g):
        for x in g:
            (m.add if nm == 'addall' else m.discard)(x)
    reentrant(w, t, o, a, _ts(w, t, a[0]), lambda x, g: getattr(x, nm)(g), mcall, nm)
@op('td.reent', 'tdict')
def _(w, t, o, a):
    reentrant(w, t, o, a, _td(w, t, a[0]), lambda x, g: x.update(g), lambda m, g: m.update(g), 'update')


# ================================================================== iterators
class It_:
    __slots__ = ('it', 'src', 'how', 'pos', 'kver', 'keys', 'seen', 'done', 'no')
@op('i.open', 'iter')
def _(w, t, o, a):
    fams = w.cfg['fams']
    fam = fams[a[0] % len(fams)]
    if a[1] % 3 == 0:
        src = w.pick(fam, a[2])
    else:
        src = w.ensure_t(t, fam, a[2])
    if src is None or any(isinstance(c, LZ) for c in zread(src)):
        return
    open_it(w, t, src, ('iter', 'keys', 'values', 'items')[a[3] % 4] if fam == 'dict' else 'iter')
def open_it(w, t, src, how):
    r = It_()
    r.src, r.how, r.pos, r.done = src, how, 0, False
    fn = (lambda: iter(src.obj)) if how == 'iter' else (lambda: iter(getattr(src.obj, how)()))
    act, err = w.call(t, fn, None)
    if err is not None:
        w.viol('iter', f'iter() of a {src.kind} ({how}) raised {type(err).__name__}: {err}')
        return
    r.it = act
    r.kver = getattr(src, 'kver', 0)
    with quiet():
        r.keys = list(src.model) if src.fam != 'set' else set(src.model)
    r.seen = []
    t.its.append(r)
    if len(t.its) > 5:
        t.its.pop(0)
    w.sim.event('iopen', t.id, src.kind, how)
    return r
@op('i.step', 'iter')
def _(w, t, o, a):
    if not t.its:
        return
    r = t.its[a[0] % len(t.its)]
    for _ in range((1, 1, 2, 5, 100)[a[1] % 5]):
        if r.done or not step(w, t, r):
            break
    if r.done and r in t.its:
        t.its.remove(r)
def step(w, t, r):
    src = r.src
    END = w      # sentinel
    if isinstance(src, TE) and not src.alive:
        r.done = True
        return False
    act, err = w.call(t, lambda: next(r.it, END), None)
    stop = act is END
    w.sim.event('istep', t.id, src.kind, r.how, stop, err is not None)
    if stop or err is not None:
        r.done = True
    what = f'an iterator ({r.how}) over a {src.kind}'
    if src.fam == 'list':
        m = src.model
        if err is not None:
            w.viol('iter', f'{what} raised {type(err).__name__}: {err}')
        elif stop:
            if r.pos < len(m):
                w.viol('iter', f'{what} stopped at {r.pos} of {len(m)} items')
        else:
            with quiet():
                ok = r.pos < len(m) and w.match(act, m[r.pos])
            if not ok:
                w.viol('iter', f'{what} gave {w.sh(act)} at position {r.pos}; contents {w.mshow(m)}')
                r.done = True
        r.pos += 1
        return not r.done
    with quiet():
        changed = isinstance(src, TE) and src.kver != r.kver
        same_keys = (set(src.model) == r.keys) if src.fam == 'set' else (list(src.model) == r.keys)
    if changed and err is not None and isinstance(err, RuntimeError):
        return False
    if err is not None:
        w.viol('iter', f'{what} raised {type(err).__name__}: {err}' + ('' if changed else ' although its keys had not changed'))
        return False
    if changed and not same_keys:
        w.viol('iter', f'{what} {"stopped" if stop else "went on with " + w.sh(act)} although the members had changed since it started')
        r.done = True
        return False
    if changed:
        # Changed and changed back: it may notice or go on, but must not lie.
        r.done = True
    m = src.model
    if stop:
        if len(r.seen) != len(m) and not changed:
            w.viol('iter', f'{what} stopped after {len(r.seen)} of {len(m)} items')
        return False
    with quiet():
        if src.fam == 'set':
            ok = act in m and not any(act == x for x in r.seen)
            r.seen.append(act)
        else:
            items = list(m.items())
            i = len(r.seen)
            if changed:
                ok = True
                if r.how in ('iter', 'keys'):
                    ok = act in m
            elif i >= len(items):
                ok = False
            else:
                k, v = items[i]
                if r.how in ('iter', 'keys'):
                    ok = w.samekey(act, k)
                elif r.how == 'values':
                    ok = w.match(act, v)
                else:
                    ok = type(act) is tuple and len(act) == 2 and w.samekey(act[0], k) and w.match(act[1], v)
            r.seen.append(None)
    if not ok:
        w.viol('iter', f'{what} gave {w.sh(act)} as item {len(r.seen) - 1}; contents {w.mshow(m)}')
        r.done = True
    return not r.done
@op('i.view', 'iter')
def _(w, t, o, a):
    "A dict view is live or refuses; it is never stale."
    te = w.ensure_t(t, 'dict', a[0]) if a[1] % 2 else w.pick('dict', a[0])
    if te is None or zread(te):
        return
    how = ('keys', 'values', 'items')[a[2] % 3]
    v, err = w.call(t, lambda: getattr(te.obj, how)(), None)
    if err is not None:
        w.viol('iter', f'{te.kind}.{how}() raised {type(err).__name__}')
        return
    r = It_()
    r.src, r.how, r.it = te, how, v
    r.kver = getattr(te, 'kver', 0)
    w.its.setdefault(t.id, []).append(r)
@op('i.viewread', 'iter')
def _(w, t, o, a):
    vs = w.its.get(t.id)
    if not vs:
        return
    r = vs[a[0] % len(vs)]
    src = r.src
    if isinstance(src, TE) and not src.alive:
        vs.remove(r)
        return
    act, err = w.call(t, lambda: (list(r.it), len(r.it)), None)
    w.sim.event('iview', t.id, src.kind, r.how, err is not None)
    changed = isinstance(src, TE) and src.kver != r.kver
    if err is not None:
        if not (changed and isinstance(err, RuntimeError)):
            w.viol('iter', f'reading a {r.how} view of a {src.kind} raised {type(err).__name__}: {err}')
        vs.remove(r)
        return
    m = view(w, src)
    exp = list(getattr(m, r.how)())
    with quiet():
        ok = act[1] == len(exp) and len(act[0]) == len(exp) and all(w.samekey(x, y) if r.how == 'keys' else w.match(x, y) if not isinstance(y, tuple) else w.same(x, y) for x, y in zip(act[0], exp))
    if not ok:
        w.viol('iter', f'a {r.how} view of a {src.kind} gives {w.sh(act[0])}; contents {w.mshow(exp)}')


# ======================================================================= lazy
@op('z.force', 'lazy')
def _(w, t, o, a):
    if not w.lzs:
        w.newlz(a[1])
    z = w.lzs[a[0] % len(w.lzs)]
    force_one(w, t, o, z, f'{z!r}()', lambda: z.lazy())
def force_one(w, t, o, z, name, fn, retries=True):
    with quiet():
        was = z.lazy.is_ready()
    w.ready(z, was)
    b0 = w.sim.stats.get('blocked_by.%d' % t.id, 0)
    fault = o.get('f')
    for attempt in range(5):
        n0 = len(z.oks)
        act, err = w.call(t, fn, fault, [z])
        fault = None
        t.fired_kind = None
        w.forced(t, [z], name)
        w.sim.event('force', t.id, z.id, attempt, err is not None)
        if err is None:
            if t.fired is not None:
                w.viol('fault-masked', f'{name}: {t.fired!r} struck inside it but it returned normally')
            w.saw(z, act, name)
            if not w.same(act, z.val):
                w.viol('lazy-value', f'{name} returned {w.sh(act)}')
            if was:
                if t.called:
                    w.viol('lazy-once', f'{name}: the value was ready but a function was called')
                if w.sim.stats.get('blocked_by.%d' % t.id, 0) != b0:
                    w.viol('lazy-ready', f'{name}: the value was ready but the request waited')
            return True
        if z.self_dep:
            if t.fired is not None:
                w.judge_error(t, err, name, True)
            elif not isinstance(err, RuntimeError):
                w.viol('lazy-error', f'{name} (depends on itself) raised {type(err).__name__}')
            return False
        if not w.judge_error(t, err, name, True):
            w.viol('lazy-error', f'{name} raised {type(err).__name__}: {err} although nothing failed')
            return False
        if was:
            if t.lzexc:
                w.viol('lazy-once', f'{name} was ready, yet evaluating it failed in its function')
        if not retries:
            return False
    return False
@op('z.once', 'lazy')
def _(w, t, o, a):
    if not w.lzs:
        w.newlz(a[1])
    z = w.lzs[a[0] % len(w.lzs)]
    force_one(w, t, o, z, f'{z!r}()', lambda: z.lazy(), False)
@op('z.ready', 'lazy')
def _(w, t, o, a):
    if not w.lzs:
        return
    z = w.lzs[a[0] % len(w.lzs)]
    act, err = w.call(t, lambda: z.lazy.is_ready(), None)
    if err is not None:
        w.viol('lazy-ready', f'is_ready raised {type(err).__name__}')
        return
    w.sim.event('ready', t.id, z.id, bool(act))
    w.forced(t, (), f'{z!r}.is_ready()')
    if type(act) is not bool:
        w.viol('lazy-ready', f'is_ready gave {w.sh(act)}')
    # what it said may be old by now: only the direction that cannot age is judged
    if act:
        w.ready(z, True)
@op('z.repr', 'lazy')
def _(w, t, o, a):
    "Showing a lazy, or asking it for its hash, tells its state at most; nothing is evaluated or waited for."
    if not w.lzs:
        return
    z = w.lzs[a[0] % len(w.lzs)]
    f = (repr, str, hash, bool)[a[1] % 4]
    with quiet():
        was = z.lazy.is_ready()
    b0 = w.sim.stats.get('blocked_by.%d' % t.id, 0)
    act, err = w.call(t, lambda: f(z.lazy), None)
    w.sim.event('show', t.id, z.id, err is not None)
    w.forced(t, (), f'{f.__name__}({z!r})')
    if err is not None:
        w.viol('lazy-ready', f'{f.__name__}({z!r}) raised {type(err).__name__}: {err}')
    elif f is repr and type(act) is str:
        if was and 'waiting' in act:
            w.viol('lazy-ready', f'repr({z!r}) says waiting although it is evaluated')
        with quiet():
            now = z.lazy.is_ready()
        if not now and 'ready' in act:
            w.viol('lazy-ready', f'repr({z!r}) says ready although it is not evaluated')
    if w.sim.stats.get('blocked_by.%d' % t.id, 0) != b0:
        w.viol('lazy-ready', f'{f.__name__}({z!r}) waited')
@op('z.unlazy', 'lazy')
def _(w, t, o, a):
    if not w.lzs:
        return
    z = w.lzs[a[0] % len(w.lzs)]
    if a[1] % 4 == 0:
        act, err = w.call(t, lambda: w.pc.unlazy(5), None)
        if err is not None or act != 5:
            w.viol('lazy-value', f'unlazy(5) gave {w.sh(act)}')
        return
    force_one(w, t, o, z, f'unlazy({z!r})', lambda: w.pc.unlazy(z.lazy))
@op('z.via', 'lazy')
def _(w, t, o, a):
    "Read one item through a lazy collection."
    es = [e for e in w.pool if e.kind in ('llist', 'ldict') and e.model]
    if not es:
        return
    e = es[a[0] % len(es)]
    if e.kind == 'llist':
        i = a[1] % len(e.model)
        c = e.model[i]
        fn = lambda: e.obj[i]
    else:
        i = list(e.model)[a[1] % len(e.model)]
        c = e.model[i]
        fn = (lambda: e.obj[i]) if a[2] % 2 else (lambda: e.obj.get(i))
    if isinstance(c, LZ):
        force_one(w, t, o, c, f'{e.kind}[{i!r}] ({c!r})', fn)
    else:
        w.perform(t, o, f'{e.kind}[{i!r}]', fn, lambda: V(c), [e])
@op('z.new', 'lazy')
def _(w, t, o, a):
    if len(w.lzs) < w.cfg.get('maxlz', 24):
        w.newlz(a[0] * 1048573 + a[1])
@op('z.self', 'lazy')
def _(w, t, o, a):
    "A lazy value that asks for itself."
    with quiet():
        z = LZ(w, len(w.lzs), self_dep=True)
    w.lzs.append(z)
    w.byid[id(z.lazy)] = z
    force_one(w, t, o, z, f'{z!r}() (asks for itself)', lambda: z.lazy(), False)
    w.lzs.remove(z) if w.lzs and w.lzs[-1] is z else None
@op('z.bad', 'lazy')
def _(w, t, o, a):
    x = (5, None, 'f', [])[a[0] % 4]
    def refused():
        raise TypeError
    w.perform(t, o, f'lazy({x!r})', lambda: w.pc.lazy(x, *range(a[1] % 3)), refused, cls='lazy-value')
@op('z.readyall', 'lazycoll')
def _(w, t, o, a):
    es = [e for e in w.pool if e.kind in ('llist', 'ldict')]
    ts = [x for x in t.trs if x.alive and x.kind == 'tldict']
    if a[1] % 4 == 0 and ts:
        e = ts[a[0] % len(ts)]
    elif es:
        e = es[a[0] % len(es)]
    else:
        return
    def chk(act):
        for z in zs(e):
            with quiet():
                r = z.lazy.is_ready()
            if not r:
                raise Mismatch(f'left {z!r} unevaluated')
        return Self(e)
    w.perform(t, o, f'{e.kind}.ready_all', lambda: e.obj.ready_all(), lambda: Any(chk), [e], zs(e), cls='lazycoll')
@op('z.peek', 'lazycoll')
def _(w, t, o, a):
    "Everything that must not force."
    es = [e for e in w.pool if e.kind in ('llist', 'ldict')] + [x for x in t.trs if x.alive and x.kind in ('tllist', 'tldict')]
    if not es:
        return
    e = es[a[0] % len(es)]
    c = a[1] % 7
    n = len(e.model)
    keys = list(range(n)) if e.fam == 'list' else list(e.model)
    k = keys[a[2] % n] if n else None
    cell = e.model[k] if n else None
    if c == 0:
        w.perform(t, o, f'str({e.kind})', lambda: str(e.obj), lambda: Any(lambda s: None if type(s) is str else V('a string')), [e], (), cls='lazycoll')
    elif c == 1 and n and e.kind != 'tllist':
        w.perform(t, o, f'{e.kind}.is_lazy', lambda: e.obj.is_lazy(k), lambda: Any(lambda act: check_is_lazy(w, act, cell)), [e], (), cls='lazycoll')
    elif c == 2 and n and e.kind != 'tllist':
        def chk(act):
            if not isinstance(cell, LZ):
                return V(True)
            if act is True:
                w.ready(cell, True)
            elif act is not False:
                raise Mismatch(f'gave {w.sh(act)}')
            return None
        with quiet():
            was = isinstance(cell, LZ) and cell.lazy.is_ready()
        w.perform(t, o, f'{e.kind}.is_ready', lambda: e.obj.is_ready(k), lambda: V(True) if was else Any(chk), [e], (), cls='lazycoll')
    elif c == 3 and n:
        def chk(act):
            if not w.match(act, cell):
                raise Mismatch(f'gave {w.sh(act)}, expected {cell!r}')
        w.perform(t, o, f'{e.kind}.getlazy', lambda: e.obj.getlazy(k), lambda: Any(chk), [e], (), cls='lazycoll')
    elif c == 4:
        nm = {'llist': 'as_plist', 'ldict': 'as_pdict', 'tldict': 'as_tdict'}.get(e.kind)
        if nm:
            k2 = {'llist': 'plist', 'ldict': 'pdict', 'tldict': 'tdict'}[e.kind]
            m = mcopy(e.model)
            w.perform(t, o, f'{e.kind}.{nm}', lambda: getattr(e.obj, nm)(), lambda: (T if k2 in FREEZE else P)(k2, m), [e], (), cls='lazycoll')
    elif c == 5:
        k2 = {'llist': 'plist', 'ldict': 'pdict', 'tldict': 'tdict'}.get(e.kind)
        m = mcopy(e.model)
        if k2:
            w.perform(t, o, f'holdlazy({e.kind})', lambda: w.pc.holdlazy(e.obj), lambda: (T if k2 in FREEZE else P)(k2, m), [e], (), cls='lazycoll')
        else:
            y = (5, 'x', (1,), None)[a[3] % 4]
            if a[4] % 2:
                def refused():
                    raise TypeError
                w.perform(t, o, f'holdlazy({y!r}, True)', lambda: w.pc.holdlazy(y, True), refused, [], (), cls='lazycoll')
            else:
                w.perform(t, o, f'holdlazy({y!r})', lambda: w.pc.holdlazy(y) is y, lambda: V(True), [], (), cls='lazycoll')
    elif c == 6:
        if e.fam == 'dict':
            x = dkey(w, e, a[3])
            w.perform(t, o, f'k in {e.kind}, keys', lambda: (x in e.obj, list(e.obj.keys()), len(e.obj)), lambda: V((x in e.model, list(e.model), n)), [e], (), cls='lazycoll')
        else:
            w.perform(t, o, f'len({e.kind})', lambda: len(e.obj), lambda: V(n), [e], (), cls='lazycoll')
def check_is_lazy(w, act, cell):
    if not isinstance(cell, LZ):
        return V(False)
    if act is False and cell.fixed is not None:
        return None
    return V(True)


# ========================================================= equality and hashes
PKINDS = {'list': ('plist', 'llist'), 'set': ('pset',), 'dict': ('pdict', 'ldict')}
def pick_any(w, t, a, trans=False):
    fam = w.cfg['fams'][a % len(w.cfg['fams'])]
    a //= len(w.cfg['fams'])
    if trans and a % 3 == 0:
        te = w.ensure_t(t, fam, a // 3)
        if te is not None:
            return te
    return w.pick(fam, a // 3)
def twin_build(w, kind, m, a):
    """Build a persistent `kind` with the model contents m along some other history."""
    ctor = w.kinds[kind]
    how = a % 8
    a //= 8
    fam = FAMILY[kind]
    if fam == 'list':
        xs = [w.raw(c) for c in m]
        p = a % (len(xs) + 1)
        if how == 0:
            return ctor(xs)
        if how == 1:
            o = ctor()
            for x in xs[p:]:
                o = o.append(x)
            for x in reversed(xs[:p]):
                o = o.prepend(x)
            return o
        if how == 2:
            t = ctor(xs[:p]).transient()
            t.extend(xs[p:])
            return t.persistent()
        if how == 3:
            return ctor(xs[:p]).extend(xs[p:])
        if how == 4:
            return ctor(xs + [None]).delete(len(xs))
        if how == 5:
            o = ctor([0] + xs)
            return o.delete(0)
        if how == 6:
            o = ctor(xs)
            for i in range(len(xs)):
                o = o.set(i, 5).set(i, xs[i])
            return o
        t = ctor().transient()
        for x in xs[p:]:
            t.append(x)
        for x in reversed(xs[:p]):
            t.prepend(x)
        return t.persistent()
    if fam == 'set':
        xs = sorted(m, key=lambda x: (x.n if type(x) is K else hash(x), str(type(x))))
        if a % 2:
            xs.reverse()
        p = a // 2 % (len(xs) + 1)
        xs = xs[p:] + xs[:p]
        extra = [x for x in (w.tok(a + i) for i in range(3)) if x not in m]
        if how == 0:
            return ctor(xs)
        if how <= 2:
            o = ctor(extra)
            for x in xs:
                o = o.add(x)
            for x in extra:
                o = o.discard(x)
            return o
        if how == 3:
            return ctor(xs[:p]).addall(xs[p:])
        if how == 4:
            return ctor(xs[:p]) | ctor(xs[p:])
        if how == 5:
            return ctor(xs + extra) - ctor(extra)
        t = ctor(extra).transient()
        for x in xs:
            t.add(x)
        for x in extra:
            t.discard(x)
        return t.persistent()
    ps = [(k, w.raw(v)) for k, v in m.items()]
    keyord = a % 3
    if keyord == 1:
        ps.reverse()
    elif keyord == 2 and ps:
        p = a // 3 % len(ps)
        ps = ps[p:] + ps[:p]
    p = a // 7 % (len(ps) + 1)
    extra = [x for x in (w.tok(a + i) for i in range(3)) if x not in m]
    if how == 0:
        return ctor(ps)
    if how <= 2:
        o = ctor([(x, 0) for x in extra])
        for k, v in ps:
            o = o.set(k, v)
        for x in extra:
            o = o.drop(x)
        return o
    if how == 3:
        return ctor(ps[:p]).update(ps[p:])
    if how == 4:
        o = ctor([(k, 0) for k, v in ps])
        for k, v in ps:
            o = o.set(k, v)
        return o
    if how == 5:
        return ctor(ps).delete(ps[0][0]).set(*ps[0]) if ps else ctor()
    t = ctor([(x, 0) for x in extra]).transient()
    for k, v in ps:
        t[k] = v
    for x in extra:
        del t[x]
    return t.persistent()
def twin_model(kind, m, obj, w):
    "Dicts keep the order of their own history."
    if FAMILY[kind] != 'dict':
        return m
    return {k: m[k] for k in obj}
@op('q.twin', 'eq')
def _(w, t, o, a):
    e = pick_any(w, t, a[0])
    if e is None:
        return
    kinds = PKINDS[e.fam] if w.cfg.get('lazy') else PKINDS[e.fam][:1]
    kind = kinds[a[1] % len(kinds)]
    m = view(w, e) if kind != e.kind else mcopy(e.model)
    if kind != e.kind and zs(e) and not zread(e):
        return      # raw lazies in an eager collection are just objects
    if kind in LAZY_KINDS and e.kind in LAZY_KINDS and a[2] % 3 == 0:
        m = view(w, e)
    if len(m) > BIG:
        return
    with quiet():
        try:
            tw = twin_build(w, kind, m, a[3])
            tm = twin_model(kind, m, tw, w)
        except Exception as x:
            w.viol('result', f'building a {kind} raised {type(x).__name__}: {x}')
            return
    d = w.diff(kind, tw, tm)
    if d is not None:
        w.viol('result', f'building an equal {kind}: {d}')
        return
    x = w.adopt(kind, tw, tm)
    compare(w, t, o, e, x, True, a[4])
def compare(w, t, o, x, y, same, a):
    name = f'{x.kind} == {y.kind}'
    f = list(zread(x)) + list(zread(y))
    c = a % 4
    fn = (lambda: (x.obj == y.obj, y.obj == x.obj), lambda: (x.obj != y.obj, y.obj != x.obj),
          lambda: (x.obj == y.obj, x.obj != y.obj), lambda: (y.obj == x.obj, not (x.obj != y.obj)))[c]
    exp = ((same, same), (not same, not same), (same, not same), (same, same))[c]
    w.perform(t, o, name, fn, lambda: V(exp), [x, y], f, cls='eq')
@op('q.eq', 'eq')
def _(w, t, o, a):
    x, y = pick_any(w, t, a[0]), pick_any(w, t, a[1])
    if x is None or y is None:
        return
    if a[2] % 4 == 0:
        # the builtin counterpart
        vw = view(w, x)
        k = a[3] % 4
        with quiet():
            if x.fam == 'list':
                b = [w.raw(c) for c in vw]
                if k == 1 and b:
                    b[a[4] % len(b)] = 'other'
                elif k == 2:
                    b.append(0)
                elif k == 3 and b:
                    b.pop()
                same = len(b) == len(vw) and all(w.match(p, q) for p, q in zip(b, vw))
            elif x.fam == 'set':
                b = set(vw)
                if k == 1 and b:
                    b.pop()
                    b.add('other')
                elif k == 2:
                    b.add('other')
                if a[4] % 2:
                    b = frozenset(b)
                same = b == vw
            else:
                b = {p: w.raw(q) for p, q in vw.items()}
                if k == 1 and b:
                    b[list(b)[a[4] % len(b)]] = 'other'
                elif k == 2:
                    b['other'] = 0
                elif k == 3 and b:
                    v = b.pop(list(b)[0])
                    b['other'] = v
                same = k == 0 or k in (1, 3) and not vw
        c = a[5] % 2
        w.perform(t, o, f'{x.kind} == {type(b).__name__}', (lambda: (x.obj == b, b == x.obj)) if c else (lambda: (x.obj != b, b != x.obj)),
                  lambda: V((same, same) if c else (not same, not same)), [x], zread(x), cls='eq')
        return
    with quiet():
        same = x.fam == y.fam and view(w, x) == view(w, y)
    compare(w, t, o, x, y, same, a[4])
@op('q.lookup', 'eq')
def _(w, t, o, a):
    "A collection as a key: only an equal one finds it."
    x, y = pick_any(w, t, a[0]), pick_any(w, t, a[1])
    if x is None or y is None:
        return
    with quiet():
        same = x.fam == y.fam and view(w, x) == view(w, y)
    f = list(zread(x)) + list(zread(y))
    c = a[2] % 4
    fn = (lambda: y.obj in {x.obj: 1}, lambda: y.obj in w.kinds['pset']([x.obj]),
          lambda: w.kinds['pdict']([(x.obj, 7)]).get(y.obj) == 7, lambda: len(w.kinds['pset']([x.obj]).add(y.obj)) == 1)[c]
    w.perform(t, o, f'finding a {x.kind} by a {y.kind}', fn, lambda: V(same), [x, y], f, cls='eq')
@op('q.teq', 'eq')
def _(w, t, o, a):
    fam = w.cfg['fams'][a[0] % len(w.cfg['fams'])]
    x = w.ensure_t(t, fam, a[1])
    if x is None:
        return
    y = (w.pick(fam, a[2]) if a[3] % 2 else w.pick_t(t, fam, a[2])) or x
    with quiet():
        same = view(w, x) == view(w, y)
    compare(w, t, o, x, y, same, a[4])


# ============================================================ pickles and disk
def plainm(w, e):
    m = view(w, e)
    cs = m.values() if isinstance(m, dict) else m
    return None if any(isinstance(c, LZ) for c in cs) else mcopy(m)
def pk_pick(w, t, a, trans):
    fam = w.cfg['fams'][a[0] % len(w.cfg['fams'])]
    e = w.ensure_t(t, fam, a[1]) if trans else w.pick(fam, a[1])
    if e is None or plainm(w, e) is None:
        return None
    return e
def dump(w, t, o, a, e):
    proto = a[2] % (pickle.HIGHEST_PROTOCOL + 1)
    m = plainm(w, e)
    def chk(act):
        if type(act) is not bytes:
            raise Mismatch(f'gave {w.sh(act)}')
        with quiet():
            im = [inert(w, x) for x in (m.items() if isinstance(m, dict) else m)]
        rec = {'kind': e.kind, 'model': im, 'data': act, 'proto': proto, 'torn': False}
        r = a[3] % 12
        if r == 0:
            w.sim.stat('fault_lost_write')      # the machine stopped before the write
            return None
        if r <= 2:
            rec['data'] = act[:a[4] % len(act)]
            rec['torn'] = True
            w.sim.stat('fault_torn_write')
        if len(w.disk) >= 12:
            w.disk[a[5] % 12] = rec
        else:
            w.disk.append(rec)
        w.sim.event('disk', e.kind, proto, rec['torn'])
        return None
    w.perform(t, o, f'pickle.dumps({e.kind}, {proto})', lambda: pickle.dumps(e.obj, proto), lambda: Any(chk), [e], zs(e), cls='pickle')
    if isinstance(e, Entry):
        w.audit(e, 'changed', ' by pickling it')
    elif e.alive:
        w.audit_t(e, 'pickle', ' changed by pickling it')
@op('k.dump', 'pickle')
def _(w, t, o, a):
    e = pk_pick(w, t, a, False)
    if e is not None:
        dump(w, t, o, a, e)
@op('k.tdump', 'pickle')
def _(w, t, o, a):
    e = pk_pick(w, t, a, True)
    if e is not None:
        dump(w, t, o, a, e)
@op('k.load', 'pickle')
def _(w, t, o, a):
    if not w.disk:
        return
    rec = w.disk[a[0] % len(w.disk)]
    kind, m = rec['kind'], rec['model']
    if rec['torn']:
        act, err = w.call(t, lambda: pickle.loads(rec['data']), None)
        w.sim.event('tornload', t.id, err is None)
        if err is None:
            w.viol('pickle', f'a pickle cut to {len(rec["data"])} bytes loaded as {w.sh(act)}')
        return
    with quiet():
        m = list(map(reborn, m))
        m = set(m) if FAMILY[kind] == 'set' else dict(m) if FAMILY[kind] == 'dict' else m
    # Containers hash anew after a restart: rebuild the model under the present salt.
    def chk(act):
        if type(act) not in w.types[kind]:
            raise Mismatch(f'gave a {type(act).__name__}')
        loaded_checks(w, kind, act, m)
        return (T if kind in FREEZE else P)(kind, m)
    w.perform(t, o, f'pickle.loads({kind}, protocol {rec["proto"]})', lambda: pickle.loads(rec['data']), lambda: Any(chk), cls='pickle')
class Inert:
    "An element on the simulated disk: nothing of a process, such as a cached hash, is kept."
    __slots__ = ('c', 'xs')
    def __init__(self, c, xs):
        self.c, self.xs = c, xs
def inert(w, x):
    f = lambda y: inert(w, y)
    pc, c = w.pc, type(x)
    if c is tuple or c is frozenset or c is pc.plist or c is pc.pset:
        return Inert(c, [f(y) for y in x])
    if c is pc.pdict:
        return Inert(c, [Inert(tuple, [f(k), f(v)]) for k, v in x.items()])
    return x
def reborn(x):
    return x.c(map(reborn, x.xs)) if type(x) is Inert else x
def loaded_checks(w, kind, act, m):
    "A loaded collection equals, and hashes like, one built now from the same items."
    try:
        fresh = w.kinds[kind](list(m.items()) if isinstance(m, dict) else list(m))
        if not (act == fresh and fresh == act):
            raise Mismatch(f'gave {w.show(kind, act)}, not equal to one built from the same items')
        if kind not in FREEZE and hash(act) != hash(fresh):
            raise Mismatch(f'gave a {kind} whose hash is not that of one built from the same items')
    except Mismatch:
        raise
    except Exception as e:
        raise Mismatch(f'gave a {kind} on which == or hash raised {type(e).__name__}: {e}')
@op('k.copy', 'pickle')
def _(w, t, o, a):
    e = pk_pick(w, t, a, a[2] % 2)
    if e is None:
        return
    fn = copy.copy if a[3] % 2 else copy.deepcopy
    m = plainm(w, e)
    kind = e.kind
    def chk(act):
        if act is e.obj and kind not in FREEZE:
            return None
        if type(act) not in w.types[kind]:
            raise Mismatch(f'gave a {type(act).__name__}')
        d = w.diff(kind, act, m)
        if d is not None and kind in LAZY_KINDS and fn is copy.copy and w.diff(kind, act, e.model) is None:
            return (T if kind in FREEZE else P)(kind, e.model)
        if d is None:
            loaded_checks(w, kind, act, m)
        return (T if kind in FREEZE else P)(kind, m)
    w.perform(t, o, f'{fn.__name__}({kind})', lambda: fn(e.obj), lambda: Any(chk), [e], zs(e), cls='pickle')
