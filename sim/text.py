"""Renderings of collections, within histories and races (C17)."""
import json, re
from . import core, world
from .world import K, LZ, quiet, Any, V, P, T, LAZY_KINDS
from .ops import op, view, zs, zread, Mismatch

LIMIT = 60      # documented, not counting the delimiters
LAZY = '<lazy>'

class R:
    "A client element whose rendering is a call-back of a chosen length."
    __slots__ = ('n', 'l')
    def __init__(self, n, l):
        self.n, self.l = n, l
    def __hash__(self):
        return hash(self.n * 1000003 + 7)
    def __eq__(self, o):
        return self.n == o.n if type(o) is R else NotImplemented
    def __repr__(self):
        if core.CUR is not None:
            core.S.callback('repr')
        s = f'r{self.n}'
        return s + '_' * (self.l - len(s))
    def __str__(self):
        return f'STR{self.n}'

def pick(w, t, a):
    fams = w.cfg['fams']
    f = fams[a % len(fams)]
    a //= len(fams)
    if a % 3 == 0:
        te = w.pick_t(t, f, a // 3)
        if te is not None:
            return te
    return w.pick(f, a // 3)

def parts(w, e, short):
    """The renderings of the items in the collection's own order; each a list of the texts it may be."""
    def one(x):
        if isinstance(x, w.lazyt):
            if short:
                return [LAZY] if e.kind in LAZY_KINDS else [f'lazy(<{id(x)}>: ready)', f'lazy(<{id(x)}>: waiting)']
            return [f'lazy(<{id(x)}>: ready)', f'lazy(<{id(x)}>: waiting)']
        return [repr(x)]
    with quiet():
        xs = w.contents(e.kind, e.obj)
        if e.fam == 'dict':
            return [[f'{a}: {b}' for a in one(k) for b in one(v)] for k, v in xs]
        return [one(x) for x in xs]

def walk(s, ps):
    "Does s spell the parts, joined?  Returns how far it got: (parts matched, characters used)."
    i, n = 0, 0
    for k, alts in enumerate(ps):
        j = i
        if k:
            if not s.startswith(', ', j):
                return n, i
            j += 2
        for a in alts:
            if s.startswith(a, j):
                i = j + len(a)
                n += 1
                break
        else:
            return n, i
    return n, i

def judge(s, ps, short):
    if type(s) is not str:
        return 'is not a string'
    if len(s) < 4:
        return f'is only {s!r}'
    b = s[2:-2]
    lo = sum(min(map(len, p)) for p in ps) + 2 * max(0, len(ps) - 1)
    n, i = walk(b, ps)
    if n == len(ps) and i == len(b):
        if short and len(b) > LIMIT:
            return f'shows {len(b)} characters, more than {LIMIT}'
        return None
    if not short:
        return f'does not list every item: {b!r}, items {ps}'
    if lo <= LIMIT and max(map(len, [b])) >= 0 and all(len(p) == 1 for p in ps):
        return f'leaves items out although they fit: {b!r}, items {ps}'
    if not b.endswith('...'):
        return f'is neither complete nor ends in an ellipsis: {b!r}'
    if len(b) > LIMIT:
        return f'shows {len(b)} characters, more than {LIMIT}: {b!r}'
    head = b[:-3]
    if head:
        if not head.endswith(', '):
            return f'cuts an item: {b!r}'
        n, i = walk(head[:-2], ps)
        if i != len(head) - 2:
            return f'shows something else than the first items: {b!r}, items {ps}'
    elif min(map(len, ps[0])) <= LIMIT - 20 and max(map(len, ps[0])) <= LIMIT - 20:
        return f'shows no item although the first one fits: {b!r}'
    return None

@op('x.str', 'text')
def _(w, t, o, a):
    e = pick(w, t, a[0])
    if e is None:
        return
    short = a[1] % 2 == 0
    ps = parts(w, e, short)
    f = str if short else repr
    w.perform(t, o, f'{f.__name__}({e.kind})', lambda: f(e.obj),
              lambda: Any(lambda s: (lambda m: None if m is None else V(_Say(m)))(judge(s, ps, short))), [e], (), cls='text')
class _Say:
    "Compares unequal to everything; shows why."
    def __init__(self, m):
        self.m = m
    def __repr__(self):
        return f'[{self.m}]'

@op('x.fmt', 'text')
def _(w, t, o, a):
    e = pick(w, t, a[0])
    if e is None:
        return
    ps = parts(w, e, True)
    f, nm = [(lambda: f'{e.obj}', 'f-string'), (lambda: '%s' % (e.obj,), '%s'), (lambda: format(e.obj), 'format()')][a[1] % 3]
    w.perform(t, o, f'{nm} of a {e.kind}', f,
              lambda: Any(lambda s: (lambda m: None if m is None else V(_Say(m)))(judge(s, ps, True))), [e], (), cls='text')

@op('x.view', 'text')
def _(w, t, o, a):
    "Views of dicts: the keys they are of, in order; nothing is evaluated."
    e = pick(w, t, a[0])
    if e is None or e.fam != 'dict' or w.cfg.get('abc') == 'base':
        return
    vn = ('keys', 'values', 'items')[a[1] % 3]
    f = (repr, str)[a[2] % 2]
    with quiet():
        ks = [repr(k) for k in e.obj] if vn == 'keys' else []
    def judge_view(s):
        if type(s) is not str:
            return V(_Say('is not a string'))
        i = 0
        for k in ks:
            i = s.find(k, i)
            if i < 0:
                return V(_Say(f'does not show every key in order: {s!r}, keys {ks}'))
            i += len(k)
    w.perform(t, o, f'{f.__name__}({e.kind}.{vn}())', lambda: f(getattr(e.obj, vn)()), lambda: Any(judge_view), [e], (), cls='text')

@op('x.json', 'text')
def _(w, t, o, a):
    e = pick(w, t, a[0])
    if e is None or e.fam == 'set':
        return
    def norm(s):
        return json.loads(s, object_pairs_hook=lambda ps: ('obj', sorted(map(repr, ps))))
    def exp():
        # Which of several equal keys and values is kept (1, True, 1.0) is not judged here.
        c = w.contents(e.kind, e.obj)
        val = lambda x: w.deref(w.cellof(x)) if isinstance(x, w.lazyt) and e.kind in LAZY_KINDS else x
        v = [val(x) for x in c] if e.fam == 'list' else {k: val(x) for k, x in c}
        want = norm(json.dumps(v))
        def ok(s):
            try:
                got = norm(s)
            except Exception as x:
                return V(_Say(f'is not JSON: {x}'))
            return None if got == want else V(_Say(f'expected the JSON of {v!r}'))
        return Any(ok)
    w.perform(t, o, f'{e.kind}.__json__', lambda: e.obj.__json__(), exp, [e], zs(e), cls='text')

@op('x.mk', 'text')
def _(w, t, o, a):
    "A collection whose rendering is about as long as the limit."
    fams = w.cfg['fams']
    fam = fams[a[0] % len(fams)]
    a0 = a[0] // len(fams)
    n = 1 + a[1] % 7
    total = LIMIT + (a[2] % 17) - 10
    cells = []
    left = total - 2 * (n - 1)
    for i in range(n):
        l = max(3, left // (n - i) + ((a[3] >> i) % 5) - 2) if i < n - 1 else max(3, left)
        left -= l
        if (a[4] >> i) % 3 == 0 and l > 4:
            cells.append(str(i) + 's' * (l - 3))        # its repr has two quotes
        elif (a[4] >> i) % 7 == 1:
            cells.append(10 ** (l - 1) + i)
        else:
            cells.append(R(i + a[5] % 100, l))
    lazyk = w.cfg.get('lazy') and a0 % 2 and fam != 'set'
    kind = ('l' if lazyk else 'p') + fam
    if fam == 'list':
        if lazyk and w.lzs:
            cells[a[5] % n] = w.lzs[a[5] % len(w.lzs)]
        m = cells
        raw = [w.raw(c) for c in cells]
    elif fam == 'set':
        m, raw = set(cells), cells
    else:
        m = {}
        for i, c in enumerate(cells):
            v = i if (a[5] >> i) % 2 or not (lazyk and w.lzs) else w.lzs[(a[5] >> i) % len(w.lzs)]
            if (a[3] >> i) % 3 == 0:
                c, v = i, c
            m[c] = v
        raw = {k: w.raw(v) for k, v in m.items()}
    w.perform(t, o, f'{kind}(items)', lambda: w.kinds[kind](raw), lambda: P(kind, m), cls='result')
    if a0 % 3 == 0 and w.pool and w.pool[-1].kind == kind:
        e = w.pool[-1]
        w.perform(t, {}, f'{kind}.transient', lambda: e.obj.transient(), lambda: T(world.THAW[kind], world.mcopy(e.model)), [e], (), cls='freeze')
