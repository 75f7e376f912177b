"""Collections handed to Python's own constructs: unpacking, patterns, builtin
containers and functions.  Each is answered as with the builtin collection."""
import collections, itertools, operator
from .world import quiet, V, P, T, It, Bag, LAZY_KINDS
from .ops import op, view, zread, dkey, present, stok

END = ('end',)

def star(x):
    a, *b = x
    return [a] + b
def star2(x):
    a, *b, c = x
    return [a] + b + [c]
def seqmatch(x):
    match x:
        case []:
            return 0
        case [a]:
            return [a]
        case [a, b]:
            return [a, b]
        case [a, *b, c]:
            return [a, c, len(b)]
def mapmatch(x, k):
    match x:
        case {'k1': v, **rest}:
            return (v, len(rest))
        case {}:
            return 'none'
    return None
def twice(x):
    return [y for p in zip(x, x) for y in p]
def split(x):
    it = iter(x)
    a = next(it, END)
    return [a] + list(it)
def extend(x):
    r = [0]
    r.extend(x)
    return r
def kwargs(**kw):
    return kw

def common(x):
    """Name -> function giving a list, in iteration order, of the items of x."""
    return {
        '[*x]': lambda x: [*x],
        'tuple(x)': lambda x: list(tuple(x)),
        'star': star,
        'star2': star2,
        'zip(x, x)': twice,
        'sorted': lambda x: sorted(x, key=lambda _: 0),
        'first': lambda x: [max(x, key=lambda _: 0)],
        'split': split,
        'enumerate': lambda x: [y for p in enumerate(x) for y in p],
        'deque': lambda x: list(collections.deque(x, 3)),
        'islice': lambda x: list(itertools.islice(x, 1, 5, 2)),
        'map': lambda x: list(map(lambda y: y, x)),
        'extend': extend,
        'f(*x)': lambda x: list((lambda *a: a)(*x)),
        'call_iter': lambda x: list(x.__iter__()),
    }
NAMES = sorted(common(None))

def proto(w, t, o, a, e, cls):
    f = zread(e)
    c = a[1] % 8
    x = e.obj
    if c == 0:
        w.perform(t, o, f'bool({e.kind})', lambda: bool(x), lambda: V(bool(e.model)), [e], cls=cls)
        return
    if e.fam == 'dict' and c <= 4:
        k = dkey(w, e, a[2])
        nm, fn = (('{**x}', lambda d: {**d}), ('dict(x)', dict), ('dict(items)', lambda d: dict(d.items())),
                  ('dict(zip)', lambda d: dict(zip(d.keys(), d.values()))), ('update', lambda d: operator.ior({}, dict(d))),
                  ('f(**x)', lambda d: kwargs(**d)), ('chain', lambda d: dict(collections.ChainMap({}, d))),
                  ('itemgetter', lambda d: {k: operator.itemgetter(k)(d)}))[a[3] % 8]
        if nm == 'f(**x)' and not all(type(k) is str for k in e.model):
            nm, fn = 'match', lambda d: mapmatch(d, k)
        if o.get('f') and ('**' in nm or nm == 'match'):
            nm, fn = 'dict(x)', dict     # the interpreter turns errors of other kinds into TypeError
        if nm == 'chain' and e.model:
            nm, fn = 'dict(x)', dict
        def exp():
            r = fn(view(w, e))
            return It([y for p in r.items() for y in p]) if isinstance(r, dict) else V(r)
        def act():
            r = fn(x)
            return [y for p in r.items() for y in p] if isinstance(r, dict) else r
        w.perform(t, o, f'{nm} of {e.kind}', act, exp, [e], f, cls=cls)
        return
    if e.fam == 'list' and c == 1:
        w.perform(t, o, f'match {e.kind}', lambda: seqmatch(x), lambda: V(seqmatch(view(w, e))), [e], f, cls=cls)
        return
    if e.fam == 'set' and c <= 2:
        with quiet():
            y = {stok(w, e, a[2] + 5 * i) for i in range(a[3] % 5)}
        nm = ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint')[a[4] % 7]
        b = (set, frozenset)[a[4] // 7 % 2](y)
        def exp():
            r = getattr(b, nm)(set(e.model))
            return V(r) if isinstance(r, bool) else Bag(list(r))
        def act():
            r = getattr(b, nm)(x)
            return r if isinstance(r, bool) else list(r)
        w.perform(t, o, f'set.{nm}({e.kind})', act, exp, [e], cls=cls)
        return
    nm = NAMES[a[2] % len(NAMES)]
    fn = common(None)[nm]
    if e.fam == 'set':
        if nm in ('deque', 'islice', 'enumerate', 'first', 'zip(x, x)'):
            nm, fn = '[*x]', lambda x: [*x]
        w.perform(t, o, f'{nm} of {e.kind}', lambda: fn(x), lambda: Bag(fn(set(e.model))), [e], cls=cls)
    else:
        w.perform(t, o, f'{nm} of {e.kind}', lambda: fn(x), lambda: It(fn(list(view(w, e)))), [e], f if e.fam == 'list' else (), cls=cls)

@op('l.proto', 'list', 'read')
def _(w, t, o, a):
    proto(w, t, o, a, w.pick('list', a[0]), 'result')
@op('s.proto', 'set', 'read')
def _(w, t, o, a):
    proto(w, t, o, a, w.pick('set', a[0]), 'result')
@op('d.proto', 'dict', 'read')
def _(w, t, o, a):
    proto(w, t, o, a, w.pick('dict', a[0]), 'result')
for _g, _f in (('tl', 'list'), ('ts', 'set'), ('td', 'dict')):
    @op(f'{_g}.proto', 't' + _f, 'read')
    def _(w, t, o, a, f=_f):
        te = w.ensure_t(t, f, a[0])
        if te is not None:
            proto(w, t, o, a, te, 'tresult')
