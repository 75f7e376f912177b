"""The simulated world: keys, lazy values, the shared pool of persistent values,
per-task transients and iterators, the reference models, and the outcome rules.

Reference models are the builtin list / set / dict, computed under `quiet()` so
that they draw no scheduling decision and trip no fault.  Only the public API of
the package is used; nothing here looks at its fields.
"""
import itertools, weakref, _thread
from . import core
from .core import Violation, HarnessError, FAULTS, InjectedFault, InjectedExit, SimInterrupt, SimMemoryError


class quiet:
    """Run package or model code invisibly to the scheduler and the faults."""
    __slots__ = ('cur',)
    def __enter__(self):
        self.cur = core.CUR
        core.CUR = None
        core.QN = 0
    def __exit__(self, *a):
        core.CUR = self.cur


# ---------------------------------------------------------------------- keys
class HashFn:
    mode = 'good'
    salt = 0
def khash(n):
    m, s = HashFn.mode, HashFn.salt
    if m == 'good':
        return ((n + 1) * 2654435761 + s * 40503) & 0x1fffffffffffffff
    if m == 'collide':
        return (n % 3) * 7 + s
    if m == 'const':
        return 42 + s
    if m == 'pairs':
        return (n // 2) * 1000003 + s
    if m == 'small':
        return n - 4 + s
    if m == 'neg':
        return -(n * 1000003) - 1 - s
    if m == 'deep':
        return (((n * 5 + s) & 15) << 59) | 7
    if m == 'mixed':
        return (n // 3) * 32 + 5 + s
    if m == 'chains':       # good, but every key has company
        return ((n & 0xffff) // 8 * 2654435761 + s * 40503) & 0x1fffffffffffffff
    raise HarnessError('hash mode')
HEAVY = ('collide', 'const', 'deep')     # long chains
HASH_MODES = ('good', 'collide', 'const', 'pairs', 'small', 'neg', 'deep', 'mixed')


BORN = None     # weak references to every element, when the run looks for leaks
class W:
    "An argument of a lazy function, to be forgotten with it."
    __slots__ = ('id', '__weakref__')
    def __init__(self, id):
        self.id = id


class K:
    """A client key or element: its hash, equality and order are call-backs."""
    __slots__ = ('n', '__weakref__')
    def __init__(self, n):
        self.n = n
        if BORN is not None:
            BORN.append(weakref.ref(self))
    def __hash__(self):
        if core.CUR is not None:
            core.S.callback('hash')
        return khash(self.n)
    def __eq__(self, o):
        if core.CUR is not None:
            core.S.callback('eq')
        if type(o) is not K:
            return NotImplemented
        return self.n == o.n
    def __lt__(self, o):
        if core.CUR is not None:
            core.S.callback('lt')
        if not isinstance(o, K):
            return NotImplemented
        return self.n < o.n
    def __gt__(self, o):
        if core.CUR is not None:
            core.S.callback('lt')
        if not isinstance(o, K):
            return NotImplemented
        return self.n > o.n
    def __le__(self, o):
        if core.CUR is not None:
            core.S.callback('lt')
        if not isinstance(o, K):
            return NotImplemented
        return self.n <= o.n
    def __ge__(self, o):
        if core.CUR is not None:
            core.S.callback('lt')
        if not isinstance(o, K):
            return NotImplemented
        return self.n >= o.n
    def __repr__(self):
        return f'K{self.n}'
    def __reduce__(self):
        return (K, (self.n,))

class NE(K):
    "An element equal to nothing, not even to itself (as a NaN is)."
    __slots__ = ()
    def __hash__(self):
        if core.CUR is not None:
            core.S.callback('hash')
        return khash(self.n)
    def __eq__(self, o):
        if core.CUR is not None:
            core.S.callback('eq')
        return False
    # Nor is it before or after anything.
    def _no(self, o):
        if core.CUR is not None:
            core.S.callback('lt')
        return False
    __lt__ = __le__ = __gt__ = __ge__ = _no
    def __repr__(self):
        return f'NE{self.n}'
    def __copy__(self):
        return self
    def __deepcopy__(self, memo):
        return self


class LV:
    """The value of a lazy cell; a fresh object per evaluation."""
    __slots__ = ('n', '__weakref__')
    def __init__(self, n):
        self.n = n
        if BORN is not None:
            BORN.append(weakref.ref(self))
    def __eq__(self, o):
        return self.n == o.n if type(o) is LV else NotImplemented
    def __lt__(self, o):
        return self.n < o.n if type(o) is LV else NotImplemented
    def __le__(self, o):
        return self.n <= o.n if type(o) is LV else NotImplemented
    def __gt__(self, o):
        return self.n > o.n if type(o) is LV else NotImplemented
    def __ge__(self, o):
        return self.n >= o.n if type(o) is LV else NotImplemented
    def __hash__(self):
        return 7919 * self.n + 11
    def __repr__(self):
        return f'V{self.n}'
    def __reduce__(self):
        return (LV, (self.n,))


def elsewhere(cls, args, kw):
    """`cls(*args, **kw)` on a stack of its own: a lazy keeps the stack it was made on."""
    out, done = [], core._raw_lock()
    def make():
        out.append(cls(*args, **kw))
        done.release()
    done.acquire()
    _thread.start_new_thread(make, ())
    done.acquire()
    return out.pop()

KWNAMES = ('n', 'self', 'cls', 'fn', 'args', 'kw', 'func')
class LZ:
    """A lazy cell: the `lazy` object under test plus everything known of it."""
    __slots__ = ('w', 'id', 'lazy', 'val', 'fails', 'naps', 'deps', 'via', 'self_dep',
                 'calls', 'oks', 'running', 'fixed', 'seen_ready', 'failures', 'depth', 'arg')
    def __init__(self, w, id, fails=(), naps=0.0, deps=(), via=None, self_dep=False):
        self.w = w
        self.id = id
        self.val = LV(id)
        self.fails = list(fails)
        self.naps = naps
        self.deps = list(deps)
        self.via = via
        self.self_dep = self_dep
        self.calls = 0
        self.oks = []            # objects returned by the function
        self.running = None      # task inside the function
        self.fixed = None        # [object] once some evaluation returned it
        self.seen_ready = False
        self.failures = 0
        self.depth = 0
        self.arg = None
        if BORN is not None:
            x = W(id)
            self.arg = weakref.ref(x)
            self.lazy = elsewhere(w.pc.lazy, (self.fn, id, x), {}) if id % 2 else elsewhere(w.pc.lazy, (self.fn,), {'n': id, 'arg': x})
        else:
            self.lazy = w.pc.lazy(self.fn, id) if id % 2 else w.pc.lazy(self.fn, **{KWNAMES[id // 2 % len(KWNAMES)]: id})
    def __repr__(self):
        return f'LZ{self.id}'
    def fn(*args, **kw):
        self, n = args[0], (*args[1:], *kw.values())[0]
        w, sim = self.w, self.w.sim
        me = core.CUR
        who = me.id if me is not None else 'main'
        if n != self.id:
            w.viol('lazy-once', f'{self!r}: function got the wrong arguments')
        if me is not None:
            me.called.append(self)
            sim.event('fn', who, self.id, self.calls)
            sim.stat('lazy_calls')
        self.calls += 1
        if self.fixed is not None:
            w.viol('lazy-once', f'{self!r}: function called again after an evaluation had returned (by task{who})')
        if self.seen_ready:
            w.viol('lazy-once', f'{self!r}: function called although the value was ready (by task{who})')
        prev = self.running
        if prev is not None and prev is not me:
            w.viol('lazy-once', f'{self!r}: function called by task{who} while task{prev.id} is evaluating it')
        self.running = me
        try:
            with _pt('cbp'):
                pass
            if self.self_dep:
                self.depth += 1
                try:
                    if self.depth > 40:
                        exc = RecursionError('stands in for the interpreter limit')
                        if me is not None:
                            me.lzexc.append(exc)
                        raise exc
                    return self.lazy()
                finally:
                    self.depth -= 1
            for d in self.deps:
                d.read()
                sim.point('cbp')
            if self.naps and me is not None:
                sim.sleep(self.naps)
            i = self.calls - 1
            if i < len(self.fails) and self.fails[i] and me is not None and not w.fault_free:
                kind = self.fails[i]
                self.failures += 1
                x = self.id * 7 + i * 3
                exc = {'exc': core.RAISE[x % len(core.RAISE)], 'mem': SimMemoryError, 'exit': core.EXIT[x % len(core.EXIT)],
                       'intr': SimInterrupt}[kind](f'{self!r} attempt {i}')
                me.lzexc.append(exc)
                if BORN is not None:
                    BORN.append(weakref.ref(exc))
                sim.stat('fault_fn_' + kind)
                sim.event('fnfail', who, self.id, i, kind)
                raise exc
            if me is not None and (me.fault is not None or me.visit is not None):
                sim.callback('fn')
            r = LV(self.id)
            self.oks.append(r)
            return r
        finally:
            self.running = prev
    def read(self):
        """Force this cell from inside another cell's function."""
        if self.via is not None:
            obj, key = self.via
            r = obj[key]
        else:
            r = self.lazy()
        self.w.saw(self, r, 'dependency')
        return r


class _pt:
    __slots__ = ('k',)
    def __init__(self, k):
        self.k = k
    def __enter__(self):
        if core.CUR is not None:
            core.S.point(self.k)
    def __exit__(self, *a):
        pass


def closure(cells):
    out, todo = set(), [c for c in cells if isinstance(c, LZ)]
    while todo:
        c = todo.pop()
        if c.id not in out:
            out.add(c.id)
            todo.extend(c.deps)
    return out


# ------------------------------------------------------------------- results
def V(x): return ('v', x)
def P(kind, m): return ('p', kind, m)
def T(kind, m): return ('t', kind, m)
def Tup(*r): return ('tup', r)
def Self(e): return ('self', e)
def Any(fn): return ('any', fn)
def It(l): return ('it', l)
def Bag(l): return ('bag', l)

FAMILY = {'plist': 'list', 'llist': 'list', 'tlist': 'list', 'tllist': 'list',
          'pset': 'set', 'tset': 'set',
          'pdict': 'dict', 'ldict': 'dict', 'tdict': 'dict', 'tldict': 'dict'}
LAZY_KINDS = ('llist', 'ldict', 'tllist', 'tldict')
THAW = {'plist': 'tlist', 'llist': 'tllist', 'pset': 'tset', 'pdict': 'tdict', 'ldict': 'tldict'}
FREEZE = {v: k for k, v in THAW.items()}


class Entry:
    __slots__ = ('kind', 'obj', 'model', 'no', 'hash', 'age')
    def __init__(self, kind, obj, model, no):
        self.kind, self.obj, self.model, self.no = kind, obj, model, no
        self.hash = None
        self.age = 0
    @property
    def fam(self):
        return FAMILY[self.kind]


class TE:
    __slots__ = ('kind', 'obj', 'model', 'no', 'alive', 'kver', 'task')
    def __init__(self, kind, obj, model, no, task):
        self.kind, self.obj, self.model, self.no = kind, obj, model, no
        self.alive = True
        self.kver = 0
        self.task = task
    @property
    def fam(self):
        return FAMILY[self.kind]


class Mismatch(Exception):
    pass


def mcopy(m):
    return dict(m) if isinstance(m, dict) else set(m) if isinstance(m, set) else list(m)


def chain(err):
    "Every exception reachable through cause and context."
    out, todo = [], [err]
    while todo:
        e = todo.pop()
        if e is None or any(e is x for x in out):
            continue
        out.append(e)
        todo.append(e.__cause__)
        todo.append(e.__context__)
        if len(out) > 4000:
            break
    return out


class World:
    def __init__(self, sim, pc, cfg, relevant):
        self.sim = sim
        self.pc = pc
        self.cfg = cfg
        self.relevant = relevant
        self.pool = []
        self.tes = []
        self.lzs = []
        self.byid = {}
        self.kinds = {k: getattr(pc, k) for k in FAMILY}
        self.nes = [NE(100 + i) for i in range(3)]
        # Keys of sets and dicts may be kept in any of several equal forms, and end up in lists.
        self.strict = cfg['fams'] in (['list'], ['dict']) and 'pickle' not in relevant
        self.types = {k: (c,) for k, c in self.kinds.items()}
        self.fault_free = False
        self.lazyt = pc.lazy
        self.no = 0
        self.held_errors = []
        self.disk = []
        self.its = {}
        self.maxpool = cfg.get('maxpool', 48)
        HashFn.mode = cfg.get('hash', 'good')
        HashFn.salt = cfg.get('salt', 0)

    # -- violations --------------------------------------------------------
    def viol(self, cls, msg):
        if cls in self.relevant:
            raise Violation(cls, msg)
        self.sim.stat('foreign_' + cls)

    # -- tokens ------------------------------------------------------------
    def tok(self, a, order=False):
        mode = self.cfg.get('tok', 'int')
        nk = self.cfg.get('nkeys', 12)
        if mode == 'nest':
            return self.nest(a % nk, order)
        if mode == 'mix':
            mode = ('int', 'K', 'str')[a % 3]
            a //= 3
        if mode == 'K':
            if self.cfg.get('odd') and a % 6 == 1:
                return self.nes[a // 6 % 3]
            return K(a % nk)
        if mode == 'str':
            return f'k{a % nk}'
        if self.cfg.get('special') and a % 5 == 0:
            sp = (0, -1, -2, 2**61 - 1, -(2**61 - 1), 2**61, -2**61, 2**61 - 2, 2**63 - 1, -2**63,
                  2**64, True, 1.0, 0.5, 31, 32, 1024)
            return sp[(a // 5) % len(sp)]
        return a % nk
    def nest(self, n, order):
        """A collection as an element.  Sets are only partly ordered, so lists,
        which are compared by order, hold none."""
        with quiet():
            pc, c = self.pc, n % 7
            if c == 0:
                return (n, n + 1)
            if c == 1:
                return pc.plist([K(n), n])
            if c == 2:
                return (n,) if order else frozenset({n})
            if c == 3:
                return pc.plist() if n == 3 else pc.plist([(n, 3)])
            if c == 4:
                return 'ab' if order else pc.pset([K(n)])
            if c == 5:
                return ('x', K(n), pc.plist([n])) if order else pc.pdict({K(n): n})
            return K(n)
    def cell(self, a, kind):
        """An element of a list or a value of a dict of the given kind."""
        if kind in LAZY_KINDS or self.cfg.get('rawlazy') and a % 7 == 0:
            p = self.cfg.get('plazy', 50)
            if a % 100 < p:
                return self.lz(a // 100)
        if a % 11 == 0:
            return None
        return self.tok(a // 11, FAMILY[kind] == 'list')
    def lz(self, a):
        n = len(self.lzs)
        if n and (a % 3 == 0 or n >= self.cfg.get('maxlz', 24)):
            return self.lzs[(a // 3) % n]
        return self.newlz(a // 3)
    def newlz(self, a, after=None):
        c = self.cfg
        fails, naps, deps = [], 0.0, []
        pf = c.get('pfail', 0)
        kinds = c.get('failkinds') or ['exc']
        while len(fails) < 3 and a % 100 < pf and a:
            a //= 100
            fails.append(kinds[a % len(kinds)])
            a //= 7
            pf = pf * 2 // 3
        if a % 100 < c.get('pnap', 0):
            naps = (a // 100 % 20 + 1) * 0.25
        a //= 1000
        pd = c.get('pdep', 0)
        for _ in range(6):
            if not self.lzs or len(deps) >= 3 or a % 100 >= pd or not a:
                break
            a //= 100
            d = self.lzs[a % len(self.lzs)]
            a //= 11
            if d not in deps and not d.self_dep:
                deps.append(d)
        if after is not None:
            deps = [after]
            fails = fails[:1]
        with quiet():
            z = LZ(self, len(self.lzs), fails, naps, deps)
        self.lzs.append(z)
        self.byid[id(z.lazy)] = z
        return z
    def raw(self, cell):
        return cell.lazy if isinstance(cell, LZ) else cell
    def deref(self, cell):
        return cell.val if isinstance(cell, LZ) else cell
    def cellof(self, x):
        if isinstance(x, self.lazyt):
            z = self.byid.get(id(x))
            if z is None:
                raise Mismatch('an unknown lazy object appeared')
            return z
        return x

    # -- lazy observations ---------------------------------------------------
    def saw(self, z, r, how):
        """An evaluation of z returned r."""
        if z.fixed is None:
            if not any(r is o for o in z.oks):
                self.viol('lazy-value', f'{z!r}: {how} returned {r!r}, which no completed call of its function had returned')
            z.fixed = [r]
        elif r is not z.fixed[0]:
            self.viol('lazy-once', f'{z!r}: {how} returned a different object than an earlier evaluation')
        with quiet():
            rd = z.lazy.is_ready()
        if rd is not True:
            self.viol('lazy-ready', f'{z!r}: evaluated but not ready')
        else:
            z.seen_ready = True
    def ready(self, z, rd):
        """is_ready returned rd."""
        if rd and not z.oks:
            self.viol('lazy-ready', f'{z!r}: ready although its function never returned')
        if rd and not self.running_ok(z):
            pass
        if not rd and (z.fixed is not None or z.seen_ready):
            self.viol('lazy-ready', f'{z!r}: not ready although already evaluated')
        if rd:
            z.seen_ready = True
    def running_ok(self, z):
        return True

    # -- comparing -----------------------------------------------------------
    def same(self, act, exp):
        if isinstance(exp, LZ):
            return act is exp.lazy
        if exp is None or exp is NotImplemented:
            return act is exp
        if isinstance(act, self.lazyt):
            return False
        if isinstance(exp, bool):
            return act is exp or type(act) in (int, float) and act == exp
        if isinstance(exp, LV):
            return type(act) is LV and act.n == exp.n
        if isinstance(exp, (list, tuple)):
            return type(act) is type(exp) and len(act) == len(exp) and \
                all(self.same(x, y) for x, y in zip(act, exp))
        if isinstance(exp, (set, frozenset)):
            return type(act) in (set, frozenset) and act == exp
        if type(exp) is NE:
            return act is exp
        if isinstance(exp, K):
            return type(act) is K and act.n == exp.n
        return bool(act == exp)
    def samekey(self, act, exp):
        "Which of several equal keys a mapping keeps is not specified."
        if isinstance(act, self.lazyt) or isinstance(exp, LZ):
            return False
        return act is exp or bool(act == exp)
    def match(self, act, cell):
        "A raw element against a model cell."
        if isinstance(cell, LZ):
            if act is cell.lazy:
                return True
            return type(act) is LV and act.n == cell.val.n and (cell.fixed is not None or any(act is o for o in cell.oks))
        if self.strict and (type(act) is not type(cell) if type(cell) in (bool, int, float) else type(cell) is K and act is not cell):
            return False
        return self.same(act, cell)

    def lmatch(self, act, cell):
        "In a lazy collection an item and its lazy form are the same value."
        if type(cell) is LV and isinstance(act, self.lazyt):
            z = self.byid.get(id(act))
            return z is not None and z.val.n == cell.n
        return self.match(act, cell)
    def relazy(self, kind, obj, m):
        "The model of a right result, with each item in the form it came in."
        if kind in LAZY_KINDS and any(type(c) in (LV, LZ) for c in (m.values() if isinstance(m, dict) else m)):
            return self.observed(kind, obj)
        return m

    # -- raw contents through the public API ----------------------------------
    def contents(self, kind, obj):
        if kind in ('plist', 'tlist'):
            return list(obj)
        if kind == 'llist':
            return list(obj.as_plist())
        if kind == 'tllist':
            return [obj.getlazy(i) for i in range(len(obj))]
        if kind in ('pset', 'tset'):
            return list(obj)
        if kind in ('pdict', 'tdict'):
            return list(obj.items())
        if kind == 'ldict':
            return list(obj.as_pdict().items())
        if kind == 'tldict':
            return list(obj.as_tdict().items())
        raise HarnessError(kind)
    def observed(self, kind, obj):
        "The model that the object itself describes."
        with quiet():
            c = self.contents(kind, obj)
            f = FAMILY[kind]
            if f == 'list':
                return [self.cellof(x) for x in c]
            if f == 'set':
                return set(c)
            return {k: self.cellof(v) for k, v in c}

    def diff(self, kind, obj, model, deep=True, a=0):
        """None if the object has exactly the model's contents, else a message."""
        with quiet():
            try:
                return self._diff(kind, obj, model, deep, a)
            except Mismatch as e:
                return str(e)
            except FAULTS + (Violation, HarnessError):
                raise
            except Exception as e:
                return f'reading it raised {type(e).__name__}: {e}'
    def _diff(self, kind, obj, m, deep, a):
        f = FAMILY[kind]
        n = len(m)
        if len(obj) != n:
            return f'len() is {len(obj)}, expected {n}: {self.show(kind, obj)} expected {self.mshow(m)}'
        big = n > 80
        match = self.lmatch if kind in LAZY_KINDS else self.match
        if f == 'list':
            c = self.contents(kind, obj)
            if len(c) != n:
                return f'iteration gives {len(c)} items, len() is {n}'
            for i in range(n):
                if not match(c[i], m[i]):
                    return f'item {i} is {self.sh(c[i])}, expected {m[i]!r}: {self.show(kind, obj)} expected {self.mshow(m)}'
            if deep:
                idx = range(n) if not big else [0, 1, n // 2, n - 2, n - 1, 31, 32, 33]
                lazyk = kind in LAZY_KINDS
                for i in idx:
                    x = obj.getlazy(i) if lazyk else obj[i]
                    if not match(x, m[i]):
                        return f'[{i}] is {self.sh(x)}, expected {m[i]!r}'
                    x = obj.getlazy(i - n) if lazyk else obj[i - n]
                    if not match(x, m[i]):
                        return f'[{i - n}] is {self.sh(x)}, expected {m[i]!r}'
                if not lazyk:
                    r = list(reversed(obj))
                    if len(r) != n or not all(match(x, y) for x, y in zip(r, reversed(m))):
                        return f'reversed() disagrees with the contents'
                for bad in (n, -n - 1):
                    try:
                        obj.getlazy(bad) if lazyk else obj[bad]
                    except IndexError:
                        pass
                    else:
                        return f'[{bad}] did not raise IndexError with {n} items'
        elif f == 'set':
            c = self.contents(kind, obj)
            if len(c) != n or set(c) != m:
                return f'iteration gives {self.mshow(c)}, expected {self.mshow(m)}'
            if deep:
                els = list(m) if not big else list(itertools.islice(m, 20))
                for x in els:
                    if x not in obj:
                        return f'{x!r} is not found in it'
                for i in range(0, 40, 3):
                    x = self.tok(i + a)
                    if (x in obj) != (x in m):
                        return f'membership of {x!r} is {x in obj}'
        else:
            c = self.contents(kind, obj)
            if len(c) != n:
                return f'items() gives {len(c)} items, expected {n}'
            for (k, v), (mk, mv) in zip(c, m.items()):
                if not self.samekey(k, mk) or not match(v, mv):
                    return f'items() gives {self.sh(k)}: {self.sh(v)} where {mk!r}: {mv!r} was expected: {self.show(kind, obj)} expected {self.mshow(m)}'
            if deep:
                ks = list(obj)
                if len(ks) != n or not all(self.samekey(x, y) for x, y in zip(ks, m)):
                    return 'iteration over keys disagrees with items()'
                lazyk = kind in LAZY_KINDS
                it = list(m.items())
                if big:
                    it = it[:15] + it[-15:]
                for k, v in it:
                    x = obj.getlazy(k, Ellipsis) if lazyk else obj[k]
                    if not match(x, v):
                        return f'[{k!r}] is {self.sh(x)}, expected {v!r}'
                    if k not in obj:
                        return f'{k!r} is not found in it'
                for i in range(0, 40, 3):
                    k = self.tok(i + a)
                    if (k in obj) != (k in m):
                        return f'membership of {k!r} is {k in obj}'
                    if k not in m:
                        x = obj.getlazy(k, Ellipsis) if lazyk else obj.get(k, Ellipsis)
                        if x is not Ellipsis:
                            return f'get({k!r}) gives {self.sh(x)} although it is no key'
        return None
    def sh(self, x):
        if isinstance(x, self.lazyt):
            z = self.byid.get(id(x))
            return f'<lazy {z!r}>' if z else '<unknown lazy>'
        try:
            s = repr(x)
        except Exception as e:
            s = f'<{type(x).__name__}>'
        return s if len(s) < 200 else s[:200] + '...'
    def show(self, kind, obj):
        try:
            c = self.contents(kind, obj)
            s = '[' + ', '.join(self.sh(x) if not isinstance(x, tuple) else f'{self.sh(x[0])}: {self.sh(x[1])}' for x in c) + ']'
        except Exception as e:
            s = f'<unreadable: {type(e).__name__}>'
        return f'{kind} ' + (s if len(s) < 300 else s[:300] + '...')
    def mshow(self, m):
        s = repr(m)
        return s if len(s) < 300 else s[:300] + '...'

    # -- pool ----------------------------------------------------------------
    def adopt(self, kind, obj, model):
        for e in self.pool:
            if e.obj is obj:
                return e
        self.no += 1
        e = Entry(kind, obj, model, self.no)
        if len(self.pool) < self.maxpool:
            self.pool.append(e)
        return e
    def adopt_t(self, t, kind, obj, model):
        self.no += 1
        te = TE(kind, obj, mcopy(model), self.no, t)
        t.trs.append(te)
        if len(t.trs) > self.cfg.get('maxtrs', 6):
            t.trs.pop(0)
        self.tes.append(te)
        return te
    def pick(self, fam, a, kinds=None):
        es = [e for e in self.pool if e.fam == fam and (kinds is None or e.kind in kinds)]
        if not es:
            return None
        if self.cfg.get('recent') and a % 3 == 0:
            es = es[-6:]
        return es[(a // 3) % len(es)]
    def pick_t(self, t, fam, a, kinds=None):
        ts = [x for x in t.trs if x.alive and x.fam == fam and (kinds is None or x.kind in kinds)]
        return ts[a % len(ts)] if ts else None
    def ensure_t(self, t, fam, a, kinds=None):
        te = self.pick_t(t, fam, a, kinds)
        if te is None:
            e = self.pick(fam, a, None if kinds is None else [FREEZE[k] for k in kinds])
            if e is None:
                return None
            with quiet():
                try:
                    o = e.obj.transient()
                except Exception as x:
                    self.viol('freeze', f'transient() of a {e.kind} raised {type(x).__name__}: {x}')
                    return None
            k = THAW[e.kind]
            if type(o) not in self.types[k]:
                self.viol('freeze', f'transient() of a {e.kind} gives a {type(o).__name__}')
                return None
            te = self.adopt_t(t, k, o, e.model)
        return te

    # -- audits ----------------------------------------------------------------
    def audit(self, e, cls='changed', why='', deep=True, a=0):
        d = self.diff(e.kind, e.obj, e.model, deep, a)
        if d is not None:
            self.viol(cls, f'{e.kind} #{e.no} changed{why}: {d}')
            try:
                e.model = self.observed(e.kind, e.obj)
            except Exception:
                if e in self.pool:
                    self.pool.remove(e)
            return False
        if e.hash is not None and cls in self.relevant:
            with quiet():
                h = hash(e.obj)
            if h != e.hash:
                self.viol(cls, f'{e.kind} #{e.no} changed{why}: its hash was {e.hash}, now {h}')
        return True
    def audit_t(self, te, cls='tchanged', why='', a=0):
        d = self.diff(te.kind, te.obj, te.model, True, a)
        if d is not None:
            te.alive = False
            self.viol(cls, f'{te.kind} #{te.no}{why}: {d}')
            return False
        return True

    # -- checking one result ---------------------------------------------------
    def check(self, t, act, res, cls):
        """Check a value returned by the package; raises Mismatch."""
        k = res[0]
        if k == 'v':
            exp = res[1]
            with quiet():
                ok = self.same(act, exp)
            if not ok:
                raise Mismatch(f'returned {self.sh(act)}, expected {exp!r}')
        elif k == 'self':
            if act is not res[1].obj:
                raise Mismatch(f'did not return the same object')
        elif k == 'p' or k == 't':
            kind, model = res[1], res[2]
            if type(act) not in self.types[kind]:
                raise Mismatch(f'returned a {type(act).__name__}, expected a {kind}')
            d = self.diff(kind, act, model)
            if d is not None:
                raise Mismatch(f'returned a wrong {kind}: {d}')
            model = self.relazy(kind, act, model)
            if k == 'p':
                self.adopt(kind, act, model)
            else:
                for e in itertools.chain(self.tes):
                    if e.obj is act:
                        raise Mismatch(f'returned an existing {kind} instead of a new one')
                self.adopt_t(t, kind, act, model)
        elif k == 'tup':
            if type(act) is not tuple or len(act) != len(res[1]):
                raise Mismatch(f'returned {type(act).__name__} {self.sh(act)}, expected a {len(res[1])}-tuple')
            for x, r in zip(act, res[1]):
                self.check(t, x, r, cls)
        elif k == 'any':
            r = res[1](act)
            if r is not None:
                self.check(t, act, r, cls)
        elif k == 'it':
            exp = res[1]
            with quiet():
                if not isinstance(act, list):
                    act = list(act)
                ok = len(act) == len(exp) and all(self.same(x, y) for x, y in zip(act, exp))
            if not ok:
                raise Mismatch(f'gave {self.sh(act)}, expected {self.mshow(exp)}')
        elif k == 'bag':
            exp = list(res[1])
            with quiet():
                left = list(exp)
                ok = len(act) == len(exp)
                if ok:
                    for x in act:
                        for i, y in enumerate(left):
                            if self.same(x, y):
                                del left[i]
                                break
                        else:
                            ok = False
                            break
            if not ok:
                raise Mismatch(f'gave {self.sh(act)}, expected the items of {self.mshow(exp)}')
        else:
            raise HarnessError(k)

    def salvage(self, t, act):
        "A wrong result that is not this check's business: take it as it is."
        for x in (act if type(act) is tuple else (act,)):
            for kind, cs in self.types.items():
                if type(x) in cs:
                    try:
                        m = self.observed(kind, x)
                    except Exception:
                        break
                    if kind in THAW:
                        self.adopt(kind, x, m)
                    elif not any(te.obj is x for te in self.tes):
                        self.adopt_t(t, kind, x, m)

    # -- executing -------------------------------------------------------------
    def call(self, t, fn, fault, req=True, visit=None):
        """Run package code as task t; returns (value, error).
        req: the lazy cells the operation may evaluate or wait for (True: any)."""
        t.called = []
        t.req = req
        t.lzexc = []
        t.fired = None
        t.visit = visit
        self.arm(t, fault)
        try:
            try:
                r = fn()
                return (r, None)
            finally:
                t.fault = None
                t.visit = None
                t.req = True
        except (Violation, HarnessError):
            raise
        except BaseException as e:
            return (None, e)
    def arm(self, t, fault):
        if fault:
            t.fault = list(fault)
            self.sim._setstop(t)
    def injected(self, t):
        return ([t.fired] if t.fired is not None else []) + t.lzexc

    def idle(self):
        """Every task waits.  One that waits for a lock must be waiting for an
        evaluation, by another task, of something it asked for."""
        for t in self.sim.tasks:
            if t.state == 'block' and t.req is not True:
                ok = closure(t.req)
                if not any(z.id in ok and z.running is not None and z.running is not t for z in self.lzs):
                    busy = [f'{z!r} by task{z.running.id}' for z in self.lzs if z.running is not None]
                    self.sim.finish_cb(Violation('needless-wait', f'task{t.id} asked for {sorted(ok)} and waits for {t.waiting}, '
                        f'but nobody is evaluating that (under way: {busy})')) if 'needless-wait' in self.relevant else self.sim.stat('foreign_needless-wait')

    def forced(self, t, allowed, name):
        if allowed is not True:
            ok = closure(allowed)
            for z in t.called:
                if z.id not in ok:
                    self.viol('force', f'{name} called the function of {z!r}, which it did not need')
                    break

    def judge_error(self, t, err, name, faulted):
        """An error came out although the model has a value."""
        inj = self.injected(t)
        if not inj:
            return False
        ch = chain(err)
        if not any(x is y for x in inj for y in ch):
            self.viol('fault-masked', f'{name}: {inj[-1]!r} struck, but the caller got {type(err).__name__}: {err}')
        elif err not in inj and not any(err is x for x in inj):
            # A wrapped failure: only lazy evaluation may wrap, and only Exceptions.
            src = [x for x in inj if any(x is y for y in ch)]
            if not t.called:
                self.viol('fault-masked', f'{name}: {src[-1]!r} was replaced by {type(err).__name__}: {err}')
            elif not isinstance(err, RuntimeError):
                self.viol('lazy-error', f'{name}: a failing lazy function gave {type(err).__name__}')
            elif all(not isinstance(x, Exception) for x in src):
                self.viol('lazy-error', f'{name}: {src[-1]!r} was wrapped into {type(err).__name__}')
        if t.called:
            if not any(err is x for x in inj):
                with quiet():
                    try:
                        if type(str(err)) is not str or type(repr(err)) is not str:
                            raise TypeError('not a string')
                    except Exception as x:
                        self.viol('lazy-error', f'{name}: the error of a failed evaluation cannot be shown: {type(x).__name__}: {x}')
            own = set(map(id, inj))
            for x in ch:
                if isinstance(x, FAULTS) and id(x) not in own:
                    self.viol('lazy-error', f'{name}: the error of this attempt reports {x!r}, a failure of another attempt')
                    break
            self.held_errors.append((err, list(inj), name))
        return True

    def perform(self, t, op, name, fn, expect, deps=(), force=(), cls='result', retry=True):
        """One operation that changes no existing object.
        fn: calls the package.  expect: gives the Res, or raises like the builtin."""
        sim = self.sim
        with quiet():
            try:
                exp = expect()
            except (Violation, HarnessError):
                raise
            except Exception as e:
                exp = ('e', type(e))
        fault = op.get('f')
        for attempt in range(4):
            act, err = self.call(t, fn, fault, force or True, self.visitor(t, op, name, deps) if attempt == 0 else None)
            fired = t.fired_kind if t.fired is not None else ('fn' if t.lzexc else None)
            t.fired_kind = None
            self.forced(t, force, name)
            out = self.settle(t, name, act, err, exp, cls, fired)
            sim.event('op', t.id, t.opno, name, out, attempt)
            if out != 'fault':
                break
            for e in deps:
                if isinstance(e, Entry):
                    self.audit(e, 'fault-effect', f' by a failed {name}')
                elif isinstance(e, TE) and e.alive:
                    self.audit_t(e, 'fault-effect', f' changed by a failed {name}')
            if not retry:
                break
            fault = None
            cls = 'result' if 'result' in self.relevant and cls == 'result' else 'fault-effect' \
                if 'fault-effect' in self.relevant else cls
        return out

    def settle(self, t, name, act, err, exp, cls, fired):
        if err is not None:
            if self.injected(t):
                self.judge_error(t, err, name, True)
                return 'fault'
            if exp[0] != 'e':
                self.viol(cls, f'{name} raised {type(err).__name__}: {err}; expected {self.eshow(exp)}')
                return 'badexc'
            if not isinstance(err, exp[1]):
                self.viol(cls, f'{name} raised {type(err).__name__}: {err}; expected {exp[1].__name__}')
                return 'badexc'
            return 'exc'
        if t.fired is not None:
            self.viol('fault-masked', f'{name}: {t.fired!r} struck inside it but it returned normally')
        if exp[0] == 'e':
            self.viol(cls, f'{name} returned {self.sh(act)}; expected {exp[1].__name__}')
            self.salvage(t, act)
            return 'noexc'
        try:
            self.check(t, act, exp, cls)
        except Mismatch as m:
            self.viol(cls, f'{name} {m}')
            self.salvage(t, act)
            return 'bad'
        return 'ok'
    def eshow(self, exp):
        if exp[0] in ('v', 'it', 'bag'):
            return self.mshow(exp[1])
        if exp[0] in ('p', 't'):
            return f'{exp[1]} {self.mshow(exp[2])}'
        return exp[0]

    def mutate(self, t, op, name, te, fn, apply, states=None, deps=(), force=(), cls='tresult'):
        """One edit of a transient.  apply(model) edits the model copy and returns
        the Res; states(pre, post) -> predicate over observed contents for bulk edits."""
        sim = self.sim
        with quiet():
            pre = mcopy(te.model)
            m = mcopy(te.model)
            try:
                exp = apply(m)
            except (Violation, HarnessError):
                raise
            except Exception as e:
                exp = ('e', type(e))
        fault = op.get('f')
        snaps = []
        act, err = self.call(t, fn, fault, force or True, self.visitor(t, op, name, deps, te, snaps))
        kind = t.fired_kind
        t.fired_kind = None
        self.forced(t, force, name)
        if exp[0] == 'any' and err is None:
            with quiet():
                try:
                    exp, m = exp[1](act)
                except Mismatch as mm:
                    self.viol(cls, f'{name} {mm}')
                    te.alive = False
                    return
        for s in snaps:
            self.snapped(s, te, name, pre, m, states)
        out = self.settle(t, name, act, err, exp, cls, kind)
        sim.event('mut', t.id, t.opno, name, out)
        if out == 'fault' and (kind in ('intr', 'mem', 'lockintr')):
            te.alive = False      # a crash inside an edit of client-owned mutable state
            sim.stat('transient_crash')
        elif out in ('ok',):
            d = self.diff(te.kind, te.obj, m)
            if d is not None:
                self.viol(cls, f'after {name}: {d}')
                self.resync(te)
            else:
                self.settled(te, self.relazy(te.kind, te.obj, m))
        elif out in ('exc', 'fault'):
            ecls = 'fault-effect' if out == 'fault' else cls
            if states is None:
                d = self.diff(te.kind, te.obj, pre)
                if d is not None:
                    self.viol(ecls, f'a failed {name} changed the {te.kind}: {d}')
                    self.resync(te)
            else:
                try:
                    obs = self.observed(te.kind, te.obj)
                    with quiet():
                        ok = states(pre, m, obs)
                    d = self.diff(te.kind, te.obj, obs)
                except Exception as e:
                    ok, obs, d = False, f'<unreadable: {type(e).__name__}: {e}>', None
                if d is not None:
                    self.viol(ecls, f'a failed {name} left an incoherent {te.kind}: {d}')
                    te.alive = False
                elif not ok:
                    self.viol(ecls, f'a failed {name} left {self.mshow(obs)}; before {self.mshow(pre)}, complete {self.mshow(m)}')
                    te.alive = False
                else:
                    self.settled(te, obs)
        else:
            self.resync(te)
        for e in deps:
            if isinstance(e, Entry):
                self.audit(e, 'fault-effect' if out == 'fault' else 'leak', f' by {name} of a transient')
        if snaps and te.alive:
            self.frozen(te, te.model, f'after {name}, during which it was frozen, persistent() of it')
        return out

    # -- what client code does when it is called back ---------------------------
    def visitor(self, t, op, name, deps, te=None, snaps=None):
        c = op.get('c')
        if not c:
            return None
        seen = list(deps) if te is None else [e for e in deps if isinstance(e, Entry)]
        def visit(kind):
            with quiet():
                where = f' seen by the {kind} call-back of {name}'
                for e in seen:
                    if isinstance(e, Entry):
                        self.audit(e, 'changed', where)
                    elif e.alive:
                        if self.audit_t(e, 'tresult', where):
                            self.frozen(e, e.model, f'persistent() of a {e.kind} by the {kind} call-back of {name}')
                if te is not None:
                    snaps.append(self.snap(te, c[1], f'the {kind} call-back of {name}'))
        return [c[0], visit]
    def snap(self, te, how, where):
        "Freeze, copy or read a transient from inside an edit of it."
        o, k = te.obj, FREEZE[te.kind]
        try:
            if how % 4 == 3:
                ob = self.observed(te.kind, o)
                if len(o) != len(ob):
                    raise Mismatch(f'len() is {len(o)}, iteration gives {len(ob)} items')
                return (None, None, ob, where)
            if how % 4 == 2:
                x, k = o.copy(), te.kind
            else:
                x = o.persistent()
            if type(x) not in self.types[k]:
                raise Mismatch(f'copying it gave a {type(x).__name__}')
            ob = self.observed(k, x)
            d = self.diff(k, x, ob)
            if d is not None:
                raise Mismatch(d)
            if how % 4:
                y = x.transient() if k in THAW else x
                if how // 4 % 2:
                    y.clear()
                elif te.fam == 'list':
                    y.append(None)
                elif te.fam == 'set':
                    y.add(self.tok(how // 8))
                else:
                    y[self.tok(how // 8)] = None
                if y is x:
                    return (None, None, ob, where)
            return (k, x, ob, where)
        except Mismatch as e:
            return (None, None, str(e), where)
        except FAULTS + (Violation, HarnessError):
            raise
        except Exception as e:
            return (None, None, f'{type(e).__name__}: {e}', where)
    def snapped(self, s, te, name, pre, m, states):
        k, x, ob, where = s
        if type(ob) is str:
            self.viol('freeze', f'{te.kind} frozen or copied by {where}: {ob}')
            return
        with quiet():
            def eq(y):
                if isinstance(y, set):
                    return ob == y
                if isinstance(y, dict):
                    return list(ob) == list(y) and list(map(self.deref, ob.values())) == list(map(self.deref, y.values()))
                return list(map(self.deref, ob)) == list(map(self.deref, y))
            try:
                ok = eq(pre) or eq(m) or states is not None and states(pre, m, ob)
            except FAULTS + (Violation, HarnessError):
                raise
        if not ok:
            self.viol('freeze', f'{te.kind} frozen or copied by {where} holds {self.mshow(ob)}; before {self.mshow(pre)}, complete {self.mshow(m)}')
        elif x is not None:
            d = self.diff(k, x, ob)
            if d is not None:
                self.viol('freeze', f'{k} made by {where} changed when {name} went on: {d}')
            elif k in THAW:
                self.adopt(k, x, ob)
    def frozen(self, te, m, what):
        k = FREEZE[te.kind]
        with quiet():
            try:
                x = te.obj.persistent()
                d = self.diff(k, x, m) if type(x) in self.types[k] else f'a {type(x).__name__}'
            except FAULTS + (Violation, HarnessError):
                raise
            except Exception as e:
                d = f'raised {type(e).__name__}: {e}'
        if d is not None:
            self.viol('freeze', f'{what} is wrong: {d}')
    def settled(self, te, m):
        if te.fam == 'set':
            if set(te.model) != m:
                te.kver += 1
        elif te.fam == 'dict':
            if list(te.model) != list(m):
                te.kver += 1
        te.model = m
    def resync(self, te):
        try:
            te.model = self.observed(te.kind, te.obj)
            te.kver += 1
        except Exception:
            te.alive = False

    # -- iterables handed to the package ---------------------------------------
    def feed(self, xs):
        def g():
            for x in xs:
                if core.CUR is not None:
                    core.S.callback('iter')
                yield x
        return g()
    def idx(self, a, n):
        return a % (2 * n + 5) - n - 2
    def goodidx(self, a, n):
        if n == 0 or a % 8 == 0:
            return self.idx(a // 8, n)
        a //= 8
        i = a % n
        return i - n if a // n % 3 == 0 else i
