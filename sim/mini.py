"""Collections of a client's own, built on the classes of the package.

'sub': plain subclasses of the concrete ones.
'base': implementations of the abstract base classes.
Each implements only what its base class calls abstract, by the plainest builtin
means; every other method a client calls on it is the base class's default.
"""

from operator import index

def clamp(k, n):
    return max(-n, min(index(k), n))

def classes(pc):
    A = pc.abc
    put = object.__setattr__

    class MSeq(A.PersistentSequence):
        __slots__ = ('_t',)
        def __new__(cls, it=()):
            o = super().__new__(cls)
            put(o, '_t', tuple(it))
            return o
        def _with(self, f):
            l = list(self._t)
            f(l)
            return type(self)(l)
        def set(self, i, obj):
            return self._with(lambda l: l.__setitem__(index(i), obj))
        def delete(self, i=-1):
            return self._with(lambda l: l.__delitem__(index(i)))
        def append(self, obj):
            return self._with(lambda l: l.append(obj))
        def prepend(self, obj):
            return self._with(lambda l: l.insert(0, obj))
        def insert(self, i, obj):
            return self._with(lambda l: l.insert(clamp(i, len(l)), obj))
        def clear(self):
            return type(self)()
        def transient(self):
            return MTSeq(self._t)
        def __iter__(self):
            return iter(self._t)
        def __len__(self):
            return len(self._t)
        def __getitem__(self, k):
            x = self._t[k]
            return type(self)(x) if isinstance(k, slice) else x

    class MTSeq(A.TransientSequence):
        __slots__ = ('_l',)
        def __new__(cls, it=()):
            o = super().__new__(cls)
            o._l = list(it)
            return o
        def clear(self):
            self._l.clear()
        def persistent(self):
            return MSeq(self._l)
        def __iter__(self):
            return iter(self._l)
        def __len__(self):
            return len(self._l)
        def __getitem__(self, k):
            x = self._l[k]
            return type(self)(x) if isinstance(k, slice) else x
        def __setitem__(self, k, v):
            self._l[index(k)] = v
        def __delitem__(self, k):
            del self._l[index(k)]
        def append(self, obj):
            self._l.append(obj)
        def prepend(self, obj):
            self._l.insert(0, obj)
        def insert(self, i, obj):
            self._l.insert(clamp(i, len(self._l)), obj)

    class MSet(A.PersistentSet):
        __slots__ = ('_s',)
        def __new__(cls, it=()):
            o = super().__new__(cls)
            put(o, '_s', frozenset(it))
            return o
        def add(self, obj):
            return type(self)(self._s | {obj})
        def discard(self, obj):
            return type(self)(self._s - {obj}) if obj in self._s else self
        def clear(self):
            return type(self)()
        def transient(self):
            return MTSet(self._s)
        def __iter__(self):
            return iter(self._s)
        def __len__(self):
            return len(self._s)
        def __contains__(self, x):
            return x in self._s

    class MTSet(A.TransientSet):
        __slots__ = ('_s',)
        def __new__(cls, it=()):
            o = super().__new__(cls)
            o._s = set(it)
            return o
        def add(self, obj):
            self._s.add(obj)
        def discard(self, obj):
            self._s.discard(obj)
        def clear(self):
            self._s.clear()
        def persistent(self):
            return MSet(self._s)
        def __iter__(self):
            return iter(self._s)
        def __len__(self):
            return len(self._s)
        def __contains__(self, x):
            return x in self._s

    class MMap(A.PersistentMapping):
        __slots__ = ('_d',)
        def __new__(cls, /, *a, **k):
            o = super().__new__(cls)
            put(o, '_d', dict(*a, **k))
            return o
        def set(self, key, val):
            d = dict(self._d)
            d[key] = val
            return type(self)(d)
        def drop(self, key):
            if key not in self._d:
                return self
            d = dict(self._d)
            del d[key]
            return type(self)(d)
        def clear(self):
            return type(self)()
        def transient(self):
            return MTMap(self._d)
        def __iter__(self):
            return iter(self._d)
        def __len__(self):
            return len(self._d)
        def __getitem__(self, k):
            return self._d[k]
        def __reversed__(self):
            return reversed(self._d)
        def keys(self):
            return self._d.keys()
        def items(self):
            return self._d.items()
        def values(self):
            return self._d.values()

    class MTMap(A.TransientMapping):
        __slots__ = ('_d',)
        def __new__(cls, /, *a, **k):
            o = super().__new__(cls)
            o._d = dict(*a, **k)
            return o
        def clear(self):
            self._d.clear()
        def persistent(self):
            return MMap(self._d)
        def __iter__(self):
            return iter(self._d)
        def __len__(self):
            return len(self._d)
        def __getitem__(self, k):
            return self._d[k]
        def __setitem__(self, k, v):
            self._d[k] = v
        def __delitem__(self, k):
            del self._d[k]
        def __reversed__(self):
            return reversed(self._d)
        def keys(self):
            return self._d.keys()
        def items(self):
            return self._d.items()
        def values(self):
            return self._d.values()
    return {'plist': MSeq, 'tlist': MTSeq, 'pset': MSet, 'tset': MTSet, 'pdict': MMap, 'tdict': MTMap}

def install(w, pc, how):
    if how == 'base':
        cs = classes(pc)
        w.types.update({k: (c,) for k, c in cs.items()})
    else:
        # (What is kept of the subclass by an operation is not judged: the package documents nothing.)
        cs = {k: type('My' + k, (c,), {}) for k, c in w.kinds.items()}
        w.types.update({k: (c, w.kinds[k]) for k, c in cs.items()})
    w.kinds.update(cs)
