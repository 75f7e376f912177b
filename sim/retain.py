"""Nothing dropped stays alive.

At the end of a run the clients keep a few collections and drop everything else:
all other versions, transients, iterators, errors and tasks.  Every element ever
made then has to be gone, except those that the kept collections show through the
public API; and every evaluated lazy has to have forgotten its arguments.
"""
import gc
from . import world
from .world import quiet
from .core import Violation


def start(w):
    world.BORN = []

def finish(w, plan):
    """Returns a message, or None."""
    a = plan['seed']
    kept = []
    with quiet():
        args = [(repr(z), z.arg) for z in w.lzs if z.fixed is not None and z.arg is not None]
        for i, e in enumerate(list(w.pool) + [te for te in w.tes if te.alive]):
            if (a >> (i % 50)) % 5 == 0:
                kept.append((e.kind, e.obj))
        argof = {id(z.lazy): z.arg for z in w.lzs if z.arg is not None}
        e = te = None
        for z in w.lzs:
            z.val, z.oks, z.deps, z.via, z.running = None, [], [], None, None
        z = None
        w.pool, w.tes, w.its, w.held_errors, w.disk, w.lzs, w.byid = [], [], {}, [], [], [], {}
        born, world.BORN = world.BORN, None
        gc.collect()
        ok, hold = set(), []
        def reach(x):
            if id(x) in ok:
                return
            ok.add(id(x))
            hold.append(x)          # an address stays taken
            if type(x) in (tuple, list, frozenset):
                for y in x:
                    reach(y)
            elif isinstance(x, w.lazyt):
                if x.is_ready():
                    reach(x())
                elif id(x) in argof:
                    reach(argof[id(x)]())
            else:
                for kind, c in w.kinds.items():
                    if type(x) is c:
                        for y in w.contents(kind, x):
                            reach(y)
        for kind, obj in kept:
            reach(obj)
        w.sim.stat('elements_born', len(born))
        alive = [x for x in (r() for r in born) if x is not None]
        w.sim.stat('elements_kept', len(alive))
        for x in alive:
            if id(x) not in ok:
                return f'{x!r} is still alive although no collection that is kept holds it ({[k for k, o in kept]}); held by {holders(x, alive)}'
        for name, r in args:
            if r() is not None:
                return f'{name} is evaluated but its argument is still alive; held by {holders(r(), alive)}'
    return None

def holders(x, alive):
    out = []
    for r in gc.get_referrers(x):
        if r is not alive and type(r).__name__ not in ('frame', 'list_iterator'):
            out.append(type(r).__name__)
    return sorted(set(out))[:4]
