"""Deterministic simulator core.

One forked process executes one simulated run.  Client code runs on real
threads, but exactly one of them is ever runnable: a baton (one raw lock per
task) is handed over at *points*, and every hand-over is decided by the plan --
either drawn from the plan's PRNG or read from an explicit schedule (replay).

Points are: every bytecode instruction executed in code of the `pcollections`
package (sys.monitoring INSTRUCTION events, so no hook in the package is
needed), every call-back from the package into client code (hash, eq, lt,
iterator step, sort key, lazy function), every operation on a lock created by
the package, every virtual sleep, and every operation boundary.

Seams owned by the simulator: thread scheduling, threading/_thread locks, the
`time` module, key hashing (a per-epoch salt plays the role of PYTHONHASHSEED),
`random`/`os.urandom`, and the import of the package itself.
"""
import sys, os, types, heapq, random, hashlib, importlib.abc, importlib.machinery
import _thread, threading, time, dis, gc, pickle, copy, json, operator, re, traceback

REPO = os.environ.get('PCOLL_REPO', '/repo')
PKG = os.path.join(os.path.realpath(REPO), 'pcollections') + os.sep

_raw_lock = _thread.allocate_lock
_raw_start = _thread.start_new_thread
_get_ident = _thread.get_ident

MON = sys.monitoring
TOOL = 3
EV_INSTR = MON.events.INSTRUCTION


# ------------------------------------------------------------------ faults
class InjectedFault(Exception):
    "Raised by a client call-back because the plan says so."
class SimInterrupt(KeyboardInterrupt):
    "An asynchronous interrupt delivered by the simulator."
class SimMemoryError(MemoryError):
    "A failed allocation injected by the simulator."
class InjectedExit(BaseException):
    "A non-Exception exit raised by a client call-back."

def _variants(base, *types):
    return [base] + [type('Injected' + t.__name__, (base, t), {}) for t in types]
# What code under test may treat specially: the builtin error classes it catches.
RAISE = _variants(InjectedFault, KeyError, ValueError, TypeError, IndexError, AttributeError, RuntimeError,
                  LookupError, OSError, AssertionError)
# The errors the abstract base classes do not take for an answer from a client's own look-up.
RAISE_NL = [c for c in RAISE if not issubclass(c, (KeyError, IndexError))]
NLOOKUP = False
EXIT = _variants(InjectedExit, SystemExit, GeneratorExit)

FAULTS = (InjectedFault, SimInterrupt, SimMemoryError, InjectedExit)


class Violation(BaseException):
    def __init__(self, cls, msg):
        BaseException.__init__(self, cls, msg)
        self.cls = cls
        self.msg = msg


class HarnessError(BaseException):
    pass


# ------------------------------------------------- static bytecode information
_POINTS = {}     # code -> (frozenset legal interrupt offsets, loop targets, alloc offsets)

def _analyse(code):
    """Where CPython looks at pending signals (after a call, at function entry,
    at a loop's back edge), and where an allocation may fail.  An interrupt after
    a call belongs to the call, so points where the next instruction lies under
    another handler than the call are left out."""
    legal, targets, alloc = set(), {}, set()
    table = dis._parse_exception_table(code)
    def handler(off):
        for e in table:
            if e.start <= off < e.end:
                return e.target
        return None
    prev = prevoff = None
    for ins in dis.get_instructions(code):
        op = ins.opname
        if prev in ('CALL', 'CALL_FUNCTION_EX', 'RESUME') and handler(prevoff) == handler(ins.offset):
            legal.add(ins.offset)
        if op in ('JUMP_BACKWARD',) and handler(ins.offset) == handler(ins.argval):
            targets.setdefault(ins.argval, set()).add(ins.offset)
        if op in ('CALL', 'CALL_FUNCTION_EX', 'BUILD_TUPLE', 'BUILD_LIST', 'BUILD_MAP',
                  'STORE_SUBSCR', 'GET_ITER', 'MAKE_FUNCTION', 'BINARY_OP', 'LIST_APPEND'):
            alloc.add(ins.offset)
        if op != 'CACHE':
            prev, prevoff = op, ins.offset
    return frozenset(legal), targets, frozenset(alloc)


def _walk(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _walk(c)


CODES = []

class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = compile(self.get_data(path), path, 'exec', dont_inherit=True)
        for c in _walk(code):
            CODES.append(c)
        return code

class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'pcollections' and not name.startswith('pcollections.'):
            return None
        base = os.path.join(os.path.realpath(REPO), *name.split('.'))
        init = os.path.join(base, '__init__.py')
        import importlib.util as u
        if os.path.isfile(init):
            return u.spec_from_file_location(name, init, loader=_Loader(name, init),
                                             submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return u.spec_from_file_location(name, base + '.py', loader=_Loader(name, base + '.py'))
        return None


def load_package():
    """Import the package from the working tree with every seam in place."""
    for k in list(sys.modules):
        if k == 'pcollections' or k.startswith('pcollections.'):
            raise HarnessError('pcollections imported before the simulator')
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    _patch_runtime()
    import pcollections
    if not os.path.realpath(pcollections.__file__).startswith(PKG):
        raise HarnessError('wrong pcollections: ' + pcollections.__file__)
    MON.use_tool_id(TOOL, 'pcollections-sim')
    MON.register_callback(TOOL, EV_INSTR, _on_instr)
    for c in CODES:
        legal, targets, alloc = _analyse(c)
        if c.co_filename.endswith('_lazy.py'):
            alloc = frozenset()
        _POINTS[c] = (legal, targets, alloc)
    return pcollections


def instrument(on):
    ev = EV_INSTR if on else 0
    for c in CODES:
        MON.set_local_events(TOOL, c, ev)


# ---------------------------------------------------------------- sim objects
class Task:
    __slots__ = ('id', 'gate', 'count', 'stop', 'switch_at', 'state', 'wake', 'fault',
                 'fired', 'fired_kind', 'last', 'done', 'prio', 'body', 'waiting', 'slist', 'sidx',
                 'opno', 'trs', 'called', 'lzexc', 'its', 'req', 'visit')
    def __init__(self, id, body):
        self.id = id
        self.gate = _raw_lock()
        self.gate.acquire()
        self.count = 0
        self.stop = 1
        self.switch_at = 1 << 60
        self.state = 'run'       # run | block | sleep | done
        self.wake = None
        self.fault = None        # [kind, n]
        self.fired = None
        self.fired_kind = None
        self.last = (None, -1)
        self.done = False
        self.prio = 0
        self.body = body
        self.waiting = None
        self.slist = None
        self.sidx = 0
        self.opno = -1
        self.visit = None        # [n, action]: client code run by the n-th call-back
        self.trs = []
        self.called = []
        self.lzexc = []
        self.its = []
        self.req = True
    def drop(self):
        self.trs, self.called, self.lzexc, self.its = [], [], [], []
        self.fired = self.body = self.fault = self.visit = self.wake = None
        self.req = True


CUR = None      # the task holding the baton (None: controller or model code)
S = None        # the running Sim
QN = 0          # instructions the package ran for the harness's own reads
QMAX = 4_000_000


def _on_instr(code, off):
    global QN
    t = CUR
    if t is None:
        QN += 1
        if QN > QMAX:
            QN = 0
            raise Violation('no-progress', f'reading a collection exceeded {QMAX} steps, in {code.co_name}')
        return
    c = t.count = t.count + 1
    if c >= t.stop:
        S.slow(t, code, off)


class Sim:
    BUDGET = 3_000_000
    def __init__(self, plan):
        self.plan = plan
        if plan['cfg'].get('long'):
            self.BUDGET *= 8
        self.tasks = []
        self.now = 0.0
        self.timers = []
        self.tseq = 0
        self.total_switch = 0
        self.sched_log = []
        self.log = hashlib.sha256()
        self.nlog = 0
        self.keep_log = [] if plan.get('keeplog') else None
        self.stats = {}
        self.result = None
        self.policy = plan.get('policy') or {'kind': 'none'}
        self.rng = random.Random(self.policy.get('seed', 0))
        self.explicit = plan.get('sched')
        self.main_gate = _raw_lock()
        self.main_gate.acquire()
        self.seq = 0
        self.finish_cb = None
        self.idle_cb = None      # called when every task waits and time must pass
        self.trace_sites = set()
        self.lockno = 0
        self.clocks = 0
        self.firsts = []
        self.crash = None        # [task id, count]: the machine stops there

    # -- logging (never draws from the PRNG) --------------------------------
    def event(self, *parts):
        s = repr(parts)
        self.log.update(s.encode())
        self.nlog += 1
        if self.keep_log is not None:
            self.keep_log.append(s)
    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n
    def next_seq(self):
        self.seq += 1
        return self.seq

    # -- run ---------------------------------------------------------------
    def run(self, bodies, base_id=0, policy=None):
        """Run the task bodies to completion under the plan's schedule."""
        global CUR, S
        S = self
        self.tasks = [Task(base_id + i, b) for i, b in enumerate(bodies)]
        if policy is not None:
            self.policy = policy
        k = self.policy['kind']
        if k == 'pct':
            pr = list(range(len(self.tasks)))
            self.rng.shuffle(pr)
            for t, p in zip(self.tasks, pr):
                t.prio = p + 100
            self.lowprio = 99
            horizon = self.policy.get('horizon', 5000)
            self.changes = sorted(self.rng.randint(1, horizon)
                                  for _ in range(self.policy.get('depth', 3)))
        base = self.explicit
        for t in self.tasks:
            if base is not None:
                t.slist = [(c, g) for (i, c, g) in base if i == t.id]
                t.slist.sort()
            self._rearm(t)
            _raw_start(self._main, (t,))
        first = self._choose(None, 'start')
        if first is not None:
            self._grant(first)
            self.main_gate.acquire()
        CUR = None
        # Points on which the run ended.
        self.event('end', [t.count for t in self.tasks])
        # The real threads may take their time to end, and hold their tasks until then.
        for t in self.tasks:
            t.drop()

    def _main(self, t):
        t.gate.acquire()
        try:
            t.body(t)
        except Violation as v:
            self.finish_cb(v)
        except HarnessError as e:
            self.finish_cb(e)
        except BaseException as e:
            self.finish_cb(e)
        t.state = 'done'
        t.done = True
        self.event('done', t.id, t.count)
        nxt = self._choose(t, 'done')
        if nxt is None:
            self.main_gate.release()
        else:
            self._grant(nxt)

    def _grant(self, t):
        global CUR
        CUR = t
        t.gate.release()

    def _switch(self, me, to):
        if to is me:
            return
        self.total_switch += 1
        self._grant(to)
        me.gate.acquire()

    # -- choosing who runs -----------------------------------------------------
    def runnable(self):
        return [t for t in self.tasks if t.state == 'run']

    def _choose(self, me, why):
        """Pick the next task when `me` cannot go on (or at the start)."""
        while True:
            rs = self.runnable()
            if rs:
                break
            if self.timers:
                self._fire_timer()
                continue
            blocked = [t for t in self.tasks if t.state != 'done']
            if not blocked:
                return None
            desc = ', '.join(f'task{t.id} waits for {t.waiting}' for t in blocked)
            self.finish_cb(Violation('deadlock', f'no task can run: {desc}'))
        if self.explicit is not None:
            if me is not None:
                g = self._lookup(me)
                for t in rs:
                    if t.id == g:
                        return t
            if me is None:
                for t in rs:
                    if t.id in (self.plan.get('first') or ()):
                        return t
            return rs[0]
        if len(rs) == 1:
            t = rs[0]
        elif self.policy['kind'] == 'pct':
            t = max(rs, key=lambda t: t.prio)
        elif self.policy['kind'] == 'none':
            t = rs[0]
        else:
            t = rs[self.rng.randrange(len(rs))]
        if me is not None:
            self.sched_log.append((me.id, me.count, t.id))
        else:
            self.firsts.append(t.id)
        return t

    def _lookup(self, t):
        while t.sidx < len(t.slist) and t.slist[t.sidx][0] < t.count:
            t.sidx += 1
        if t.sidx < len(t.slist) and t.slist[t.sidx][0] == t.count:
            return t.slist[t.sidx][1]
        return None

    def _fire_timer(self):
        if self.idle_cb is not None:
            self.idle_cb()
        when, _, t, val = heapq.heappop(self.timers)
        if when > self.now:
            self.now = when
        if t.state in ('sleep', 'block') and t.wake == val:
            t.state = 'run'
            t.wake = None
            self.stat('timer_fired')

    def _gap(self):
        g = self.policy.get('gap', 30)
        if g <= 1:
            return 1
        return 1 + int(self.rng.expovariate(1.0 / g))

    def _rearm(self, t):
        """Set the next count at which `slow` must run for t."""
        if self.explicit is not None:
            while t.sidx < len(t.slist) and t.slist[t.sidx][0] <= t.count:
                t.sidx += 1
            t.switch_at = t.slist[t.sidx][0] if t.sidx < len(t.slist) else 1 << 60
        else:
            k = self.policy['kind']
            if k == 'rand':
                t.switch_at = t.count + self._gap()
            elif k == 'pct':
                t.switch_at = t.count + 1 if self.changes else 1 << 60
                if self.changes:
                    done = sum(x.count for x in self.tasks)
                    t.switch_at = t.count + max(1, self.changes[0] - done)
            else:
                t.switch_at = 1 << 60
        self._setstop(t)

    def _setstop(self, t):
        f = t.fault
        if f is not None and f[0] in ('intr', 'mem'):
            t.stop = t.count + 1
        else:
            t.stop = min(t.switch_at, self.BUDGET)
        c = self.crash
        if c is not None and c[0] == t.id and c[1] < t.stop:
            t.stop = c[1]

    def slow(self, t, code, off):
        c = self.crash
        if c is not None and c[0] == t.id and t.count >= c[1]:
            # Every thread of the process stops here; none ever runs again.
            self.crash = None
            self.stat('fault_crash')
            self.event('crash', t.id, t.opno, t.count)
            self.main_gate.release()
            t.gate.acquire()
        if t.count >= self.BUDGET:
            self.finish_cb(Violation('no-progress',
                f'task{t.id} op {t.opno} exceeded {self.BUDGET} steps'))
        f = t.fault
        if f is not None and code is not None:
            kind = f[0]
            if kind == 'intr':
                legal, targets, _ = _POINTS.get(code) or ((), {}, ())
                lc, lo = t.last
                if off in legal or (off in targets and lc is code and lo in targets[off]):
                    f[1] -= 1
                    if f[1] <= 0:
                        self._fire(t, kind, SimInterrupt(f'at {os.path.basename(code.co_filename)}:{code.co_name}'))
                        t.last = (code, off)
                        raise t.fired
            elif kind == 'mem':
                if off in (_POINTS.get(code) or ((), (), ()))[2]:
                    f[1] -= 1
                    if f[1] <= 0:
                        self._fire(t, kind, SimMemoryError(f'at {os.path.basename(code.co_filename)}:{code.co_name}'))
                        raise t.fired
            t.last = (code, off)
        if t.count >= t.switch_at:
            self._preempt(t)
            self._rearm(t)
        else:
            self._setstop(t)

    def _fire(self, t, kind, exc):
        t.fault = None
        t.fired = exc
        t.fired_kind = kind
        self.stat('fault_' + kind)
        self.event('fault', t.id, kind, t.opno)
        self._setstop(t)

    def _preempt(self, t, why='pre'):
        rs = self.runnable()
        if self.explicit is not None:
            g = self._lookup(t)
            if g is None or g == t.id:
                return
            for x in rs:
                if x.id == g:
                    self._switch(t, x)
                    return
            return
        k = self.policy['kind']
        if k == 'pct':
            done = sum(x.count for x in self.tasks)
            while self.changes and self.changes[0] <= done:
                self.changes.pop(0)
                self.lowprio -= 1
                t.prio = self.lowprio
            x = max(rs, key=lambda t: t.prio)
        else:
            if len(rs) < 2:
                return
            x = rs[self.rng.randrange(len(rs))]
        if x is not t:
            self.sched_log.append((t.id, t.count, x.id))
            self.stat('preempt')
            self._switch(t, x)

    # -- points inside harness code ------------------------------------------
    def point(self, kind):
        """A preemption opportunity in harness code (call-back, lock, op)."""
        t = CUR
        if t is None:
            return
        t.count += 1
        if self.explicit is not None:
            if t.count >= t.stop:
                self.slow(t, None, -1)
            return
        k = self.policy['kind']
        p = self.policy.get(kind)
        if p and self.rng.random() < p:
            self._preempt(t, kind)
            if t.count >= t.stop:
                self._rearm(t)
            return
        if t.count >= t.stop:
            self.slow(t, None, -1)

    def block(self, what, timeout=None):
        """Block the current task until woken; returns False on timeout."""
        t = CUR
        t.count += 1
        t.state = 'block'
        t.waiting = what
        self.stat('blocked')
        self.stat('blocked_by.%d' % t.id)
        token = None
        if timeout is not None:
            self.tseq += 1
            token = self.tseq
            heapq.heappush(self.timers, (self.now + timeout, self.tseq, t, token))
        t.wake = token
        nxt = self._choose(t, 'block')
        if nxt is not t:
            self._switch(t, nxt)
        t.waiting = None
        if t.count >= t.stop:
            self._rearm(t)
        return True

    def sleep(self, d):
        t = CUR
        if t is None:
            self.now += max(0, d)
            return
        t.count += 1
        t.state = 'sleep'
        t.waiting = f'time {self.now + d:.3f}'
        self.tseq += 1
        t.wake = self.tseq
        heapq.heappush(self.timers, (self.now + max(0.0, d), self.tseq, t, self.tseq))
        self.stat('sleeps')
        nxt = self._choose(t, 'sleep')
        if nxt is not t:
            self._switch(t, nxt)
        t.waiting = None
        if t.count >= t.stop:
            self._rearm(t)

    def visit(self, t, kind):
        "A call-back may use the collections it can reach."
        v = t.visit
        v[0] -= 1
        if v[0] <= 0:
            t.visit = None
            self.stat('visits')
            self.event('visit', t.id, kind)
            v[1](kind)

    def callback(self, kind):
        """Called at the start of every client call-back."""
        t = CUR
        if t is None:
            return
        if t.visit is not None:
            self.visit(t, kind)
        f = t.fault
        if f is not None and (f[0] == kind or f[0] == 'cb'):
            f[1] -= 1
            if f[1] <= 0:
                cs = RAISE_NL if NLOOKUP else RAISE
                exc = cs[(f[2] if len(f) > 2 else 0) % len(cs)](f'{kind} call-back')
                self._fire(t, kind, exc)
                raise exc
        self.point('cbp')


# --------------------------------------------------------------------- locks
LOCKS = []

def process_died():
    "Locks are memory: a restarted process finds every one of them free."
    for l in LOCKS:
        l._at_fork_reinit()


class SimLock:
    """Stands in for threading.Lock / RLock created by the package."""
    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0
        self.waiters = []
        LOCKS.append(self)
        if S is not None:
            S.lockno += 1
            self.no = S.lockno
        else:
            self.no = 0
    def _who(self):
        return CUR if CUR is not None else 'main'
    def acquire(self, blocking=True, timeout=-1):
        me = self._who()
        sim = S
        if me != 'main':
            sim.stat('lock_ops')
            sim.point('lockp')
        deadline = None
        if timeout is not None and timeout >= 0 and sim is not None:
            deadline = sim.now + timeout
        while True:
            if self.owner is None:
                self.owner = me
                self.depth = 1
                if me != 'main':
                    sim.event('acq', me.id, self.no)
                return True
            if self.reentrant and self.owner is me:
                self.depth += 1
                return True
            if not blocking:
                return False
            if me == 'main':
                if self.owner is None:
                    continue
                if sim is not None and any(t.state != 'done' for t in sim.tasks):
                    raise Violation('force', f'a reading that needs no lazy value waits for lock #{self.no}, held by '
                                    f'{getattr(self.owner, "id", self.owner)}')
                raise Violation('lock-leaked', f'lock #{self.no} is still held by '
                                f'{getattr(self.owner, "id", self.owner)} after every task ended')
            if deadline is not None and sim.now >= deadline:
                return False
            self.waiters.append(me)
            sim.stat('lock_contended')
            f = me.fault
            if f is not None and f[0] == 'lockintr':
                # An interrupt arrives some time into the wait.
                tmo = f[1] * 0.5
            else:
                f = tmo = None
            if deadline is not None:
                rest = deadline - sim.now
                if tmo is None or rest < tmo:
                    f, tmo = None, rest
            sim.block(f'lock #{self.no} held by task'
                      f'{getattr(self.owner, "id", self.owner)}', tmo)
            if me in self.waiters:      # not woken by release: the timer fired
                self.waiters.remove(me)
                if f is not None and f is me.fault:
                    sim._fire(me, 'lockintr', SimInterrupt('while waiting for a lock'))
                    raise me.fired
    def release(self):
        me = self._who()
        if self.owner is None or (self.reentrant and self.owner is not me):
            raise RuntimeError('cannot release un-acquired lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            for w in self.waiters:
                if w.state == 'block':
                    w.state = 'run'
                    w.wake = None
            self.waiters = []
        if me != 'main':
            S.event('rel', me.id, self.no, self.depth)
            S.point('lockp')
    def locked(self):
        return self.owner is not None
    def __enter__(self):
        self.acquire()
        return self
    def __exit__(self, *a):
        self.release()
    # what threading.Condition asks of an RLock
    def _is_owned(self):
        return self.owner is self._who()
    def _release_save(self):
        d = self.depth
        self.depth = 1
        self.release()
        return d
    def _acquire_restore(self, d):
        self.acquire()
        self.depth = d
    def _at_fork_reinit(self):
        self.owner = None
        self.depth = 0
        self.waiters = []
    def __repr__(self):
        return f'<SimLock #{self.no}>'


def _patch_runtime():
    mk_lock = lambda: SimLock(False)
    mk_rlock = lambda: SimLock(True)
    threading.Lock = mk_lock
    threading.RLock = mk_rlock
    threading._RLock = mk_rlock
    threading._CRLock = mk_rlock
    threading._allocate_lock = mk_lock
    _thread.allocate_lock = mk_lock
    _thread.allocate = mk_lock
    _thread.RLock = mk_rlock
    def clock():
        return S.now if S is not None else 0.0
    def clock_ns():
        return int(clock() * 1e9)
    time.time = time.monotonic = time.perf_counter = clock
    time.time_ns = time.monotonic_ns = time.perf_counter_ns = clock_ns
    def sleep(d):
        if S is not None:
            S.sleep(d)
    time.sleep = sleep
    os.urandom = lambda n: random.Random(n).randbytes(n)
