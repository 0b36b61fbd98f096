"""Simulation context: one per simulated run.

Everything a run decides comes from the case (a JSON document) and the
pseudo-random generators seeded by it; nothing here reads a clock, and logging
never draws from a generator.
"""
import builtins
import hashlib
import json
import os
import random
import sys
import threading
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src') + os.sep
PKG = os.path.join(REPO, 'src', 'sympkf') + os.sep
TESTS = os.path.join(PKG, 'symbolic', 'test') + os.sep
GEN_PREFIX = '<simgen'


class SimHang(BaseException):
    """The simulated system can make no progress (deadlock / lost task)."""


class SimCrash(BaseException):
    """The simulated process died here; nothing after this point runs for real."""


class HarnessError(Exception):
    """A fault of the harness, never of the code under test."""


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f'{cls}: {msg}')
        self.cls = cls
        self.msg = msg


CTX = None  # the active context of this (forked) process


def stable_hash(*items):
    h = hashlib.blake2b(digest_size=8)
    for it in items:
        h.update(str(it).encode())
        h.update(b'\0')
    return int.from_bytes(h.digest(), 'big')


def rng_for(*items):
    return random.Random(stable_hash(*items))


class Ctx:
    """Seams, fault points, event log and counters of one run."""

    def __init__(self, case):
        self.case = case
        self.rng = rng_for('run', case.get('seed', 0))
        self.stats = {}
        self._h = hashlib.blake2b(digest_size=16)
        self._sched = hashlib.blake2b(digest_size=16)
        self.nevents = 0
        self.trace = []
        self.salt = case.get('salt', 0)
        self.points = 0            # sim points seen since hooks were switched on
        self.func_counts = None    # profile: qualname -> count
        self.faults = []           # armed faults: dicts func/occ/kind
        self.sched = None          # thread scheduler
        self.dead = False          # after a simulated crash
        self.step_cap = None
        self.simtime = 0.0
        self.world = None          # simulated pools
        self.fired_with_workers = False
        self.evictions = None      # cache evictions of a session

    # ---- log and counters -------------------------------------------------
    def log(self, *items):
        s = ' '.join(str(i) for i in items)
        self._h.update(s.encode('utf8', 'replace') + b'\n')
        self.nevents += 1
        if len(self.trace) < 400:
            self.trace.append(s[:300])

    def sched_log(self, *items):
        """Schedule / fault decision: goes to both digests."""
        s = ' '.join(str(i) for i in items)
        self._sched.update(s.encode() + b'\n')
        self.log('sched', s)

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def digest(self):
        return self._h.hexdigest()

    def sched_digest(self):
        return self._sched.hexdigest()

    def check(self, cond, cls, msg=''):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)

    # ---- calls into the code under test ------------------------------------
    def call(self, fn, *a, **k):
        """Run fn; return ('ok', value) or ('exc', exception)."""
        try:
            return 'ok', fn(*a, **k)
        except (Violation, HarnessError, SimHang, SimCrash):
            raise
        except BaseException as e:  # noqa
            return 'exc', e

    def must(self, cls, what, fn, *a, **k):
        """A call that has to succeed: an exception is a violation."""
        st, v = self.call(fn, *a, **k)
        if st == 'exc':
            raise Violation(cls, f'{what} raised {type(v).__name__}: {str(v)[:300]}')
        return v

    # ---- sim points ----------------------------------------------------------
    def hooks(self):
        return _Hooks(self)

    def arm(self, faults):
        """faults: list of {'func','occ','kind'}; occurrence counts from now."""
        self.faults = [dict(f) for f in faults]
        self._fcount = {}

    def disarm(self):
        n = len(self.faults)
        self.faults = []
        return n

    def profile(self):
        self.func_counts = {}

    def end_profile(self):
        fc, self.func_counts = self.func_counts, None
        return fc

    def point(self, code, line):
        self.points += 1
        if self.step_cap is not None and self.points > self.step_cap:
            self.step_cap = None
            raise SimHang('step budget exceeded')
        name = code.co_qualname
        fc = self.func_counts
        if fc is not None:
            fc[name] = fc.get(name, 0) + 1
        if self.faults:
            c = self._fcount.get(name, 0) + 1
            self._fcount[name] = c
            for f in self.faults:
                if f['func'] == name and f['occ'] == c:
                    self.faults.remove(f)
                    self.fire(f, name, line)
                    break
        if self.evictions is not None and self.evictions['on']:
            self._evict(code, line)
        if self.sched is not None:
            self.sched.at_point(code, line)

    def evict_start(self, plan):
        """plan: {'rate', 'seed', 'cap'} or {'at': [numbers of points]}; counted over the session."""
        self.evictions = {'n': 0, 'at': set(plan['at']) if 'at' in plan else None, 'done': [], 'on': True,
                          'rng': random.Random(plan.get('seed', 0)), 'rate': plan.get('rate', 0), 'cap': plan.get('cap', 0)}

    def _evict(self, code, line):
        e = self.evictions
        n = e['n']
        e['n'] += 1
        if e['at'] is None:
            if not (e['rng'].random() < e['rate'] and len(e['done']) < e['cap']):
                return
        elif n not in e['at']:
            return
        e['done'].append(n)
        self.count('fault.evict')
        self.sched_log('evict', n, code.co_qualname)
        from sympy.core.cache import clear_cache
        e['on'] = False
        try:
            clear_cache()
        finally:
            e['on'] = True

    def fire(self, f, name, line):
        kind = f['kind']
        self.count('fault.' + kind)
        self.sched_log('fault', kind, name, f['occ'])
        if self.world is not None and self.world.alive():
            self.fired_with_workers = True
        if kind == 'interrupt':
            raise KeyboardInterrupt('sim')
        if kind == 'memory':
            raise MemoryError('sim')
        if kind == 'recursion':
            raise RecursionError('sim')
        if kind == 'evict':
            from sympy.core.cache import clear_cache
            clear_cache()
            return
        if kind == 'crash':
            self.dead = True
            raise SimCrash('sim')
        raise HarnessError('unknown fault kind ' + kind)


def resolve_faults(profile, specs, only=None):
    """Turn (func_frac, occ_frac, kind) into (func, occ, kind) against a profile.

    A function is drawn uniformly among the visited ones, then an occurrence
    within it, so that rarely executed code is hit as often as hot helpers."""
    names = sorted(profile)
    if only:
        sel = [n for n in names if any(n.startswith(o) for o in only)]
        names = sel or names
    out = []
    for s in specs:
        if 'func' in s:
            out.append(s)
            continue
        if not names:
            continue
        n = names[int(s['ff'] * len(names)) % len(names)]
        occ = 1 + int(s['of'] * profile[n]) % max(1, profile[n])
        out.append({'func': n, 'occ': occ, 'kind': s['kind']})
    return out


def resolve_targets(profile, few, prefer):
    """Turn [function fraction, hit fraction, thread, preferred] into preemption targets against a profile."""
    names = sorted(profile)
    pref = [n for n in names if any(n.startswith(o) for o in prefer)] or names
    out = []
    for ff, of, th, only in few:
        pool = pref if only else names
        if only:
            # longer functions more often, not in proportion
            w = [profile[n] ** 0.5 for n in pool]
            left = ff * sum(w)
            n = pool[-1]
            for n, x in zip(pool, w):
                left -= x
                if left <= 0:
                    break
        else:
            n = pool[int(ff * len(pool)) % len(pool)]
        out.append([n, int(of * profile[n]), th])
    return out


# ---------------------------------------------------------------------------
# line hooks through sys.monitoring
# ---------------------------------------------------------------------------
TOOL = 3
_mon = sys.monitoring


def _wanted(code):
    f = code.co_filename
    return (f.startswith(PKG) and not f.startswith(TESTS)) or f.startswith(GEN_PREFIX)


def _on_line(code, line):
    if not _wanted(code):
        return _mon.DISABLE
    ctx = CTX
    if ctx is None or ctx.dead:
        return
    ctx.point(code, line)


def install_monitoring():
    _mon.use_tool_id(TOOL, 'sympkf-sim')
    _mon.register_callback(TOOL, _mon.events.LINE, _on_line)


class coverage:
    """Source lines of sympkf executed, appended to a file of a directory (a tool of development; off by default)."""
    TOOL = 4

    def __init__(self, directory):
        self.directory = directory
        self.hit = {}

    def __enter__(self):
        if self.directory:
            _mon.use_tool_id(self.TOOL, 'sympkf-cov')
            _mon.register_callback(self.TOOL, _mon.events.LINE, self._line)
            _mon.set_events(self.TOOL, _mon.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(PKG):
            self.hit[code.co_filename[len(PKG):], line] = 1
        return _mon.DISABLE

    def __exit__(self, *a):
        if self.directory:
            _mon.set_events(self.TOOL, 0)
            with open(os.path.join(self.directory, f'{os.getpid()}.txt'), 'w') as f:
                f.writelines(f'{a}:{b}\n' for a, b in self.hit)
        return False


class _Hooks:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        _mon.set_events(TOOL, _mon.events.LINE)
        return self.ctx

    def __exit__(self, *a):
        _mon.set_events(TOOL, 0)
        return False


# ---------------------------------------------------------------------------
# set-iteration order seam
# ---------------------------------------------------------------------------
_native_set = builtins.set
_MASK = (1 << 64) - 1


def _order_key(salt, obj):
    if type(obj).__hash__ is object.__hash__:
        return 0
    h = (hash(obj) & _MASK) ^ salt
    h = (h * 0x9E3779B97F4A7C15) & _MASK
    h ^= h >> 29
    h = (h * 0xBF58476D1CE4E5B9) & _MASK
    return h ^ (h >> 32)


class _SimSetMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _native_set)

    def __subclasscheck__(cls, c):
        return issubclass(c, _native_set)


class SimSet(_native_set, metaclass=_SimSetMeta):
    """A set whose iteration order is a salted hash chosen by the simulator.

    Legal: the order of a set is unspecified and varies with PYTHONHASHSEED;
    stable for a given content, as for a real set."""
    __slots__ = ()

    def _ordered(self):
        items = list(_native_set.__iter__(self))
        salt = CTX.salt if CTX is not None else 0
        if salt and len(items) > 1:
            items.sort(key=lambda o: _order_key(salt, o))
            CTX.count('setorder.iterations')
        return items

    def __iter__(self):
        return iter(self._ordered())

    def pop(self):
        items = self._ordered()
        if not items:
            raise KeyError('pop from an empty set')
        self.remove(items[0])
        return items[0]

    def __reduce__(self):
        return (_native_set, (list(_native_set.__iter__(self)),))


def _wrap(name):
    op = getattr(_native_set, name)

    def f(self, *a):
        r = op(self, *a)
        if type(r) is _native_set:
            r = SimSet(r)
        return r
    f.__name__ = name
    return f


for _n in ('copy', 'union', 'difference', 'intersection', 'symmetric_difference',
           '__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__', '__rsub__', '__rxor__'):
    setattr(SimSet, _n, _wrap(_n))


def install_set_seam():
    import sympy
    from sympy.core.basic import Basic
    orig = Basic.atoms

    def atoms(self, *types_):
        r = orig(self, *types_)
        ctx = CTX
        if ctx is not None and ctx.salt and type(r) is _native_set:
            g = sys._getframe(1).f_globals.get('__name__', '')
            if g.startswith('sympkf'):
                return SimSet(r)
        return r
    Basic.atoms = atoms
    # the matrix classes have their own atoms()
    for cls in {sympy.MatrixBase if hasattr(sympy, 'MatrixBase') else sympy.matrices.MatrixBase}:
        if 'atoms' in cls.__dict__:
            o2 = cls.atoms

            def matoms(self, *types_, _o=o2):
                r = _o(self, *types_)
                ctx = CTX
                if ctx is not None and ctx.salt and type(r) is _native_set:
                    g = sys._getframe(1).f_globals.get('__name__', '')
                    if g.startswith('sympkf'):
                        return SimSet(r)
                return r
            cls.atoms = matoms
    for name, mod in list(sys.modules.items()):
        if name.startswith('sympkf') and isinstance(mod, types.ModuleType) and 'set' not in mod.__dict__:
            mod.__dict__['set'] = SimSet


# ---------------------------------------------------------------------------
# cooperative scheduling of real threads, one running at a time
# ---------------------------------------------------------------------------
class ThreadSched:
    """Runs thunks in real threads; decides at every sim point who runs.

    mode: {'p': probability, 'hot': fraction of code objects where switches are
    frequent}, or {'targets': [[function, hit, thread], ...]}: few preemptions, at
    chosen hits of chosen functions, or {'switches': [[point_index, thread], ...],
    'choices': [thread, ...]} for replay."""

    def __init__(self, ctx, thunks, mode):
        self.ctx = ctx
        self.n = len(thunks)
        self.thunks = thunks
        self.sems = [threading.Semaphore(0) for _ in thunks]
        self.main = threading.Semaphore(0)
        self.state = ['ready'] * self.n
        self.results = [None] * self.n
        self.cur = None
        self.ids = {}
        self.k = 0
        self.mode = mode
        self.rng = rng_for('threads', ctx.case.get('seed', 0))
        self.recorded = []
        self.explicit = None
        if 'switches' in mode:
            self.explicit = {int(a): int(b) for a, b in mode['switches']}
        self.targets = {}
        self.hits = {}
        for func, nth, th in mode.get('targets', []):
            self.targets.setdefault(func, {})[int(nth)] = int(th)
        self.choices = []
        self.given = list(mode.get('choices', []))
        self.hot = {}
        self.nswitch = 0
        self.hang = None

    def _runnable(self):
        return [i for i in range(self.n) if self.state[i] == 'ready']

    def _hotp(self, code):
        k = code.co_qualname
        p = self.hot.get(k)
        if p is None:
            r = rng_for('hot', self.ctx.case.get('seed', 0), k).random()
            p = self.mode.get('p', 0.05) if r < self.mode.get('hot', 0.5) else self.mode.get('p', 0.05) * 0.05
            self.hot[k] = p
        return p

    def at_point(self, code, line):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        k = self.k
        self.k += 1
        nxt = me
        if self.explicit is not None:
            nxt = self.explicit.get(k, me)
            if nxt >= self.n or self.state[nxt] != 'ready':
                nxt = me
        elif 'targets' in self.mode:
            func = code.co_qualname
            if func in self.targets:
                h = self.hits[func] = self.hits.get(func, -1) + 1
                if h in self.targets[func]:
                    others = [i for i in self._runnable() if i != me]
                    if others:
                        nxt = others[self.targets[func][h] % len(others)]
        else:
            others = [i for i in self._runnable() if i != me]
            if others and self.rng.random() < self._hotp(code):
                nxt = others[int(self.rng.random() * len(others))]
        if nxt != me:
            self.recorded.append([k, nxt])
            self._switch(me, nxt, f'{code.co_qualname}')

    def _switch(self, me, nxt, where=''):
        self.nswitch += 1
        self.ctx.sched_log('switch', me, nxt, where)
        self.cur = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()
        if self.hang:
            raise SimHang(self.hang)

    def _choose(self, among):
        """Who goes on when the running thread cannot."""
        if self.explicit is not None:
            i = self.given.pop(0) if self.given else among[0]
            return i if i in among else among[0]
        i = among[int(self.rng.random() * len(among))]
        self.choices.append(i)
        return i

    # a simulated lock could not be taken
    def block(self):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return False
        others = [i for i in self._runnable() if i != me]
        self.blockcount = getattr(self, 'blockcount', 0) + 1
        if not others or self.blockcount > 200000:
            self.hang = 'all threads blocked on locks'
            raise SimHang(self.hang)
        self._switch(me, self._choose(others), 'lock')
        return True

    def _body(self, i):
        self.sems[i].acquire()
        self.ids[threading.get_ident()] = i
        try:
            if self.hang:
                raise SimHang(self.hang)
            self.results[i] = ('ok', self.thunks[i]())
        except BaseException as e:  # noqa
            self.results[i] = ('exc', e)
            if isinstance(e, SimHang):
                self.hang = str(e) or 'hang'
        self.state[i] = 'done'
        r = self._runnable()
        if r:
            nxt = self._choose(r)
            self.ctx.sched_log('end', i, nxt)
            self.cur = nxt
            self.sems[nxt].release()
        else:
            self.ctx.sched_log('end', i)
            self.main.release()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for th in ths:
            th.start()
        first = self.mode.get('first')
        if first is None:
            first = int(self.rng.random() * self.n)
        self.mode['first'] = first
        self.cur = first
        self.ctx.sched = self
        try:
            self.ctx.sched_log('start', first)
            self.sems[first].release()
            self.main.acquire()
        finally:
            self.ctx.sched = None
        for th in ths:
            th.join(5)
        self.ctx.count('threads.switches', self.nswitch)
        if self.hang:
            raise SimHang(self.hang)
        return self.results


class SimLock:
    """Lock created by the code under test; blocks through the scheduler."""

    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        ctx = CTX
        s = ctx.sched if ctx else None
        if s is None or threading.get_ident() not in s.ids:
            return self._l.acquire(blocking, timeout)
        while True:
            if self._l.acquire(False):
                return True
            if not blocking:
                return False
            s.block()

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __getattr__(self, n):
        return getattr(self._l, n)


def install_lock_seam():
    for name in ('Lock', 'RLock'):
        orig = getattr(threading, name)

        def make(*a, _o=orig, **k):
            l = _o(*a, **k)
            f = sys._getframe(1)
            if f.f_globals.get('__name__', '').startswith('sympkf'):
                return SimLock(l)
            return l
        setattr(threading, name, make)


def jdump(o):
    return json.dumps(o, sort_keys=True, default=str)
