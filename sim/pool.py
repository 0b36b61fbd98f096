"""Simulated process and thread pools.

Worker processes are real forked children (real memory isolation, real
pickling of tasks and results) that never run by themselves: the simulator
hands a task to one of them, waits for its answer, and only then decides what
happens next.  Task durations, the worker that takes the next task, worker
deaths, failed forks and user interrupts are drawn from the run's seed on a
discrete-event clock.  Semantics follow CPython 3.12: a Pool whose worker dies
never answers, an executor becomes broken, and so on.
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import concurrent.futures.thread as cft
import functools
import heapq
import itertools
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import signal
import struct
import sys
import time as _time

from . import core
from .core import SimHang

_real = {}


def _active():
    return core.CTX is not None and getattr(core.CTX, 'pool_cfg', None) is not None


# ---------------------------------------------------------------------------
# workers
# ---------------------------------------------------------------------------
class RemoteTraceback(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


def _rebuild(e, tb):
    e.__cause__ = RemoteTraceback(tb)
    return e


class _Exc:
    def __init__(self, e, tb='worker'):
        self.e, self.tb = e, tb

    def __reduce__(self):
        return _rebuild, (self.e, self.tb)


class MaybeEncodingError(Exception):
    pass


class Worker:
    """A forked child that runs one task at a time on request."""

    def __init__(self, world, inproc=False, init=None):
        self.world = world
        self.inproc = inproc
        self.dead = False
        self.exitcode = None
        self.busy = None
        self.name = f'worker-{world.nworkers}'
        self.no = world.nworkers
        world.nworkers += 1
        self.pid = 100000 + self.no
        self.daemon = True
        if not inproc:
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1)
                    os.close(r2)
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    self._loop(r1, w2, init)
                finally:
                    os._exit(0)
            os.close(r1)
            os.close(w2)
            self._pid, self._w, self._r = pid, w1, r2
        elif init:
            init[0](*init[1])
        world.all_workers.append(self)

    # child side
    def _loop(self, r, w, init):
        core.CTX.pool_cfg = None
        core.CTX.faults = []
        core.CTX.in_worker = True
        if init:
            init[0](*init[1])
        while True:
            n = self._read(r, 4)
            if n is None:
                return
            data = self._read(r, struct.unpack('>I', n)[0])
            out = _execute(data)
            os.write(w, struct.pack('>I', len(out)))
            mv = memoryview(out)
            while mv:
                k = os.write(w, mv)
                mv = mv[k:]

    @staticmethod
    def _read(fd, n):
        buf = b''
        while len(buf) < n:
            c = os.read(fd, n - len(buf))
            if not c:
                return None
            buf += c
        return buf

    # parent side
    def run(self, data):
        mv = memoryview(struct.pack('>I', len(data)) + data)
        while mv:
            mv = mv[os.write(self._w, mv):]
        n = self._read(self._r, 4)
        if n is None:
            return None
        return self._read(self._r, struct.unpack('>I', n)[0])

    def _kill(self, code):
        if self.dead:
            return
        self.dead = True
        self.exitcode = code
        if not self.inproc:
            try:
                os.kill(self._pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(self._pid, 0)
            os.close(self._w)
            os.close(self._r)

    def finish(self):
        self._kill(0)

    # the Process interface
    def terminate(self):
        self._kill(-15)

    def kill(self):
        self._kill(-9)

    def is_alive(self):
        return not self.dead

    def join(self, timeout=None):
        if not self.dead:
            if timeout is None:
                raise SimHang('join on a worker that never exits')

    def close(self):
        pass

    sentinel = -1


def _execute(data):
    """Run one pickled task; the answer is pickled as CPython does."""
    execlike, star = False, None
    try:
        execlike, f, chunk, star = pickle.loads(data)
        if star == 'map':
            val = list(map(f, chunk))            # as multiprocessing.pool.mapstar
        elif star == 'starmap':
            val = list(itertools.starmap(f, chunk))
        elif star == 'chunk':
            val = [f(*a) for a in chunk]         # as concurrent.futures _process_chunk
        else:
            val = f(*chunk[0], **chunk[1])
        res = (True, val)
    except SimHang as e:
        return pickle.dumps(('simhang', str(e)))
    except Exception as e:  # noqa
        res = (False, _Exc(e))
    except BaseException as e:  # noqa: KeyboardInterrupt/SystemExit
        if star != 'chunk' and not execlike and isinstance(e, (KeyboardInterrupt, SystemExit)):
            return pickle.dumps(('exit', type(e).__name__))
        res = (False, _Exc(e))
    try:
        inner = pickle.dumps(res)
    except Exception as e:  # noqa
        inner = pickle.dumps((False, _Exc(MaybeEncodingError(str(e)))))
    return pickle.dumps(('res', inner))


class World:
    """All pools of one simulated run, and their clock."""

    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.cfg = cfg
        self.rng = core.rng_for('pool', ctx.case.get('seed', 0))
        self.all_workers = []
        self.nworkers = 0
        self.spawned = 0
        self.ntasks = 0
        self.events = 0
        self.faults = [dict(f) for f in cfg.get('faults', [])]
        self.straggler = cfg.get('straggler', 0.2)
        self.engines = []

    @property
    def now(self):
        return self.ctx.simtime

    def take(self, kind, **match):
        for f in self.faults:
            if f['kind'] == kind and all(f.get(k) == v for k, v in match.items()):
                self.faults.remove(f)
                self.ctx.count('fault.' + kind)
                self.ctx.sched_log('fault', kind, sorted(match.items()))
                return f
        return None

    def spawn(self, inproc=False, init=None):
        k = self.spawned
        self.spawned += 1
        if not inproc and self.take('spawn_fail', nth=k):
            raise BlockingIOError(11, 'Resource temporarily unavailable')
        self.ctx.count('workers.spawned')
        return Worker(self, inproc, init)

    def duration(self):
        r = self.rng.random()
        d = 0.5 + self.rng.random()
        if r < self.straggler:
            d *= 20
        return d

    def alive(self):
        return [w for w in self.all_workers if not w.dead]

    def end(self):
        for w in self.alive():
            w._kill(-9)

    def tick(self):
        """One event was delivered to the caller's process."""
        self.events += 1
        self.ctx.count('pool.events')
        if self.take('kbd', at=self.events):
            raise KeyboardInterrupt('sim')


class Task:
    def __init__(self, no, payload, done):
        self.no, self.payload, self.done = no, payload, done
        self.state = 'queued'


class Engine:
    """Discrete-event core shared by Pool and executor."""

    def __init__(self, world, n, inproc, kind, init=None, maxtasks=None):
        self.world = world
        self.inproc = inproc
        self.kind = kind
        self.workers = []
        self.queue = []
        self.heap = []
        self.seq = itertools.count()
        self.maxtasks = maxtasks
        self.init = init
        self.result_dead = False
        self.broken = None
        self.closed = False
        self.n = n
        world.engines.append(self)
        if len(world.engines) > 120:
            raise SimHang('starting pools again and again')

    def start(self):
        for _ in range(len(self.workers), self.n):
            self.workers.append(self.world.spawn(self.inproc, self.init))

    def submit(self, f, chunk, star, done):
        t = Task(self.world.ntasks, None, done)
        self.world.ntasks += 1
        if self.inproc:
            t.payload = (f, chunk, star)
        else:
            try:
                t.payload = pickle.dumps((self.kind == 'exec', f, chunk, star))
            except Exception as e:  # noqa
                t.state = 'done'
                done(False, e)
                return t
        self.queue.append(t)
        return t

    def _dispatch(self):
        w = self.world
        while self.queue:
            idle = [x for x in self.workers if not x.dead and x.busy is None]
            if not idle:
                return
            x = idle[int(w.rng.random() * len(idle))]
            t = self.queue.pop(0)
            if t.state == 'cancelled':
                continue
            x.busy = t
            t.state = 'running'
            d = w.duration()
            heapq.heappush(self.heap, (w.now + d, next(self.seq), x, t))
            w.ctx.sched_log('task', t.no, 'worker', x.no, f'{w.now:.3f}')

    def step(self, until=None):
        """Advance to the next event; False if there is none (before `until`)."""
        w = self.world
        self._dispatch()
        while self.heap and self.heap[0][2].dead:
            heapq.heappop(self.heap)
        if not self.heap or (until is not None and self.heap[0][0] > until):
            if until is not None:
                w.ctx.simtime = max(w.ctx.simtime, until)
            return False
        end, _, x, t = heapq.heappop(self.heap)
        w.ctx.simtime = max(w.ctx.simtime, end)
        x.busy = None
        if not self.inproc and w.take('kill', task=t.no):
            x._kill(-9)
            w.ctx.sched_log('killed', x.no, t.no)
            self.on_death(x, t)
            w.tick()
            return True
        if self.inproc:
            f, chunk, star = t.payload
            try:
                if star == 'map':
                    v = list(map(f, chunk))
                elif star == 'starmap':
                    v = list(itertools.starmap(f, chunk))
                elif star == 'chunk':
                    v = [f(*a) for a in chunk]
                else:
                    v = f(*chunk[0], **chunk[1])
                ok, val = True, v
            except SimHang:
                raise
            except BaseException as e:  # noqa
                ok, val = False, e
            w.ctx.sched_log('done', t.no, 'worker', x.no, ok)
            t.state = 'done'
            t.done(ok, val)
            w.tick()
            return True
        raw = x.run(t.payload)
        if raw is None:
            x._kill(-9)
            self.on_death(x, t)
            w.tick()
            return True
        tag, inner = pickle.loads(raw)
        if tag == 'simhang':
            raise SimHang('in worker: ' + inner)
        if tag == 'exit':
            x._kill(1)
            self.on_death(x, t)
            w.tick()
            return True
        try:
            ok, val = pickle.loads(inner)
        except BaseException as e:  # noqa
            w.ctx.count('fault.unpickle')
            w.ctx.sched_log('unpickle', t.no)
            self.on_unpickle(x, t, e)
            w.tick()
            return True
        w.ctx.sched_log('done', t.no, 'worker', x.no, ok)
        t.state = 'done'
        t.done(ok, val)
        w.tick()
        return True

    def on_death(self, x, t):
        if self.kind == 'pool':
            t.state = 'lost'             # Pool: nobody notices
            if not self.closed:
                self.workers.append(self.world.spawn(self.inproc, self.init))
        else:
            self.mark_broken('A process in the process pool was terminated abruptly '
                             'while the future was running or pending.', t)

    def on_unpickle(self, x, t, e):
        if self.kind == 'pool':
            t.state = 'lost'
            self.result_dead = True      # the result thread died
        else:
            self.mark_broken(f'result handler: {type(e).__name__}', t)

    def mark_broken(self, msg, t=None):
        self.broken = msg
        pend = [] if t is None else [t]
        pend += [x.busy for x in self.workers if x.busy is not None and x.busy is not t]
        pend += [q for q in self.queue if q.state == 'queued']
        self.queue = []
        for x in self.workers:
            x._kill(-15)
        for q in pend:
            if q.state != 'done':
                q.state = 'done'
                q.done(False, cfp.BrokenProcessPool(msg))

    def run_until(self, cond, timeout=None):
        until = None if timeout is None else self.world.now + timeout
        n = 0
        while not cond():
            n += 1
            if n > 100000:
                raise SimHang('event budget exceeded')
            if self.result_dead:
                if until is not None:
                    self.world.ctx.simtime = max(self.world.now, until)
                    return False
                raise SimHang('the result thread of the pool has died')
            if not self.step(until):
                if until is not None:
                    return False
                raise SimHang('waiting for a task that will never finish')
        return True

    def drain(self):
        while not self.result_dead and self.step():
            pass

    def terminate(self):
        self.queue = []
        self.heap = []
        for x in self.workers:
            x._kill(-15)


def _world():
    ctx = core.CTX
    w = ctx.world
    if w is None:
        w = ctx.world = World(ctx, ctx.pool_cfg)
    return w


# ---------------------------------------------------------------------------
# multiprocessing.Pool
# ---------------------------------------------------------------------------
class SimAsyncResult:
    def __init__(self, pool, n, callback=None, error_callback=None, single=False):
        self.pool = pool
        self.vals = [None] * n
        self.left = n
        self.ok = True
        self.err = None
        self.single = single
        self.cb, self.ecb = callback, error_callback

    def _done(self, i, ok, val):
        if ok and self.ok:
            self.vals[i] = val
        elif not ok and self.ok:
            self.ok, self.err = False, val
        self.left -= 1
        if self.left == 0:
            if self.ok and self.cb:
                self.cb(self._value())
            if not self.ok and self.ecb:
                self.ecb(self.err)

    def _value(self):
        if self.single:
            return self.vals[0]
        return list(itertools.chain.from_iterable(self.vals))

    def ready(self):
        return self.left == 0

    def successful(self):
        if not self.ready():
            raise ValueError(f'{self!r} not ready')
        return self.ok

    def wait(self, timeout=None):
        self.pool._e.run_until(self.ready, timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self.ready():
            raise multiprocessing.TimeoutError
        if self.ok:
            return self._value()
        raise self.err


class SimPool:
    _inproc = False

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = 8
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        init = (initializer, initargs) if initializer else None
        self._e = Engine(_world(), processes, self._inproc, 'pool', init)
        self._processes = processes
        self._state = 'RUN'
        try:
            self._e.start()
        except Exception:
            self._e.terminate()
            raise

    @property
    def _pool(self):
        return self._e.workers

    def _check(self):
        if self._state != 'RUN':
            raise ValueError('Pool not running')

    def _chunks(self, it, chunksize):
        it = list(it)
        if chunksize is None:
            chunksize, extra = divmod(len(it), self._processes * 4)
            if extra:
                chunksize += 1
        if not it:
            return []
        if chunksize < 1:
            raise ValueError('chunksize')
        return [it[i:i + chunksize] for i in range(0, len(it), chunksize)]

    def _map_async(self, f, it, star, chunksize, cb, ecb):
        self._check()
        ch = self._chunks(it, chunksize)
        r = SimAsyncResult(self, len(ch), cb, ecb)
        for i, c in enumerate(ch):
            self._e.submit(f, c, star, functools.partial(r._done, i))
        return r

    def map(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, 'map', chunksize, None, None).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, 'map', chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, 'starmap', chunksize, None, None).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, 'starmap', chunksize, callback, error_callback)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        r = SimAsyncResult(self, 1, callback, error_callback, single=True)
        self._e.submit(func, (args, kwds), 'call', functools.partial(r._done, 0))
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _imap(self, func, iterable, chunksize, ordered):
        self._check()
        if chunksize < 1:
            raise ValueError('chunksize')
        items = list(iterable)
        ch = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        got, order = {}, []

        def done(i, ok, val):
            got[i] = (ok, val)
            order.append(i)
        for i, c in enumerate(ch):
            self._e.submit(func, c, 'map', functools.partial(done, i))
        return SimIMap(self, len(ch), got, order, ordered)

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def close(self):
        if self._state == 'RUN':
            self._state = 'CLOSE'
            self._e.closed = True

    def terminate(self):
        self._state = 'TERMINATE'
        self._e.closed = True
        self._e.terminate()

    def join(self):
        if self._state == 'RUN':
            raise ValueError('Pool is still running')
        self._e.drain()
        if self._e.result_dead or any(w.busy is not None and not w.dead for w in self._e.workers):
            raise SimHang('join on a pool with lost tasks')
        for w in self._e.workers:
            if not w.dead:
                w.finish()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


class SimIMap:
    def __init__(self, pool, n, got, order, ordered):
        self.pool, self.n, self.got, self.order, self.ordered = pool, n, got, order, ordered
        self.i = 0
        self.buf = []

    def __iter__(self):
        return self

    def next(self, timeout=None):
        if self.buf:
            return self.buf.pop(0)
        if self.i >= self.n:
            raise StopIteration
        if self.ordered:
            k = self.i
            cond = lambda: k in self.got  # noqa
        else:
            cond = lambda: len(self.order) > self.i  # noqa
        if not self.pool._e.run_until(cond, timeout):
            raise multiprocessing.TimeoutError
        j = self.i if self.ordered else self.order[self.i]
        self.i += 1
        ok, val = self.got[j]
        if not ok:
            raise val
        self.buf = list(val)
        return self.next() if not self.buf else self.buf.pop(0)

    __next__ = next


class SimThreadPool(SimPool):
    _inproc = True

    def __init__(self, processes=None, initializer=None, initargs=()):
        super().__init__(processes, initializer, initargs)


# ---------------------------------------------------------------------------
# concurrent.futures executors
# ---------------------------------------------------------------------------
class SimFuture(cf.Future):
    _engine = None

    def _drive(self, timeout):
        if not self.done():
            self._engine.run_until(self.done, timeout)

    def result(self, timeout=None):
        self._drive(timeout)
        if not self.done():
            raise cf.TimeoutError()
        return super().result(0)

    def exception(self, timeout=None):
        self._drive(timeout)
        if not self.done():
            raise cf.TimeoutError()
        return super().exception(0)

    def cancel(self):
        t = getattr(self, '_task', None)
        if t is not None and t.state == 'queued':
            t.state = 'cancelled'
            return super().cancel()
        return self.cancelled()


class SimExecutor(cf.Executor):
    _inproc = False

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *,
                 max_tasks_per_child=None, thread_name_prefix=''):
        if max_workers is None:
            max_workers = 8
        if max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        init = (initializer, initargs) if initializer else None
        self._max_workers = max_workers
        self._e = Engine(_world(), max_workers, self._inproc, 'exec', init)
        self._down = False
        self._processes = {}

    def submit(self, fn, /, *args, **kwargs):
        return self._submit(fn, (args, kwargs), 'call')

    def _submit(self, fn, chunk, star):
        if self._e.broken:
            raise cfp.BrokenProcessPool(self._e.broken)
        if self._down:
            raise RuntimeError('cannot schedule new futures after shutdown')
        f = SimFuture()
        f._engine = self._e

        def done(ok, val):
            if f.cancelled() or f.done():
                return
            if ok:
                f.set_result(val)
            else:
                f.set_exception(val)
        f._task = self._e.submit(fn, chunk, star, done)
        # as CPython with fork: every worker is started at the first submit
        try:
            self._e.start()
        finally:
            self._processes.update((w.pid, w) for w in self._e.workers)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError('chunksize must be >= 1.')
        items = list(zip(*iterables))
        if self._inproc:
            chunksize = 1
        ch = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        end = None if timeout is None else _world().now + timeout
        fs = [self._submit(fn, c, 'chunk') for c in ch]

        def it():
            try:
                fs.reverse()
                while fs:
                    f = fs.pop()
                    try:
                        v = f.result() if end is None else f.result(max(0, end - _world().now))
                    except BaseException:
                        raise
                    yield from v
            finally:
                for f in fs:
                    f.cancel()
        return it()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self._down:
            return
        self._down = True
        if cancel_futures:
            for t in self._e.queue:
                t.state = 'cancelled'
        started = len(self._e.workers) >= self._e.n
        if started or self._inproc:
            if wait:
                self._e.drain()
            for w in self._e.workers:
                if not w.dead:
                    w.finish()
        # else: CPython never tells workers started before a failed fork to exit
        self._processes = None

    def terminate_workers(self):
        self._e.terminate()

    kill_workers = terminate_workers


class SimThreadExecutor(SimExecutor):
    _inproc = True

    def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
        super().__init__(max_workers, None, initializer, initargs)


def sim_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(fs)
    sim = [f for f in fs if isinstance(f, SimFuture)]
    if not sim:
        return _real['wait'](fs, timeout, return_when)

    def cond():
        d = [f for f in fs if f.done()]
        if return_when == cf.FIRST_COMPLETED and d:
            return True
        if return_when == cf.FIRST_EXCEPTION and any(not f.cancelled() and f.exception(0) for f in d):
            return True
        return len(d) == len(fs)
    sim[0]._engine.run_until(cond, timeout)
    d = {f for f in fs if f.done()}
    return cf._base.DoneAndNotDoneFutures(d, set(fs) - d)


def sim_as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    if not any(isinstance(f, SimFuture) for f in fs):
        yield from _real['as_completed'](fs, timeout)
        return
    out = []
    for f in fs:
        f.add_done_callback(out.append)
    k = 0
    e = next(f for f in fs if isinstance(f, SimFuture))._engine
    while k < len(fs):
        if len(out) <= k and not e.run_until(lambda: len(out) > k, timeout):
            raise cf.TimeoutError()
        yield out[k]
        k += 1


# ---------------------------------------------------------------------------
def _dispatch_cls(real, sim):
    """A class that builds the simulated pool when a simulation is active."""
    class Meta(type(real)):
        def __instancecheck__(cls, o):
            return isinstance(o, (real, sim))

        def __call__(cls, *a, **k):
            if _active():
                return sim(*a, **k)
            return real(*a, **k)
    return Meta(real.__name__, (real,), {'__doc__': real.__doc__})


def install():
    """To be called before the code under test is imported."""
    _real['wait'] = cf.wait
    _real['as_completed'] = cf.as_completed
    pool = _dispatch_cls(multiprocessing.pool.Pool, SimPool)
    tpool = _dispatch_cls(multiprocessing.pool.ThreadPool, SimThreadPool)
    real_ctx_pool = multiprocessing.context.BaseContext.Pool

    def ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if _active():
            return SimPool(processes, initializer, initargs, maxtasksperchild)
        return real_ctx_pool(self, processes, initializer, initargs, maxtasksperchild)
    multiprocessing.context.BaseContext.Pool = ctx_pool
    multiprocessing.Pool = multiprocessing.context._default_context.Pool
    multiprocessing.pool.Pool = pool
    multiprocessing.pool.ThreadPool = tpool
    ex = _dispatch_cls(cfp.ProcessPoolExecutor, SimExecutor)
    tex = _dispatch_cls(cft.ThreadPoolExecutor, SimThreadExecutor)
    cf.ProcessPoolExecutor = ex
    cf.ThreadPoolExecutor = tex
    cfp.ProcessPoolExecutor = ex
    cft.ThreadPoolExecutor = tex
    cf.wait = sim_wait
    cf.as_completed = sim_as_completed
    real_ac = multiprocessing.active_children

    def active_children():
        r = real_ac()
        if _active() and core.CTX.world:
            r = r + core.CTX.world.alive()
        return r
    multiprocessing.active_children = active_children
    # virtual time
    for name in ('sleep', 'time', 'monotonic', 'perf_counter'):
        _real[name] = getattr(_time, name)

    def sleep(s):
        if not _active():
            return _real['sleep'](s)
        ctx = core.CTX
        end = ctx.simtime + s
        w = ctx.world
        if w:
            for e in w.engines:
                while e.step(end):
                    pass
            ctx.sleeps = getattr(ctx, 'sleeps', 0) + 1
            if ctx.sleeps > 20000:
                raise SimHang('polling for ever')
        ctx.simtime = max(ctx.simtime, end)
    _time.sleep = sleep
    for name in ('time', 'monotonic', 'perf_counter'):
        def clock(_n=name):
            if not _active():
                return _real[_n]()
            core.CTX.simtime += 1e-6
            return 1.7e9 + core.CTX.simtime
        setattr(_time, name, clock)
