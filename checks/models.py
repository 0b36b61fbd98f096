"""Numerical models of the harness and an independent reference integrator."""
import sys
import types

import numpy as np

from sympkf.model import Model
from sympkf.model.model import LinearModel


class MemberError(Exception):
    pass


class BadUnpickle(Exception):
    """Pickles, but cannot be rebuilt by the receiver."""

    def __init__(self, a, b):
        super().__init__('bad')
        self.a, self.b = a, b


class NoPickle(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.f = lambda: 0


def make_exc(kind):
    return {'member': lambda: MemberError('injected'), 'value': lambda: ValueError('injected'),
            'arith': lambda: FloatingPointError('injected'), 'badunpickle': lambda: BadUnpickle(1, 2),
            'nopickle': lambda: NoPickle('injected'), 'key': lambda: KeyError('injected'),
            'stop': lambda: StopIteration('injected'), 'assert': lambda: AssertionError(),
            'memory': lambda: MemoryError('injected'), 'os': lambda: OSError(5, 'injected'), 'kbd': lambda: KeyboardInterrupt(),
            'exit': lambda: SystemExit(3)}[kind]()




class F:
    """A smooth random trend; component 0 of a state is a tag that never moves."""

    def __init__(self, seed, shape, lam=1.0, kind='smooth'):
        r = np.random.RandomState(seed % (2 ** 32))
        self.a = r.uniform(-1, 1, shape)
        self.b = r.uniform(-1, 1, shape)
        self.c = r.uniform(-1, 1, shape)
        self.w = float(r.uniform(0.5, 2))
        self.lam = lam
        self.kind = kind
        self.shape = tuple(shape)
        self.mask = np.ones(shape)
        if self.mask.size > 1:
            self.mask.flat[0] = 0.0
        self.const = self.lam * self.c * self.mask

    def __call__(self, t, state):
        if self.kind == 'owned':            # a forcing held by the model, returned as it is
            return self.const
        if self.kind == 'bcast':            # read-only array
            return np.broadcast_to(self.const, self.shape)
        if self.kind == 'alias':            # the state itself
            return state
        if self.kind == 'view':             # a view on the state
            return state[::-1] if np.ndim(state) else state
        s = np.asarray(state)
        out = self.lam * (self.a * np.sin(s * self.w) + self.b * np.cos(self.w * t) + self.c * 0.3 * t
                          + 0.2 * np.roll(s, 1) if s.ndim else
                          self.a * np.sin(s * self.w) + self.b * np.cos(self.w * t) + self.c * 0.3 * t)
        return out * self.mask


class Exact:
    """An exact update used in time splitting."""

    def __init__(self, seed, shape):
        r = np.random.RandomState((seed + 77) % (2 ** 32))
        self.k = r.uniform(0.1, 1.0, shape)
        if self.k.size > 1:
            self.k.flat[0] = 0.0

    def __call__(self, t, state, dt):
        return state * np.exp(-self.k * dt) + 0.0 * t


class Counted:
    """A part of a time splitting that fails at a chosen evaluation."""

    def __init__(self, inner, count, fail):
        self.inner, self.count, self.fail = inner, count, fail

    def __call__(self, *args):
        self.count['n'] += 1
        if self.count['at'] is not None and self.count['n'] == self.count['at']:
            self.fail()
        return self.inner(*args)

    def __reduce__(self):       # the workers receive the part itself
        return (_same, (self.inner,))


def _same(x):
    return x


class SimModel(Model):
    """Public subclass of the model template, with injected member failures."""

    def __init__(self, seed, shape, scheme='rk4', bad=None, kind='smooth', **kw):
        super().__init__(time_scheme=scheme, **kw)
        self.f = F(seed, shape, kind=kind)
        self.seed = seed
        self.shape = tuple(shape)
        self.bad = dict(bad or {})
        if scheme == 'splitting':
            g = F(seed + 1, shape, 0.7, kind)
            sch = [Model._rk4, Model._euler, Model._rk2][seed % 3]
            self.pieces = [{'trend': self.f, 'scheme': sch}, {'update': Exact(seed, shape)},
                           {'trend': g, 'scheme': Model._euler}]
            self.trend = self.pieces

    def trend(self, t, state):
        if self.bad:
            tag = int(round(float(np.asarray(state).flat[0])))
            b = self.bad.get(str(tag))
            if b is not None and t >= b['t'] - 1e-12:
                raise make_exc(b['exc'])
        return self.f(t, state)


SCHEMES = ['rk4', 'rk2', 'euler', 'leapfrog', 'splitting']


def ref_step(scheme, f, t, u, dt):
    """Independent statement of the schemes (Butcher tableaux)."""
    tab = {'euler': ([[]], [0], [1]), 'rk2': ([[], [0.5]], [0, 0.5], [0, 1]),
           'rk4': ([[], [0.5], [0, 0.5], [0, 0, 1]], [0, 0.5, 0.5, 1], [1 / 6, 1 / 3, 1 / 3, 1 / 6])}
    if scheme in tab:
        A, c, b = tab[scheme]
        k = []
        for i in range(len(c)):
            y = u
            for j, a in enumerate(A[i]):
                if a:
                    y = y + dt * a * k[j]
            k.append(np.asarray(f(t + c[i] * dt, y)))
        out = u
        for bi, ki in zip(b, k):
            if bi:
                out = out + dt * bi * ki
        return out
    if scheme == 'leapfrog':
        return [u[1], u[0] + 2 * dt * f(t, u[1])]
    if scheme == 'splitting':
        for p in f:
            if 'update' in p:
                u = p['update'](t, u, dt)
            else:
                name = {'_rk4': 'rk4', '_euler': 'euler', '_rk2': 'rk2'}[p['scheme'].__name__]
                u = ref_step(name, p['trend'], t, u, dt)
        return u
    raise ValueError(scheme)


def ref_trend(seed, shape, scheme, kind='smooth'):
    f = F(seed, shape, kind=kind)
    if scheme != 'splitting':
        return f
    sch = [Model._rk4, Model._euler, Model._rk2][seed % 3]
    return [{'trend': f, 'scheme': sch}, {'update': Exact(seed, shape)},
            {'trend': F(seed + 1, shape, 0.7, kind), 'scheme': Model._euler}]


def ref_forecast(scheme, f, window, u0, saved=None):
    out = {}
    u = u0
    w = [float(t) for t in window]
    for k, t in enumerate(w):
        out[t] = u
        if k + 1 < len(w):
            u = ref_step(scheme, f, t, u, w[k + 1] - t)
    if saved is not None:
        out = {float(s): out[float(s)] for s in saved}
    return out


def close(a, b, tol=1e-10):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a) == np.isfinite(b)):
        return False
    m = np.isfinite(b)
    return bool(np.all(np.abs(a[m] - b[m]) <= tol * (1 + np.max(np.abs(b[m])) if m.any() else 1)))


def build_saved(spec, window):
    k = spec['kind']
    if k == 'none':
        return None, [float(t) for t in window]
    vals = [float(window[i]) for i in spec['i']]
    if k == 'float':
        return vals[0], vals
    if k == 'np.float64':
        return np.float64(vals[0]), vals
    if k == 'list':
        return list(vals), vals
    if k == 'tuple':
        return tuple(vals), vals
    return np.array(vals), vals


def hold(u, how):
    """The same values held as a read-only, integer or non-contiguous array."""
    if isinstance(u, list):
        return [hold(x, how) for x in u]
    if how == 'int':
        u = np.round(np.asarray(u) * 3).astype(int)
    elif how == 'strided' and u.ndim:
        b = np.zeros(tuple(2 * n for n in u.shape))
        v = b[tuple(slice(None, None, 2) for _ in u.shape)]
        v[...] = u
        u = v
    elif how == 'readonly':
        u = np.array(u)
        u.setflags(write=False)
    return u


def intact(model, seed, shape, scheme, kind):
    """The parameters of a harness model are those it was built with."""
    for f, g in ((model.f, F(seed, shape, kind=kind)),) + \
            (((model.pieces[2]['trend'], F(seed + 1, shape, 0.7, kind)),) if scheme == 'splitting' else ()):
        f = getattr(f, 'inner', f)
        if any(getattr(f, k).tobytes() != getattr(g, k).tobytes() for k in ('a', 'b', 'c', 'mask', 'const')):
            return False
    return True


def make_state(seed, shape, tag, scheme):
    r = np.random.RandomState((seed * 31 + tag * 7 + 5) % (2 ** 32))
    u = r.uniform(-1, 1, shape)
    if u.size > 1:
        u.flat[0] = tag
    if scheme == 'leapfrog':
        v = u + 0.01 * r.uniform(-1, 1, shape)
        if u.size > 1:
            v.flat[0] = tag
        return [u, v]
    return u


def snap(u):
    if isinstance(u, (list, tuple)):
        return [np.array(x, copy=True) for x in u]
    return np.array(u, copy=True)


def gen_module(code, name):
    """Execute generated source as an importable (hence picklable) module."""
    m = types.ModuleType(name)
    sys.modules[name] = m
    exec(compile(code, f'<simgen {name}>', 'exec'), m.__dict__)
    return m
