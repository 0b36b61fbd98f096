"""Finite-ensemble oracle for the statistical equations.

A random finite centred ensemble of error fields (polynomials around a point)
and random mean, constant and exogenous fields are evolved exactly to first
order in time by the dynamics; the trends of the statistics of that ensemble
are compared with the right-hand sides of the derived equations, evaluated on
the same ensemble.  Nothing here uses sympkf: the dynamics comes from the JSON
spec and expressions are read structurally.
"""
import random

import numpy as np

from sim import series as S
from sim.core import HarnessError, Violation


class NotEvaluable(Exception):
    pass


class Ens:
    def __init__(self, spec, seed, K=None, M=7):
        self.spec = spec
        self.dim = len(spec['coords'])
        order = max([0] + [sum(x[1]) for eq in spec['eqs'] for t in eq for x in t[2]])
        self.K = K or (order + 5)
        self.M = M
        rng = np.random.RandomState(seed % (2 ** 31))
        self.shape = (self.K + 1,) * self.dim
        damp = np.ones(self.shape)
        idx = np.indices(self.shape).sum(axis=0)
        damp = 0.75 ** idx

        def poly(n, lo=-1.0, hi=1.0):
            return rng.uniform(lo, hi, (n,) + self.shape) * damp
        self.mean, self.err, self.coef = {}, {}, {}
        for n in spec['fields']:
            self.mean[n] = poly(1)
            if spec.get('positive'):
                self.mean[n][(0,) + (0,) * self.dim] = rng.uniform(1.0, 2.0)
            e = poly(M)
            e[(slice(None),) + (0,) * self.dim] += np.linspace(-1, 1, M) * rng.choice([-1, 1])
            e = e - e.mean(axis=0, keepdims=True)
            self.err[n] = e
        for n in spec['cfuncs'] + spec['exog']:
            self.coef[n] = poly(1)
        for n in spec.get('rexog', []):
            self.coef[n] = poly(M)          # one for each member
        # the time, when it appears explicitly, is one of them
        self.consts = {n: float(rng.uniform(0.3, 1.5)) * float(rng.choice([-1, 1])) for n in spec['consts']}
        self._trends()

    # ---- the dynamics, from the JSON spec -------------------------------------
    def _rhs(self, eq, u):
        """u: name -> series with an extra (last) axis delta of size 3."""
        shape = self.shape + (3,)
        out = np.zeros((1,) + shape)
        for c, den, facs in eq:
            t = S.const(c / den, shape)
            for name, orders, p, *wrap in facs:
                if isinstance(p, str):
                    a, q = p.split('/')
                    p = int(a) / int(q)
                if name in self.consts:
                    a = self.consts[name]
                    t = t * (getattr(np, wrap[0])(a) if wrap else a) ** p
                    continue
                if name in u:
                    b = u[name]
                else:
                    c0 = self.coef[name] if name in self.coef else self.coordinate(name)
                    b = np.zeros((c0.shape[0],) + shape)
                    b[..., 0] = c0
                for ax, o in enumerate(orders):
                    b = S.diff(b, ax, o)
                if wrap:
                    b = getattr(S, wrap[0])(b)
                t = S.mul(t, S.power(b, p))
            out = out + t
        return out

    def coordinate(self, name):
        a = np.zeros((1,) + self.shape)
        i = [0] * self.dim
        i[self.spec['coords'].index(name)] = 1
        a[(0,) + tuple(i)] = 1.0
        return a

    def _trends(self):
        sp = self.spec
        u = {}
        for n in sp['fields']:
            a = np.zeros((self.M,) + self.shape + (3,))
            a[..., 0] = self.mean[n]
            a[..., 1] = self.err[n]
            u[n] = a
        val, trd = {}, {}
        tm, te = {}, {}
        for n, eq in zip(sp['fields'], sp['eqs']):
            r = self._rhs(eq, u) + np.zeros((self.M,) + self.shape + (3,))
            tm[n] = S.mean(r[..., 0]) + S.mean(r[..., 2])
            te[n] = r[..., 1]
            if sp.get('rexog'):
                # the coefficients depend on the member: the mean of W.e does not vanish
                tm[n] = tm[n] + S.mean(r[..., 1])
                te[n] = r[..., 0] + r[..., 1]
                te[n] = te[n] - S.mean(te[n])

        def tau(a, b):
            m = max(a.shape[0], b.shape[0])
            o = np.zeros((m,) + self.shape + (2,))
            o[..., 0] = a
            o[..., 1] = b
            return o

        def put(key, s):
            val[key] = s[..., 0]
            trd[key] = s[..., 1]
        E, V, eps = {}, {}, {}
        for n in sp['fields']:
            put(('mean', n), tau(self.mean[n], tm[n]))
            E[n] = tau(self.err[n], te[n])
            put(('err', n), E[n])
            V[n] = S.mean(S.mul(E[n], E[n]))
            put(('var', n), V[n])
            sd = S.power(V[n], 0.5)
            put(('std', n), sd)
            eps[n] = S.mul(E[n], S.power(sd, -1))
            put(('eps', n), eps[n])
            d = [S.diff(eps[n], i) for i in range(self.dim)]
            g = [[S.mean(S.mul(d[i], d[j])) for j in range(self.dim)] for i in range(self.dim)]
            s = S.inv_matrix(g)
            for i in range(self.dim):
                for j in range(self.dim):
                    put(('g', n, i, j), g[i][j])
                    put(('s', n, i, j), s[i][j])
                    put(('nu', n, i, j), s[i][j] * 0.5)
        for i, a in enumerate(sp['fields']):
            for b in sp['fields'][i + 1:]:
                c = S.mean(S.mul(E[a], E[b]))
                put(('cov', a, b), c)
                put(('cov', b, a), c)
        self.val, self.trd = val, trd


class Evaluator:
    """Reads sympy expressions of a PKF object on an ensemble."""

    def __init__(self, pkf, spec, ens, closure=None):
        self.ens = ens
        self.spec = spec
        self.sym = {}
        self.kind = {}
        self.coords = spec['coords']
        self.closure = closure or {}
        self.rand = {}
        fields = list(pkf.fields)
        for f in fields:
            mf = pkf.fields[f]
            n = f.func.__name__
            self._reg(mf.value, ('mean', n))
            self._reg(mf.variance, ('var', n))
            self._reg(mf.std, ('std', n))
            self._reg(mf.epsilon, ('eps', n))
            self._reg(mf.error, ('err', n))
            self.rand[self._key(mf.random)] = n
            for i in range(ens.dim):
                for j in range(ens.dim):
                    self._reg(mf.metric_func(i, j), ('g', n) + tuple(sorted((i, j))))
                    self._reg(mf.nu_func(i, j), ('nu', n) + tuple(sorted((i, j))))
                    self._reg(mf.aspect_func(i, j), ('s', n) + tuple(sorted((i, j))))
        for i, a in enumerate(fields):
            for b in fields[i + 1:]:
                self._reg(pkf.get_covariance(a, b), ('cov', a.func.__name__, b.func.__name__))
        self.memo = {}

    @staticmethod
    def _key(f):
        return (f.func.__name__, tuple(str(a) for a in f.args))

    def _reg(self, f, key):
        self.kind[self._key(f)] = key

    def quantity(self, f):
        """The statistic an applied function stands for, or None."""
        k = self._key(f) if hasattr(f, 'func') and hasattr(f.func, '__name__') else None
        return self.kind.get(k)

    def ev(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self._ev(e)
            self.memo[e] = r
        return r

    def _ev(self, e):
        from sympy import Add, Mul, Pow, Derivative, Symbol, Integral, Subs
        from sympy.core.function import AppliedUndef
        from sympkf.symbolic.random import Expectation
        sh = self.ens.shape
        if e.is_number:
            return S.const(float(e), sh)
        if isinstance(e, Expectation):
            if e in self.closure:
                return self.ev(self.closure[e])
            return S.mean(self.ev(e.args[0]))
        if isinstance(e, Symbol):
            n = e.name
            if n in self.ens.consts:
                return S.const(self.ens.consts[n], sh)
            if n in self.coords:
                return self.ens.coordinate(n)
            raise NotEvaluable(f'symbol {n}')
        if isinstance(e, Add):
            out = None
            for a in e.args:
                b = self.ev(a)
                out = b if out is None else out + b
            return out
        if isinstance(e, Mul):
            out = S.const(1.0, sh)
            for a in e.args:
                out = S.mul(out, self.ev(a))
            return out
        if isinstance(e, Pow):
            if not e.args[1].is_number:
                raise NotEvaluable(str(e)[:80])
            return S.power(self.ev(e.args[0]), float(e.args[1]))
        if isinstance(e, Derivative):
            b = self.ev(e.args[0])
            for v in e.args[1:]:
                x, n = v
                if str(x) not in self.coords:
                    raise NotEvaluable(f'derivative with respect to {x} left: {str(e)[:80]}')
                b = S.diff(b, self.coords.index(str(x)), int(n))
            return b
        if isinstance(e, AppliedUndef):
            k = self._key(e)
            if k in self.kind:
                q = self.kind[k]
                return self.ens.val[q]
            if k in self.rand:
                n = self.rand[k]
                return self.ens.mean[n] + self.ens.err[n]
            if k[0] in self.ens.coef:
                return self.ens.coef[k[0]]
            raise NotEvaluable(f'unknown function {e}')
        import sympy
        for cls, fn in ((sympy.exp, S.exp), (sympy.sin, S.sin), (sympy.cos, S.cos)):
            if isinstance(e, cls):
                return fn(self.ev(e.args[0]))
        raise NotEvaluable(f'{type(e).__name__}: {str(e)[:80]}')

    def value(self, e):
        """(value per member at the point, magnitude of the terms)."""
        from sympy import Add
        terms = Add.make_args(e)
        tot, mag = 0.0, 0.0
        for t in terms:
            v = S.at0(self.ev(t))
            if np.any(np.isnan(v)):
                raise HarnessError('truncation order too small for ' + str(t)[:200])
            tot = tot + v
            mag = mag + np.max(np.abs(v))
        return np.atleast_1d(tot), float(mag)


def lhs_quantity(ev, eq):
    """(statistic, True) for an equation whose left side is the time derivative of a known statistic."""
    from sympy import Derivative
    lhs = eq.args[0]
    if not isinstance(lhs, Derivative) or len(lhs.args) != 2 or str(lhs.args[1][0]) != 't' or int(lhs.args[1][1]) != 1:
        return None
    f = lhs.args[0]
    from sympkf.symbolic.random import Expectation
    if isinstance(f, Expectation):
        k = ev._key(f.args[0]) if hasattr(f.args[0].func, '__name__') and not f.args[0].is_Atom else None
        if k in ev.rand:
            return ('mean', ev.rand[k])
        return None
    return ev.quantity(f)


def check_equation(ctx, ev, ens, eq, what, want=None, tol=1e-7):
    q = lhs_quantity(ev, eq)
    ctx.check(q is not None, 'lhs', lambda: f'{what}: left-hand side {eq.args[0]} is not the trend of a statistic')
    try:
        v, mag = ev.value(eq.args[1])
    except NotEvaluable as e:
        raise Violation('left-over', f'{what}: right-hand side of {q} contains {e}')
    ref = S.at0(ens.trd[q]) if want is None else want(q)
    if np.any(np.isnan(ref)):
        raise HarnessError('reference truncation')
    m = max(len(v), len(ref))
    d = np.max(np.abs(np.broadcast_to(v, (m,)) - np.broadcast_to(ref, (m,))))
    scale = 1 + mag + float(np.max(np.abs(ref)))
    ctx.check(d <= tol * scale, 'inexact',
              lambda: f'{what}: trend of {q} is {np.ravel(v)[:3]} instead of {np.ravel(ref)[:3]} (terms {mag:.3g})')
    return q


def moment_degree(pkf, e):
    """E[D^a eps_i D^b eps_j]: (total order, same error, one factor without derivative), or None if not of that form."""
    from sympy import Mul, Pow, Derivative
    eps = {mf.epsilon for mf in pkf.fields.values()}
    facs = []
    for x in Mul.make_args(e.args[0]):
        if isinstance(x, Pow) and x.args[1] == 2:
            facs += [x.args[0]] * 2
        else:
            facs.append(x)
    if len(facs) != 2:
        return None
    deg = 0
    who = []
    for x in facs:
        if isinstance(x, Derivative):
            deg += x.derivative_count
            x = x.args[0]
        if x not in eps:
            return None
        who.append(x)
    return deg, who[0] == who[1], any(x in eps for x in facs)


def expectations(pkf, exprs, expand=False):
    from sympkf.symbolic.random import Expectation
    rand = {Expectation(mf.random) for mf in pkf.fields.values()}
    out = set()
    for e in exprs:
        out |= set((e.expand() if expand else e).atoms(Expectation))
    return out - rand
