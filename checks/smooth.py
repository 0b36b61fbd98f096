"""Smooth periodic fields with exact derivatives, and a structural evaluator of expressions on them.

Independent of sympkf: expressions are read node by node, functions are random
trigonometric polynomials of the coordinates (and of time)."""
import keyword

import numpy as np

from checks.nummodel import const_value


class NotEvaluable(Exception):
    pass


class Fields:
    def __init__(self, seed, coords, lengths, modes=2, amp=0.3, lo=1.2):
        self.seed = seed
        self.coords = [str(c) for c in coords]
        self.lengths = list(lengths)
        self.modes = modes
        self.amp = amp
        self.lo = lo
        self.known = {}

    def params(self, name):
        if name not in self.known:
            h = int.from_bytes(name.encode(), 'little') % (2 ** 31 - 1)
            r = np.random.RandomState((self.seed * 7919 + h) % (2 ** 32))
            base = self.lo + 0.3 * r.uniform(-1, 1)
            waves = []
            for _ in range(4):
                k = [int(r.randint(0, self.modes + 1)) for _ in self.coords]
                w = float(r.uniform(0.4, 1.6))
                waves.append((self.amp * r.uniform(0.3, 1) * r.choice([-1, 1]) / 2, k, w, r.uniform(0, 2 * np.pi)))
            self.known[name] = (base, waves)
        return self.known[name]

    def value(self, name, t, X, orders=None, torder=0, timed=True, dims=None):
        """X: one array per coordinate in `dims` (indices of the coordinates the function depends on)."""
        base, waves = self.params(name)
        dims = list(range(len(self.coords))) if dims is None else dims
        orders = orders or [0] * len(dims)
        n = sum(orders) + torder
        out = 0 * (X[0] if X else 0.0) + (base if n == 0 else 0.0)
        for a, k, w, ph in waves:
            kk = [2 * np.pi * k[d] / self.lengths[d] for d in dims]
            arg = ph + (w * t if timed else 0.0)
            for c, x in zip(kk, X):
                arg = arg + c * x
            f = a
            for c, o in zip(kk, orders):
                f = f * c ** o
            if torder:
                f = f * (w ** torder if timed else 0.0)
            out = out + f * np.sin(arg + n * np.pi / 2)
        return out


ELEM = {'exp': np.exp, 'sin': np.sin, 'cos': np.cos, 'log': np.log, 'tanh': np.tanh, 'sqrt': np.sqrt, 'Abs': np.abs, 'sign': np.sign, 'floor': np.floor}
MANY = {'Max': np.maximum, 'Min': np.minimum, 'Mod': np.mod, 'atan2': np.arctan2}
REL = {'StrictGreaterThan': np.greater, 'GreaterThan': np.greater_equal, 'StrictLessThan': np.less, 'LessThan': np.less_equal}


class Eval:
    """Value of an expression at points; env gives the value of every symbol."""

    def __init__(self, fields, env, seed=0, tname='t'):
        self.fields = fields
        self.env = dict(env)
        self.seed = seed
        self.tname = tname
        self.num = np.longdouble if any(getattr(v, 'dtype', None) == np.longdouble for v in env.values()) else float

    def symbol(self, s):
        n = str(s)
        if n not in self.env:
            self.env[n] = self.num(const_value(self.seed, n))
        return self.env[n]

    def func(self, f, orders=None):
        """f: applied undefined function; orders: {variable name: order}."""
        name = str(f.func)
        args = list(f.args)
        orders = dict(orders or {})
        timed = bool(args) and self.basevar(args[0]) == self.tname
        t = 0.0
        torder = 0
        if timed:
            t = self(args[0])
            torder = orders.pop(self.tname, 0)
            args = args[1:]
        dims, X, o = [], [], []
        for a in args:
            v = self.basevar(a)
            if v not in self.fields.coords:
                raise NotEvaluable(f'argument {a} of {f}')
            dims.append(self.fields.coords.index(v))
            X.append(self(a))
            o.append(orders.pop(v, 0))
        if orders:
            return 0.0 * (X[0] if X else 0.0)
        return self.fields.value(name, t, X, o, torder, timed, dims)

    def basevar(self, a):
        names = [str(s) for s in a.free_symbols]
        c = [n for n in names if n in self.fields.coords or n == self.tname]
        if len(c) != 1:
            raise NotEvaluable(f'argument {a}')
        return c[0]

    def __call__(self, e):
        import sympy
        from sympy.core.function import AppliedUndef
        if e.is_Rational:
            return self.num(int(e.p)) / self.num(int(e.q))
        if e.is_Number or e.is_NumberSymbol:
            return float(e)
        if e.is_Symbol:
            return self.symbol(e)
        if isinstance(e, AppliedUndef):
            return self.func(e)
        if isinstance(e, sympy.Derivative):
            orders = {}
            for v, n in e.args[1:]:
                orders[str(v)] = orders.get(str(v), 0) + int(n)
            if isinstance(e.args[0], AppliedUndef):
                return self.func(e.args[0], orders)
            d = e.doit()
            if d == e:
                raise NotEvaluable(str(e))
            return self(d)
        if isinstance(e, sympy.Add):
            return sum((self(a) for a in e.args[1:]), self(e.args[0]))
        if isinstance(e, sympy.Mul):
            out = self(e.args[0])
            for a in e.args[1:]:
                out = out * self(a)
            return out
        if isinstance(e, sympy.Pow):
            b, p = e.args
            if p.is_Integer and int(p) > 0:
                return self(b) ** int(p)
            return self(b) ** self(p)
        n = type(e).__name__
        if n in ELEM and len(e.args) == 1:
            return ELEM[n](self(e.args[0]))
        if n in MANY:
            out = self(e.args[0])
            for a in e.args[1:]:
                out = MANY[n](out, self(a))
            return out
        if n == 'Piecewise':
            out = np.nan
            for v, c in reversed(e.args):
                c = True if c == True else REL[type(c).__name__](self(c.args[0]), self(c.args[1]))  # noqa
                out = np.where(c, self(v), out)
            return out
        raise NotEvaluable(f'{type(e).__name__}: {e}')


def scale_of(v):
    return float(np.max(np.abs(v))) if np.size(v) else 0.0


def second_order(errs, scale, factor=2.0, floor=1e-9):
    """errs: maximal errors at h and h/factor (both asymptotic).  True when they fall as h**2 at least."""
    e1, e2 = errs
    tol = floor * (1 + scale)
    if not (np.isfinite(e1) and np.isfinite(e2)):
        return False
    return e2 <= e1 / (factor ** 2) * 1.35 + tol


def clean(label):
    """Independent statement of the documented rendering of labels."""
    label = str(label).replace('\\', '').replace('{', '').replace('}', '')
    label = label.replace('^', '_').replace(',', '_')
    return label + '_' if keyword.iskeyword(label) else label
