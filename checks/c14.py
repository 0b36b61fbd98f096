"""C14: correlation closures are exact and independent of the history of requests."""
import copy

TIERS = {'quick': {'runs': 80, 'wall': 240, 'timeout': 200}, 'thorough': {'runs': 4000, 'wall': 3000, 'timeout': 600}}
RULE = ('a case is a history of 2-7 requests (expansion, closure by order, closure, metric form; orders 0-5) on one closure '
        'object of a heterogeneous Gaussian or local Gaussian correlation in 1 or 2 dimensions, some interrupted at a chosen '
        'source line, with the symbol cache cleared meanwhile, or followed by a change of the returned dictionary by the '
        'caller; every answer is compared at random points of random tensor fields with the derivatives at zero separation '
        'of the correlation, obtained by truncated power series; non-trivial when more than one request was answered; '
        'distinct by event-log and fault-schedule digest')
REAL = ['sympkf.symbolic.pkfcas (Closure, LocGaussianClosure)', 'sympkf.symbolic.util', 'sympy']
STUB = ['arrival of interrupts and eviction of the symbol cache (seeded source line of sympkf)',
        'iteration order of sets in sympkf (seeded)']
ASSUMPTIONS = ['values are compared at 7 points with a relative tolerance of 1e-7',
               'the orders explored are 0-5 in 1 dimension, 0-3 in 2 dimensions for the local Gaussian and 0-2 (thorough: 0-3) for the '
               'heterogeneous Gaussian']

NAMES1 = [['x'], ['x'], ['y'], ['s'], ['z'], [r'\lambda'], ['x_1']]
NAMES2 = [['x', 'y'], ['y', 'x'], ['x', 'z'], ['x_1', 'x_2'], ['r', 'd']]


def gen_case(rng, tier, k):
    two = rng.random() < (0.35 if tier == 'quick' else 0.45)
    loc = rng.random() < ((0.9 if tier == 'quick' else 0.7) if two else 0.4)
    if two:
        top = 3 if loc else (2 if tier == 'quick' or rng.random() < 0.7 else 3)
    else:
        top = 5 if loc else 4
    coords = rng.choice(NAMES2 if two else NAMES1)
    case = {'env': {'hashseed': rng.randrange(4), 'cache': rng.choice(['default', 'default', 64])},
            'salt': rng.getrandbits(30) if rng.random() < 0.5 else None, 'mseed': rng.randrange(10 ** 6),
            'loc': loc, 'coords': coords, 'field': rng.choice(['u', 'h', 'u_1', r'\phi', 'T']),
            'timed': rng.random() < 0.8, 'wrap': rng.random() < 0.5, 'ops': []}
    n = rng.choice([2, 3, 4, 6, 7]) if loc else rng.choice([2, 3, 5]) if not two else 1
    for _ in range(n):
        req = rng.choice(['taylor', 'by_order', 'by_order', 'closure', 'closure', 'in_metric', 'in_metric', 'correlation'])
        op = {'req': req, 'order': rng.randint(0, top), 'mutate': rng.random() < 0.25}
        if req == 'taylor':
            op['order'] = rng.randint(1, top + 1)
        if rng.random() < 0.3:
            op['fault'] = {'ff': rng.random(), 'of': rng.random(), 'kind': rng.choice(['interrupt', 'interrupt', 'memory', 'recursion', 'evict'])}
        case['ops'].append(op)
    case['ops'].append({'req': rng.choice(['closure', 'in_metric', 'by_order']), 'order': rng.randint(0, top), 'mutate': False})
    return case


# -- truncated power series in the separations ---------------------------------------------------

def exponents(dim, n):
    if dim == 1:
        return [(i,) for i in range(n + 1)]
    return [(i, j) for i in range(n + 1) for j in range(n + 1 - i)]


class Jet:
    def __init__(self, c, dim, n):
        self.c, self.dim, self.n = c, dim, n

    def __add__(self, o):
        if not isinstance(o, Jet):
            o = const(o, self.dim, self.n)
        return Jet({e: self.c[e] + o.c[e] for e in self.c}, self.dim, self.n)
    __radd__ = __add__

    def __mul__(self, o):
        if not isinstance(o, Jet):
            return Jet({e: v * o for e, v in self.c.items()}, self.dim, self.n)
        out = {e: 0.0 for e in self.c}
        for a, va in self.c.items():
            for b, vb in o.c.items():
                e = tuple(i + j for i, j in zip(a, b))
                if sum(e) <= self.n:
                    out[e] = out[e] + va * vb
        return Jet(out, self.dim, self.n)
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1.0

    def __sub__(self, o):
        return self + (-o)

    def parts(self):
        z = (0,) * self.dim
        rest = dict(self.c)
        c0 = rest[z]
        rest[z] = 0.0 * c0
        return c0, Jet(rest, self.dim, self.n)

    def exp(self):
        import numpy as np
        c0, r = self.parts()
        out, term = const(1.0, self.dim, self.n), const(1.0, self.dim, self.n)
        for k in range(1, self.n + 1):
            term = term * r * (1.0 / k)
            out = out + term
        return out * np.exp(c0)

    def power(self, p):
        c0, r = self.parts()
        r = r * (1.0 / c0)
        out, term = const(1.0, self.dim, self.n), const(1.0, self.dim, self.n)
        for k in range(1, self.n + 1):
            term = term * r * ((p - k + 1) / k)
            out = out + term
        return out * c0 ** p


def const(v, dim, n):
    c = {e: 0.0 for e in exponents(dim, n)}
    c[(0,) * dim] = v
    return Jet(c, dim, n)


def det(m):
    return m[0][0] if len(m) == 1 else m[0][0] * m[1][1] - m[0][1] * m[1][0]


def inv(m):
    d = det(m).power(-1.0)
    if len(m) == 1:
        return [[d]]
    return [[m[1][1] * d, -m[0][1] * d], [-m[1][0] * d, m[0][0] * d]]


class Truth:
    """Correlation and its expansion from numeric tensor fields."""

    def __init__(self, F, t, X, dim, timed):
        self.F, self.t, self.X, self.dim, self.timed = F, t, X, dim, timed

    def jet(self, name, n):
        from math import factorial
        c = {}
        for e in exponents(self.dim, n):
            f = 1.0
            for i in e:
                f /= factorial(i)
            c[e] = self.F.value(name, self.t, self.X, list(e), 0, self.timed) * f
        return Jet(c, self.dim, n)

    def tensor(self, names, n):
        return [[self.jet(a, n) for a in row] for row in names]

    def dist(self, m, n):
        d = []
        for i in range(self.dim):
            j = const(0.0, self.dim, n)
            if n:
                j.c[tuple(1 if k == i else 0 for k in range(self.dim))] = 1.0
            d.append(j)
        out = const(0.0, self.dim, n)
        for i in range(self.dim):
            for j in range(self.dim):
                out = out + d[i] * m[i][j] * d[j]
        return out

    def at0(self, m):
        z = (0,) * self.dim
        return [[const(a.c[z], self.dim, a.n) for a in row] for row in m]

    def heterogeneous(self, sy, n):
        sx = self.at0(sy)
        both = [[a + b for a, b in zip(r, q)] for r, q in zip(sx, sy)]
        half = [[a * 0.5 for a in r] for r in both]
        norm = det(sx).power(0.25) * det(sy).power(0.25) * det(half).power(-0.5)
        return norm * (-self.dist(inv(both), n)).exp()

    def local(self, g, n):
        return (-self.dist(self.at0(g), n) * 0.5).exp()


def run_case(case, ctx):
    import math
    import numpy as np
    import sympy
    from sympy import Derivative, Function, Symbol
    from checks.smooth import Eval, Fields
    from sim.core import resolve_faults
    from sympkf.symbolic import Closure, Expectation, Field, LocGaussianClosure
    from sympkf.symbolic.constants import t as tsym
    dim = len(case['coords'])
    xs = tuple(Symbol(c) for c in case['coords'])
    args = ((tsym,) if case['timed'] else ()) + xs
    u = Function(case['field'])(*args)
    cls = LocGaussianClosure if case['loc'] else Closure
    build = lambda: cls(Field(u) if case['wrap'] else u)  # noqa
    C = build()
    fld = Field(u)
    names = {}
    diag = set()
    for kind in ('metric', 'aspect', 'diffusion'):
        m = getattr(fld, kind)
        names[kind] = [[str(m[i, j].func) for j in range(dim)] for i in range(dim)]
        ctx.check(names[kind] == [list(r) for r in zip(*names[kind])], 'symmetric', kind)
        diag |= {names[kind][i][i] for i in range(dim)}

    class TensorFields(Fields):
        def params(self, name):
            new = name not in self.known
            base, waves = super().params(name)
            if new and name not in diag:
                base, waves = 0.2 * (base - self.lo), [(0.3 * a, k, w, p) for a, k, w, p in waves]
                self.known[name] = (base, waves)
            return base, waves
    F = TensorFields(case['mseed'], case['coords'], [3.0, 2.5][:dim])
    r = np.random.RandomState(case['mseed'])
    X = [r.uniform(0, 3, 7) for _ in range(dim)]
    tt = 0.37
    env = dict(zip([str(c) for c in xs], X), t=tt)
    truth = Truth(F, tt, X, dim, case['timed'])
    eps = fld.epsilon
    seps = [Symbol('d' + str(x)) for x in xs]

    def term(alpha):
        v = [x for x, n in zip(xs, alpha) for _ in range(n)]
        return Expectation(eps * (Derivative(eps, *v).doit() if v else eps))
    memo = {}

    def expected(form, n):
        """Derivatives at zero separation: {alpha: values} for |alpha| <= n."""
        if (form, n) not in memo:
            if case['loc']:
                rho = truth.local(truth.tensor(names['metric'], n), n)
            elif form == 'model':
                rho = truth.heterogeneous(truth.tensor(names['aspect'], n), n)
            else:
                rho = truth.heterogeneous(inv(truth.tensor(names['metric'], n)), n)
            out = {e: v * float(np.prod([math.factorial(i) for i in e])) for e, v in rho.c.items()}
            if form == 'metric':
                for e in out:
                    if sum(e) == 2:
                        i, j = [i for i, k in enumerate(e) for _ in range(k)]
                        out[e] = -F.value(names['metric'][i][j], tt, X, None, 0, case['timed'])
            memo[(form, n)] = out
        return memo[(form, n)]

    def value(e, extra=()):
        ev = Eval(F, dict(env, **dict(extra)), case['mseed'])
        return ev(e)

    def same(got, want, what):
        got = np.broadcast_to(np.asarray(got, dtype=float), (7,))
        want = np.broadcast_to(np.asarray(want, dtype=float), (7,))
        tol = 1e-7 * (1 + float(np.max(np.abs(want))))
        ctx.check(np.all(np.isfinite(got)) and np.max(np.abs(got - want)) <= tol, 'exact',
                  lambda: f'{what}: {got[:3]} instead of {want[:3]}')

    def judge(op, got, what):
        n = op['order']
        if op['req'] == 'taylor':
            want = expected('model', n)
            poly = sympy.Poly(got.expand(), *seps)
            ctx.check(all(max(m) <= n for m in poly.monoms()), 'expansion', lambda: f'{what}: terms beyond the order: {got}')
            for e, w in want.items():
                c = poly.coeff_monomial(sympy.prod(s ** i for s, i in zip(seps, e)))
                if sum(e) == n and c == 0:
                    continue
                same(value(c), w / np.prod([math.factorial(i) for i in e]), f'{what}: coefficient of degree {e}')
            return
        if op['req'] == 'correlation':
            sep = {str(s): np.array([0.3, -0.2, 0.7, 1.3, 0.0, -0.9, 0.1]) * (1 + i) for i, s in enumerate(seps)}
            py = tuple(x + s for x, s in zip(xs, seps))
            Y = [x + sep[str(s)] for x, s in zip(X, seps)]
            D = [sep[str(s)] for s in seps]

            def mats(kind, P):
                return np.array([[F.value(a, tt, P, None, 0, case['timed']) for a in row] for row in names[kind]]).transpose(2, 0, 1)
            d = np.array(D).T[:, :, None]

            def q(m):
                return (d.transpose(0, 2, 1) @ m @ d)[:, 0, 0]
            if case['loc']:
                same(value(got[0], sep), np.exp(-0.5 * q(mats('metric', X))), f'{what}: local Gaussian in metric')
                s = mats('aspect', X)
                same(value(got[1], sep), np.exp(-0.5 * q(np.linalg.inv(s))), f'{what}: local Gaussian in aspect')
            else:
                for g, kind, f in ((got[0], 'aspect', 1.0), (got[1], 'diffusion', 2.0)):
                    a, b = f * mats(kind, X), f * mats(kind, Y)
                    w = (np.linalg.det(a) * np.linalg.det(b)) ** 0.25 / np.linalg.det((a + b) / 2) ** 0.5
                    same(value(g, sep), w * np.exp(-q(np.linalg.inv(a + b))), f'{what}: heterogeneous Gaussian in {kind}')
            return
        want = expected('metric' if op['req'] == 'in_metric' else 'model', n)
        if op['req'] == 'closure':
            by = {None: got}
            groups = {None: list(want)}
        else:
            by = got
            groups = {k: [e for e in want if sum(e) == k] for k in range(n + 1)}
            ctx.check(set(by) == set(groups), 'orders', lambda: f'{what}: orders {sorted(by)} instead of 0..{n}')
        for k, es in groups.items():
            keys = {term(e): e for e in es}
            ctx.check(set(by[k]) == set(keys), 'terms', lambda: f'{what}: terms {sorted(map(str, by[k]))} instead of {sorted(map(str, keys))}')
            for tm, e in keys.items():
                same(value(sympy.sympify(by[k][tm])), want[e], f'{what}: {tm} -> {by[k][tm]}')

    def ask(obj, op):
        n = op['order']
        if op['req'] == 'taylor':
            return obj.taylor(n)
        if op['req'] == 'by_order':
            return obj.closure_by_order(n)
        if op['req'] == 'closure':
            return obj.closure(n)
        if op['req'] == 'in_metric':
            return obj.in_metric_by_order(n)
        py = tuple(x + s for x, s in zip(xs, seps))
        if case['loc']:
            return obj.correlation(xs, py), obj.correlation(xs, py, metric=False)
        return obj.correlation(xs, py), obj.correlation_in_diffusion(xs, py)
    concrete = copy.deepcopy(case['ops'])
    done = 0
    for i, op in enumerate(case['ops']):
        what = f'request {i} ({op["req"]} of order {op["order"]})'
        f = op.get('fault')
        if f and 'func' not in f:
            twin = build()
            ctx.profile()
            ask(twin, dict(op, order=min(op['order'], 2 if dim == 1 or case['loc'] else 1)))
            rf = resolve_faults(ctx.end_profile(), [f])
            f = rf[0] if rf else None
        concrete[i]['fault'] = f
        if f:
            ctx.arm([f])
            st, v = ctx.call(ask, C, op)
            left = ctx.disarm()
            ctx.check(not (st == 'exc' and left), 'raised', lambda: f'{what} raised {v!r}')
            if st == 'exc':
                ctx.log('hit', i)
                v = ctx.must('raised', what + ' after an interruption', ask, C, op)
        else:
            v = ctx.must('raised', what, ask, C, op)
        judge(op, v, what)
        done += 1
        ctx.log('answer', op['req'], op['order'])
        if op['mutate'] and isinstance(v, dict):
            for d in list(v.values()):
                if isinstance(d, dict):
                    for key in list(d):
                        d[key] = sympy.Integer(99)
            v.clear()
            ctx.count('caller_changes_result')
    ctx.nontrivial = done > 1
    ctx.concrete = {'ops': concrete}


def shrink(case):
    n = len(case['ops'])
    for size in (n // 2, 1):
        if size < 1:
            continue
        for a in range(0, n, size):
            c = copy.deepcopy(case)
            del c['ops'][a:a + size]
            if c['ops']:
                yield c
    for i, op in enumerate(case['ops']):
        if op.get('fault'):
            c = copy.deepcopy(case)
            c['ops'][i]['fault'] = None
            yield c
        if op['order'] > 1:
            c = copy.deepcopy(case)
            c['ops'][i]['order'] -= 1
            yield c
    if len(case['coords']) > 1:
        c = copy.deepcopy(case)
        c['coords'] = case['coords'][:1]
        yield c
    for k, v in (('wrap', False), ('salt', None), ('field', 'u')):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
