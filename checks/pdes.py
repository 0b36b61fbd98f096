"""Random systems of evolution equations, as JSON, built into sympy objects.

A spec is {'coords', 'fields': {name: ...}, 'eqs': [[term, ...] per field]}.
A term is [numerator, denominator, [[name, orders, power(, wrap)], ...]] where
name is a field, a constant, a constant function, an exogenous function or a
coordinate, orders is the list of derivative orders along the coordinates, power
is an integer or a string 'p/q', and wrap an optional elementary function.
"""


def term(c, *factors, den=1):
    return [c, den, [list(f) for f in factors]]


def f(name, *orders, p=1):
    return [name, list(orders), p]


# ---------------------------------------------------------------------------
# generation (no import of the code under test)
# ---------------------------------------------------------------------------
def gen_spec(rng, dim=1, nf=1, order=2, nterms=(1, 4), maxdeg=3, exog=True, consts=True, cfuncs=True, names=None,
             mixed=True, linear=False, anycoord=False):
    coords = (rng.choice([['x', 'y', 'z']] * 3 + [['y', 'x', 'z'], ['lon', 'lat', 'z'], ['z', 'x', 'y'], ['a', 's', 'q']] + [['x_{1,2}', 'x_{12}', 'z'], ['x^1', 'x_1', 'z']] * (anycoord == 'odd')) if anycoord else ['x', 'y', 'z'])[:dim]
    if names and 'coords' in names:
        coords = names['coords'][:dim]
    pool = (names or {}).get('fields') or rng.choice([['u', 'v', 'w'], ['h', 'u', 'q'], ['A', 'B', 'C'], ['c', 'a', 'b']] + ([['\\theta', 'q', '\\phi_{1}'], ['u_2', 'u_1', 'u_3'], ['V', 'g', 'e']] if anycoord else []) + ([
        ['u^1', 'u_1', 'u_{1}'], ['u*', 'u', 'u_*'], ['bc', 'a', 'ab', 'c'], ['ab', 'c', 'a', 'bc']] if anycoord == 'odd' else []))
    pool = [n for n in pool if n not in coords]
    fields = pool[:nf]
    spec = {'coords': coords, 'fields': fields, 'consts': [], 'cfuncs': [], 'exog': [], 'eqs': []}
    cn = [n for n in (names or {}).get('consts', rng.choice([['kappa', 'mu', 'gamma_1', 'L']] * 3 + [['\\varepsilon', '\\omega_1'], ['epsilon', '\\varepsilon_u']]) if anycoord == 'odd' else ['kappa', 'mu', 'gamma_1', 'L']) if n not in fields + coords]
    if consts:
        spec['consts'] = cn[:rng.choice([0, 1, 1, 2])]
    if cfuncs and rng.random() < 0.4:
        spec['cfuncs'] = [n for n in (names or {}).get('cfuncs', ['k0', 'bb'])][:rng.choice([1, 1, 2])]
    if exog and rng.random() < 0.35:
        spec['exog'] = [n for n in (names or {}).get('exog', ['F', 'G', 'Q'])][:rng.choice([1, 1, 2])]
    for i, name in enumerate(fields):
        terms = []
        n = rng.randint(*nterms)
        for _ in range(n):
            fac = []
            deg = 1 if linear else rng.choice([1, 1, 2, 2, 3] if maxdeg >= 3 else [1, 1, 2])
            if rng.random() < 0.06:
                deg = 0
            left = order
            for _ in range(deg):
                g = rng.choice(fields) if rng.random() < 0.6 else name
                o = [0] * dim
                k = rng.choice([0, 0, 1, 1, 2]) if order >= 2 else rng.choice([0, 0, 1])
                if order >= 3 and rng.random() < 0.25:
                    k = rng.randint(1, order)
                k = min(k, left)
                if not mixed and dim > 1 and k > 1:
                    k = 1
                left -= k
                for _ in range(k):
                    o[rng.randrange(dim)] += 1
                fac.append([g, o, 1])
            # merge equal factors into powers
            merged = []
            for x in fac:
                for y in merged:
                    if y[0] == x[0] and y[1] == x[1]:
                        y[2] += 1
                        break
                else:
                    merged.append(list(x))
            extra = spec['consts'] * 2 + spec['cfuncs'] + spec['exog']
            if extra and rng.random() < 0.6:
                e = rng.choice(extra)
                o = [0] * dim
                if e not in spec['consts'] and rng.random() < 0.3:
                    o[rng.randrange(dim)] = 1
                merged.append([e, o, rng.choice([1, 1, 2]) if e in spec['consts'] else 1])
            terms.append([rng.choice([-1, 1, -2, 3, 1, -1]), rng.choice([1, 1, 1, 2]), merged])
        spec['eqs'].append(terms)
    used = {x[0] for eq in spec['eqs'] for t in eq for x in t[2]}
    for key in ('consts', 'cfuncs', 'exog'):
        spec[key] = [n for n in spec[key] if n in used]
    return spec


def gen_product(rng, nf=1, dim=1, order=3):
    """One equation with products of high derivatives, moments of several degrees and errors; the others short."""
    coords = rng.choice([['x', 'y'], ['y', 'x'], ['s', 'a']])[:dim]
    fields = [n for n in rng.choice([['u', 'v', 'w'], ['h', 'q', 'c'], ['B', 'A', 'C']])][:nf]

    def orders(hi):
        o = [0] * dim
        for _ in range(rng.randint(0, hi)):
            o[rng.randrange(dim)] += 1
        return o
    eqs = []
    for i in range(nf):
        terms = []
        for _ in range(rng.choice([1, 1, 2, 3]) if i == 0 else rng.choice([0, 1])):
            hi = order if i == 0 else 1
            a = [rng.choice(fields), orders(hi)]
            b = list(a) if rng.random() < 0.4 else [a[0] if rng.random() < 0.6 else rng.choice(fields), orders(hi)]
            fac = [a + [2]] if a == b else [a + [1], b + [1]]
            if i == 0 and dim == 1 and rng.random() < 0.15:
                fac.append([rng.choice(fields), orders(1), 1])
                if [fac[-1][0], fac[-1][1]] in [x[:2] for x in fac[:-1]]:
                    fac.pop()
            terms.append([rng.choice([-1, 1, 2]), 1, fac])
        eqs.append(terms)
    at = list(range(nf))
    rng.shuffle(at)
    return {'coords': coords, 'fields': [fields[i] for i in at], 'consts': [], 'cfuncs': [], 'exog': [], 'eqs': [eqs[i] for i in at]}


def max_order(spec):
    return max([0] + [sum(x[1]) for eq in spec['eqs'] for t in eq for x in t[2]])


FIXED = {
    'burgers': {'coords': ['x'], 'fields': ['u'], 'consts': ['kappa'], 'cfuncs': [], 'exog': [],
                'eqs': [[term(-1, f('u', 0), f('u', 1)), term(1, f('kappa', 0), f('u', 2))]]},
    'advection': {'coords': ['x'], 'fields': ['c'], 'consts': [], 'cfuncs': ['k0'], 'exog': [],
                  'eqs': [[term(-1, f('k0', 0), f('c', 1))]]},
    'advexog': {'coords': ['x'], 'fields': ['c'], 'consts': [], 'cfuncs': [], 'exog': ['F'],
                'eqs': [[term(-1, f('F', 0), f('c', 1)), term(1, f('F', 1))]]},
    'diffusion': {'coords': ['x'], 'fields': ['u'], 'consts': [], 'cfuncs': ['k0'], 'exog': [],
                  'eqs': [[term(1, f('k0', 1), f('u', 1)), term(1, f('k0', 0), f('u', 2))]]},
    'kdv': {'coords': ['x'], 'fields': ['u'], 'consts': ['mu'], 'cfuncs': [], 'exog': [],
            'eqs': [[term(-1, f('u', 0), f('u', 1)), term(1, f('mu', 0), f('u', 3))]]},
    'ks': {'coords': ['x'], 'fields': ['u'], 'consts': ['mu'], 'cfuncs': [], 'exog': [],
           'eqs': [[term(-1, f('u', 0), f('u', 1)), term(-1, f('u', 2)), term(-1, f('mu', 0), f('u', 4))]]},
    'cubic': {'coords': ['x'], 'fields': ['u'], 'consts': [], 'cfuncs': [], 'exog': [],
              'eqs': [[term(-1, f('u', 0, p=3)), term(1, f('u', 0)), term(1, f('u', 0), f('u', 2))]]},
    'lv': {'coords': ['x'], 'fields': ['A', 'B'], 'consts': ['kappa', 'mu'], 'cfuncs': [], 'exog': [],
           'eqs': [[term(1, f('kappa', 0), f('A', 2)), term(-1, f('A', 0), f('B', 0))],
                   [term(1, f('mu', 0), f('B', 2)), term(1, f('A', 0), f('B', 0))]]},
    'sw': {'coords': ['x'], 'fields': ['h', 'u'], 'consts': ['L'], 'cfuncs': [], 'exog': [],
           'eqs': [[term(-1, f('u', 0), f('h', 1)), term(-1, f('h', 0), f('u', 1))],
                   [term(-1, f('u', 0), f('u', 1)), term(-1, f('L', 0), f('h', 1))]]},
    'adv2d': {'coords': ['x', 'y'], 'fields': ['c'], 'consts': [], 'cfuncs': ['k0', 'bb'], 'exog': [],
              'eqs': [[term(-1, f('k0', 0, 0), f('c', 1, 0)), term(-1, f('bb', 0, 0), f('c', 0, 1))]]},
}


# ---------------------------------------------------------------------------
# building
# ---------------------------------------------------------------------------
def symbols_of(spec):
    from sympy import Symbol, Function
    from sympkf.symbolic.constants import t
    if spec.get('user_t'):
        t = Symbol('t')         # the symbol of the user
    X = [Symbol(c) for c in spec['coords']]
    ns = dict(zip(spec['coords'], X))
    for n in spec['fields']:
        ns[n] = Function(n)(t, *X)
    for n in spec['consts']:
        ns[n] = t if n == 't' else Symbol(n)
    for n in spec['cfuncs']:
        ns[n] = Function(n)(*X)
    for n in spec['exog']:
        ns[n] = Function(n)(t, *X)
    for n in spec.get('rexog', []):
        from sympkf.symbolic.random import omega
        ns[n] = Function(n)(t, *X, omega)
    return t, X, ns


def build_rhs(spec, eq, X, ns):
    from sympy import Derivative, Rational, Integer
    out = Integer(0)
    for c, den, facs in eq:
        e = Rational(c, den)
        for name, orders, p, *wrap in facs:
            b = ns[name]
            d = [(xi, o) for xi, o in zip(X, orders) if o]
            if d:
                b = Derivative(b, *d)
            if wrap:
                import sympy
                b = getattr(sympy, wrap[0])(b)
            e = e * b ** (Rational(p) if isinstance(p, str) else p)
        out = out + e
    return out


def build(spec, name=''):
    from sympy import Derivative
    from sympkf.symbolic.util import PDESystem, Eq
    t, X, ns = symbols_of(spec)
    eqs = [Eq(Derivative(ns[n], t), build_rhs(spec, eq, X, ns)) for n, eq in zip(spec['fields'], spec['eqs'])]
    return PDESystem(eqs, name=name) if name else PDESystem(eqs)


def shrink_spec(spec, min_terms=0):
    import copy
    for i, eq in enumerate(spec['eqs']):
        for j in range(len(eq)):
            if len(eq) > max(min_terms, 0) + (1 if min_terms == 0 else 0) or (len(eq) > 1):
                s = copy.deepcopy(spec)
                del s['eqs'][i][j]
                yield clean(s)
    for i, eq in enumerate(spec['eqs']):
        for j, t in enumerate(eq):
            for k in range(len(t[2])):
                if len(t[2]) > 1:
                    s = copy.deepcopy(spec)
                    del s['eqs'][i][j][2][k]
                    yield clean(s)
                if isinstance(t[2][k][2], int) and t[2][k][2] > 1:
                    s = copy.deepcopy(spec)
                    s['eqs'][i][j][2][k][2] = 1
                    yield clean(s)
                for d, o in enumerate(t[2][k][1]):
                    if o:
                        s = copy.deepcopy(spec)
                        s['eqs'][i][j][2][k][1][d] = o - 1
                        yield clean(s)
            if (t[0], t[1]) != (1, 1):
                s = copy.deepcopy(spec)
                s['eqs'][i][j][0] = s['eqs'][i][j][1] = 1
                yield clean(s)


def clean(spec):
    used = {x[0] for eq in spec['eqs'] for t in eq for x in t[2]}
    for key in ('consts', 'cfuncs', 'exog', 'rexog'):
        if key in spec:
            spec[key] = [n for n in spec[key] if n in used]
    return spec


def random_forcing(rng, spec):
    """Adds random exogenous functions (model errors, random parameters) to a few terms."""
    dim = len(spec['coords'])
    names = [n for n in rng.choice([['W'], ['W', 'Z'], ['\\eta']]) if n not in spec['coords'] + spec['fields']]

    def factor():
        o = [0] * dim
        if rng.random() < 0.4:
            o[rng.randrange(dim)] = 1
        return [rng.choice(names), o, 1]
    for eq in spec['eqs']:
        for _ in range(rng.choice([0, 1, 1])):
            r = rng.random()
            a = factor()
            if r < 0.35:
                t = [a]
            elif r < 0.6:
                b = factor()
                t = [a[:2] + [2]] if a == b else [a, b]
            elif r < 0.9:
                t = [a, [rng.choice(spec['fields']), [0] * dim, 1]]
            else:
                t = [a[:2] + [2], [rng.choice(spec['fields']), [0] * dim, 1]]
            eq.append([rng.choice([-1, 1, 2]), 1, t])
    spec['rexog'] = names
    return clean(spec)


def seasonal(rng, spec):
    """Terms whose coefficient holds the time or a coordinate, explicitly."""
    dim = len(spec['coords'])
    eqs = [eq for eq in spec['eqs'] if eq and dim < 3]
    for _ in range(rng.choice([1, 1, 2]) if eqs else 0):
        n = rng.choice(['t', 't'] + spec['coords'])
        t = rng.choice(rng.choice(eqs))
        if any(x[0] == n for x in t[2]):
            continue
        t[2].append([n, [0] * dim, rng.choice([1, 1, 2])] + rng.choice([[], [], ['cos'], ['sin']]))
        if n == 't' and 't' not in spec['consts']:
            spec['consts'] = spec['consts'] + ['t']
    return spec


def exotic(rng, spec):
    """Adds non-polynomial features: reciprocal and fractional powers, elementary functions, explicit coordinates."""
    for eq in spec['eqs']:
        t = rng.choice(eq)
        kind = rng.choice(['wrap', 'recip', 'frac', 'coord'])
        dim = len(spec['coords'])
        if kind == 'coord':
            t[2].append([rng.choice(spec['coords']), [0] * dim, rng.choice([1, 1, 2])])
            continue
        for x in t[2]:
            if x[0] in spec['fields'] and not any(x[1]):
                if kind == 'wrap':
                    x[2:] = [1, rng.choice(['exp', 'sin'])]
                else:
                    x[2] = -1 if kind == 'recip' else rng.choice(['1/2', '3/2'])
                break
        else:
            f0 = rng.choice(spec['fields'])
            t[2].append([f0, [0] * dim, -1 if kind == 'recip' else 1] + (['exp'] if kind == 'wrap' else []))
    spec['positive'] = True
    return spec
