"""C24: vector calculus operators match their definition, whatever the caches, the set order and the history."""
import copy

TIERS = {'quick': {'runs': 500, 'wall': 300, 'timeout': 120}, 'thorough': {'runs': 30000, 'wall': 3600, 'timeout': 240}}
RULE = ('a case is a session of 1-5 gradients, divergences, Laplacians and fluxes in coordinate systems of 1-3 coordinates, of random '
        'fields compatible or not, under a seeded set order, a hash seed and a cache configuration, with the caches emptied at random '
        'source lines and between requests, requests interrupted at a chosen source line then repeated, or made by concurrent threads '
        'sharing a coordinate system under a seeded schedule; compared with exact derivatives; non-trivial when a cache was lost, a fault '
        'fired, a thread switched or a set order was imposed; distinct by event-log and fault digest')
REAL = ['sympkf.symbolic.util.CoordinateSystem', 'sympkf.symbolic.util.Matrix', 'sympy']
STUB = ['iteration order of sets in sympkf (seeded)', 'contents and size of the memoisation caches (seeded)', 'arrival of faults (seeded)',
        'thread scheduling (decided by the simulator at source lines)']
ASSUMPTIONS = ['an identity that fails somewhere fails at a random point of random polynomials']


def gen_case(rng, tier, k):
    from checks import algebra as A
    coords = rng.sample(A.COORDS, rng.choice([1, 2, 2, 3]))
    wide = [c for c in A.COORDS if c not in coords]
    funcs = {}
    for i, n in enumerate(rng.choice([['f', 'g', 'h', 'X'], ['u', 'v', 'w', 'A'], ['\\kappa', 'c', 'D', 'U']])):
        args = coords + [c for c in wide if rng.random() < 0.5]
        rng.shuffle(args)
        funcs[n] = [args, i == 3]
    for n in list(funcs):
        # other fields of the same printed name
        if rng.random() < 0.4:
            r = funcs[n][1]
            args = coords + [c for c in wide if rng.random() < 0.5]
            rng.shuffle(args)
            if len(args) != len(funcs[n][0]):
                funcs[n + '~'] = [args, r]
    names = sorted(funcs)
    bad = None
    if rng.random() < 0.5:
        bad = rng.choice(['q', 'q'] + [n + '~' for n in names if n + '~' not in funcs and n[-1] != '~'])
        gone = rng.choice(coords)
        args = [c for c in A.COORDS if c != gone and rng.random() < 0.8]
        r = funcs[bad[:-1]][1] if bad != 'q' else rng.random() < 0.2
        if args and not (bad != 'q' and len(args) == len(funcs[bad[:-1]][0])):
            funcs[bad] = [args, r]
        else:
            bad = None

    def expr(d, names=names):
        while True:
            e = A.gen_expr(rng, {n: 0 for n in names}, d, allow=rng.choice([('D',), ('D', 'fn'), ('fn',), ('D', 'E')]))
            if A.size(e) <= 12 and A.degree(e) <= 8:
                return e
    ops = []
    while len(ops) < rng.choice([1, 2, 3, 5]):
        op = {'op': rng.choice(['gradient', 'div', 'laplacian', 'flux', 'iterate', 'compatible']), 'v': [expr(rng.choice([0, 1, 2])) for _ in range(3)],
              'matrix': rng.random() < 0.5, 'own': rng.random() < 0.3}
        if bad and rng.random() < 0.4 and op['op'] not in ('iterate',):
            i = 0 if op['op'] in ('gradient', 'laplacian', 'flux') else rng.randrange(len(coords))
            op['v'][i] = rng.choice([['f', bad], ['*', op['v'][i], ['f', bad]], ['+', ['D', ['f', bad], rng.choice(funcs[bad][0]), 1], op['v'][i]]])
            op['bad'] = True
        ops.append(op)
    case = A.gen_session(rng, ops)
    case['funcs'] = funcs
    case['coords'] = coords
    return case


def run_case(case, ctx):
    import sympy
    from checks import algebra as A
    from sympkf.symbolic.util import CoordinateSystem, Matrix
    make = A.Maker(case['funcs'])
    val = A.Values(case['funcs'], case['vseed'])
    X = [make.at[c] for c in case['coords']]
    n = len(X)
    shared = CoordinateSystem(tuple(X) if case['vseed'] % 2 else list(X))

    def perform(op):
        c = CoordinateSystem(tuple(X)) if op['own'] else shared
        v = [make(e) for e in op['v'][:n]]
        k = op['op']
        if k == 'iterate':
            return list(c) + list(c)
        if k == 'compatible':
            return [c.is_compatible(f) for f in make.fs.values() if f.args]
        try:
            if k == 'gradient':
                return c.gradient(v[0])
            if k == 'div':
                return c.div(Matrix(v) if op['matrix'] else v)
            if k == 'laplacian':
                return c.div(c.gradient(v[0]))
            K = sympy.Matrix(n, n, lambda i, j: sympy.Integer(2 if i == j else 1 + i - j))
            return c.div(K * c.gradient(v[0]))
        except ValueError as e:
            return e

    def diff(vs, x):
        return [sympy.diff(a, x) for a in vs]

    def incompatible(es):
        # after simplification of the expressions
        from sympy.core.function import AppliedUndef
        return any(not set(X) <= set(f.args) for e in es for f in make(e).atoms(AppliedUndef))

    def judge(op, v, where):
        k = op['op']
        if k == 'iterate':
            ctx.check(v == X + X, 'iterate', lambda: f'{where}iterating gives {v}')
            return
        if k == 'compatible':
            want = [set(X) <= set(f.args) for f in make.fs.values() if f.args]
            ctx.check(v == want, 'compatible', lambda: f'{where}compatibility of {list(make.fs.values())} with {X} is {v}')
            return
        es = op['v'][:n] if k == 'div' else op['v'][:1]
        no = incompatible(es)
        if isinstance(v, ValueError) or no:
            ctx.check(no, 'rejected', lambda: f'{where}{k} of {[make(e) for e in es]} in {X} is rejected: {v}')
            ctx.check(isinstance(v, ValueError), 'accepted', lambda: f'{where}{k} of {[make(e) for e in es]} in {X} is accepted')
            return
        ts = [val.tree(e) for e in es]
        if k == 'gradient':
            ctx.check(isinstance(v, sympy.MatrixBase) and v.shape == (n, 1), 'shape', lambda: f'{where}the gradient is {v}')
            got, want = list(v), [diff(ts[0], x) for x in X]
        elif k == 'div':
            got, want = [v], [[sum(z) for z in zip(*[diff(t, x) for t, x in zip(ts, X)])]]
        elif k == 'laplacian':
            got, want = [v], [[sum(z) for z in zip(*[diff(diff(ts[0], x), x) for x in X])]]
        else:
            m = lambda i, j: 2 if i == j else 1 + i - j  # noqa
            parts = [[m(i, j) * a for a in diff(diff(ts[0], X[j]), X[i])] for i in range(n) for j in range(n)]
            got, want = [v], [[sum(z) for z in zip(*parts)]]
        for e, w in zip(got, want):
            try:
                g = val.at_point(val.expr(sympy.sympify(e)))
            except A.Unknown as x:
                ctx.check(False, 'left-over', lambda: f'{where}{k} holds {x}')
            ctx.check(not A.differ(g, val.at_point(w)), 'value', lambda: f'{where}{k} of {[make(x) for x in es]} in {X} is {v}')
    A.run_session(case, ctx, perform, judge)


def shrink(case):
    from checks import algebra as A
    for a, op in enumerate(case['ops']):
        for i in range(3):
            for s in A.subtrees(op['v'][i]):
                c = copy.deepcopy(case)
                c['ops'][a]['v'][i] = s
                yield c
    yield from A.shrink_session(case, '')
