"""C21: the expectation operator is linear, idempotent and commutes with derivatives, whatever the caches and the history."""
import copy

TIERS = {'quick': {'runs': 500, 'wall': 300, 'timeout': 120}, 'thorough': {'runs': 30000, 'wall': 3600, 'timeout': 240}}
RULE = ('a case is a session of 1-5 expectations of random expressions, equations and matrices (sums, products, powers, elementary '
        'functions, derivatives, integrals and expectations of deterministic and random functions), under a seeded set order, a hash '
        'seed and a cache configuration, with the caches emptied at random source lines and between requests, requests interrupted at a '
        'chosen source line then repeated, or made by concurrent threads under a seeded schedule; each answer is compared with means over '
        'a finite ensemble; non-trivial when a cache was lost, a fault fired, a thread switched or a set order was imposed; distinct by event-log and fault digest')
REAL = ['sympkf.symbolic.random', 'sympkf.symbolic.util', 'sympy']
STUB = ['iteration order of sets in sympkf (seeded)', 'contents and size of the memoisation caches (seeded)', 'arrival of faults (seeded)',
        'thread scheduling (decided by the simulator at source lines)']
ASSUMPTIONS = ['an identity that fails somewhere fails at a random point of a random ensemble of three polynomials']


def gen_case(rng, tier, k):
    from checks import algebra as A
    funcs = A.gen_funcs(rng)
    ops = []
    while len(ops) < rng.choice([1, 2, 3, 5]):
        if ops and rng.random() < 0.35:
            # a neighbour of an earlier request
            op = copy.deepcopy(rng.choice(ops))
            key = rng.choice('ab')
            if rng.random() < 0.7:
                op[key] = A.mutate(rng, op[key], funcs)
            op['flavour'] = rng.choice([None, None, 'real'])
            ops.append(op)
            continue
        op = {'op': rng.choice(['E'] * 6 + ['Eq', 'Matrix', 'EE', 'israndom', 'comb'])}
        for key in 'ab':
            e = A.gen_expr(rng, funcs, rng.choice([1, 2, 2, 3]))
            while A.size(e) > 16 or A.degree(e) > 12:
                e = A.gen_expr(rng, funcs, 2)
            op[key] = e
        op['shape'] = rng.choice([[2, 2], [2, 2], [1, 3], [3, 1], [2, 3], [3, 3], [1, 1]])
        op['immutable'] = rng.random() < 0.3
        op['flavour'] = rng.choice([None, None, None, 'real'])
        ops.append(op)
    case = A.gen_session(rng, ops)
    case['funcs'] = funcs
    return case


def run_case(case, ctx):
    import sympy
    from sympy.core.function import AppliedUndef
    from checks import algebra as A
    from sympkf.symbolic.random import Expectation, israndom
    from sympkf.symbolic.util import Eq, Matrix
    makers = {None: A.Maker(case['funcs']), 'real': A.Maker(case['funcs'], real=True)}
    entries = lambda a, b, n, k: [a, b, a * b, 2 * a, b - a, k * b, a, -b, 1 + b][:n]  # noqa
    val = A.Values(case['funcs'], case['vseed'])

    def perform(op):
        k = op['op']
        make = makers[op['flavour']]
        a = make(op['a'])
        if k == 'israndom':
            return israndom(a)
        if k in ('E', 'EE'):
            e = Expectation(a)
            return Expectation(e) if k == 'EE' else e
        b = make(op['b'])
        if k == 'Eq':
            q = Eq(a, b)
            return (q, Expectation(q)) if isinstance(q, Eq) else (q, None)
        if k == 'comb':
            return Expectation(3 * a - b * sympy.Symbol('k'))
        r, c = op['shape']
        kind = sympy.ImmutableMatrix if op['immutable'] else Matrix
        return Expectation.eval(kind(r, c, entries(a, b, r * c, sympy.Symbol('k'))))

    def same(e, trees, where, what):
        try:
            got = val.at_point(val.expr(e))
        except A.Unknown as x:
            ctx.check(False, 'left-over', lambda: f'{where}{what} holds {x}: {e}')
        want = val.at_point([val.mean(trees)] * val.M)
        ctx.check(not A.differ(got, want), 'value', lambda: f'{where}{what} is {e}: {got} instead of {want}')
        form(e, where, what)

    def form(e, where, what):
        for x in e.atoms(Expectation):
            a = x.args[0]
            ctx.check(random_(a), 'deterministic', lambda: f'{where}{what} holds the expectation of the deterministic {a}')
            ctx.check(not isinstance(a, (sympy.Add, sympy.Derivative, sympy.Integral, Expectation)), 'not-applied', lambda: f'{where}{what} holds {x}')
            if isinstance(a, sympy.Mul):
                for y in a.args:
                    ctx.check(random_(y), 'factor', lambda: f'{where}{what} holds {x} with the deterministic factor {y}')

    def random_(e):
        from sympkf.symbolic.random import omega
        if isinstance(e, Expectation):
            return False
        return e == omega or any(random_(a) for a in e.args)

    def judge(op, v, where):
        k = op['op']
        make = makers[op['flavour']]
        ta = val.tree(op['a'])
        if k != 'israndom':
            known = set().union(*[make(op[x]).atoms(AppliedUndef) for x in 'ab'])
            for e in (v if isinstance(v, (tuple, sympy.MatrixBase)) else [v]):
                got = e.atoms(AppliedUndef) if e is not None else set()
                names = lambda fs: {type(f) for f in fs}  # noqa
                ctx.check(names(got) <= names(known), 'foreign', lambda: f'{where}{v} holds functions which are not in {known}')
        if k == 'israndom':
            ctx.check(bool(v) == random_(make(op['a'])), 'israndom', lambda: f'{where}israndom is {v} for {make(op["a"])}')
        elif k in ('E', 'EE'):
            same(v, ta, where, f'the expectation of {make(op["a"])}')
        elif k == 'comb':
            tb = val.tree(op['b'])
            same(v, [3 * p - q * val.s['k'] for p, q in zip(ta, tb)], where, 'the expectation of a combination')
        elif k == 'Eq':
            q, e = v
            if e is None:
                return
            # an equation may become trivial
            if e in (sympy.true, sympy.false):
                tb = val.tree(op['b'])
                d = A.differ(val.at_point([val.mean(ta)]), val.at_point([val.mean(tb)]))
                ctx.check(d == (e == sympy.false), 'value', lambda: f'{where}the expectation of {q} is {e}')
                return
            ctx.check(isinstance(e, Eq), 'equation', lambda: f'{where}the expectation of an equation is {type(e)}')
            pair = [ta, val.tree(op['b'])]
            for side, tr in zip(e.args, pair):
                same(side, tr, where, f'a side of the expectation of {q}')
        else:
            tb = val.tree(op['b'])
            r, c = op['shape']
            ctx.check(v.shape == (r, c), 'matrix', lambda: f'{where}the expectation of a matrix has shape {v.shape}')
            ks = [entries(p, q, r * c, val.s['k']) for p, q in zip(ta, tb)]
            for i, e in enumerate(v):
                same(e, [m[i] for m in ks], where, 'an entry of the expectation of a matrix')
    A.run_session(case, ctx, perform, judge)


def shrink(case):
    from checks import algebra as A
    yield from A.shrink_session(case, 'ab')
