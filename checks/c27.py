"""C27: comparing two expressions splits their terms into those in common and those specific to each."""
import copy

TIERS = {'quick': {'runs': 700, 'wall': 300, 'timeout': 120}, 'thorough': {'runs': 30000, 'wall': 3600, 'timeout': 240}}
RULE = ('a case is a session of 1-6 comparisons of random expressions or equations (products to be expanded, derivatives, elementary '
        'functions and expectations, one made from the other by adding, removing, negating or rewriting terms), their parts read in a random '
        'order, some a look-alike of an earlier one, some answers changed by the caller, some read again on the same object; with the caches emptied at random source lines, '
        'requests interrupted then repeated on the same object, or made by concurrent threads sharing a comparison under a seeded schedule; '
        'judged by exact values: what is in common and what is specific add up to each expression and no term is on both sides; non-trivial '
        'when a cache was lost, a fault fired, a thread switched or a set order was imposed; distinct by event-log and fault digest')
REAL = ['sympkf.symbolic.util.CompareExpression, CompareEquation, Eq', 'sympkf.symbolic.random', 'sympy']
STUB = ['iteration order of sets in sympkf (seeded)', 'contents and size of the memoisation caches (seeded)', 'arrival of faults (seeded)',
        'thread scheduling (decided by the simulator at source lines)']
ASSUMPTIONS = ['an identity that fails somewhere fails at a random point of random polynomials']


A_COORDS = ['t', 'x', 'y']


def gen_case(rng, tier, k):
    from checks import algebra as A
    funcs = A.gen_funcs(rng)

    def expr(d):
        while True:
            e = A.gen_expr(rng, funcs, d, allow=rng.choice([('D',), ('D', 'fn'), ('fn',), ('D', 'E'), ('E', 'fn'), ()]))
            if A.size(e) <= 12 and A.degree(e) <= 8:
                return e
    ops = []
    n = rng.choice([1, 2, 3, 6])
    for _ in range(n):
        terms = [expr(rng.choice([0, 1, 1, 2])) for _ in range(rng.randint(1, 5))]
        other = [t for t in terms if rng.random() < 0.7]
        other = [['*', ['n', -1, 1], t] if rng.random() < 0.15 else ['*', ['n', 2, 1], t] if rng.random() < 0.1 else t for t in other]
        other += [expr(rng.choice([0, 1, 2])) for _ in range(rng.choice([0, 0, 1, 2]))]
        rng.shuffle(other)
        ops.append({'op': rng.choice(['expressions', 'expressions', 'equations']), 'a': terms, 'b': other or [['n', 0, 1]],
                    'l': [expr(1), expr(1)], 'same': rng.random() < 0.3, 'read': rng.sample(['common', 'specific', 'common', 'specific', 'spoil'], 4),
                    'shared': rng.randrange(2) if rng.random() < 0.5 else None})
    for i in range(1, len(ops)):
        if rng.random() < 0.35:
            # a look-alike of another comparison: a side alike, the other of the same shape
            o = copy.deepcopy(rng.choice(ops[:i]))
            k = rng.choice('ab')
            o[k] = rng.choice([ops[i][k], relabel(rng, o[k], funcs), relabel(rng, o[k], funcs)])
            ops[i] = dict(o, shared=None)
    shared = [copy.deepcopy(o) for o in ops if o['shared'] is not None]
    case = A.gen_session(rng, ops)
    case['funcs'] = funcs
    case['pair'] = shared[0] if shared else None
    return case


def relabel(rng, e, funcs):
    """The expression with other functions, constants or numbers in it."""
    if not isinstance(e, list):
        return e
    if e and e[0] in ('f', 's', 'x') and rng.random() < 0.5:
        return [e[0], rng.choice({'f': sorted(funcs), 's': ['k', 'm'], 'x': A_COORDS}[e[0]])]
    return [relabel(rng, x, funcs) for x in e]


def run_case(case, ctx):
    import sympy
    from checks import algebra as A
    from sympkf.symbolic.util import CompareExpression, CompareEquation, Eq
    make = A.Maker(case['funcs'])
    val = A.Values(case['funcs'], case['vseed'])

    def build(op):
        """The comparisons asked for: (comparison, first, second)."""
        a, b = (sum((make(e) for e in op[k]), sympy.Integer(0)) for k in 'ab')
        if op['op'] == 'expressions':
            return [(CompareExpression(a, b), a, b)]
        l1, l2 = make(op['l'][0]), make(op['l'][0] if op['same'] else op['l'][1])
        c = CompareEquation(Eq(l1, a, evaluate=False), Eq(l2, b, evaluate=False))
        return [(c.lhs, l1, l2), (c.rhs, a, b)]
    kept = build(case['pair']) if case.get('pair') else None
    made, calls = {}, {}

    def perform(op):
        if op['shared'] is not None and kept:
            cs = kept
        else:
            # one object for each operation, also after an interruption
            i = next(i for i, o in enumerate(case['ops']) if o is op)
            calls[i] = calls.get(i, 0) + 1
            if i not in made or (op.get('fault') and calls[i] == 2):
                made[i] = build(op)     # the second call is the one interrupted, the first tells where
            cs = made[i]
        out = []
        for c, a, b in cs:
            got = {}
            for r in op['read']:
                if r == 'spoil':
                    # what the caller does with an answer is its own business
                    c.common.clear()
                    for s in c.specific:
                        s.clear()
                else:
                    v = getattr(c, r)
                    got[r] = set(v) if r == 'common' else [set(s) for s in v]
            got.setdefault('common', set(c.common))
            got.setdefault('specific', [set(s) for s in c.specific])
            out.append((a, b, got))
        return out

    def values(e):
        return val.at_point(val.expr(sympy.sympify(e)))

    def same(a, b):
        return not A.differ(values(a), values(b))

    def judge(op, out, where):
        for a, b, got in out:
            what = f'{where}comparison of {a} and {b}: common {got["common"]}, specific {got["specific"]}'
            ctx.check(len(got['specific']) == 2, 'specific', lambda: what)
            for e, s in zip((a, b), got['specific']):
                ctx.check(not got['common'] & s, 'overlap', lambda: f'{what}: a term is both in common and specific')
                ctx.check(same(sum(got['common'] | s, sympy.Integer(0)), e), 'sum', lambda: f'{what}: they do not add up to {e}')
            s0, s1 = got['specific']
            ctx.check(not s0 & s1, 'overlap', lambda: f'{what}: a term is specific to both')
            for s in [got['common'], s0, s1]:
                ctx.check(not any(t.is_Add or (t.is_Mul and any(f.is_Add for f in t.args)) for t in s), 'terms', lambda: f'{what}: not the terms of the expanded expressions')
    A.run_session(case, ctx, perform, judge)


def shrink(case):
    from checks import algebra as A
    for a, op in enumerate(case['ops']):
        for k in 'ab':
            for i in range(len(op[k])):
                if len(op[k]) > 1:
                    c = copy.deepcopy(case)
                    del c['ops'][a][k][i]
                    yield c
                for s in A.subtrees(op[k][i]):
                    c = copy.deepcopy(case)
                    c['ops'][a][k][i] = s
                    yield c
    if case.get('pair'):
        yield dict(copy.deepcopy(case), pair=None)
    yield from A.shrink_session(case, '')
