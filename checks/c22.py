"""C22: equation arithmetic preserves solutions, whatever the caches and the history."""
import copy

TIERS = {'quick': {'runs': 500, 'wall': 300, 'timeout': 120}, 'thorough': {'runs': 30000, 'wall': 3600, 'timeout': 240}}
RULE = ('a case is a session of 1-5 chains of operations on equations between random expressions (sum, difference, opposite, product '
        'by an expression or by an equation, substitution, expansion, evaluation, isolation of a function or of a derivative that enters '
        'linearly), under a seeded set order, a hash seed and a cache configuration, with the caches emptied at random source lines and '
        'between requests, operations interrupted at a chosen source line then repeated, or made by concurrent threads under a seeded '
        'schedule; both sides are compared with the operation on exact values; non-trivial when a cache was lost, a fault fired, a thread '
        'switched or a set order was imposed; distinct by event-log and fault digest')
REAL = ['sympkf.symbolic.util.Eq', 'sympkf.symbolic.random', 'sympy']
STUB = ['iteration order of sets in sympkf (seeded)', 'contents and size of the memoisation caches (seeded)', 'arrival of faults (seeded)',
        'thread scheduling (decided by the simulator at source lines)']
ASSUMPTIONS = ['an identity that fails somewhere fails at a random point of random polynomials']

BOTH = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'imuleq': lambda x, y: x * y}
STEPS = ['add', 'sub', 'neg', 'mul', 'imul', 'imuleq', 'expand', 'doit', 'subs', 'subs', 'pairs', 'swap', 'expand0', 'doit0']
HINTS = {'expand0': ('expand', {'mul': False}), 'doit0': ('doit', {'integrals': False})}


def gen_case(rng, tier, k):
    from checks import algebra as A
    funcs = A.gen_funcs(rng)
    expr = lambda d: A.gen_expr(rng, funcs, d, allow=rng.choice([('D',), ('D', 'fn'), ('D', 'E'), ('D', 'I')]))  # noqa

    def small(d):
        e = expr(d)
        while A.size(e) > 10 or A.degree(e) > 8:
            e = expr(d)
        return e
    ops = []
    while len(ops) < rng.choice([1, 2, 3, 5]):
        if ops and rng.random() < 0.35:
            # a neighbour of an earlier equation
            op = copy.deepcopy(rng.choice(ops))
            key = rng.choice('ab')
            op[key] = A.mutate(rng, op[key], funcs)
            ops.append(op)
            continue
        op = {'op': 'chain', 'a': small(2), 'b': small(2), 'steps': []}
        if rng.random() < 0.4:
            op['op'] = 'isolate'
            while A.has(op['a'], 'r') or A.has(op['b'], 'r'):
                op['a'], op['b'] = small(2), small(2)       # a denominator is a condition on the solution
            op['c'] = small(1)
            while A.has(op['c'], 'r'):
                op['c'] = small(1)
            op['what'] = rng.choice(['f', 'D', 'D'])
            op['two'] = rng.random() < 0.4
            op['scale'] = rng.choice([1, -1, 2, 'c'])
        else:
            for _ in range(rng.choice([1, 2, 3, 4])):
                c, d = small(1), small(1)
                if rng.random() < 0.4:
                    # a side shared with the equation
                    if rng.random() < 0.5:
                        op[rng.choice('ab')] = rng.choice([['s', 'k'], ['x', 'x'], ['f', rng.choice(sorted(funcs))]])
                    c, d = rng.choice([(op['a'], d), (c, op['b']), (op['b'], op['a']), (d, d), (op['a'], op['b'])])
                op['steps'].append([rng.choice(STEPS), c, d, rng.choice(['k', 'm']), rng.choice([-1, 2, 3])])
        ops.append(op)
    case = A.gen_session(rng, ops)
    case['funcs'] = funcs
    return case


def other(s):
    return 'm' if s == 'k' else 'k'


def products(e):
    import sympy
    return {m for m in e.atoms(sympy.Mul) if any(a.is_Add for a in m.args)}


def run_case(case, ctx):
    import sympy
    from sympy.core.function import AppliedUndef
    from checks import algebra as A
    from sympkf.symbolic.util import Eq
    make = A.Maker(case['funcs'])
    val = A.Values(case['funcs'], case['vseed'])
    U = sympy.Function('U_0')(make.at['t'], make.at['x'])

    def perform(op):
        a, b = make(op['a']), make(op['b'])
        if op['op'] == 'isolate':
            T = sympy.Derivative(U, make.at['t']) if op['what'] == 'D' else U
            c = make(op['c']) if op['scale'] == 'c' else sympy.Integer(op['scale'])
            lhs, rhs = a + c * T, b
            if op['two']:
                rhs = rhs + 5 * T
            q = Eq(lhs, rhs)
            if any(not x.doit().atoms(AppliedUndef) for x in c.atoms(sympy.Derivative)):
                return q, None, T       # a coefficient that is a number in disguise
            if c == 0 and not op['two'] or c == 5 or not isinstance(q, Eq) or T not in q.atoms(type(T)):
                return q, None, T
            return q, q.isolate(T), T
        q = Eq(a, b)
        out = [q]
        for kind, c, d, s, n in op['steps']:
            if not isinstance(q, Eq):
                break
            if kind in ('add', 'sub', 'imuleq'):
                r = Eq(make(c), make(d))
                if not isinstance(r, Eq):
                    out.append(q)
                    continue
                if kind == 'imuleq':
                    q *= r
                else:
                    q = q + r if kind == 'add' else q - r
            elif kind == 'neg':
                q = -q
            elif kind == 'mul':
                q = q * make(c)
            elif kind == 'imul':
                q *= make(c)
            elif kind == 'subs':
                q = q.subs(sympy.Symbol(s), n)
            elif kind == 'pairs':
                q = q.subs([(sympy.Symbol(s), sympy.Symbol(other(s))), (sympy.Symbol(other(s)), n)])
            elif kind == 'swap':
                q = q.subs({sympy.Symbol('k'): sympy.Symbol('m'), sympy.Symbol('m'): sympy.Symbol('k')}, simultaneous=True)
            elif kind in HINTS:
                q = getattr(q, HINTS[kind][0])(**HINTS[kind][1])
            else:
                q = getattr(q, kind)()
            out.append(q)
        return out

    def sides(q, want, where, what):
        got = []
        if q in (sympy.true, sympy.false):
            d = A.differ(val.at_point(want[0]), val.at_point(want[1]))
            ctx.check(d == (q == sympy.false), 'value', lambda: f'{where}{what} is {q}')
            return
        ctx.check(isinstance(q, Eq), 'class', lambda: f'{where}{what} is of type {type(q)}')
        for e, w in zip(q.args, want):
            try:
                got = val.at_point(val.expr(e))
            except A.Unknown as x:
                ctx.check(False, 'left-over', lambda: f'{where}{what} holds {x}')
            ctx.check(not A.differ(got, val.at_point(w)), 'value', lambda: f'{where}{what} is {q}, with a side of {got} instead of {val.at_point(w)}')

    def judge(op, v, where):
        a, b = val.tree(op['a']), val.tree(op['b'])
        if op['op'] == 'isolate':
            q, r, T = v
            if r is None:
                return
            ctx.check(isinstance(r, Eq) and r.args[0] == T, 'isolated', lambda: f'{where}{T} is not isolated: {r}')
            ctx.check(not r.args[1].has(T), 'isolated', lambda: f'{where}{T} is left in {r}')
            c = val.tree(op['c']) if op['scale'] == 'c' else [sympy.Integer(op['scale'])] * val.M
            den = [x - (5 if op['two'] else 0) for x in c]
            den_n = val.at_point(den)
            if any(abs(x) < 1e-12 for x in den_n):
                return
            got = val.at_point(val.expr(r.args[1]))
            want = [(y - x) / z for x, y, z in zip(val.at_point(a), val.at_point(b), den_n)]
            ctx.check(not A.differ(got, want), 'value', lambda: f'{where}{q} gives {r}: {got} instead of {want}')
            return
        sides(v[0], [a, b], where, 'the equation')
        done, prev = [], v[0]
        for st, q in zip(op['steps'], v[1:]):
            if st[0] in ('add', 'sub', 'imuleq') and not isinstance(Eq(make(st[1]), make(st[2])), Eq):
                continue
            done.append(st)
            sides(q, model(op, done), where, f'after {st[0]}, the equation')
            if st[0] in HINTS and isinstance(prev, Eq) and isinstance(q, Eq):
                # what it was asked to leave as it is
                name, hints = HINTS[st[0]]
                for g, e in zip(q.args, prev.args):
                    w = getattr(e, name)(**hints)
                    ok = g.atoms(sympy.Integral) == w.atoms(sympy.Integral) if name == 'doit' else \
                        bool(products(g)) == bool(products(w))
                    ctx.check(ok, 'hints', lambda: f'{where}{name} of {prev} with {hints} gives {q}, with a side that is not {w}')
            prev = q

    def model(op, steps):
        """The sides after the steps: a substitution changes what the constants met before it stand for."""
        envs = [keep0]
        for kind, _, _, s, n in reversed(steps):
            e = dict(envs[0])
            if kind == 'subs':
                e[s] = sympy.Integer(n)
            elif kind == 'pairs':
                e[other(s)] = e[s] = sympy.Integer(n)
            elif kind == 'swap':
                e['k'], e['m'] = e['m'], e['k']
            envs.insert(0, e)

        def tree(e, i):
            val.s.update(envs[i + 1])
            try:
                return val.tree(e)
            finally:
                val.s.update(keep0)
        a, b = tree(op['a'], -1), tree(op['b'], -1)
        for i, (kind, c, d, _, _) in enumerate(steps):
            if kind in BOTH:
                f = BOTH[kind]
                a, b = [f(x, y) for x, y in zip(a, tree(c, i))], [f(x, y) for x, y in zip(b, tree(d, i))]
            elif kind == 'neg':
                a, b = [-x for x in a], [-x for x in b]
            elif kind in ('mul', 'imul'):
                tc = tree(c, i)
                a, b = [x * y for x, y in zip(a, tc)], [x * y for x, y in zip(b, tc)]
        return a, b
    keep0 = dict(val.s)
    A.run_session(case, ctx, perform, judge)


def shrink(case):
    import copy
    from checks import algebra as A
    for a, op in enumerate(case['ops']):
        for i in range(len(op['steps'])):
            c = copy.deepcopy(case)
            del c['ops'][a]['steps'][i]
            yield c
    yield from A.shrink_session(case, 'abcd')
