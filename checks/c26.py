"""C26: an order of derivation is one object in all its notations, and the orders of a degree are listed once each."""
import copy

TIERS = {'quick': {'runs': 1500, 'wall': 300, 'timeout': 120}, 'thorough': {'runs': 30000, 'wall': 3600, 'timeout': 240}}
RULE = ('a case is a session of 2-9 requests on orders of derivation in several coordinate systems of 1-4 coordinates (some with the same '
        'coordinates in another order): an order built from a random notation (tuple, couples, a couple, sequence; repeated, unsorted, zero) '
        'and read in all of them, compared with others, orders listed by degree (whole, interleaved or abandoned), orders of derivatives of '
        'expressions, notations that are not orders; under a seeded set order, a hash seed and a cache configuration, with the caches emptied '
        'at random source lines, requests interrupted then repeated, or made by concurrent threads under a seeded schedule; non-trivial when a '
        'cache was lost, a fault fired, a thread switched or a set order was imposed; distinct by event-log and fault digest')
REAL = ['sympkf.symbolic.pkfcas.PartialOrderDerivative', 'sympkf.symbolic.util', 'sympy']
STUB = ['iteration order of sets in sympkf (seeded)', 'contents and size of the memoisation caches (seeded)', 'arrival of faults (seeded)',
        'thread scheduling (decided by the simulator at source lines)']
ASSUMPTIONS = ['orders are non-negative integers']

COORDS = ['x', 'y', 'z', 's', '\\theta', 'x_1']


def gen_case(rng, tier, k):
    from checks import algebra as A
    base = rng.sample(COORDS, rng.choice([1, 2, 2, 3, 3, 4]))
    systems = [base]
    for _ in range(rng.choice([0, 1, 2])):
        c = list(base)
        rng.shuffle(c)
        systems.append(c if rng.random() < 0.6 else rng.sample(COORDS, rng.choice([1, 2, 3])))
    top = 9 if tier == 'thorough' else 6
    ops = []
    for _ in range(rng.choice([2, 4, 6, 9])):
        op = {'op': rng.choice(['orders', 'orders', 'degree', 'degree', 'interleave', 'derivative', 'invalid', 'equal']), 'c': rng.randrange(len(systems)),
              'c2': rng.randrange(len(systems)), 'seed': rng.getrandbits(30)}
        d = len(systems[op['c']])
        n = rng.randint(0, top if d < 3 else 5)
        o = [0] * d
        for _ in range(n):
            o[rng.randrange(d)] += 1
        op['o'] = o
        op['n'] = rng.randint(0, {1: 2 * top, 2: top + 2, 3: top, 4: 4}[d])
        op['how'] = rng.choice(['tuple', 'couples', 'couple', 'sequence', 'shuffled'])
        op['stop'] = rng.choice([None, None, 0, 1, 2, 5])
        ops.append(op)
    case = A.gen_session(rng, ops)
    case['systems'] = systems
    return case


def notation(rng, X, o, how):
    """The order in a notation."""
    some = [(x, n) for x, n in zip(X, o) if n]
    if how == 'tuple' or (how == 'couple' and len(some) != 1):
        return tuple(o)
    if how == 'couple':
        return some[0]
    seq = [x for x, n in zip(X, o) for _ in range(n)]
    if how == 'sequence':
        return list(seq)
    if how == 'shuffled':
        rng.shuffle(seq)
        return seq
    out = []
    for x, n in zip(X, o):
        # a coordinate may come in several couples
        a = rng.randint(0, n)
        out += [(x, n)] if rng.random() < 0.6 else [(x, a), (x, n - a)]
    rng.shuffle(out)
    return out


def all_orders(d, n):
    if d == 1:
        return [(n,)]
    return [(k,) + rest for k in range(n + 1) for rest in all_orders(d - 1, n - k)]


def wrong(rng, X):
    """Notations that are not orders along the coordinates."""
    import sympy
    other = sympy.Symbol('not_here')
    return rng.choice([tuple([1] * (len(X) + 1)) if len(X) != 0 else None, [other], [X[0], other], [(other, 1)], [(X[0], 1), (other, 2)],
                       [(X[0], 1.5)], (other, 2), [1], [(X[0], X[0], X[0])]])


def run_case(case, ctx):
    import random
    import sympy
    from checks import algebra as A
    from sympkf.symbolic.pkfcas import PartialOrderDerivative as P
    from sympkf.symbolic.util import get_derivative_partial_orders, get_total_order
    systems = [tuple(sympy.Symbol(c) for c in s) for s in case['systems']]

    def perform(op):
        rng = random.Random(op['seed'])
        X, Y = systems[op['c']], systems[op['c2']]
        o, k = op['o'], op['op']
        if k == 'orders':
            p = P(X, notation(rng, X, o, op['how']))
            q = p.new(p.as_sequence[1:]) if sum(o) else p.copy()
            seq, couples = p.as_sequence, p.as_couples
            out = [p.as_tuple, list(couples), list(seq), q.as_tuple]
            # what the caller does with the answers
            seq.append(X[0])
            couples.clear()
            return out + [p.as_tuple, p.as_couples, p.as_sequence, P(X, p.as_couples).as_tuple, P(X, p.as_sequence).as_tuple, p.copy() == p]
        if k == 'equal':
            o2 = list(o)
            if rng.random() < 0.5:
                rng.shuffle(o2)
            a, b = P(X, notation(rng, X, o, op['how'])), P(X, notation(rng, X, o2, rng.choice(['tuple', 'couples', 'shuffled'])))
            return [o2, a == b, a == P(Y, tuple(o)) if len(X) == len(Y) else False]
        if k == 'degree':
            return [(p.as_tuple, p.coordinates) for p in P.all_of_degree(X, op['n'])]
        if k == 'interleave':
            g, h = P.all_of_degree(X, op['n']), P.all_of_degree(Y, min(op['n'], 4))
            a, b = [], []
            n = 0
            for p in g:
                a.append(p.as_tuple)
                n += 1
                if op['stop'] is None or n <= op['stop']:
                    q = next(h, None)
                    if q is not None:
                        b.append(q.as_tuple)
            if op['stop'] is None:
                b += [q.as_tuple for q in h]
            return [a, b]
        if k == 'derivative':
            t = sympy.Symbol('t')
            f = sympy.Function('f')(t, *X)
            c = [(x, n) for x, n in zip(X, o) if n]
            if not c:
                c, o = [(X[0], 1)], [1] + o[1:]
            rng.shuffle(c)
            d = sympy.Derivative(f if rng.random() < 0.6 else f ** 2 * sympy.sin(f), *c)
            return [o, get_derivative_partial_orders(d), get_total_order(d)]
        try:
            return P(X, wrong(rng, X)).as_tuple
        except TypeError as e:
            return e

    def judge(op, v, where):
        X, Y = systems[op['c']], systems[op['c2']]
        o, k = tuple(op['o']), op['op']
        seq = [x for x, n in zip(X, o) for _ in range(n)]
        what = f'{where}{k} of {o} along {X} ({op["how"]})'
        if k == 'orders':
            lower = list(o)
            if seq:
                lower[X.index(seq[0])] -= 1
            couples = list(zip(X, o))
            for a, w in zip(v, [o, couples, seq, tuple(lower), o, couples, seq, o, o, True]):
                ctx.check(a == w, 'notation', lambda: f'{what} gives {a} instead of {w}')
            ctx.check(all(type(n) is int for n in v[0]), 'notation', lambda: f'{what} holds orders that are not integers: {v[0]}')
        elif k == 'equal':
            ctx.check(v[1] == (tuple(v[0]) == o), 'equal', lambda: f'{what} equal to that of {v[0]}: {v[1]}')
            ctx.check(v[2] == (X == Y), 'equal', lambda: f'{what} equal to the same order along {Y}: {v[2]}')
        elif k == 'degree':
            got = [a for a, _ in v]
            want = all_orders(len(X), op['n'])
            ctx.check(sorted(got) == sorted(want), 'list', lambda: f'{where}the orders of degree {op["n"]} along {X} are {got}')
            ctx.check(all(c == X for _, c in v) and all(type(n) is int for a in got for n in a), 'list', lambda: f'{where}the orders listed do not hold their coordinates')
        elif k == 'interleave':
            ctx.check(sorted(v[0]) == sorted(all_orders(len(X), op['n'])), 'list', lambda: f'{where}the orders of degree {op["n"]} along {X} are {v[0]}')
            want = all_orders(len(Y), min(op['n'], 4))
            if op['stop'] is None:
                ctx.check(sorted(v[1]) == sorted(want), 'list', lambda: f'{where}the orders of degree {min(op["n"], 4)} along {Y} are {v[1]}')
            ctx.check(len(set(v[1])) == len(v[1]) and set(v[1]) <= set(want), 'list', lambda: f'{where}orders listed twice or foreign along {Y}: {v[1]}')
        elif k == 'derivative':
            want = {x: n for x, n in zip(X, v[0]) if n}
            ctx.check(dict(v[1]) == want and v[2] == sum(v[0]), 'derivative', lambda: f'{where}the derivative of orders {want} has {v[1]}, {v[2]} in all')
        else:
            ctx.check(isinstance(v, TypeError), 'accepted', lambda: f'{where}what is not an order along {X} was taken for {v}')
    A.run_session(case, ctx, perform, judge)


def shrink(case):
    from checks import algebra as A
    for a, op in enumerate(case['ops']):
        if op['n'] > 1:
            c = copy.deepcopy(case)
            c['ops'][a]['n'] -= 1
            yield c
        for i, n in enumerate(op['o']):
            if n:
                c = copy.deepcopy(case)
                c['ops'][a]['o'][i] -= 1
                yield c
    yield from A.shrink_session(case, '')
