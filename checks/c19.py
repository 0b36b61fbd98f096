"""C19: the univariate substitution tree is complete and correct at every degree."""
import copy

TIERS = {'quick': {'runs': 100, 'wall': 300, 'timeout': 240}, 'thorough': {'runs': 12000, 'wall': 4200, 'timeout': 420}}
RULE = ('a case is a field in 1, 2 or 3 dimensions and a history of 1-6 requests of its substitution tree with '
        'increasing, decreasing or repeated degrees (to 9, 5 and 4), some struck by an interrupt, memory or recursion '
        'error at a chosen source line, under a seeded set order and cache configuration; every rule of every answer is '
        'evaluated on a random ensemble of normalised errors; non-trivial when an answer of degree two or more was '
        'judged; distinct by event-log and fault-schedule digest')
REAL = ['sympkf.symbolic.pkfcas.UnivariateTree, PartialOrderDerivative, Field', 'sympkf.symbolic.random', 'sympkf.symbolic.util.Eq', 'sympy']
STUB = ['arrival of the fault (seeded source line of sympkf)', 'iteration order of sets in sympkf (seeded)']
ASSUMPTIONS = ['an identity that fails somewhere fails on a random ensemble up to a relative error of 1e-7']


def gen_case(rng, tier, k):
    dim = rng.choice([1, 1, 1, 2, 2, 3])
    top = {1: 9 if tier == 'thorough' else 8, 2: 6 if tier == 'thorough' else rng.choice([3, 4, 5]), 3: 4 if tier == 'thorough' else rng.choice([3, 3, 3, 4])}[dim]
    case = {'env': {'hashseed': rng.randrange(6), 'cache': rng.choice(['default'] * 5 + [40])},
            'salt': rng.choice([0, rng.getrandbits(40), rng.getrandbits(40)]), 'eseed': rng.getrandbits(30),
            'coords': rng.choice([['x', 'y', 'z'], ['x', 'y', 'z'], ['y', 'x', 'w'], ['lon', 'lat', 'd'], ['b', 'a', 'c']])[:dim], 'name': rng.choice(['u', 'h', '\\theta', 'T_2']),
            'time': rng.random() < 0.85, 'ops': []}
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        op = {'d': rng.randint(0, top) if rng.random() < 0.9 else None}
        if rng.random() < 0.35:
            op['fault'] = {'ff': rng.random(), 'of': rng.random(), 'kind': rng.choice(['interrupt', 'interrupt', 'memory', 'recursion', 'evict'])}
        case['ops'].append(op)
    return case


class _Ens:
    """A random ensemble of normalised errors only."""

    def __init__(self, dim, K, seed, M=6):
        import numpy as np
        from sim import series as S
        self.dim, self.K, self.shape = dim, K, (K + 1,) * dim
        rng = np.random.RandomState(seed % (2 ** 31))
        idx = np.indices(self.shape).sum(axis=0)
        e = rng.uniform(-1, 1, (M,) + self.shape) * 0.7 ** idx
        e[(slice(None),) + (0,) * dim] += np.linspace(-1, 1, M)
        e = e - e.mean(axis=0, keepdims=True)
        V = S.mean(S.mul(e, e))
        eps = S.mul(e, S.power(V, -0.5))
        self.val = {('eps', 'f'): eps, ('err', 'f'): e, ('var', 'f'): V}
        self.coef, self.consts = {}, {}
        self.mean, self.err = {}, {}


def run_case(case, ctx):
    import itertools
    import numpy as np
    from sympy import Function, symbols, Derivative
    from checks import oracle as O
    from sim import series as S
    from sim.core import resolve_faults
    from sympkf.symbolic.pkfcas import Field
    from sympkf.symbolic.random import Expectation
    from sympkf.symbolic.constants import t
    X = [symbols(c) for c in case['coords']]
    dim = len(X)
    fn = Function(case['name'])(*(([t] if case['time'] else []) + X))
    field = Field(fn)
    top = max([2] + [op['d'] or 0 for op in case['ops']])
    ens = _Ens(dim, top + 1, case['eseed'])

    class EV(O.Evaluator):
        def __init__(self):
            self.ens, self.spec, self.sym, self.kind, self.rand, self.memo, self.closure = ens, None, {}, {}, {}, {}, {}
            self.coords = case['coords']
            self._reg(field.epsilon, ('eps', 'f'))
    ev = EV()
    eps = field.epsilon
    judged = {}
    hit = 0
    concrete = copy.deepcopy(case['ops'])

    def multi(n):
        return [a for a in itertools.product(range(n + 1), repeat=dim) if sum(a) == n]

    def D(a):
        d = [(x, k) for x, k in zip(X, a) if k]
        return Derivative(eps, *d) if d else eps

    def judge(tree, d, what):
        want = {}
        for tot in range(2, d + 1):
            for na in range(1, tot // 2 + 1):
                for a in multi(na):
                    for b in multi(tot - na):
                        want[Expectation(D(a).doit() * D(b).doit())] = (a, b)
        lack = [k for k in want if k not in tree]
        ctx.check(not lack, 'incomplete', lambda: f'{what}: degree {d} lacks {len(lack)} of {len(want)} rules, e.g. {lack[0]}')
        for k, e in tree.items():
            if judged.get(k) == e:
                continue
            for x in e.atoms(Expectation):
                m = O.moment_degree(_P(field), x)
                facs = x.args[0].as_ordered_factors()
                ok = m is not None and (x.args[0] == eps ** 2 or any(y == eps for y in facs))
                ctx.check(ok, 'form', lambda: f'{what}: the rule for {k} holds {x}')
            try:
                v, mag = ev.value(e)
                r, _ = ev.value(k)
            except O.NotEvaluable as x:
                ctx.check(False, 'form', lambda: f'{what}: rule for {k}: {x}')
            ctx.check(np.max(np.abs(v - r)) <= 1e-7 * (1 + mag + abs(r[0])), 'not-identity',
                      lambda: f'{what}: {k} = {str(e)[:200]} is false: {r[0]} against {v[0]}')
            judged[k] = e
            ctx.log('rule', str(k)[:80], len(str(e)))

    for i, op in enumerate(case['ops']):
        f = op.get('fault')
        if f and 'func' not in f:
            twin = Field(fn)
            ctx.profile()
            twin.subs_tree(op['d'] if op['d'] is not None else top)
            r = resolve_faults(ctx.end_profile(), [f])
            f = r[0] if r else None
        concrete[i]['fault'] = f
        if f:
            ctx.arm([f])
            st, v = ctx.call(field.subs_tree, op['d'])
            left = ctx.disarm()
            hit += 1 - left
            ctx.log('faulted', i, st, type(v).__name__)
            ctx.check(not (st == 'exc' and left), 'raised', lambda: f'op {i} raised {v!r}')
            if st == 'ok' and op['d'] is not None:
                judge(v, op['d'], f'op {i} struck by {f}')
            if f['kind'] == 'evict':
                ctx.check(st == 'ok', 'raised', lambda: f'op {i} raised {v!r} when the caches were emptied')
        tree = ctx.must('raised', f'op {i} subs_tree({op["d"]})', field.subs_tree, op['d'])
        ctx.log('tree', op['d'], len(tree))
        judge(tree, op['d'] or 0, f'op {i}')
    ctx.nontrivial = len(judged) > 0
    ctx.concrete = {'ops': concrete}


class _P:
    def __init__(self, field):
        self.fields = {field.value: field}


def shrink(case):
    for i in range(len(case['ops'])):
        if len(case['ops']) > 1:
            c = copy.deepcopy(case)
            del c['ops'][i]
            yield c
    for i, op in enumerate(case['ops']):
        if op.get('fault'):
            c = copy.deepcopy(case)
            c['ops'][i]['fault'] = None
            yield c
        if op['d'] and op['d'] > 2:
            c = copy.deepcopy(case)
            c['ops'][i]['d'] = op['d'] - 1
            yield c
    if case.get('salt'):
        yield dict(copy.deepcopy(case), salt=0)
    if len(case['coords']) > 1:
        yield dict(copy.deepcopy(case), coords=case['coords'][:-1])
