"""Sessions of symbolic requests (C21, C22, C24): random expressions, exact values, faults, cache loss and threads.

An expression is a JSON tree:
  ['n', p, q] | ['s', name] | ['x', coordinate] | ['f', name] | ['+', e..] | ['*', e..] | ['^', e, n] |
  ['fn', name, e] | ['D', e, coordinate, n] | ['I', e, coordinate, lo, hi] | ['E', e] | ['r', e, p, q] (1 + e**2)**(p/q)
Functions are given by `funcs`: name -> [[coordinates], random?]; a name may end with ~, for another function which
prints the same name but has another number of arguments.  Values come from the tree, never from
the expressions the code under test returns: every function stands for one polynomial per member of a
finite ensemble, and expectations are means over the members.
"""
import copy

COORDS = ['t', 'x', 'y']


def gen_funcs(rng):
    names = rng.choice([['f', 'g', 'h', 'X', 'Y', 'Z'], ['a', 'b', 'c', 'A', 'B', 'C'], ['X', 'Y', 'f', 'u', 'v', 'w'],
                        ['\\varepsilon', 'e', 'k', '\\theta', 'V', 'S']])
    out = {}
    for i, n in enumerate(names):
        args = [c for c in COORDS if rng.random() < 0.65] or [rng.choice(COORDS)]
        if i >= 3 and rng.random() < 0.12:
            args = []
        out[n] = [args, i >= 3]
    if rng.random() < 0.3:
        namesake(rng, out, rng.choice(names))
    return out


def namesake(rng, funcs, n, pool=COORDS):
    """Another function of the same printed name."""
    args, rnd = funcs[n]
    other = rng.sample(pool, rng.randint(1, len(pool)))
    total = lambda a, r: len(a) + r  # noqa
    rnd2 = rnd if rng.random() < 0.7 else not rnd
    if args and len(other) != len(args) and total(other, rnd2) != total(args, rnd):
        funcs[n + '~'] = [other, rnd2]


def gen_expr(rng, funcs, depth, allow=('D', 'I', 'E', 'fn'), poly=False):
    """poly: an expression whose integral is elementary."""
    if depth <= 0 or rng.random() < 0.12:
        r = rng.random()
        if r < 0.72:
            return ['f', rng.choice(sorted(funcs))]
        if r < 0.82:
            return ['s', rng.choice(['k', 'm'])]
        if r < 0.9:
            return ['x', rng.choice(COORDS)]
        return ['n', rng.choice([-2, -1, 1, 2, 3]), rng.choice([1, 1, 2])]
    sub = lambda p=poly: gen_expr(rng, funcs, depth - 1, allow, p)  # noqa
    kinds = ['+', '+', '+', '*', '*', '*', '*', '^', '^', 'D', 'D', 'DD', 'I', 'II', 'E', 'fn', 'r']
    k = rng.choice([a for a in kinds if a in '+*^' or (a[0] in allow or a in allow or a == 'r' and 'fn' in allow) and not (a in ('fn', 'r') and poly)])
    if k in ('DD', 'II'):
        # along several coordinates, of products in most cases
        e = gen_expr(rng, funcs, depth - 1, allow, poly or k == 'II')
        if rng.random() < 0.6:
            e = [rng.choice('**+'), ['f', rng.choice(sorted(funcs))], ['f', rng.choice(sorted(funcs))]]
        for c in rng.sample(COORDS, rng.choice([2, 2, 3])):
            e = ['D', e, c, 1] if k == 'DD' else ['I', e, c, rng.choice([-1, 0]), rng.choice([1, 2, 3])]
        return e
    if k == 'r':
        return ['r', sub(), *rng.choice([(-1, 1), (1, 2), (-2, 1)])]
    if k in '+*':
        return [k] + [sub() for _ in range(rng.choice([2, 2, 3]))]
    if k == '^':
        return ['^', sub(), rng.choice([2, 2, 3])]
    if k == 'fn':
        return ['fn', rng.choice(['sin', 'cos', 'exp']), sub()]
    if k == 'D':
        return ['D', sub(), rng.choice(COORDS), rng.choice([1, 1, 2])]
    if k == 'I':
        return ['I', sub(True), rng.choice(COORDS), 0, rng.choice([1, 2])]
    return ['E', sub()]


def size(e):
    return 1 + sum(size(a) for a in e[1:] if isinstance(a, list))


def degree(e):
    """Bound on the degree of the polynomial, to keep values cheap."""
    k = e[0]
    if k in 'nsx':
        return 1
    if k == 'f':
        return 2
    if k == '*':
        return sum(degree(a) for a in e[1:])
    if k == '^':
        return degree(e[1]) * e[2]
    return max([degree(a) for a in e[1:] if isinstance(a, list)] + [0])


def has(e, kind):
    return e[0] == kind or any(has(a, kind) for a in e[1:] if isinstance(a, list))


def subtrees(e):
    """Simpler expressions, for shrinking."""
    for a in e[1:]:
        if isinstance(a, list):
            yield a
    for i, a in enumerate(e[1:], 1):
        if isinstance(a, list):
            for s in subtrees(a):
                yield e[:i] + [s] + e[i + 1:]
    if e[0] in '+*' and len(e) > 3:
        for i in range(1, len(e)):
            yield e[:i] + e[i + 1:]


def mutate(rng, e, funcs):
    """A neighbour of an expression: a leaf or a sign changes."""
    import copy as _c
    e = _c.deepcopy(e)
    spots = []

    def walk(a):
        if a[0] in 'nsxf':
            spots.append(a)
        for b in a[1:]:
            if isinstance(b, list):
                walk(b)
    walk(e)
    a = rng.choice(spots)
    r = rng.random()
    if a[0] == 'f' and r < 0.7:
        a[1] = a[1][:-1] if a[1].endswith('~') else a[1] + '~' if a[1] + '~' in funcs and rng.random() < 0.7 else rng.choice(sorted(funcs))
    elif a[0] == 's' and r < 0.7:
        a[1] = 'm' if a[1] == 'k' else 'k'
    elif a[0] == 'x' and r < 0.7:
        a[1] = rng.choice(COORDS)
    elif a[0] == 'n' and r < 0.7:
        a[1] = -a[1]
    else:
        old = _c.deepcopy(a)
        a[:] = ['*', ['n', -1, 1], old] if rng.random() < 0.5 else ['+', ['n', 1, 1], old]
    return e


class Maker:
    """Trees into sympy expressions of sympkf."""

    def __init__(self, funcs, **assumptions):
        import sympy
        from sympkf.symbolic.random import omega
        self.at = {c: sympy.Symbol(c) for c in COORDS}
        self.fs = {}
        for n, (args, rnd) in funcs.items():
            a = [self.at[c] for c in args] + ([omega] if rnd else [])
            self.fs[n] = sympy.Function(n.rstrip('~'), **assumptions)(*a) if a else sympy.Symbol(n + '0')

    def __call__(self, e):
        import sympy
        from sympkf.symbolic.random import Expectation
        k = e[0]
        if k == 'n':
            return sympy.Rational(e[1], e[2])
        if k == 's':
            return sympy.Symbol(e[1])
        if k == 'x':
            return self.at[e[1]]
        if k == 'f':
            return self.fs[e[1]]
        if k == '+':
            return sympy.Add(*[self(a) for a in e[1:]])
        if k == '*':
            return sympy.Mul(*[self(a) for a in e[1:]])
        if k == '^':
            return self(e[1]) ** e[2]
        if k == 'fn':
            return getattr(sympy, e[1])(self(e[2]))
        if k == 'r':
            return (1 + self(e[1]) ** 2) ** sympy.Rational(e[2], e[3])
        if k == 'D':
            return sympy.Derivative(self(e[1]), (self.at[e[2]], e[3]))
        if k == 'I':
            return sympy.Integral(self(e[1]), (self.at[e[2]], e[3], e[4]))
        if k == 'E':
            return Expectation(self(e[1]))
        raise ValueError(k)


class Values:
    """Exact values of trees and of sympy expressions on a finite ensemble."""
    M = 3

    def __init__(self, funcs, seed):
        import sympy
        from sim.core import rng_for
        rng = rng_for('algebra', seed)
        self.at = {c: sympy.Symbol(c) for c in COORDS}
        self.v = {}
        self.funcs = funcs
        self.rnd = {n: r for n, (a, r) in funcs.items()}
        for n, (args, rnd) in sorted(funcs.items()):
            each = []
            for _ in range(self.M if rnd else 1):
                p = sympy.Integer(rng.choice([-2, -1, 1, 2]))
                for c in args:
                    p = p + rng.choice([-2, -1, 1, 2]) * self.at[c]
                if len(args) and rng.random() < 0.6:
                    p = p + rng.choice([-1, 1]) * self.at[rng.choice(args)] * self.at[rng.choice(args)]
                each.append(p)
            self.v[n] = each if rnd else each * self.M
            if not args:
                self.v[n + '0'] = self.v[n]
        self.s = {'k': sympy.Rational(rng.choice([-3, 3]), 2), 'm': sympy.Rational(rng.choice([-5, 5]), 3)}
        self.point = {self.at[c]: sympy.Rational(rng.choice([-3, -1, 1, 2]), 5) for c in COORDS}
        self.memo = {}

    def mean(self, vs):
        return sum(vs) / len(vs)

    def tree(self, e):
        """One sympy expression of the coordinates per member."""
        import sympy
        k = e[0]
        if k == 'n':
            return [sympy.Rational(e[1], e[2])] * self.M
        if k == 's':
            return [self.s[e[1]]] * self.M
        if k == 'x':
            return [self.at[e[1]]] * self.M
        if k == 'f':
            return self.v[e[1]]
        if k == 'E':
            return [self.mean(self.tree(e[1]))] * self.M
        subs = [self.tree(a) for a in e[1:] if isinstance(a, list)]
        if k == '+':
            return [sympy.Add(*z) for z in zip(*subs)]
        if k == '*':
            return [sympy.Mul(*z) for z in zip(*subs)]
        if k == '^':
            return [a ** e[2] for a in subs[0]]
        if k == 'fn':
            return [getattr(sympy, e[1])(a) for a in subs[0]]
        if k == 'r':
            return [(1 + a ** 2) ** sympy.Rational(e[2], e[3]) for a in subs[0]]
        if k == 'D':
            return [sympy.diff(a, self.at[e[2]], e[3]) for a in subs[0]]
        if k == 'I':
            return [self.integral(a, self.at[e[2]], e[3], e[4]) for a in subs[0]]
        raise ValueError(k)

    def integral(self, a, x, lo, hi):
        import sympy
        p = sympy.Poly(sympy.expand(a), x).integrate()
        return p.eval(hi) - p.eval(lo)

    def expr(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self._expr(e)
        return r

    def applied(self, e):
        """A function of coordinates, numbers or dummy symbols."""
        given = [a for a in e.args if str(a) != 'omega']
        n = e.func.__name__
        if n + '~' in self.funcs and len(self.funcs[n + '~'][0]) == len(given):
            n += '~'
        args = self.funcs[n][0]
        to = {self.at[c]: a for c, a in zip(args, given) if self.at[c] != a}
        if len(given) != len(args):
            raise Unknown(f'function {e}')
        return [a.subs(to, simultaneous=True) for a in self.v[n]] if to else self.v[n]

    def _expr(self, e):
        import sympy
        from sympy.core.function import AppliedUndef
        from sympkf.symbolic.random import Expectation
        if e.is_Atom and e.is_number:
            return [e] * self.M
        if isinstance(e, Expectation):
            return [self.mean(self.expr(e.args[0]))] * self.M
        if isinstance(e, sympy.Symbol):
            if e.name in self.s:
                return [self.s[e.name]] * self.M
            if e.name in self.v:
                return self.v[e.name]
            if isinstance(e, sympy.Dummy) or e.name.startswith('_'):
                return [e] * self.M         # of an integral or a substitution
            if e.name in self.at:
                return [self.at[e.name]] * self.M
            raise Unknown(f'symbol {e}')
        if isinstance(e, AppliedUndef):
            if e.func.__name__ not in self.v:
                raise Unknown(f'function {e}')
            return self.applied(e)
        if isinstance(e, sympy.Derivative):
            out = self.expr(e.args[0])
            for x, n in e.args[1:]:
                out = [sympy.diff(a, x, int(n)) for a in out]
            return out
        if isinstance(e, sympy.Subs):
            return [a.subs(dict(zip(e.args[1], e.args[2]))) for a in self.expr(e.args[0])]
        if isinstance(e, sympy.Integral):
            out = self.expr(e.args[0])
            for lim in e.args[1:]:
                out = [self.integral(a, lim[0], lim[1], lim[2]) for a in out]
            return out
        if isinstance(e, (sympy.Add, sympy.Mul, sympy.Pow, sympy.sin, sympy.cos, sympy.exp)):
            return [e.func(*z) for z in zip(*[self.expr(a) for a in e.args])]
        raise Unknown(f'{type(e).__name__}: {str(e)[:80]}')

    def at_point(self, vs):
        try:
            return [complex(sympy_n(a, self.point)) for a in vs]
        except TypeError:
            raise TypeError(f'not a number: {vs}')


def sympy_n(a, point):
    return a.subs(point).evalf(20, maxn=60)


class Unknown(Exception):
    pass


def differ(va, vb, tol=1e-9):
    return any(abs(a - b) > tol * (1 + abs(a) + abs(b)) for a, b in zip(va, vb))


def gen_session(rng, ops):
    """The circumstances of a session: caches, faults and threads."""
    case = {'env': {'hashseed': rng.randrange(8), 'cache': rng.choice(['default'] * 4 + [100, 10, 'off'])}, 'salt': rng.choice([0, rng.getrandbits(40)]),
            'evict': {'rate': rng.choice([0.0, 0.01, 0.05, 0.2]), 'seed': rng.getrandbits(30), 'cap': rng.choice([0, 10, 40])},
            'vseed': rng.getrandbits(30)}
    for op in ops:
        r = rng.random()
        if r < 0.3:
            op['fault'] = {'ff': rng.random(), 'of': rng.random(), 'kind': rng.choice(['interrupt', 'memory'])}
        elif r < 0.4:
            op['clear'] = True
        elif r < 0.5:
            op['again'] = True
    case['ops'] = ops
    case['threads'] = rng.random() < 0.25
    if case['threads']:
        case['mode'] = {'p': rng.choice([0.02, 0.1, 0.4]), 'hot': rng.choice([0.4, 1.0])}
    return case


def run_session(case, ctx, perform, judge):
    """perform(op) asks sympkf; judge(op, result, where) decides, outside faults and cache loss."""
    from sympy.core.cache import clear_cache
    from sim.core import resolve_faults, ThreadSched
    fired = cleared = 0
    ops = case['ops']

    def quiet(fn, *a):
        was, ctx.evictions['on'] = ctx.evictions['on'], False
        try:
            return fn(*a)
        finally:
            ctx.evictions['on'] = was
    ctx.evict_start(case['evict'])
    ctx.concrete = {}
    if case['threads'] and len(ops) > 1:
        n = min(3, len(ops))
        parts = [list(range(len(ops)))[i::n] for i in range(n)]
        ctx.evictions['on'] = 'rate' not in case['evict']
        sched = ThreadSched(ctx, [(lambda p=p: [perform(ops[i]) for i in p]) for p in parts], dict(case['mode']))
        res = sched.run()
        ctx.evictions['on'] = False
        ctx.concrete['mode'] = {'switches': sched.recorded, 'choices': sched.choices, 'first': sched.mode['first']}
        fired += sched.nswitch
        for p, r in zip(parts, res):
            ctx.check(r[0] == 'ok', 'raises', lambda: f'a thread raised {type(r[1]).__name__}: {str(r[1])[:300]}')
            for i, v in zip(p, r[1]):
                judge(ops[i], v, f'op {i} in a thread: ')
                ctx.log('thread', i)
    else:
        for i, op in enumerate(ops):
            if op.get('clear'):
                clear_cache()
                cleared += 1
            if op.get('fault'):
                ctx.profile()
                quiet(perform, op)
                f = resolve_faults(ctx.end_profile(), [op['fault']])
                ctx.arm(f)
                ctx.call(perform, op)
                ctx.disarm()
                fired += 1
                ctx.log('fault', f)
            v = ctx.must('raises', f'op {i} {op["op"]}', perform, op)
            quiet(judge, op, v, f'op {i}: ')
            ctx.log('op', i, op['op'], len(str(v)))
            if op.get('again'):
                v = ctx.must('raises', f'op {i} {op["op"]} again', perform, op)
                quiet(judge, op, v, f'op {i} again: ')
    done = ctx.evictions['done']
    if cleared:
        ctx.count('cache_emptied_between_requests', cleared)
    ctx.nontrivial = bool(done) or cleared > 0 or fired > 0 or bool(case['salt']) or case['env']['cache'] != 'default'
    ctx.concrete['evict'] = {'at': done}


def shrink_session(case, trees):
    """trees: keys of the ops that hold expressions."""
    if case['threads']:
        sw = case['mode'].get('switches')
        if sw:
            n = len(sw)
            for size_ in {max(1, n // 2), max(1, n // 4), 1}:
                for a in range(0, n, size_):
                    c = copy.deepcopy(case)
                    c['mode']['switches'] = sw[:a] + sw[a + size_:]
                    yield c
        yield dict(copy.deepcopy(case), threads=False)
    for a in range(len(case['ops'])):
        if len(case['ops']) > 1:
            c = copy.deepcopy(case)
            del c['ops'][a]
            yield c
    for a, op in enumerate(case['ops']):
        for k in ('fault', 'clear', 'again'):
            if op.get(k):
                c = copy.deepcopy(case)
                c['ops'][a].pop(k)
                yield c
        for k in trees:
            if k in op:
                for s in subtrees(op[k]):
                    c = copy.deepcopy(case)
                    c['ops'][a][k] = s
                    yield c
    ev = case['evict']
    if 'at' in ev:
        for a in range(len(ev['at'])):
            yield dict(copy.deepcopy(case), evict={'at': ev['at'][:a] + ev['at'][a + 1:]})
    if case['salt']:
        yield dict(copy.deepcopy(case), salt=0)
    if case['env'] != {'hashseed': 0, 'cache': 'default'}:
        yield dict(copy.deepcopy(case), env={'hashseed': 0, 'cache': 'default'})
