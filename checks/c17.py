"""C17: finite differencing is order-independent, on-grid and second-order consistent."""
import copy

TIERS = {'quick': {'runs': 240, 'wall': 300, 'timeout': 240}, 'thorough': {'runs': 12000, 'wall': 4800, 'timeout': 420}}
RULE = ('a case is an expression or system with space and time derivatives to total order 6 in 1-3 dimensions and any '
        'coordinate names, differenced through the expression, derivative and system entry points under 2-3 set orders, a '
        'hash seed and a memoisation state, optionally after an interrupted attempt; judged structurally (no derivative, whole '
        'displacements), by its error at steps h and h/2 on smooth fields, and by executing the rendered code; non-trivial '
        'when there was a derivative to replace; distinct by event-log digest')
REAL = ['sympkf.symbolic.finite_difference', 'sympkf.symbolic.util', 'sympkf.symbolic.tool', 'sympy']
STUB = ['iteration order of sets in sympkf (seeded)', 'arrival of interrupts (seeded)']
ASSUMPTIONS = ['second order is read from two steps on smooth fields']


def gen_case(rng, tier, k):
    from checks import codegen as G
    case = {'env': {'hashseed': rng.randrange(6), 'cache': rng.choice(['default'] * 6 + ['off', 50])}, 'salt': rng.choice([0, rng.getrandbits(40)]),
            'salts': [rng.getrandbits(40) for _ in range(rng.choice([1, 2]))], 'mseed': rng.randrange(10 ** 6)}
    dim = rng.choice([1, 1, 2, 2, 3])
    spec = G.gen_spec(rng, dim=dim, nf=rng.choice([1, 2]), order={1: rng.choice([2, 3, 4, 5, 6]), 2: rng.choice([2, 3, 4]), 3: 3}[dim],
                      nterms=(1, 3), maxdeg=2, fancy=0.7, exotic=0.15)
    case['spec'] = spec
    # rename the constants: the rendering of expressions leaves them as they are
    ren = dict(zip(spec['consts'], ['kappa', 'mu', 'aa', 'bb_']))
    for eq in spec['eqs']:
        for t in eq:
            for f in t[2]:
                f[0] = ren.get(f[0], f[0])
    spec['consts'] = [ren[c] for c in spec['consts']]
    # an elementary function of a derivative turns into products of huge and tiny factors: consistent, not computable
    for eq in spec['eqs']:
        for t in eq:
            for f in t[2]:
                if len(f) > 3 and sum(f[1]):
                    del f[3]
    case['time'] = rng.choice([0, 0, 0, 1, 2])
    case['wrapd'] = rng.random() < 0.2
    case['fault'] = {'ff': rng.random(), 'of': rng.random(), 'kind': rng.choice(['interrupt', 'recursion', 'evict'])} if rng.random() < 0.4 else None
    return case


def expressions(case):
    from checks import pdes
    from sympy import Derivative
    pde = pdes.build(case['spec'])
    out = []
    for eq in pde.equations:
        lhs, rhs = eq.args
        u = lhs.args[0]
        t = lhs.args[1][0]
        if case['time']:
            rhs = rhs + Derivative(u, (t, case['time'])) * u
        if case['wrapd']:
            rhs = rhs - Derivative(u ** 2 / 2, pde.spatial_coordinates[0])
        out.append(rhs)
    return pde, out


def structural(ctx, e, coords, what):
    from sympy import Derivative, Subs, Symbol
    from sympy.core.function import AppliedUndef
    ctx.check(not e.atoms(Derivative) and not e.atoms(Subs), 'derivative-left', lambda: f'{what}: still holds {list(e.atoms(Derivative, Subs))[:2]}')
    for f in e.atoms(AppliedUndef):
        for a in f.args:
            names = {str(s): s for s in a.free_symbols}
            base = [n for n in names if n in coords or n == 't']
            ctx.check(len(base) == 1, 'argument', lambda: f'{what}: argument {a} of {f}')
            d = a - names[base[0]]
            k = d.coeff(Symbol('d' + base[0]))
            ctx.check(k.is_Integer and (d - k * Symbol('d' + base[0])).expand() == 0, 'off-grid', lambda: f'{what}: displacement {d} in {f}')


def evaluate(case, w, e, h, pts, seedpoints):
    """Value at scattered points with steps h[i], in extended precision, and an estimate of its rounding error."""
    import numpy as np
    v = evaluate1(case, w, e, h, pts, seedpoints, np.longdouble)
    d = np.abs(v - evaluate1(case, w, e, h, pts, seedpoints, float))
    return v, float(np.max(d)) * 0.05


def evaluate1(case, w, e, h, pts, seedpoints, num):
    import numpy as np
    r = np.random.RandomState(seedpoints)
    env = {c: r.uniform(0, l, pts) for c, l in zip(w.coords, w.lengths)}
    env['t'] = r.uniform(-1, 1, pts)
    env = {k: np.asarray(v, dtype=num) for k, v in env.items()}
    for c, s in zip(w.coords, h):
        env['d' + c] = num(s)
    env['dt'] = num(h[-1])
    from checks import codegen as G
    return G._Ev(w, env, 0)(e)


class Runtime:
    """What rendered code expects around it."""

    def __init__(self, coords, shape, dx):
        from checks import smooth as S
        self.n = dict(zip([S.clean(c) for c in coords], shape))
        self.dx = dict(zip([S.clean(c) for c in coords] + ['t'], dx))

    def index(self, coord, step):
        import numpy as np
        return (np.arange(self.n[coord]) + step) % self.n[coord]


def run_case(case, ctx):
    import numpy as np
    from checks import codegen as G, smooth as S
    from sim.core import resolve_faults
    from sympy import Derivative
    from sympkf.symbolic.finite_difference import finite_difference, finite_difference_derivative, finite_difference_system, Code
    pde, exprs = expressions(case)
    coords = case['spec']['coords']
    L = [1.0, 2.0, 1.5][:len(coords)]
    w = G.World(pde, coords, L, case['mseed'], modes=1)
    if case['fault']:
        ctx.profile()
        finite_difference(exprs[0])
        prof = ctx.end_profile()
        f = resolve_faults(prof, [case['fault']])
        ctx.arm(f)
        ctx.call(finite_difference, exprs[0])
        ctx.disarm()
        case_fault = f[0] if f else None
        ctx.log('fault', case_fault)
    work = 0
    for i, e in enumerate(exprs):
        fd = ctx.must('raises', f'differencing {e}', finite_difference, e)
        structural(ctx, fd, coords, f'expression {i}')
        n = len(e.atoms(Derivative))
        work += n
        ctx.log('expr', i, n, len(str(fd)))
        try:
            ex, _ = evaluate(case, w, e, [0.1] * len(coords), 9, case['mseed'])
        except S.NotEvaluable as err:
            from sim.core import HarnessError
            raise HarnessError(str(err))
        scale = S.scale_of(ex)
        if not np.isfinite(scale) or scale > 1e9:
            continue
        order = max([sum(int(o) for _, o in d.args[1:]) for d in e.atoms(Derivative)] or [0])
        h0 = 0.02 if order < 4 else 0.04
        es = []
        floor = 1e-10
        for h in (h0, h0 / 2):
            va, r = evaluate(case, w, fd, [h * l * 0.5 for l in L], 9, case['mseed'])
            es.append(S.scale_of(va - ex))
            floor += r
        ctx.check(S.second_order(es, scale, floor=floor), 'not-second-order',
                  lambda: f'expression {i}: errors {es[0]:.3e} and {es[1]:.3e} at h and h/2, values of size {scale:.3e}: {e}')
        # each step by itself: the error from the other steps does not change
        ref, r = evaluate(case, w, fd, [h0 * l for l in L], 9, case['mseed'])
        tol = 1e-10 * (1 + S.scale_of(ref)) + 2 * r
        for s in case['salts']:
            ctx.salt = s
            again = finite_difference(e)
            ctx.salt = case['salt']
            va, _ = evaluate(case, w, again, [h0 * l for l in L], 9, case['mseed'])
            ctx.check(S.scale_of(va - ref) <= tol * 10, 'order-dependent', lambda: f'expression {i}: another set order gives a different result')
        # rendered code, executed on a periodic grid
        shape = [[7], [7, 6], [7, 6, 5]][len(coords) - 1]
        rt = Runtime(coords, shape, [l / n_ for l, n_ in zip(L, shape)] + [0.1])
        X = w.grid(shape)
        env = dict(zip(w.coords, X))
        for c, l, n_ in zip(w.coords, L, shape):
            env['d' + c] = l / n_
        env['dt'] = 0.1
        ns = {'np': np, 'self': rt}
        for f in [*w.fields, *w.cfuncs, *w.exog]:
            for k in range(-6, 7):
                v = w.ev(0.3 + 0.1 * k, shape)(f)
                ns[S.clean(f.func) + ('' if k == 0 else f'p{k}' if k > 0 else f'm{-k}')] = v
                if f in w.cfuncs:
                    break
        for f in w.cfuncs:
            ns[S.clean(f.func)] = w.ev(0.0, shape)(f)
        ev = G._Ev(w, dict(env, t=0.3), 0)
        for c in w.consts:
            ns[str(c)] = ev.symbol(c)
        want = ev(fd)
        for s in [case['salt']] + case['salts'][:1]:
            ctx.salt = s
            code = ctx.must('code-raises', f'rendering {fd}', lambda: Code(fd).code)
            ctx.salt = case['salt']
            st, got = ctx.call(eval, code, ns)
            ctx.check(st == 'ok', 'code-raises', lambda: f'expression {i}: the code {code[:400]} raises {got!r}')
            d = S.scale_of(np.asarray(got) - want)
            ctx.check(d <= 1e-9 * (1 + S.scale_of(want)) + 100 * r, 'code', lambda: f'expression {i}: the code {code[:400]} differs from the expression by {d:.3e}')
            ctx.log('code', i, len(code))
    # other entry points
    hh = [0.02 * l for l in L]
    sysfd = ctx.must('raises', 'PDESystem.finite_difference', lambda: pde.finite_difference)
    sysf2 = ctx.must('raises', 'finite_difference_system', finite_difference_system, pde)
    for l in (sysfd, sysf2):
        ctx.check(len(l) == len(pde.equations), 'system', lambda: f'{len(l)} equations instead of {len(pde.equations)}')
    for k, (a, b, eq) in enumerate(zip(sysfd, sysf2, pde.equations)):
        one = finite_difference(eq.args[1])
        for q in (a, b):
            ctx.check(q.args[0] == eq.args[0], 'system', lambda: f'equation {k}: left-hand side {q.args[0]}')
            (va, r1), (vb, r2) = (evaluate(case, w, x, hh, 5, 3) for x in (q.args[1], one))
            ctx.check(S.scale_of(va - vb) <= 1e-7 * (1 + S.scale_of(vb)) + r1 + r2, 'system', lambda: f'equation {k}: differs from the differenced right-hand side')
    for d in sorted(exprs[0].doit().atoms(Derivative), key=str)[:3]:
        a = ctx.must('raises', f'finite_difference_derivative({d})', finite_difference_derivative, d)
        structural(ctx, a, coords, str(d))
        (va, r1), (vb, r2) = (evaluate(case, w, x, hh, 5, 3) for x in (a, finite_difference(d)))
        ctx.check(S.scale_of(va - vb) <= 1e-7 * (1 + S.scale_of(vb)) + r1 + r2, 'derivative', lambda: f'{d}: finite_difference_derivative differs from finite_difference')
    ctx.nontrivial = work > 0
    ctx.concrete = {'fault': case_fault} if case['fault'] else {}


def shrink(case):
    from checks import codegen as G
    for k in ('time', 'wrapd', 'fault'):
        if case[k]:
            yield dict(copy.deepcopy(case), **{k: None if k == 'fault' else 0})
    yield from G.shrink_spec(case)
