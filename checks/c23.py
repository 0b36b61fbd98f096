"""C23: symbols of a system are classified by their role, whatever the set order, the caches and the history."""
import copy

TIERS = {'quick': {'runs': 700, 'wall': 300, 'timeout': 120}, 'thorough': {'runs': 30000, 'wall': 3600, 'timeout': 240}}
RULE = ('a case is a session on 1-3 systems whose functions and symbols have known roles (fields on all or a part of the coordinates, '
        'coefficients constant in time, exogenous functions, constants, trainable scalars, explicit coordinates; the same names with '
        'other roles in other systems), under a seeded set order, a hash seed and a cache configuration, with caches emptied at random '
        'source lines and between the operations, constructions interrupted at a chosen source line then repeated, and uses of the '
        'system (PKF object, code generation, finite differences, printing) before it is classified again; non-trivial when a cache '
        'was lost, a fault fired or a set order was imposed; distinct by event-log and fault digest')
REAL = ['sympkf.symbolic.util.PDESystem', 'sympkf.symbolic.pkfcas.SymbolicPKF', 'sympkf.symbolic.model_builder*', 'sympy', 'jinja2']
STUB = ['iteration order of sets in sympkf (seeded)', 'contents and size of the memoisation caches (seeded)', 'arrival of faults (seeded)']
ASSUMPTIONS = ['time is the first argument of the functions that depend on it, and one field depends on all the coordinates']

NAMES = ['u', 'v', 'w', 'h', 'k', 'a', 'b', 'c', 'F', 'G', 'q', '\\theta', '\\kappa', 'A_{1}', 'x1', 'tt', 'e', 'N', 'S']
COORDS = [['x', 'y', 'z'], ['y', 'x', 's'], ['\\phi', 'r', 'x'], ['x_1', 'x_2', 'x_3']]
ELEM = ['sin', 'cos', 'exp', 'tanh']


def gen_system(rng):
    coords = rng.choice(COORDS)[:rng.choice([1, 1, 2, 3])]
    d = len(coords)
    names = [n for n in NAMES if n not in coords]
    rng.shuffle(names)
    sub = lambda lo: sorted(rng.sample(range(d), rng.randint(lo, d)))  # noqa
    s = {'coords': coords, 'fields': [], 'cfuncs': [], 'exog': [], 'consts': [], 'train': [], 'scalars': [], 'eqs': [], 'user_t': rng.random() < 0.6,
         'listed': rng.random() < 0.8}
    for i in range(rng.choice([1, 1, 2, 3])):
        s['fields'].append([names.pop(), list(range(d)) if i == 0 else (list(range(d)) if rng.random() < 0.7 else sub(1))])
    rng.shuffle(s['fields'])
    for _ in range(rng.choice([0, 0, 1, 2])):
        s['cfuncs'].append([names.pop(), sub(1)])
    for _ in range(rng.choice([0, 0, 1, 2])):
        s['exog'].append([names.pop(), sub(0)])
    for key, pool in (('consts', [0, 1, 2]), ('train', [0, 0, 1, 2]), ('scalars', [0, 0, 0, 1])):
        for _ in range(rng.choice(pool)):
            s[key].append(names.pop())
    fs = s['fields'] + s['cfuncs'] + s['exog']
    todo = [['f', i] for i in range(len(s['fields']), len(fs))] + [['s', n] for n in s['consts'] + s['train'] + s['scalars']]
    s['eqs'] = [[] for _ in s['fields']]
    while todo or rng.random() < 0.5:
        term = [rng.choice([-1, 1, 2])]
        for _ in range(rng.choice([1, 2, 2, 3])):
            if todo and rng.random() < 0.7:
                kind, i = todo.pop()
            else:
                r = rng.random()
                syms = s['consts'] + s['train'] + s['scalars']
                if r < 0.2 and syms:
                    kind, i = 's', rng.choice(syms)
                elif r < 0.27:
                    kind, i = 'x', rng.choice(['t'] + coords)
                else:
                    kind, i = 'f', rng.randrange(len(fs))
            how = None
            if kind == 'f':
                dims = fs[i][1]
                orders = [rng.choice([0, 0, 1, 2]) if k in dims else 0 for k in range(d)]
                how = orders
            term.append([kind, i, how, rng.choice([None, None, None, None, rng.choice(ELEM), 'pow'])])
        flux = rng.randrange(d) if rng.random() < 0.15 else None
        rng.choice(s['eqs']).append([term, flux])
    return s


def gen_case(rng, tier, k):
    case = {'env': {'hashseed': rng.randrange(8), 'cache': rng.choice(['default'] * 4 + [100, 10, 'off'])}, 'salt': rng.choice([0, rng.getrandbits(40)])}
    case['systems'] = [gen_system(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    case['evict'] = {'rate': rng.choice([0.0, 0.01, 0.05]), 'seed': rng.getrandbits(30), 'cap': rng.choice([0, 10, 40])}
    case['ops'] = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        case['ops'].append({'op': rng.choice(['build', 'build', 'build', 'fault', 'use', 'use', 'clear']), 's': rng.randrange(3),
                            'use': rng.choice(['pkf', 'code', 'fd', 'repr', 'again']), 'ff': rng.random(), 'of': rng.random(),
                            'kind': rng.choice(['interrupt', 'memory'])})
    case['ops'].append({'op': 'build', 's': rng.randrange(3), 'use': 'repr', 'ff': 0.0, 'of': 0.0, 'kind': 'interrupt'})
    return case


def equations(s):
    import sympy
    from sympy import Derivative, Function, symbols
    from sympkf.symbolic.util import Eq, TrainableScalar, ScalarSymbol
    from sympkf.symbolic import constants
    t = symbols('t') if s['user_t'] else constants.t
    X = [symbols(c) for c in s['coords']]
    fs = [Function(n)(t, *[X[i] for i in dims]) for n, dims in s['fields']]
    nf = len(fs)
    fs += [Function(n)(*[X[i] for i in dims]) for n, dims in s['cfuncs']]
    fs += [Function(n)(t, *[X[i] for i in dims]) for n, dims in s['exog']]
    sy = {n: symbols(n) for n in s['consts']}
    sy.update({n: TrainableScalar(n, init_value=0.5) for n in s['train']})
    sy.update({n: ScalarSymbol(n) for n in s['scalars']})
    at = dict(zip(s['coords'], X), t=t)
    eqs = []
    for f, terms in zip(fs[:nf], s['eqs']):
        rhs = sympy.Integer(0)
        for term, flux in terms:
            e = sympy.Integer(term[0])
            for kind, i, how, wrap in term[1:]:
                if kind == 's':
                    v = sy[i]
                elif kind == 'x':
                    v = at[i]
                else:
                    v = fs[i]
                    order = [(x, n) for x, n in zip(X, how) if n]
                    if order:
                        v = Derivative(v, *order)
                if wrap == 'pow':
                    v = v ** 3
                elif wrap:
                    v = getattr(sympy, wrap)(v)
                e = e * v
            if flux is not None:
                e = Derivative(e, X[flux])
            rhs += e
        eqs.append(Eq(Derivative(f, t), rhs))
    return eqs, fs, nf


def expected(s, eqs, fs, nf):
    """Roles by construction, restricted to what is left in the equations (terms may cancel)."""
    import sympy
    from sympy.core.function import AppliedUndef
    names = set()
    for e in eqs:
        names |= {str(f) for f in e.atoms(AppliedUndef)}
    right = set()
    for e in eqs:
        right |= {str(a) for a in e.args[1].atoms(sympy.Symbol)}
    n1 = nf + len(s['cfuncs'])
    return {'prognostic': [str(f) for f in fs[:nf]], 'constant functions': {str(f) for f in fs[nf:n1]} & names,
            'exogenous': {str(f) for f in fs[n1:]} & names, 'constants': set(s['consts'] + s['scalars']) & right, 'trainable': set(s['train']) & right,
            'coordinates': ['t'] + s['coords']}


def judge(ctx, s, p, want, where):
    ctx.check([str(f) for f in p.prognostic_functions] == want['prognostic'], 'prognostic', lambda: f'{where}prognostic functions {p.prognostic_functions} instead of {want["prognostic"]}')
    for key, got in (('constant functions', p.constant_functions), ('exogenous', p.exogenous_functions), ('constants', p.constants), ('trainable', p.trainable_scalars)):
        got = [str(f) for f in got]
        ctx.check(len(got) == len(set(got)) and set(got) == want[key], key.replace(' ', '-'), lambda: f'{where}{key} are {sorted(got)} instead of {sorted(want[key])}')
    fs = [str(f) for f in p.functions]
    every = set(want['prognostic']) | want['constant functions'] | want['exogenous']
    ctx.check(len(fs) == len(set(fs)) and set(fs) == every, 'functions', lambda: f'{where}functions are {sorted(fs)} instead of {sorted(every)}')
    ctx.check([str(c) for c in p.coordinates] == want['coordinates'] and [str(c) for c in p.spatial_coordinates] == want['coordinates'][1:] and str(p.time_coordinate) == 't',
              'coordinates', lambda: f'{where}coordinates are {p.coordinates} instead of {want["coordinates"]}')


def use(ctx, s, p, want, op, where):
    from checks import smooth as S
    from sympkf.symbolic import SymbolicPKF, PDESystem
    if op == 'pkf':
        k = ctx.must('raises', where + 'SymbolicPKF', SymbolicPKF, p)
        ctx.check([str(f) for f in k.fields] == want['prognostic'], 'prognostic', lambda: f'{where}the PKF object has the fields {list(k.fields)}')
        for (n, dims), f in zip(s['fields'], k.fields.values()):
            ctx.check([str(c) for c in f.spatial_coordinates] == [s['coords'][i] for i in dims], 'coordinates', lambda: f'{where}{n} has the spatial coordinates {f.spatial_coordinates}')
    elif op == 'repr':
        text = ctx.must('raises', where + 'printing', lambda: repr(p))
        for f in want['prognostic']:
            ctx.check(f in text, 'printed', lambda: f'{where}{f} is not printed')
    elif op == 'again':
        judge(ctx, s, ctx.must('raises', where + 'PDESystem', PDESystem, list(p)), want, where + 'from its equations, ')
    elif op == 'fd':
        ctx.call(lambda: p.finite_difference)
    elif op == 'code':
        from sympkf.symbolic import FDModelBuilder
        st, b = ctx.call(lambda: FDModelBuilder(p, class_name='M'))
        if st != 'ok':
            return
        # the role of a function can be seen once the equations are evaluated
        q = b.pde_system
        roles = {'prognostic_functions': [S.clean(f.split('(')[0]) for f in want['prognostic']],
                 'constant_functions': sorted(S.clean(f.func) for f in q.constant_functions), 'exogenous_functions': sorted(S.clean(f.func) for f in q.exogenous_functions),
                 'constants': sorted(S.clean(f) for f in q.constants)}
        for a, w in roles.items():
            got = [m.as_keyvar for m in getattr(b, a)]
            ctx.check((got if a.startswith('prog') else sorted(got)) == w, a.replace('_', '-'), lambda: f'{where}{a} of the builder are {got} instead of {w}')
        ctx.check([c.as_keyvar for c in b.spatial_coordinates] == [S.clean(c) for c in s['coords']], 'coordinates', lambda: f'{where}coordinates of the builder')


def run_case(case, ctx):
    from sympy.core.cache import clear_cache
    from sympkf.symbolic import PDESystem
    from sim.core import resolve_faults
    ctx.evict_start(case['evict'])

    def quiet(fn, *a):
        ctx.evictions['on'] = False
        try:
            return fn(*a)
        finally:
            ctx.evictions['on'] = True
    kept, n, fired = [], 0, 0
    for i, op in enumerate(case['ops']):
        where = f'op {i}: '
        s = case['systems'][op['s'] % len(case['systems'])]
        if op['op'] == 'clear':
            clear_cache()
            n += 1
        elif op['op'] == 'use' and kept:
            s, p, want = kept[int(op['of'] * len(kept))]
            use(ctx, s, p, want, op['use'], where)
            ctx.log('use', op['use'])
        elif op['op'] in ('build', 'fault'):
            eqs, fs, nf = quiet(equations, s)
            want = quiet(expected, s, eqs, fs, nf)
            arg = eqs if s['listed'] or len(eqs) > 1 else eqs[0]
            if op['op'] == 'fault':
                ctx.profile()
                PDESystem(list(eqs))
                f = resolve_faults(ctx.end_profile(), [{'ff': op['ff'], 'of': op['of'], 'kind': op['kind']}])
                ctx.arm(f)
                ctx.call(PDESystem, arg)
                ctx.disarm()
                fired += 1
                ctx.log('fault', f)
            p = ctx.must('raises', where + 'PDESystem', PDESystem, arg)
            judge(ctx, s, p, want, where)
            kept.append((s, p, want))
            ctx.log('build', len(eqs), sorted(want['exogenous']))
    for k, (s, p, want) in enumerate(kept):
        judge(ctx, s, p, want, f'at the end, system {k}: ')
    done = ctx.evictions['done']
    if n:
        ctx.count('cache_emptied_between_requests', n)
    ctx.nontrivial = bool(done) or n > 0 or fired > 0 or bool(case['salt']) or case['env']['cache'] != 'default'
    ctx.concrete = {'evict': {'at': done}}


def shrink(case):
    for a in range(len(case['ops'])):
        if len(case['ops']) > 1:
            c = copy.deepcopy(case)
            del c['ops'][a]
            yield c
    for k, s in enumerate(case['systems']):
        if len(case['systems']) > 1:
            c = copy.deepcopy(case)
            del c['systems'][k]
            yield c
        for j, eq in enumerate(s['eqs']):
            for m in range(len(eq)):
                c = copy.deepcopy(case)
                del c['systems'][k]['eqs'][j][m]
                yield c
    ev = case['evict']
    if 'at' in ev:
        for a in range(len(ev['at'])):
            yield dict(copy.deepcopy(case), evict={'at': ev['at'][:a] + ev['at'][a + 1:]})
    if case['salt']:
        yield dict(copy.deepcopy(case), salt=0)
    if case['env'] != {'hashseed': 0, 'cache': 'default'}:
        yield dict(copy.deepcopy(case), env={'hashseed': 0, 'cache': 'default'})
