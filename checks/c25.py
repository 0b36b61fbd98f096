"""C25: names are rendered as distinct valid identifiers: the names of a system change nothing but the names."""
import copy
import itertools

TIERS = {'quick': {'runs': 280, 'wall': 300, 'timeout': 200}, 'thorough': {'runs': 12000, 'wall': 4800, 'timeout': 400}}
RULE = ('a case is a session on 1-3 systems written with names that clash once cleaned, are not identifiers, are words of Python, numpy, '
        'sympy or of the generated program (also read from the program itself), or have other roles in other systems of the session; each is generated, and sometimes first '
        'derived into PKF systems, under a seeded set order, a hash seed and a cache configuration, with the caches emptied at random '
        'source lines and generations interrupted at a chosen source line then repeated, or by concurrent threads under a seeded schedule; '
        'the identifiers are judged, and the trend is compared with that of the same system with plain names; non-trivial when a fault '
        'fired, a cache was lost, a thread switched or a set order was imposed; distinct by event-log and fault digest')
REAL = ['sympkf.symbolic.tool', 'sympkf.symbolic.model_builder*', 'sympkf.symbolic.finite_difference', 'sympkf.symbolic.pkfcas', 'generated model code',
        'sympkf.model', 'sympy', 'jinja2']
STUB = ['iteration order of sets in sympkf (seeded)', 'contents and size of the memoisation caches (seeded)', 'arrival of faults (seeded)',
        'thread scheduling (decided by the simulator at source lines)', 'base space of manifold models (index-shift differences)']
ASSUMPTIONS = ['names are non-empty strings that differ; omega, t and the names of classes of sympy are reserved', 'the program with plain names is right (C16)']

FAMILIES = [['u_1', 'u^1', 'u_{1}', 'u^{1}', 'u,1', 'u 1', 'u.1', "u'1", '\\u_1', 'u_1_', 'u_1__'],
            ['u', '\\bar{u}', '\\bar u', 'baru', "u'", 'u*', 'u^*', 'u_', 'u^+', 'u+', 'bar_u', 'trend_u', 'Du_x_o1', '\\dot{u}', 'du', 'Du'],
            ['\\lambda', 'lambda', 'lambda_', '\\lambda_', 'is', '\\in', 'in', 'None', 'class', 'def', '{\\lambda}'],
            ['1', '2x', '_1', '12', '1_', '$u$', '#', '*', '-', '%', 'u-1', 'u+1', 'u/1', 'u:1'],
            ['a', 'b', 'ab', 'a,b', 'a_b', 'a b', 'bc', 'abc', 'c', 'V_ab', 'V_{ab}', '{V_{ab}}', 'b c'],
            ['self', 'np', 'state', 'dstate', 'exogenous', 'step', 'trend_state', 'trend', 'kwargs', 'key', 'k', 'coord'],
            ['shape', 'lengths', 'dx', 'X', 'index', '_index', 'dt', 'window', 'forecast', 'coordinates', 'constants', 'base_space', 'time_scheme', 'time_schemes',
             'prognostic_functions', 'compute_exogenous', 'set_dt'],
            ['e', 'E', 'I', 'N', 'S', 'pi', 'sin', 'exp', 'zeros', 'oo', 'numpy', 'Model', 'Generated', 'f', 'b'],
            ['\\alpha', 'alpha', 'α', 'ａ', 'é', 'ñ_{1}', '變', '\\alpha_{i,j}', '\\alpha_{ij}', '\\alpha_i_j', '\\alpha_{i j}'],
            ['u', 'u_a', 'u_1', 'u_x', 'u_a_x', 'u_x_o1', 'Du', 'u_a_x_o1_x'],
            ['Tmp', 'tmp', 'TMP', 'u', 'U', 'x0', 'X0', 'y', 'Y', 'uu', 'uU'],
            ['\\varepsilon', 'varepsilon', '\\varepsilon_1', '\\varepsilon^1', '{\\varepsilon}', 'epsilon', 'V_{u}', 'u', 'g_{u,xx}', '\\sigma_{u}']]
RESERVED = ('t', 'omega', 'Integer', 'Derivative', 'O', 'Q')
COORDS = [['x', 'y'], ['x_1', 'x^1'], ['x^{1}', 'x_{1}'], ['\\phi', '\\varphi'], ['x,1', 'x_{1,2}'], ["x'", 'x'], ['\\lambda', 'lambda'], ['1', '2'], ['u', 'a'],
          ['x', 'a_x'], ['x', '1_x'], ['x', 'x_x'], ['x 1', 'x_1'], ['index', 'np'], ['y', 'x'], ['x_{1,2}', 'x_{12}'], ['self', 'e']]


# a derivative of a field along one coordinate, and one of the other along the other, may have one name
PAIRS = [(['x', 'a_x'], ['u', 'u_a']), (['x', '1_x'], ['u', 'u_1']), (['x', 'x_x'], ['u', 'u_x']), (['b', 'a_b'], ['f', 'f_a'])]


def gen_system(rng):
    dim = rng.choice([1, 1, 2])
    coords = rng.choice(COORDS)[:dim]
    if rng.random() < 0.08:
        coords, fields = copy.deepcopy(rng.choice(PAIRS))
        eqs = [[[1, None, i, j, 1 - i, 1]] for i, j in ((0, None), (1, rng.choice([None, 0])))]
        if rng.random() < 0.5:
            fields, eqs = fields[::-1], [[[c, sy, 1 - i, j, x, n] for c, sy, i, j, x, n in e] for e in eqs]
        return {'coords': coords, 'builder': rng.choice(['FD', 'FD', 'manifold']), 'pkf': None, 'fields': fields, 'cfuncs': [], 'exog': [], 'consts': [], 'eqs': eqs, 'ex': [None, None],
                'vseed': rng.getrandbits(30), 'steal': None}
    if dim == 1 and rng.random() < 0.3:
        coords = [rng.choice(['x', 'x_{1,2}', 'x_1', '\\phi', "x'", 'x y'])]
    fams = rng.sample(FAMILIES, rng.choice([1, 1, 1, 2]))
    pool = [n for f in fams for n in f if n not in coords]
    pool = list(dict.fromkeys(pool))
    rng.shuffle(pool)
    s = {'coords': coords, 'builder': rng.choice(['FD', 'FD', 'FD', 'manifold']), 'pkf': rng.choice([None, None, None, 'in_metric', 'in_aspect']) if dim == 1 else None}
    nf = rng.choice([1, 2, 2, 3])
    if s['pkf']:
        nf = min(nf, rng.choice([2, 2, 3, 4]))
    s['fields'] = [pool.pop() for _ in range(nf)]
    rest = {'cfuncs': 0 if s['pkf'] else rng.choice([0, 0, 1, 2]), 'exog': 0 if s['pkf'] else rng.choice([0, 0, 1, 2]), 'consts': rng.choice([0, 1, 2])}
    for k, n in rest.items():
        s[k] = [pool.pop() for _ in range(min(n, len(pool)))]
    syms = [['k', i] for i in range(len(s['consts']))] + [['c', i] for i in range(len(s['cfuncs']))] + [['e', i] for i in range(len(s['exog']))]
    todo = list(syms)
    rng.shuffle(todo)
    s['eqs'] = []
    for i in range(nf):
        terms = []
        for _ in range(rng.choice([1, 2]) if not s['pkf'] else 1):
            terms.append([rng.choice([-2, -1, 1, 3]), rng.choice(syms) if syms and rng.random() < 0.5 else None, rng.randrange(nf), rng.randrange(nf) if rng.random() < 0.6 else None,
                          rng.randrange(dim), rng.choice([1, 1, 2])])
        s['eqs'].append(terms)
    if s['pkf']:
        # advections, the first one of another field or of itself
        s['eqs'] = [[[rng.choice([-1, 1, 2]), rng.choice(syms) if syms else None, i, None, 0, 1]] for i in range(nf)]
        if rng.random() < 0.5:
            s['eqs'][0].append([1, None, 0, rng.randrange(nf), 0, 1])
    while todo:
        rng.choice(s['eqs']).append([1, todo.pop(), rng.randrange(nf), None, rng.randrange(dim), 0 if rng.random() < 0.4 else 1])
    s['ex'] = [rng.choice(['sin', 'exp', None, None]) for _ in range(nf)] if not s['pkf'] else [None] * nf
    s['vseed'] = rng.getrandbits(30)
    # its names become names of the program made with plain names
    s['steal'] = rng.getrandbits(30) if rng.random() < 0.25 else None
    return s


def gen_case(rng, tier, k):
    case = {'env': {'hashseed': rng.randrange(8), 'cache': rng.choice(['default'] * 4 + [100, 'off'])}, 'salt': rng.choice([0, rng.getrandbits(40)])}
    case['systems'] = [gen_system(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    if len(case['systems']) > 1 and rng.random() < 0.4:
        # the same names with other roles
        a = case['systems'][0]
        b = copy.deepcopy(a)
        names = a['fields'] + a['cfuncs'] + a['exog'] + a['consts']
        rng.shuffle(names)
        for key in ('fields', 'cfuncs', 'exog', 'consts'):
            b[key] = [names.pop() for _ in a[key]]
        case['systems'][1] = b
    for s in case['systems'][1:]:
        if s['pkf'] and s['fields'] != case['systems'][0]['fields']:
            s['pkf'] = None
    pkf = any(s['pkf'] for s in case['systems'])
    if pkf and case['env']['cache'] == 'off':
        case['env']['cache'] = 100
    case['evict'] = {'rate': 0.0 if pkf else rng.choice([0.0, 0.0, 0.01]), 'seed': rng.getrandbits(30), 'cap': rng.choice([0, 10])}
    case['faults'] = [{'ff': rng.random(), 'of': rng.random(), 'kind': rng.choice(['interrupt', 'memory'])} if rng.random() < 0.3 else None for _ in case['systems']]
    case['threads'] = len(case['systems']) > 1 and rng.random() < 0.25 and not pkf
    if case['threads']:
        case['mode'] = {'p': rng.choice([0.02, 0.1]), 'hot': rng.choice([0.4, 1.0])}
    return case


def plain(s):
    q = copy.deepcopy(s)
    q['coords'] = ['x', 'y'][:len(s['coords'])]
    for key, letter in (('fields', 'f'), ('cfuncs', 'p'), ('exog', 'q'), ('consts', 'r')):
        q[key] = [letter + 'abcdef'[i] for i in range(len(s[key]))]
    return q


def equations(s):
    import sympy
    from sympy import Derivative, Function, Symbol
    from sympkf.symbolic.util import Eq
    t = Symbol('t')
    X = [Symbol(c) for c in s['coords']]
    fs = [Function(n)(t, *X) for n in s['fields']]
    of = {'k': [Symbol(n) for n in s['consts']], 'c': [Function(n)(*X) for n in s['cfuncs']], 'e': [Function(n)(t, *X) for n in s['exog']]}
    eqs = []
    for f, terms, ex in zip(fs, s['eqs'], s['ex']):
        rhs = sympy.Integer(0)
        for c, sym, i, j, x, n in terms:
            e = Derivative(fs[i], (X[x], n)) if n else fs[i]
            if j is not None:
                e = e * fs[j]
            if sym:
                e = e * of[sym[0]][sym[1]]
                if sym[0] != 'k' and n == 2:
                    e = e + Derivative(of[sym[0]][sym[1]], X[x])
            rhs += c * e
        if ex:
            rhs += getattr(sympy, ex)(f)
        eqs.append(Eq(Derivative(f, t), rhs))
    return eqs


def generate(s):
    """(source, unclosed terms of the PKF system)"""
    from sympkf.symbolic import SymbolicPKF, FDModelBuilder, PDESystem
    from sympkf.symbolic.model_builder_manifold import ManifoldModelBuilder
    eqs = equations(s)
    n = None
    if s['pkf']:
        p = SymbolicPKF(PDESystem(eqs))
        un = p.unclosed_terms
        n = len(un)
        p.set_closure({e: 0 for e in un})
        eqs = list(getattr(p, s['pkf']))
    return {'FD': FDModelBuilder, 'manifold': ManifoldModelBuilder}[s['builder']](eqs, class_name='Generated').code, n, len(eqs)


def words_of(source):
    """Names read or written by a program."""
    import types
    todo, out = [compile(source, '<generated>', 'exec')], set()
    while todo:
        c = todo.pop()
        out.update(c.co_names + c.co_varnames)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return sorted(n for n in out if n.isidentifier() and not n.startswith('__'))


def stolen(s):
    if s.get('steal') is None:
        return s
    import random
    q = copy.deepcopy(s)
    p = plain(s)
    own = {i for key in ('fields', 'cfuncs', 'exog', 'consts') for i in p[key]}
    words = [w for w in words_of(generate(dict(p, steal=None))[0]) if w not in RESERVED and w not in q['coords'] and w not in own]
    r = random.Random(s['steal'])
    r.shuffle(words)
    for key in ('fields', 'cfuncs', 'exog', 'consts'):
        for i in range(len(q[key])):
            if words and r.random() < 0.8:
                q[key][i] = words.pop()
    return q


class Space:
    """Differences of arrays: what a base space does of the names of the coordinates."""

    def __init__(self, coords):
        self.coords, self.dimension = list(coords), len(coords)

    def diff(self, f, *orders):
        import numpy as np
        for c, n in zip(orders[::2], orders[1::2]):
            for _ in range(n):
                k = self.coords.index(c)
                f = (k + 1) * (f - np.roll(f, 1, axis=k))
        return f


KINDS = (('consts', 'constants'), ('cfuncs', 'constant_functions'), ('exog', 'exogenous_functions'))


def model_of(source):
    ns = {}
    exec(compile(source, '<generated>', 'exec'), ns)
    return ns['Generated']


def values(s, shape):
    import numpy as np
    r = np.random.default_rng(s['vseed'])
    return {'consts': list(1 + r.random(len(s['consts']))), 'cfuncs': [r.standard_normal(shape) for _ in s['cfuncs']], 'exog': [r.standard_normal(shape) for _ in s['exog']],
            'seed': s['vseed']}


def trend(cls, s, names, nstate):
    """Trend of the model in which `names[kind]` lists the identifiers in the order of the system."""
    import numpy as np
    shape = (7, 5)[:len(s['coords'])]
    v = values(s, shape)
    kw = {i: a for kind in ('consts', 'cfuncs') for i, a in zip(names[kind], v[kind])}
    byid = dict(zip(names['exog'], v['exog']))
    order = getattr(cls, 'exogenous_functions', ())

    class Sub(cls):
        def compute_exogenous(self, t, state):
            return [byid[n] for n in order]
    if s['builder'] == 'FD':
        m = Sub(shape=shape, lengths=(1.0, 2.0)[:len(shape)], **kw)
    else:
        m = Sub(Space(cls.coordinates), **kw)
    st = 1 + np.random.default_rng(v['seed'] + 1).random((nstate,) + shape)
    return m.trend(0.5, st)


def judge(ctx, s, out, want, where):
    import keyword
    import numpy as np
    source, n, neq = out
    wsource, wn, wneq = want
    ctx.check((n, neq) == (wn, wneq), 'pkf', lambda: f'{where}the PKF system of {s["fields"]} has {neq} equations and {n} unclosed terms, {wneq} and {wn} with plain names')
    st, cls = ctx.call(model_of, source)
    ctx.check(st == 'ok', 'invalid', lambda: f'{where}the program of {names_of(s)} is not valid: {type(cls).__name__}: {cls}')
    ids = {kind: list(getattr(cls, attr, ())) for kind, attr in KINDS}
    ids['fields'] = list(cls.prognostic_functions)
    every = [i for v in ids.values() for i in v]
    for i in every + list(cls.coordinates):
        ctx.check(isinstance(i, str) and i.isidentifier() and not keyword.iskeyword(i), 'identifier', lambda: f'{where}{i!r} is not an identifier, for {names_of(s)}')
    ctx.check(len(set(every)) == len(every), 'distinct', lambda: f'{where}names that differ are rendered by {sorted(every)}, for {names_of(s)}')
    ctx.check(len(set(cls.coordinates)) == len(s['coords']), 'distinct', lambda: f'{where}coordinates {s["coords"]} are rendered by {cls.coordinates}')
    wcls = model_of(wsource)
    nstate = len(wcls.prognostic_functions)
    ctx.check(len(ids['fields']) == nstate, 'fields', lambda: f'{where}{nstate} fields are rendered by {ids["fields"]}')
    q = plain(s)
    live = {kind: [i for i, nm in enumerate(q[kind]) if nm in getattr(wcls, attr, ())] for kind, attr in KINDS}
    for kind, attr in KINDS:
        ctx.check(len(ids[kind]) == len(live[kind]), 'lost', lambda: f'{where}{attr} are {ids[kind]} for {[s[kind][i] for i in live[kind]]}')
    # which identifier is which symbol: its own name when it is an identifier, else any way that works
    ways = []
    for kind, _ in KINDS:
        free = list(ids[kind])
        slots = {}
        for i in live[kind]:
            if s[kind][i] in free:
                slots[i] = s[kind][i]
                free.remove(s[kind][i])
        rest = [i for i in live[kind] if i not in slots]
        ways.append([{**slots, **dict(zip(rest, p))} for p in itertools.permutations(free)])
    ref = trend(wcls, q, {kind: q[kind] for kind, _ in KINDS}, nstate)
    errs = []
    for way in itertools.product(*ways):
        names = {kind: [w.get(i, '-') for i in range(len(s[kind]))] for (kind, _), w in zip(KINDS, way)}
        st, got = ctx.call(trend, cls, s, names, nstate)
        if st != 'ok':
            errs.append(f'raises {type(got).__name__}: {got}')
        elif got.shape == ref.shape and np.all(np.abs(got - ref) <= 1e-9 * (1 + np.abs(ref))):
            return
        else:
            errs.append(f'differs by {float(np.max(np.abs(got - ref))) if got.shape == ref.shape else got.shape}')
    ctx.check(False, 'trend', lambda: f'{where}the trend of {names_of(s)} is not that of the system with plain names: {errs[0]}')


def names_of(s):
    return {k: s[k] for k in ('coords', 'fields', 'cfuncs', 'exog', 'consts') if s[k]}


def run_case(case, ctx):
    from sim.core import resolve_faults, ThreadSched
    ctx.evict_start(case['evict'])
    ctx.concrete = {}
    fired = 0

    def quiet(fn, *a):
        was, ctx.evictions['on'] = ctx.evictions['on'], False
        try:
            return fn(*a)
        finally:
            ctx.evictions['on'] = was
    case = dict(case, systems=[quiet(stolen, s) for s in case['systems']])
    if case['threads']:
        ctx.evictions['on'] = 'rate' not in case['evict']
        sched = ThreadSched(ctx, [(lambda s=s: generate(s)) for s in case['systems'][:3]], dict(case['mode']))
        res = sched.run()
        ctx.evictions['on'] = False
        ctx.concrete['mode'] = {'switches': sched.recorded, 'choices': sched.choices, 'first': sched.mode['first']}
        fired += sched.nswitch
        for i, (s, r) in enumerate(zip(case['systems'], res)):
            ctx.check(r[0] == 'ok', 'raises', lambda: f'thread {i}: {type(r[1]).__name__}: {str(r[1])[:300]} for {names_of(s)}')
            judge(ctx, s, r[1], generate(plain(s)), f'thread {i}: ')
            ctx.log('thread', i)
    else:
        for i, s in enumerate(case['systems']):
            f = case['faults'][i] if i < len(case['faults']) else None
            if f:
                ctx.profile()
                quiet(lambda: ctx.call(generate, s))
                f = resolve_faults(ctx.end_profile(), [f])
                ctx.arm(f)
                ctx.call(generate, s)
                ctx.disarm()
                fired += 1
                ctx.log('fault', f)
            out = ctx.must('raises', f'system {i} {names_of(s)}', generate, s)
            quiet(lambda: judge(ctx, s, out, generate(plain(s)), f'system {i}: '))
            ctx.log('system', i, len(out[0]))
    done = ctx.evictions['done']
    ctx.nontrivial = bool(done) or fired > 0 or bool(case['salt']) or case['env']['cache'] != 'default' or case['env']['hashseed'] > 0
    ctx.concrete['evict'] = {'at': done}


def shrink(case):
    if case['threads']:
        yield dict(copy.deepcopy(case), threads=False)
    for i in range(len(case['systems'])):
        if len(case['systems']) > 1:
            c = copy.deepcopy(case)
            del c['systems'][i]
            c['faults'] = c['faults'][:i] + c['faults'][i + 1:]
            yield c
    for i, f in enumerate(case['faults']):
        if f:
            c = copy.deepcopy(case)
            c['faults'][i] = None
            yield c
    for i, s in enumerate(case['systems']):
        for e, terms in enumerate(s['eqs']):
            for j in range(len(terms)):
                c = copy.deepcopy(case)
                del c['systems'][i]['eqs'][e][j]
                yield c
            if s['ex'][e]:
                c = copy.deepcopy(case)
                c['systems'][i]['ex'][e] = None
                yield c
        if s.get('steal') is not None:
            c = copy.deepcopy(case)
            c['systems'][i]['steal'] = None
            yield c
        p = plain(s)
        for key in ('coords', 'fields', 'cfuncs', 'exog', 'consts'):
            for j, n in enumerate(s[key]):
                if n != p[key][j]:
                    c = copy.deepcopy(case)
                    c['systems'][i][key][j] = p[key][j]
                    yield c
    if case['salt']:
        yield dict(copy.deepcopy(case), salt=0)
    if case['env'] != {'hashseed': 0, 'cache': 'default'}:
        yield dict(copy.deepcopy(case), env={'hashseed': 0, 'cache': 'default'})
    ev = case['evict']
    if 'at' in ev:
        for a in range(len(ev['at'])):
            yield dict(copy.deepcopy(case), evict={'at': ev['at'][:a] + ev['at'][a + 1:]})
