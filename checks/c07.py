"""C07: PKF equations are exact for every univariate dynamics and error ensemble."""
import copy

TIERS = {'quick': {'runs': 220, 'wall': 300, 'timeout': 240}, 'thorough': {'runs': 9000, 'wall': 4800, 'timeout': 420}}
RULE = ('a case is a random univariate evolution equation (1-D to fourth order, 2-D; polynomial, reciprocal, fractional '
        'and elementary non-linearities; constants, constant, exogenous and random exogenous functions, explicit coordinates), a seeded '
        'order of all unordered collections, a hash seed, a cache configuration and a random order of requests; each '
        'system is evaluated on two random finite centred ensembles (random forcing member by member) and compared with the trends of their statistics; '
        'non-trivial when the dynamics is not empty and at least four systems were judged; distinct by event-log digest')
REAL = ['sympkf.symbolic.pkfcas', 'sympkf.symbolic.random', 'sympkf.symbolic.util', 'sympy']
STUB = ['iteration order of sets in sympkf (seeded)']
ASSUMPTIONS = ['an identity that fails somewhere fails on a random ensemble up to a relative error of 1e-7']

SYSTEMS = ['expectation_system', 'error_system', 'variance_system', 'std_system', 'epsilon_system', 'metric_system']

QUICK = ['expectation_system', 'error_system', 'variance_system', 'std_system']


def gen_case(rng, tier, k):
    from checks import pdes
    thorough = tier == 'thorough'
    case = {'env': {'hashseed': rng.randrange(6), 'cache': rng.choice(['default'] * 6 + [50, 'off'])},
            'salt': rng.choice([0, rng.getrandbits(40), rng.getrandbits(40)]), 'eseed': rng.getrandbits(30)}
    r = rng.random()
    if r < 0.25:
        case['spec'] = copy.deepcopy(pdes.FIXED[rng.choice(['burgers', 'advection', 'advexog', 'diffusion', 'kdv', 'cubic', 'adv2d'])])
    elif r < 0.40:
        case['spec'] = pdes.gen_spec(rng, anycoord='odd', dim=2, nf=1, order=1, nterms=(1, 2), maxdeg=2, mixed=False)
    elif r < 0.55:
        case['spec'] = pdes.gen_spec(rng, anycoord='odd', dim=1, nf=1, order=rng.choice([3, 4]), nterms=(1, 2), maxdeg=2)
    else:
        case['spec'] = pdes.gen_spec(rng, anycoord='odd', dim=1, nf=1, order=2, nterms=(1, 3))
        if rng.random() < 0.3:
            case['spec'] = pdes.exotic(rng, case['spec'])
    if case['env']['cache'] == 'off' and len(case['spec']['coords']) > 1:
        case['env']['cache'] = 'default'
    if thorough and rng.random() < 0.1:
        case['spec'] = pdes.gen_spec(rng, anycoord='odd', dim=2, nf=1, order=2, nterms=(1, 1), maxdeg=1)
    if rng.random() < 0.15 and len(case['spec']['coords']) == 1:
        case['spec'] = pdes.random_forcing(rng, case['spec'])
    if rng.random() < 0.06:
        # three dimensions, along random components
        case['spec'] = pdes.gen_spec(rng, anycoord=True, dim=3, nf=1, order=1, nterms=(1, 2), maxdeg=2, mixed=False)
        case['env']['cache'] = 'default'
    case['requests'] = rng.sample(SYSTEMS + ['in_metric', 'unclosed_terms'], 8)
    if rng.random() < 0.35:
        case['spec'] = pdes.gen_product(rng, dim=rng.choice([1, 1, 1, 2]), order=rng.choice([2, 2, 3]))
        case['requests'] = case['only'] = rng.sample(QUICK, len(QUICK))
    if rng.random() < 0.12:
        case['spec'] = pdes.seasonal(rng, case['spec'])
    return case


def judge(ctx, p, spec, seeds, systems, what=''):
    from checks import oracle as O
    n = 0
    for seed in seeds:
        ens = O.Ens(spec, seed)
        ev = O.Evaluator(p, spec, ens)
        for name, eqs in systems.items():
            seen = [O.check_equation(ctx, ev, ens, eq, f'{what}{name}') for eq in eqs]
            ctx.check(len(set(seen)) == len(seen), 'duplicated', lambda: f'{what}{name} has two equations for one statistic: {seen}')
            systems_seen = expected(spec, name)
            ctx.check(set(seen) == systems_seen, 'incomplete', lambda: f'{what}{name} holds equations for {sorted(map(str, seen))} instead of {sorted(map(str, systems_seen))}')
            n += 1
    return n


def expected(spec, name):
    f = spec['fields']
    d = len(spec['coords'])
    up = [(i, j) for i in range(d) for j in range(i, d)]
    return {'expectation_system': {('mean', n) for n in f},
            'error_system': {('err', n) for n in f}, 'epsilon_system': {('eps', n) for n in f},
            'variance_system': {('var', n) for n in f}, 'std_system': {('std', n) for n in f},
            'metric_system': {('g', n) + ij for n in f for ij in up},
            'cross_covariance_system': {('cov', a, b) for i, a in enumerate(f) for b in f[i + 1:]},
            'in_metric': {('mean', n) for n in f} | {('var', n) for n in f} | {('g', n) + ij for n in f for ij in up}
            | {('cov', a, b) for i, a in enumerate(f) for b in f[i + 1:]},
            'in_diffusion': {('mean', n) for n in f} | {('var', n) for n in f} | {('nu', n) + ij for n in f for ij in up}
            | {('cov', a, b) for i, a in enumerate(f) for b in f[i + 1:]},
            'in_aspect': {('mean', n) for n in f} | {('var', n) for n in f} | {('s', n) + ij for n in f for ij in up}
            | {('cov', a, b) for i, a in enumerate(f) for b in f[i + 1:]}}[name]


def check_left(ctx, p, systems, unclosed, what='', rexog=()):
    """Expectation terms left: only moments that mean, variance and metric cannot express; all of them reported."""
    from checks import oracle as O
    from sympy.core.function import AppliedUndef
    for name, eqs in systems.items():
        for e in O.expectations(p, [q.args[1] for q in eqs]):
            if any(getattr(f.func, '__name__', '') in rexog for f in e.atoms(AppliedUndef)):
                continue        # a moment of the random forcing
            deg = O.moment_degree(p, e)
            ok = deg is not None and (deg[0] >= 4 if deg[1] else deg[0] >= 1)
            ctx.check(ok, 'expressible', lambda: f'{what}{name} still holds {e}')
            ctx.check(not deg[1] or deg[2], 'moment-form', lambda: f'{what}{name} holds {e}, not rewritten with one normalised error without derivative')
    if unclosed is None:
        return
    raw = O.expectations(p, [q.args[1] for n in ('expectation_system', 'variance_system', 'cross_covariance_system', 'metric_system')
                             for q in systems.get(n, [])])
    need = O.expectations(p, [q.args[1] for n in ('expectation_system', 'variance_system', 'cross_covariance_system', 'metric_system')
                              for q in systems.get(n, [])], expand=True)
    un = set(unclosed)
    ctx.check(need <= un, 'unreported', lambda: f'{what}not reported as unclosed: {sorted(map(str, need - un))[:3]}')
    ctx.check(un <= raw, 'over-reported', lambda: f'{what}reported as unclosed but absent: {sorted(map(str, un - raw))[:3]}')


def run_case(case, ctx):
    from checks import pdes
    from sympkf.symbolic import SymbolicPKF
    spec = case['spec']
    p = ctx.must('raises', 'building the PKF object', lambda: SymbolicPKF(pdes.build(spec)))
    got = {}
    for r in case['requests']:
        v = getattr(p, r)
        got[r] = set(v) if r == 'unclosed_terms' else list(v)
        ctx.log('request', r, len(got[r]))
    systems = {n: got[n] for n in SYSTEMS + ['in_metric'] if n in got}
    only = case.get('only')
    for s in only or SYSTEMS + ['in_metric']:
        if s not in systems:
            systems[s] = list(getattr(p, s))
    n = judge(ctx, p, spec, [case['eseed'], case['eseed'] + 1], systems)
    check_left(ctx, p, {k: v for k, v in systems.items() if k != 'in_metric'}, None if only else got.get('unclosed_terms') or p.unclosed_terms, rexog=spec.get('rexog', ()))
    for k in sorted(systems):
        for q in systems[k]:
            ctx.log(k, str(q.args[0]), len(str(q.args[1])))
    ctx.nontrivial = n >= 4 and any(spec['eqs'])
    ctx.concrete = {}


def shrink(case):
    from checks import pdes
    for s in pdes.shrink_spec(case['spec']):
        yield dict(copy.deepcopy(case), spec=s)
    if case.get('salt'):
        yield dict(copy.deepcopy(case), salt=0)
    if case['env'] != {'hashseed': 0, 'cache': 'default'}:
        yield dict(copy.deepcopy(case), env={'hashseed': 0, 'cache': 'default'})
