"""C08: multivariate PKF equations are exact, cross-covariances included."""
import copy

TIERS = {'quick': {'runs': 150, 'wall': 300, 'timeout': 240}, 'thorough': {'runs': 7000, 'wall': 4800, 'timeout': 420}}
RULE = ('a case is a random system of two or three coupled evolution equations (1-D to third order, 2-D first order), a '
        'seeded order of all unordered collections, a hash seed, a cache configuration and a random order of requests; '
        'each system, cross-covariances included, is evaluated on two random finite centred ensembles with correlated '
        'errors (and random forcing fields, member by member, where the dynamics has some) and compared with the trends of their statistics; non-trivial when at least four systems were judged; '
        'distinct by event-log digest')
REAL = ['sympkf.symbolic.pkfcas', 'sympkf.symbolic.random', 'sympkf.symbolic.util', 'sympy']
STUB = ['iteration order of sets in sympkf (seeded)']
ASSUMPTIONS = ['an identity that fails somewhere fails on a random ensemble up to a relative error of 1e-7']

SYSTEMS = ['expectation_system', 'error_system', 'variance_system', 'std_system', 'epsilon_system', 'cross_covariance_system', 'metric_system']


def gen_case(rng, tier, k):
    from checks import pdes
    case = {'env': {'hashseed': rng.randrange(6), 'cache': rng.choice(['default'] * 7 + [80])},
            'salt': rng.choice([0, rng.getrandbits(40), rng.getrandbits(40)]), 'eseed': rng.getrandbits(30)}
    r = rng.random()
    if r < 0.2:
        case['spec'] = copy.deepcopy(pdes.FIXED[rng.choice(['lv', 'sw'])])
    elif r < 0.32:
        case['spec'] = pdes.gen_spec(rng, anycoord='odd', dim=2, nf=2, order=1, nterms=(1, 1), maxdeg=2, mixed=False)
    elif r < 0.5:
        case['spec'] = pdes.gen_spec(rng, anycoord='odd', dim=1, nf=3, order=1, nterms=(1, 2), maxdeg=2)
    elif r < 0.6:
        case['spec'] = pdes.gen_spec(rng, anycoord='odd', dim=1, nf=2, order=3, nterms=(1, 1), maxdeg=2)
    else:
        case['spec'] = pdes.gen_spec(rng, anycoord='odd', dim=1, nf=2, order=rng.choice([1, 2]), nterms=(1, 2))
        if rng.random() < 0.25:
            case['spec'] = pdes.exotic(rng, case['spec'])
        elif rng.random() < 0.25:
            case['spec'] = pdes.random_forcing(rng, case['spec'])
    if tier == 'thorough' and rng.random() < 0.1:
        case['spec'] = pdes.gen_spec(rng, anycoord='odd', dim=1, nf=4, order=1, nterms=(1, 2), maxdeg=2)
    if rng.random() < 0.04:
        case['spec'] = pdes.gen_spec(rng, anycoord=True, dim=3, nf=2, order=1, nterms=(1, 1), maxdeg=2, mixed=False)
        case['env']['cache'] = 'default'
    if rng.random() < 0.3:
        case['spec']['eqs'], case['spec']['fields'] = case['spec']['eqs'][::-1], case['spec']['fields'][::-1]
    case['requests'] = rng.sample(SYSTEMS + ['in_metric', 'unclosed_terms'], 9)
    if rng.random() < 0.4:
        case['spec'] = pdes.gen_product(rng, nf=rng.choice([2, 2, 3]), dim=rng.choice([1, 1, 1, 2]), order=rng.choice([2, 2, 3]))
        quick = ['expectation_system', 'error_system', 'variance_system', 'std_system', 'cross_covariance_system']
        case['requests'] = case['only'] = rng.sample(quick, 5)
    if rng.random() < 0.12:
        case['spec'] = pdes.seasonal(rng, case['spec'])
    return case


def run_case(case, ctx):
    from checks import pdes, c07
    from sympkf.symbolic import SymbolicPKF
    spec = case['spec']
    p = ctx.must('raises', 'building the PKF object', lambda: SymbolicPKF(pdes.build(spec)))
    got = {}
    for r in case['requests']:
        v = getattr(p, r)
        ctx.check(v is not None, 'missing', lambda: f'{r} is None for {len(spec["fields"])} fields')
        got[r] = set(v) if r == 'unclosed_terms' else list(v)
        ctx.log('request', r, len(got[r]))
    systems = {n: got[n] for n in case.get('only') or SYSTEMS + ['in_metric']}
    n = c07.judge(ctx, p, spec, [case['eseed'], case['eseed'] + 1], systems)
    c07.check_left(ctx, p, {k: v for k, v in systems.items() if k != 'in_metric'}, got.get('unclosed_terms'), rexog=spec.get('rexog', ()))
    for k in sorted(systems):
        for q in systems[k]:
            ctx.log(k, str(q.args[0]), len(str(q.args[1])))
    ctx.nontrivial = n >= 4
    ctx.concrete = {}


def shrink(case):
    from checks import c07
    yield from c07.shrink(case)
    sp = case['spec']
    if len(sp['fields']) > 2:
        c = copy.deepcopy(case)
        gone = c['spec']['fields'].pop()
        c['spec']['eqs'].pop()
        c['spec']['eqs'] = [[t for t in eq if all(x[0] != gone for x in t[2])] for eq in c['spec']['eqs']]
        yield c
