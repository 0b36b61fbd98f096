"""C11: an interrupted derivation can be resumed on the same object."""
import copy

TIERS = {'quick': {'runs': 90, 'wall': 300, 'timeout': 240}, 'thorough': {'runs': 9000, 'wall': 4800, 'timeout': 420}}
RULE = ('a case is a PKF object hit by 1-3 faults (user interrupt, memory exhaustion, recursion limit) at chosen source '
        'lines while it computes randomly chosen systems, forms or unclosed terms, each followed by a retry, then by '
        'requests for further systems; fault sites are drawn uniformly over functions, then over occurrences; all '
        'answers are compared with those of a never-interrupted object; non-trivial when a fault fired; distinct by '
        'fault-schedule and event-log digest')
REAL = ['sympkf.symbolic.pkfcas', 'sympkf.symbolic.util', 'sympkf.symbolic.random', 'sympy']
STUB = ['arrival of the fault (seeded source line of sympkf)', 'iteration order of sets in sympkf (seeded)']
ASSUMPTIONS = ['faults are delivered at source lines of sympkf, not inside sympy']

ENTRY = ['in_metric', 'in_metric', 'in_diffusion', 'in_aspect', 'unclosed_terms', 'metric_system', 'epsilon_system',
         'variance_system', 'cross_covariance_system', 'expectation_system', 'error_system', 'std_system', 'internal_closure']


def gen_case(rng, tier, k):
    from checks import pkfhist as H
    case = H.gen_base(rng, multi=0.45, twod=0.03)
    case['ops'] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        case['ops'].append({'get': rng.choice(ENTRY), 'retry': rng.random() < 0.6,
                            'fault': {'ff': rng.random(), 'of': rng.random(), 'kind': rng.choice(['interrupt', 'interrupt', 'memory', 'recursion'])},
                            'focus': rng.random() < 0.5})
    case['after'] = rng.sample(['in_metric', 'metric_system', 'cross_covariance_system', 'variance_system', 'expectation_system',
                                'unclosed_terms', 'epsilon_system', 'std_system', 'internal_closure'], 4)
    if rng.random() < 0.3:
        case['after'].append(rng.choice(['in_diffusion', 'in_aspect']))
    return case


def run_case(case, ctx):
    from checks import pdes, pkfhist as H
    from sim.core import resolve_faults
    from sympkf.symbolic import SymbolicPKF
    spec = case['spec']
    ref = H.Reference(spec)
    judge = H.Judge(ctx, spec, case['eseed'])
    p = SymbolicPKF(pdes.build(spec))
    hit = 0
    concrete = copy.deepcopy(case['ops'])
    for i, op in enumerate(case['ops']):
        f = op['fault']
        if f is not None and 'func' not in f:
            # an uninterrupted twin in the same state tells which lines the request visits
            twin = SymbolicPKF(pdes.build(spec))
            for j in range(i):
                if case['ops'][j]['retry']:
                    H.fetch(twin, case['ops'][j]['get'])
            ctx.profile()
            H.fetch(twin, op['get'])
            prof = ctx.end_profile()
            only = ['SymbolicPKF.', 'UnivariateTree', 'Field.'] if op['focus'] else None
            r = resolve_faults(prof, [f], only)
            f = r[0] if r else None
        concrete[i]['fault'] = f
        if f is not None:
            ctx.arm([f])
            st, v = ctx.call(H.fetch, p, op['get'])
            left = ctx.disarm()
            hit += 1 - left
            ctx.log('faulted', i, op['get'], st, type(v).__name__)
            if st == 'exc' and left:
                ctx.check(False, 'raised', lambda: f'op {i} {op["get"]} raised {type(v).__name__}: {str(v)[:200]} although no fault struck it')
            if st == 'ok':
                judge.same(p, op['get'], v, ref.get(op['get']), f'op {i}, interrupted by {f}:')
        if op['retry'] or f is None:
            got = ctx.must('retry-raised', f'op {i}: {op["get"]} after {f}', H.fetch, p, op['get'])
            judge.same(p, op['get'], got, ref.get(op['get']), f'op {i}, retried after {f}:')
    for name in case['after']:
        got = ctx.must('retry-raised', f'{name} after the faults', H.fetch, p, name)
        judge.same(p, name, got, ref.get(name), f'after {[o["fault"] for o in concrete]}:')
        ctx.log('after', name, len(got) if got is not None else None)
    ctx.nontrivial = hit > 0
    ctx.concrete = {'ops': concrete}


def shrink(case):
    from checks import pkfhist as H
    for i in range(len(case['ops'])):
        if len(case['ops']) > 1:
            c = copy.deepcopy(case)
            del c['ops'][i]
            yield c
    for i in range(len(case['after'])):
        if len(case['after']) > 1:
            c = copy.deepcopy(case)
            del c['after'][i]
            yield c
    yield from H.shrink_common(case)
