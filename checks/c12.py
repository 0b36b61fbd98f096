"""C12: concurrent requests on one PKF object are consistent."""
import copy

TIERS = {'quick': {'runs': 180, 'wall': 300, 'timeout': 240}, 'thorough': {'runs': 8000, 'wall': 4800, 'timeout': 420}}
RULE = ('a case is a PKF object shared by 2-4 threads, each making 1-4 requests (systems, forms, unclosed terms, closures, '
        'substitution trees), under a seeded schedule that switches thread at any source line of sympkf (at random rates per function, or at a few hits of '
        'randomly chosen functions); every answer '
        'is compared with that of a single-threaded caller; non-trivial when at least one switch happened; distinct by '
        'event-log and schedule digest')
REAL = ['sympkf.symbolic.pkfcas', 'sympkf.symbolic.util', 'sympkf.symbolic.random', 'sympy', 'real threads, one running at a time']
STUB = ['thread scheduling (decided by the simulator at source lines); locks block through the scheduler', 'iteration order of sets in sympkf (seeded)']
ASSUMPTIONS = ['threads switch at source lines of sympkf, not inside sympy']

REQ = ['in_metric', 'in_metric', 'metric_system', 'cross_covariance_system', 'variance_system', 'expectation_system', 'epsilon_system',
       'unclosed_terms', 'std_system', 'error_system', 'internal_closure', 'in_diffusion', 'in_aspect', 'first_order_reynolds_system',
       'tree', 'tree']


def gen_case(rng, tier, k):
    from checks import pkfhist as H
    case = H.gen_base(rng, multi=0.45, twod=0.0)
    case['threads'] = []
    same = rng.choice(REQ) if rng.random() < 0.3 else None
    for _ in range(rng.choice([2, 2, 3, 4])):
        reqs = [rng.choice(REQ) for _ in range(rng.choice([1, 2, 4]))]
        if same:
            reqs[0] = same
        case['threads'].append([{'tree': rng.choice([2, 3, 4, 5, 6, None]), 'f': rng.randrange(3)} if r == 'tree' else {'get': r} for r in reqs])
    case['mode'] = {'p': rng.choice([0.003, 0.02, 0.1, 0.4]), 'hot': rng.choice([0.15, 0.4, 1.0])}
    if rng.random() < 0.6:
        # few preemptions, spread over the functions rather than over the lines executed
        one = rng.random()
        case['mode'] = {'few': [[one if rng.random() < 0.4 else rng.random(), rng.random(), rng.randrange(6), rng.random() < 0.75] for _ in range(rng.choice([1, 2, 3, 3, 5]))]}
    if rng.random() < 0.5:
        # threads at different stages of one short derivation
        from checks import pdes
        case['spec'] = copy.deepcopy(pdes.FIXED[rng.choice(['diffusion', 'burgers', 'advection', 'advexog', 'cubic'])])
        late, early = ['metric_system', 'in_metric', 'unclosed_terms'], ['variance_system', 'std_system', 'expectation_system', 'epsilon_system', 'error_system']
        case['threads'] = [[{'get': rng.choice(late)}], [{'get': rng.choice(early)}]] + ([[{'get': rng.choice(late + early)}]] if rng.random() < 0.3 else [])
        rng.shuffle(case['threads'])
        one = rng.random()
        case['mode'] = {'few': [[one if rng.random() < 0.7 else rng.random(), rng.random(), rng.randrange(6), True] for _ in range(rng.choice([2, 2, 3, 4, 6]))]}
    return case


def run_case(case, ctx):
    from checks import pdes, pkfhist as H
    from sim.core import ThreadSched, resolve_targets
    from sympkf.symbolic import SymbolicPKF
    spec = case['spec']
    ref = H.Reference(spec)
    judge = H.Judge(ctx, spec, case['eseed'])
    p = SymbolicPKF(pdes.build(spec))
    tf = list(p.fields.values())
    alone = SymbolicPKF(pdes.build(spec))
    af = list(alone.fields.values())

    def one(op, p=p, tf=tf):
        if 'get' in op:
            return H.fetch(p, op['get'])
        return dict(tf[op['f'] % len(tf)].subs_tree(op['tree']))
    mode = dict(case['mode'])
    if 'few' in mode:
        ref.obj = SymbolicPKF(pdes.build(spec))
        rf = list(ref.obj.fields.values())
        ctx.profile()
        for ops in case['threads']:
            for op in ops:
                one(op, ref.obj, rf)
        mode['targets'] = resolve_targets(ctx.end_profile(), mode['few'], ['SymbolicPKF.'])

    def body(ops):
        return [one(op) for op in ops]
    sched = ThreadSched(ctx, [(lambda ops=ops: body(ops)) for ops in case['threads']], mode)
    res = sched.run()
    ctx.concrete = {'mode': {'switches': sched.recorded, 'choices': sched.choices, 'first': sched.mode['first']}}
    ctx.nontrivial = sched.nswitch > 0
    for i, (r, ops) in enumerate(zip(res, case['threads'])):
        if r[0] == 'exc':
            ctx.check(False, 'raised', lambda: f'thread {i} {ops} raised {type(r[1]).__name__}: {str(r[1])[:300]}')
        for j, (got, op) in enumerate(zip(r[1], ops)):
            if 'get' in op:
                judge.same(p, op['get'], got, ref.get(op['get']), f'thread {i} op {j}')
            elif op['tree'] is not None:
                want = af[op['f'] % len(af)].subs_tree(op['tree'])
                ctx.check(set(got) == set(want), 'tree', lambda: f'thread {i} op {j}: tree of degree {op["tree"]} has {len(got)} rules instead of {len(want)}')
                for k in want:
                    if got[k] != want[k]:
                        ctx.check((got[k] - want[k]).doit().expand() == 0, 'tree', lambda: f'thread {i} op {j}: rule for {k} is {str(got[k])[:200]}')
            ctx.log('ok', i, j, len(got) if got is not None else None)
    for name in ('in_metric', 'unclosed_terms'):
        judge.same(p, name, ctx.must('raised', name + ' afterwards', H.fetch, p, name), ref.get(name), 'afterwards')


def shrink(case):
    from checks import pkfhist as H
    sw = case['mode'].get('switches')
    if sw:
        n = len(sw)
        size = max(1, n // 2)
        while size >= 1:
            for a in range(0, n, size):
                c = copy.deepcopy(case)
                c['mode']['switches'] = sw[:a] + sw[a + size:]
                yield c
            if size == 1 or n > 60 and size <= n // 16:
                break
            size //= 2
    if len(case['threads']) > 2:
        c = copy.deepcopy(case)
        c['threads'].pop()
        yield c
    for i, ops in enumerate(case['threads']):
        if len(ops) > 1:
            c = copy.deepcopy(case)
            c['threads'][i] = ops[:-1]
            yield c
    yield from H.shrink_common(case)
