"""C10: a PKF object answers independently of the history of requests."""
import copy

TIERS = {'quick': {'runs': 110, 'wall': 300, 'timeout': 240}, 'thorough': {'runs': 7000, 'wall': 4800, 'timeout': 420}}
RULE = ('a case is a history of 4-14 requests (systems, forms, unclosed terms, closures, substitution trees of random '
        'degree, code generation) over one or two PKF objects built from one dynamics, in a seeded order with '
        'repetitions, sometimes with other dynamics of the same field names derived in the same process; every answer is compared '
        'with that of a newly built object (with exact ensemble statistics in the latter case), and the dynamics with its state before; '
        'non-trivial when at least three judged answers were given; distinct by event-log digest')
REAL = ['sympkf.symbolic.pkfcas', 'sympkf.symbolic.util', 'sympkf.symbolic.random', 'sympkf.symbolic.model_builder', 'sympy']
STUB = ['iteration order of sets in sympkf (seeded)']
ASSUMPTIONS = ['answers that differ in form are compared on two random ensembles with a relative tolerance of 1e-7']


def gen_case(rng, tier, k):
    from checks import pkfhist as H
    case = H.gen_base(rng)
    case['env']['cache'] = rng.choice(['default'] * 6 + [60])
    case['objects'] = rng.choice([1, 1, 2])
    n = rng.choice([4, 6, 8, 11, 14])
    case['ops'] = []
    light = rng.random() < 0.5
    for _ in range(n):
        r = rng.random()
        o = rng.randrange(case['objects'])
        if r < 0.76:
            pool = [x for x in H.PROPS if not (light and x in ('in_diffusion', 'in_aspect'))]
            case['ops'].append({'o': o, 'get': rng.choice(pool)})
        elif r < 0.86:
            case['ops'].append({'o': o, 'tree': rng.choice([1, 2, 3, 4, 5, 6, None]), 'f': rng.randrange(3)})
        elif r < 0.92:
            case['ops'].append({'o': o, 'misc': rng.choice(['subs_tree', 'couples', 'repr', 'fields'])})
        else:
            case['ops'].append({'o': o, 'build': 1})
    case['twice'] = rng.random() < 0.5
    case['aliens'] = []
    if rng.random() < 0.4:
        # other dynamics of the same process, with fields of the same names
        from checks import pdes
        names = {'fields': case['spec']['fields'] + ['zz']}
        for _ in range(rng.choice([1, 1, 2])):
            d = rng.choice([1, 1, 2])
            nf = rng.choice([1, len(case['spec']['fields'])])
            if rng.random() < 0.6:
                names['coords'] = [case['spec']['coords'][0], 'yy']
            else:
                names.pop('coords', None)
            if d == 2 or nf > 2:
                a = pdes.gen_spec(rng, dim=d, nf=nf, order=1, nterms=(1, 1), maxdeg=2, names=names, mixed=False)
            else:
                a = pdes.gen_spec(rng, dim=1, nf=nf, order=2, nterms=(1, 2), maxdeg=2, names=names)
            at = rng.choice([0, 0, rng.randrange(len(case['ops']) + 1)])
            case['aliens'].append({'at': at, 'spec': a, 'get': rng.sample(['in_metric', 'unclosed_terms', 'variance_system', 'cross_covariance_system', 'closure'], 2),
                                   'tree': rng.choice([0, 2, 3, 4])})
    return case


def pde_snapshot(pde):
    return [tuple(pde.equations), tuple(pde.prognostic_functions), frozenset(pde.constants), frozenset(pde.exogenous_functions),
            frozenset(pde.constant_functions), tuple(pde.coordinates), tuple(pde.spatial_coordinates), pde.time_coordinate, frozenset(pde.functions),
            frozenset(pde.trainable_scalars), frozenset(pde.spatial_derivatives), pde.derivative_max_order, pde.name]


def alien(ctx, a):
    from checks import pdes, pkfhist as H
    from sympkf.symbolic import SymbolicPKF
    p = SymbolicPKF(pdes.build(a['spec']))
    for name in a['get']:
        ctx.must('raised', f'{name} of another dynamics', H.fetch, p, name)
    if a['tree']:
        for f in p.fields.values():
            f.subs_tree(a['tree'])
    ctx.log('alien', a['get'])
    return p


def run_case(case, ctx):
    from checks import pdes, c07, pkfhist as H
    from sympkf.symbolic import SymbolicPKF, FDModelBuilder
    spec = case['spec']
    pde = pdes.build(spec, 'Dyn')
    snap = pde_snapshot(pde)
    eq0 = list(pde.equations)
    objs = [SymbolicPKF(pde) for _ in range(case['objects'])]
    ref = H.Reference(spec)
    judge = H.Judge(ctx, spec, case['eseed'])
    n = 0
    first = {}
    others = []
    for i, op in enumerate(case['ops']):
        for a in case.get('aliens', []):
            if a['at'] == i:
                others.append((a['spec'], alien(ctx, a)))
        p = objs[op['o']]
        if 'get' in op:
            got = ctx.must('raised', f'op {i} {op["get"]}', H.fetch, p, op['get'])
            want = ref.get(op['get'], fresh=(n % 4 == 0))
            judge.same(p, op['get'], got, want, f'op {i} on object {op["o"]}:')
            n += 1
            ctx.log('get', op['o'], op['get'], len(got) if got is not None else None)
            first.setdefault((op['o'], op['get']), got)
        elif 'tree' in op:
            f = list(p.fields.values())[op['f'] % len(p.fields)]
            t = ctx.must('raised', f'op {i} subs_tree({op["tree"]})', f.subs_tree, op['tree'])
            ctx.log('tree', op['tree'], len(t))
        elif 'misc' in op:
            if op['misc'] == 'couples':
                m = list(p.multivariate_couples)
                nf = len(spec['fields'])
                ctx.check(len(m) == nf * (nf - 1) // 2, 'couples', lambda: f'{len(m)} couples for {nf} fields')
            elif op['misc'] == 'repr':
                repr(pde)
            elif op['misc'] == 'subs_tree':
                ctx.must('raised', f'op {i} subs_tree', lambda: p.subs_tree)
            else:
                ctx.check([f.func.__name__ for f in p.fields] == spec['fields'], 'fields', lambda: f'fields are {list(p.fields)}')
        else:
            ctx.must('raised', f'op {i} code generation', lambda: FDModelBuilder(pde, class_name='M').code)
            ctx.log('build')
        ctx.check(pde_snapshot(pde) == snap, 'dynamics', lambda: f'op {i} {op} altered the dynamics')
    if case['twice']:
        # the answers already given are the ones still given
        for (o, name), got in first.items():
            judge.same(objs[o], name, H.fetch(objs[o], name), got, f'second answer of object {o}:')
    if others:
        # the objects of this process could share the same mistake: exact statistics decide
        for sp, p in others + [(spec, objs[0])]:
            names = [n for n in c07.SYSTEMS if n != 'std_system'] + (['cross_covariance_system'] if len(sp['fields']) > 1 else [])
            systems = {n: list(getattr(p, n)) for n in names}
            c07.judge(ctx, p, sp, [case['eseed']], systems, 'with other dynamics in the process: ')
            c07.check_left(ctx, p, systems, p.unclosed_terms, 'with other dynamics in the process: ')
            ctx.count('dynamics_sharing_names')
    ctx.check([id(e) for e in pde.equations] == [id(e) for e in eq0], 'dynamics', 'the equations were replaced')
    ctx.nontrivial = n >= 3
    ctx.concrete = {}


def shrink(case):
    from checks import pkfhist as H
    n = len(case['ops'])
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for a in range(0, n, size):
            c = copy.deepcopy(case)
            del c['ops'][a:a + size]
            if c['ops']:
                yield c
    for a in range(len(case.get('aliens', []))):
        c = copy.deepcopy(case)
        del c['aliens'][a]
        yield c
    if case['twice']:
        yield dict(copy.deepcopy(case), twice=False)
    yield from H.shrink_common(case)
