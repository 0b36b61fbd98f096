"""C13: closures take effect at once, completely, and only where set."""
import copy

TIERS = {'quick': {'runs': 110, 'wall': 300, 'timeout': 300}, 'thorough': {'runs': 6000, 'wall': 4800, 'timeout': 480}}
RULE = ('a case is a history of 3-9 operations over 1-3 PKF objects of one dynamics: building an object with or without a '
        'closure (dictionaries possibly shared by the caller), setting closures of random subsets of terms with random '
        'values, overriding, setting interrupted at a chosen source line, and requests for forms, unclosed terms and the '
        'closure; every answer is compared with that of a newly built object given the closures set so far on that object; '
        'non-trivial when a closure was set; distinct by event-log and fault-schedule digest')
REAL = ['sympkf.symbolic.pkfcas', 'sympkf.symbolic.util', 'sympkf.symbolic.random', 'sympy']
STUB = ['arrival of interrupts (seeded source line of sympkf)', 'iteration order of sets in sympkf (seeded)']
ASSUMPTIONS = ['answers that differ in form are compared on two random ensembles with a relative tolerance of 1e-7']

ASK = ['in_metric', 'in_metric', 'in_aspect', 'in_diffusion', 'unclosed_terms', 'unclosed_terms', 'closure', 'metric_system']


def gen_case(rng, tier, k):
    from checks import pdes, pkfhist as H
    case = H.gen_base(rng, multi=0.2, twod=0.0)
    # dynamics with something to close
    if rng.random() < 0.7:
        case['spec'] = copy.deepcopy(pdes.FIXED[rng.choice(['burgers', 'diffusion', 'diffusion', 'burgers', 'lv'])])
    r = rng.random()
    if r < 0.15:
        case['spec'] = copy.deepcopy(pdes.FIXED['kdv'])
    elif r < 0.35:
        # fields driven by the derivatives of one another: cross moments to close, few metrics
        case['spec'] = cross_driven(rng)
    case['objects'] = rng.choice([1, 2, 2, 3])
    case['init'] = [rng.choice([None, None, 'empty', 'own', 'shared']) for _ in range(case['objects'])]
    case['cseed'] = rng.getrandbits(30)
    case['ops'] = []
    for _ in range(rng.choice([3, 4, 6, 9])):
        o = rng.randrange(case['objects'])
        if rng.random() < 0.45:
            op = {'o': o, 'set': rng.getrandbits(20), 'frac': rng.choice([1.0, 0.5, 0.0]), 'shared': rng.random() < 0.3}
            if rng.random() < 0.35:
                op['fault'] = {'ff': rng.random(), 'of': rng.random(), 'kind': rng.choice(['interrupt', 'memory'])}
            case['ops'].append(op)
        else:
            case['ops'].append({'o': o, 'get': rng.choice(ASK)})
    if rng.random() < 0.5:
        # one form of one object, closures given again with other values
        o, form = rng.randrange(case['objects']), rng.choice(['in_metric', 'in_metric', 'in_aspect', 'in_diffusion'])
        case['ops'] = case['ops'][:rng.choice([0, 0, 1, 3])]
        frac = rng.choice([1.0, 1.0, 0.5])
        for _ in range(rng.choice([2, 2, 3])):
            case['ops'] += [{'o': o, 'set': rng.getrandbits(20), 'frac': rng.choice([frac, frac, 1.0]), 'shared': rng.random() < 0.15}, {'o': o, 'get': form}]
            if rng.random() < 0.3:
                case['ops'].append({'o': o, 'get': rng.choice(ASK)})
    case['ops'].append({'o': rng.randrange(case['objects']), 'get': 'unclosed_terms'})
    return case


def cross_driven(rng):
    from checks import pdes
    a, b = rng.choice([['u', 'v'], ['h', 'q'], ['B', 'A']])
    f, t = pdes.f, pdes.term

    def prod(me, other):
        return rng.choice([t(rng.choice([-1, 1, 2]), f(me, 0), f(other, 1)), t(rng.choice([-1, 1]), f(other, 0), f(other, 1)),
                           t(rng.choice([-1, 2]), f(other, 0), f(me, 1)), t(1, f(me, 0), f(other, 0)), t(-1, f(me, 1), f(other, 1))])
    return {'coords': ['x'], 'fields': [a, b], 'consts': [], 'cfuncs': [], 'exog': [],
            'eqs': [[prod(a, b)], [prod(b, a)] if rng.random() < 0.8 else [t(rng.choice([-1, 2]), f(b, 1))]]}


def run_case(case, ctx):
    from checks import pdes, c09, pkfhist as H
    from sim.core import resolve_faults
    from sympkf.symbolic import SymbolicPKF
    spec = case['spec']
    pde = pdes.build(spec)
    base = SymbolicPKF(pdes.build(spec))
    unclosed = set(base.unclosed_terms)
    judge = H.Judge(ctx, spec, case['eseed'])
    shared = c09.random_closure(base, unclosed, case['cseed'], 0.6)
    shared0 = dict(shared)
    objs, model, dicts = [], [], []
    for how in case['init']:
        d = {None: None, 'empty': {}, 'own': c09.random_closure(base, unclosed, case['cseed'] + 1, 0.5), 'shared': shared}[how]
        if d is not None and d is not shared:
            dicts.append((d, dict(d)))
        objs.append(SymbolicPKF(pde, closure=d) if d is not None or how else SymbolicPKF(pde))
        model.append([dict(d or {})])          # the closures that may be in force
    refs = {}

    def key(c):
        return tuple(sorted((str(k), str(v)) for k, v in c.items()))

    def reference(c):
        k = key(c)
        if k not in refs:
            refs[k] = H.Reference(spec, closure=dict(c))
        return refs[k]
    nset = 0
    concrete = copy.deepcopy(case['ops'])
    for i, op in enumerate(case['ops']):
        p = objs[op['o']]
        if 'set' in op:
            d = shared if op['shared'] else c09.random_closure(base, unclosed, op['set'], op['frac'])
            before = dict(d)
            f = op.get('fault')
            if f and 'func' not in f:
                twin = SymbolicPKF(pdes.build(spec))
                ctx.profile()
                twin.set_closure(dict(d))
                r = resolve_faults(ctx.end_profile(), [f])
                f = r[0] if r else None
            concrete[i]['fault'] = f
            if f:
                ctx.arm([f])
                st, v = ctx.call(p.set_closure, d)
                left = ctx.disarm()
                ctx.check(not (st == 'exc' and left), 'raised', lambda: f'op {i} set_closure raised {v!r}')
                if st == 'exc':
                    # it took effect everywhere or nowhere
                    model[op['o']] = model[op['o']] + [dict(m, **{}) | d for m in model[op['o']]]
                else:
                    model[op['o']] = [m | d for m in model[op['o']]]
            else:
                ctx.must('raised', f'op {i} set_closure', p.set_closure, d)
                model[op['o']] = [m | d for m in model[op['o']]]
            nset += 1
            ctx.check(d == before, 'caller-dict', lambda: f'op {i}: set_closure changed the dictionary of the caller')
            if d is not shared:
                dicts.append((d, before))
            ctx.log('set', op['o'], len(d))
        else:
            got = ctx.must('raised', f'op {i} {op["get"]}', H.fetch, p, op['get'])
            cands = model[op['o']]
            if op['get'] in H.FORMS:
                # a term closed whatever the setting in doubt gave does not remain
                closed = set.intersection(*[set(c) for c in cands])
                left = set()
                for e in got or []:
                    left |= {t for t in closed if e.has(t)}
                ctx.check(not left, 'closed-term-left', lambda: f'op {i} {op["get"]} of object {op["o"]} still holds {sorted(map(str, left))[:2]}, which was given a closure')
            for j, c in enumerate(cands):
                try:
                    judge.same(p, op['get'], got, reference(c).get(op['get']), f'op {i} on object {op["o"]} with {len(c)} closure terms:')
                except Exception as e:
                    from sim.core import Violation
                    if not isinstance(e, Violation) or j == len(cands) - 1:
                        raise
                    continue
                if len(cands) > 1 and op['get'] not in ('metric_system',):
                    # later answers have to agree with a closure this one agreed with
                    keep = []
                    for c2 in cands:
                        try:
                            judge.same(p, op['get'], got, reference(c2).get(op['get']), '')
                            keep.append(c2)
                        except Violation_():
                            pass
                    model[op['o']] = keep
                break
            ctx.log('get', op['o'], op['get'], len(got))
        ctx.check(shared == shared0, 'caller-dict', lambda: f'op {i} {op}: the dictionary given by the caller was changed')
        for d, b in dicts:
            ctx.check(d == b, 'caller-dict', lambda: f'op {i} {op}: a dictionary given by the caller was changed')
    ctx.nontrivial = nset > 0 or any(case['init'])
    ctx.concrete = {'ops': concrete}


def Violation_():
    from sim.core import Violation
    return Violation


def shrink(case):
    from checks import pkfhist as H
    n = len(case['ops'])
    for size in (n // 2, 1):
        if size < 1:
            continue
        for a in range(0, n, size):
            c = copy.deepcopy(case)
            del c['ops'][a:a + size]
            if c['ops']:
                yield c
    for i, h in enumerate(case['init']):
        if h:
            c = copy.deepcopy(case)
            c['init'][i] = None
            yield c
    yield from H.shrink_common(case)
