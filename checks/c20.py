"""C20: results do not depend on the state of the computer-algebra caches."""
import copy

TIERS = {'quick': {'runs': 75, 'wall': 300, 'timeout': 240}, 'thorough': {'runs': 6000, 'wall': 4800, 'timeout': 420}}
RULE = ('a case is a session of 3-9 requests (systems, forms, unclosed terms, closures, finite differences, generated models) on '
        'one or two objects of one dynamics written with the symbols of the library or of the user, under a default, small or '
        'disabled memoisation cache, emptied before the symbols are created, between requests, and at up to 60 random source '
        'lines in the middle of them; systems are judged on random ensembles, finite differences on smooth fields, generated '
        'trends against the right-hand sides; non-trivial when the cache was lost or restricted; distinct by event-log and '
        'eviction digest')
REAL = ['sympkf.symbolic.pkfcas', 'sympkf.symbolic.random', 'sympkf.symbolic.util', 'sympkf.symbolic.finite_difference',
        'sympkf.symbolic.model_builder*', 'sympy and its caches']
STUB = ['moments at which the memoisation caches are emptied (seeded source lines of sympkf and points between requests)',
        'iteration order of sets in sympkf (seeded)']
ASSUMPTIONS = ['an identity that fails somewhere fails on a random ensemble up to a relative error of 1e-7',
               'caches are emptied between source lines of sympkf, not inside one call of the computer-algebra system']

UNI = ['expectation_system', 'error_system', 'variance_system', 'std_system', 'epsilon_system', 'metric_system', 'in_metric',
       'in_diffusion', 'in_aspect', 'unclosed_terms', 'fd', 'code', 'code']
MULTI = UNI + ['cross_covariance_system']


def gen_case(rng, tier, k):
    from checks import pdes
    cache = rng.choice(['default'] * 5 + ['off', 10, 40])
    case = {'env': {'hashseed': rng.randrange(6), 'cache': cache}, 'salt': rng.choice([0, rng.getrandbits(40)]), 'eseed': rng.getrandbits(30),
            'mseed': rng.randrange(10 ** 6)}
    r = rng.random()
    if r < 0.45:
        case['spec'] = copy.deepcopy(pdes.FIXED[rng.choice(['burgers', 'advection', 'advexog', 'diffusion', 'cubic', 'kdv'])])
    elif r < 0.6:
        case['spec'] = copy.deepcopy(pdes.FIXED[rng.choice(['lv', 'sw'])])
    elif r < 0.68 and cache == 'default':
        case['spec'] = copy.deepcopy(pdes.FIXED['adv2d'])
    else:
        case['spec'] = pdes.gen_spec(rng, anycoord=True, dim=1, nf=rng.choice([1, 1, 2]), order=2, nterms=(1, 2), maxdeg=2)
    case['spec']['user_t'] = rng.random() < 0.6
    case['evict'] = {'rate': 0.0, 'seed': rng.getrandbits(30), 'cap': rng.choice([0, 5, 20, 60])}
    if case['evict']['cap']:
        case['evict']['rate'] = rng.choice([0.002, 0.01, 0.05])
    names = MULTI if len(case['spec']['fields']) > 1 else UNI
    case['ops'] = []
    for _ in range(rng.choice([3, 4, 6, 9])):
        r = rng.random()
        if r < 0.12:
            case['ops'].append({'op': 'rebuild', 'user_t': rng.random() < 0.5})
        elif r < 0.22:
            case['ops'].append({'op': 'clear'})
        elif r < 0.30:
            case['ops'].append({'op': 'close', 'how': rng.choice(['zero', 'g'])})
        else:
            case['ops'].append({'op': 'get', 'what': rng.choice(names), 'obj': rng.randrange(2), 'kind': rng.choice(['FD', 'manifold'])})
    case['ops'].append({'op': 'get', 'what': rng.choice(['unclosed_terms', 'in_metric', 'metric_system', 'fd', 'code']), 'obj': 1, 'kind': 'FD'})
    case['clear0'] = rng.random() < 0.7
    return case


def run_case(case, ctx):
    import numpy as np
    from sympy import Integer
    from sympy.core.cache import clear_cache
    from checks import c07, c17, codegen as G, oracle as O, pdes, smooth as S
    from sympkf.symbolic import SymbolicPKF, PDESystem
    from sympkf.symbolic.finite_difference import finite_difference
    spec = copy.deepcopy(case['spec'])
    ctx.evict_start(case['evict'])
    nclear = 0
    if case['clear0']:
        clear_cache()
        nclear += 1
    coords = spec['coords']
    L = [1.0, 2.0][:len(coords)]

    def build():
        pde = pdes.build(spec)
        objs.append([pde, ctx.must('raises', 'building the PKF object', lambda: SymbolicPKF(pde)), {}, {}])

    def quiet(fn, *a):
        """Work of the harness: no eviction here."""
        ctx.evictions['on'] = False
        try:
            return fn(*a)
        finally:
            ctx.evictions['on'] = True
    objs = []
    build()

    def judge_pkf(p, got, closed, where):
        systems = {k: v for k, v in got.items() if k not in ('unclosed_terms',)}
        if not closed:
            c07.judge(ctx, p, spec, [case['eseed']], systems, where)
            raw = {k: v for k, v in systems.items() if not k.startswith('in_')}
            full = {n: list(getattr(p, n)) for n in ('expectation_system', 'variance_system', 'metric_system')}
            if len(spec['fields']) > 1:
                full['cross_covariance_system'] = list(p.cross_covariance_system)
            if 'unclosed_terms' in got:
                c07.check_left(ctx, p, dict(raw, **full), got['unclosed_terms'], where)
        else:
            for n, v in systems.items():
                left = O.expectations(p, [q.args[1] for q in v])
                if n.startswith('in_'):
                    ctx.check(not left, 'closure-not-applied', lambda: f'{where}{n} still holds {list(left)[:2]}')
            if 'unclosed_terms' in got:
                ctx.check(not got['unclosed_terms'], 'closure-not-applied', lambda: f'{where}unclosed terms {list(got["unclosed_terms"])[:2]}')
    for i, op in enumerate(case['ops']):
        where = f'op {i}: '
        if op['op'] == 'clear':
            clear_cache()
            nclear += 1
            continue
        if op['op'] == 'rebuild':
            clear_cache()
            nclear += 1
            spec['user_t'] = op['user_t']
            build()
            ctx.log('rebuild', op['user_t'])
            continue
        if op['op'] == 'close':
            # the terms come from one object, the closure is given to another one
            src, dst = objs[0], objs[-1]
            terms = ctx.must('raises', where + 'unclosed_terms', lambda: set(src[1].unclosed_terms))
            if src[3]:
                continue
            c = {}
            for e in sorted(terms, key=str):
                f = list(dst[1].fields.values())[0]
                c[e] = Integer(0) if op['how'] == 'zero' else 3 * f.metric[0, 0] ** 2
            if dst is src:
                judge_pkf(dst[1], dst[2], False, where)
                dst[2] = {}
            else:
                quiet(judge_pkf, dst[1], dst[2], bool(dst[3]), where)
                dst[2] = {}
            ctx.must('raises', where + 'set_closure', dst[1].set_closure, c)
            dst[3] = c or dst[3]
            ctx.log('close', len(c))
            continue
        pde, p, got, closed = objs[min(op['obj'], len(objs) - 1)]
        if op['what'] == 'fd':
            w = G.World(pde, coords, L, case['mseed'], modes=1)
            for eq in pde.equations:
                e = eq.args[1]
                fd = ctx.must('raises', where + f'differencing {e}', finite_difference, e)
                c17.structural(ctx, fd, coords, where)
                ex, _ = quiet(c17.evaluate, case, w, e, [0.1] * len(coords), 9, case['mseed'])
                es, floor = [], 1e-10
                for h in (0.02, 0.01):
                    va, r = quiet(c17.evaluate, case, w, fd, [h * l * 0.5 for l in L], 9, case['mseed'])
                    es.append(S.scale_of(va - ex))
                    floor += r
                ctx.check(S.second_order(es, S.scale_of(ex), floor=floor), 'fd', lambda: f'{where}errors {es} at h and h/2 for {e}')
            ctx.log('fd', i)
        elif op['what'] == 'code':
            w = G.World(pde, coords, L, case['mseed'])
            cls, code = ctx.must('raises', where + 'generating the code', G.program, pde, op['kind'])
            shape = [24, 20][:len(coords)]
            m = w.instance(cls, shape, op['kind'])
            got_t = w.trend(m, 0.5, shape, 3)
            if op['kind'] == 'manifold':
                want = quiet(w.exact, 0.5, shape, 3)
            else:
                def twin():
                    clear_cache()
                    return w.trend(w.instance(G.program(pde, op['kind'], mod='simgen_twin')[0], shape, op['kind']), 0.5, shape, 3)
                want = quiet(twin)
            ctx.check(S.scale_of(got_t - want) <= 1e-9 * (1 + S.scale_of(want)), 'trend',
                      lambda: f'{where}the trend of the generated {op["kind"]} model is {S.scale_of(got_t - want):.3g} away')
            ctx.log('code', i, op['kind'])
        else:
            v = ctx.must('raises', where + op['what'], lambda: getattr(p, op['what']))
            v = set(v) if op['what'] == 'unclosed_terms' else list(v)
            if op['what'] in got:
                ctx.check(len(v) == len(got[op['what']]), 'unstable', lambda: f'{where}{op["what"]} has another length')
            got[op['what']] = v
            ctx.log('get', op['what'], len(v))
    for n, (pde, p, got, closed) in enumerate(objs):
        judge_pkf(p, got, bool(closed), f'object {n}: ')
    done = ctx.evictions['done']
    if nclear:
        ctx.count('cache_emptied_between_requests', nclear)
    ctx.nontrivial = bool(done) or nclear > 0 or case['env']['cache'] != 'default'
    ctx.concrete = {'evict': {'at': done}}


def shrink(case):
    from checks import pdes
    ev = case['evict']
    if 'at' in ev:
        n = len(ev['at'])
        for size in (n, n // 2, n // 4, 1):
            if size < 1:
                continue
            for a in range(0, n, size):
                yield dict(copy.deepcopy(case), evict={'at': ev['at'][:a] + ev['at'][a + size:]})
    for a in range(len(case['ops'])):
        if len(case['ops']) > 1:
            c = copy.deepcopy(case)
            del c['ops'][a]
            yield c
    for s in pdes.shrink_spec(case['spec']):
        yield dict(copy.deepcopy(case), spec=s)
    if case['clear0']:
        yield dict(copy.deepcopy(case), clear0=False)
    if case['spec'].get('user_t'):
        c = copy.deepcopy(case)
        c['spec']['user_t'] = False
        yield c
    if case['salt']:
        yield dict(copy.deepcopy(case), salt=0)
    if case['env'] != {'hashseed': 0, 'cache': 'default'}:
        yield dict(copy.deepcopy(case), env={'hashseed': 0, 'cache': 'default'})
