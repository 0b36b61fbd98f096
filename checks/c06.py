"""C06: one model instance serves concurrent threads."""
import copy

TIERS = {'quick': {'runs': 360, 'wall': 240, 'timeout': 90}, 'thorough': {'runs': 8000, 'wall': 3000, 'timeout': 120}}
RULE = ('a case is a shared model (generated from a random system with constants, constant and exogenous functions, or a '
        'harness model with any scheme), 2-4 threads each making 1-3 trend evaluations, forecasts or predictions, and a '
        'seeded schedule that switches thread at any source line of sympkf and of the generated code (at random rates per function, '
        'or at a few hits of randomly chosen functions); non-trivial '
        'when at least one switch happened; distinct by event-log and schedule digest')
REAL = ['sympkf.model.model', 'generated model code (trend, index, exogenous)', 'real threads, one running at a time']
STUB = ['thread scheduling (decided by the simulator at source lines); locks block through the scheduler']
ASSUMPTIONS = ['threads switch at source-line granularity of sympkf and generated code, not inside numpy']


def gen_case(rng, tier, k):
    from checks import pdes
    from checks.gencase import gen_window
    case = {'env': {'hashseed': rng.randrange(5), 'cache': 'default'}, 'mseed': rng.randrange(10 ** 6),
            'kind': 'gen' if rng.random() < 0.75 else 'sim', 'scheme': rng.choice(['rk4', 'rk2', 'euler']),
            'threads': [], 'mode': {'p': rng.choice([0.02, 0.1, 0.3, 0.7]), 'hot': rng.choice([0.5, 1.0])}}
    if rng.random() < 0.4:
        one = rng.random()
        case['mode'] = {'few': [[one if rng.random() < 0.4 else rng.random(), rng.random(), rng.randrange(6), False] for _ in range(rng.choice([1, 2, 3, 5]))]}
    dim = rng.choice([1, 1, 2])
    if rng.random() < 0.3:
        case['spec'] = copy.deepcopy(pdes.FIXED[rng.choice(['burgers', 'advexog', 'lv', 'sw', 'adv2d', 'diffusion'])])
    else:
        case['spec'] = pdes.gen_spec(rng, dim=dim, nf=rng.choice([1, 1, 2]), order=2)
    dim = len(case['spec']['coords'])
    case['shape'] = [rng.choice([4, 5, 6]) for _ in range(dim)]
    case['lengths'] = [rng.choice([1.0, 2.0, 0.5]) for _ in range(dim)]
    if case['kind'] == 'sim':
        case['scheme'] = rng.choice(['rk4', 'rk2', 'euler', 'splitting', 'leapfrog'])
    for _ in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            w = gen_window(rng, 4)
            ops.append({'op': rng.choice(['trend', 'trend', 'forecast', 'predict', 'ens']), 'tag': rng.randrange(100),
                        't': rng.choice([0.0, 0.5, 1.0, 2.25]), 'window': [x * 0.02 for x in w]})
        case['threads'].append(ops)
    return case


def run_case(case, ctx):
    import numpy as np
    from checks import models as M
    from checks import nummodel as N
    from sim.core import ThreadSched, resolve_targets
    spec, sh, L = case['spec'], case['shape'], case['lengths']
    if case['kind'] == 'gen':
        cls, _ = N.fd_class(spec)
        new = lambda: N.instance(cls, spec, case['mseed'], sh, L, time_scheme=case['scheme'])  # noqa
        st = lambda tag: N.state(spec, case['mseed'], sh, L, tag)  # noqa
    else:
        new = lambda: M.SimModel(case['mseed'], (5,), case['scheme'])  # noqa
        st = lambda tag: M.make_state(case['mseed'], (5,), tag, case['scheme'])  # noqa

    def do(m, op):
        u = st(op['tag'])
        if op['op'] == 'trend':
            if not callable(m.trend) or isinstance(u, list):
                op = dict(op, op='forecast')
            else:
                r = np.array(m.trend(op['t'], u))
                return [r]
        w = np.array(op['window'])
        if op['op'] == 'forecast':
            r = m.forecast(w, u)
            return [np.array(r[t]) for t in op['window']]
        if op['op'] == 'ens':
            r = m.ensemble_forecast(w, [u, u], parallel=False)
            return [np.array(r[t]) for t in op['window']]
        return [np.array(m.predict(w, u))]
    mode = dict(case['mode'])
    ctx.profile()
    alone = [[do(new(), op) for op in ops] for ops in case['threads']]
    prof = ctx.end_profile()
    if 'few' in mode:
        mode['targets'] = resolve_targets(prof, mode['few'], [''])
    shared = new()
    sched = ThreadSched(ctx, [(lambda ops=ops: [do(shared, op) for op in ops]) for ops in case['threads']], mode)
    res = sched.run()
    ctx.concrete = {'mode': {'switches': sched.recorded, 'choices': sched.choices, 'first': sched.mode['first']}}
    ctx.nontrivial = sched.nswitch > 0
    for i, (r, ops) in enumerate(zip(res, case['threads'])):
        if r[0] == 'exc':
            ctx.check(False, 'raised', lambda: f'thread {i} raised {type(r[1]).__name__}: {str(r[1])[:300]}')
        for j, (got, want) in enumerate(zip(r[1], alone[i])):
            ok = len(got) == len(want) and all(M.close(a, b, 1e-12) for a, b in zip(got, want))
            ctx.check(ok, 'differs', lambda: f'thread {i} op {j} {ops[j]["op"]}: {np.ravel(got[-1])[:4]} instead of {np.ravel(want[-1])[:4]}')
            ctx.log('ok', i, j, got[-1].tobytes().hex()[:32])
    for i, ops in enumerate(case['threads'][:1]):
        got = do(shared, ops[0])
        ctx.check(all(M.close(a, b, 1e-12) for a, b in zip(got, alone[i][0])), 'differs-after', 'the shared model answers differently afterwards')


def shrink(case):
    from checks import pdes
    sw = case['mode'].get('switches')
    if sw:
        n = len(sw)
        size = max(1, n // 2)
        while size >= 1:
            for a in range(0, n, size):
                c = copy.deepcopy(case)
                c['mode']['switches'] = sw[:a] + sw[a + size:]
                yield c
            if size == 1 or n > 60 and size <= n // 16:
                break
            size //= 2
    if len(case['threads']) > 2:
        c = copy.deepcopy(case)
        c['threads'].pop()
        yield c
    for i, ops in enumerate(case['threads']):
        if len(ops) > 1:
            c = copy.deepcopy(case)
            c['threads'][i] = ops[:-1]
            yield c
    if case['kind'] == 'gen':
        for s in pdes.shrink_spec(case['spec']):
            yield dict(copy.deepcopy(case), spec=s)
