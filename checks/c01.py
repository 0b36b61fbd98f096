"""C01: an ensemble forecast equals member-by-member integration."""
TIERS = {'quick': {'runs': 700, 'wall': 240, 'timeout': 90}, 'thorough': {'runs': 9000, 'wall': 3000, 'timeout': 120}}
RULE = ('a case is a model (harness model with any scheme, or a generated finite-difference model), 1-3 ensemble '
        'forecasts (0-12 members, 1-9 workers, random window, saved times and containers, parallel on or off) and '
        'a seeded worker schedule (durations, stragglers, which worker takes which task); non-trivial when at '
        'least one forecast has two or more members; distinct by event-log and schedule digest')
REAL = ['sympkf.model.model (Model, ensemble_forecast, parallel runner)', 'pickling of models, tasks and results',
        'forked worker processes (memory isolation)', 'generated finite-difference models']
STUB = ['multiprocessing.Pool / concurrent.futures executors: task queue, worker scheduling, clock']
ASSUMPTIONS = ['simulated pools follow CPython 3.12 semantics', 'trends are pure functions of time and state',
               'states compared with relative tolerance 1e-10 to an independent integrator']


def gen_case(rng, tier, k):
    from checks.gencase import gen_flavour, window_saved
    scheme = rng.choice(['rk4', 'rk4', 'rk2', 'euler', 'leapfrog', 'splitting'])
    gen = rng.random() < 0.12
    case = {'env': {'hashseed': rng.randrange(4), 'cache': 'default'}, 'scheme': 'rk4' if gen else scheme,
            'mseed': rng.randrange(10 ** 6), 'gen': gen,
            'shape': rng.choice([[3], [5], [2, 3], [1, 4], [2, 2, 2]]), 'ops': [],
            'straggler': rng.choice([0.0, 0.1, 0.3, 0.6]), 'flavour': gen_flavour(rng), 'dt': rng.choice([None, 0.25])}
    if gen:
        case['shape'] = [1, rng.choice([4, 6, 9])]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        w, s = window_saved(rng, 8, 0.1, 0.1)
        case['ops'].append({'window': w, 'saved': s, 'n': rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12]),
                            'nb_pool': rng.choice([1, 2, 3, 4, 5, 8, 9, None]), 'parallel': rng.random() < 0.8,
                            'container': rng.choice(['list', 'list', 'tuple', 'gen', 'array', 'tmp']),
                            'same': rng.random() < 0.12,
                            'wkind': rng.choice(['array', 'list', 'tuple'])})
    return case


def run_case(case, ctx):
    import numpy as np
    from checks import models as M
    shape, scheme = tuple(case['shape']), case['scheme']
    ctx.pool_cfg = {'straggler': case['straggler']}
    if case['gen']:
        model, ref = generated(case, ctx)
    else:
        kind = case['flavour']['f']
        model = M.SimModel(case['mseed'], shape, scheme, kind=kind)
        ref = M.ref_trend(case['mseed'], shape, scheme, kind)
    if case['dt']:
        model.set_dt(case['dt'])
    ctx.nontrivial = any(op['n'] >= 2 for op in case['ops'])
    for no, op in enumerate(case['ops']):
        w = {'array': np.array, 'list': list, 'tuple': tuple}[op['wkind']](op['window'])
        saved, times = M.build_saved(op['saved'], op['window'])
        states = [M.make_state(case['mseed'] + 13 * no, shape, i // 2 if op['same'] else i, scheme)
                  for i in range(op['n'])]
        if not case['gen']:
            states = [M.hold(u, case['flavour']['s']) for u in states]
        if op['same']:                   # the same object appears several times
            states = [states[i - i % 2] for i in range(len(states))]
        before = [M.snap(u) for u in states]
        arg = states
        if op['container'] == 'tuple':
            arg = tuple(states)
        elif op['container'] == 'gen':
            arg = (u for u in states)
        elif op['container'] == 'tmp':   # states that live only while they are used
            arg = (M.snap(u) for u in states)
        elif op['container'] == 'array' and scheme != 'leapfrog' and states:
            arg = np.array(states)
        kw = {'parallel': op['parallel']}
        if op['nb_pool'] is not None:
            kw['nb_pool'] = op['nb_pool']
        ctx.count('ops.parallel' if op['parallel'] else 'ops.serial')
        out = ctx.must('raised', f'ensemble_forecast #{no}', model.ensemble_forecast, w, arg, saved, **kw)
        ctx.check(isinstance(out, dict), 'type', f'result is {type(out).__name__}')
        keys = {float(t) for t in out}
        ctx.check(keys == set(times), 'times', lambda: f'op {no}: times {sorted(keys)} instead of {sorted(set(times))}')
        want = [M.ref_forecast(scheme, ref, op['window'], u) for u in before]
        for t in set(times):
            got = out[t]
            ctx.check(len(got) == op['n'], 'count', lambda: f'op {no}, time {t}: {len(got)} states for {op["n"]} members')
            for i in range(op['n']):
                ctx.check(M.close(got[i], want[i][t]), 'member',
                          lambda: f'op {no}, time {t}, member {i}: {np.ravel(got[i])[:4]} instead of '
                                  f'{np.ravel(want[i][t])[:4]} ' + attribution(M, got[i], [x[t] for x in want]))
                ctx.log('state', no, t, i, np.asarray(got[i], dtype=float).tobytes().hex()[:64])
        for i, (a, b) in enumerate(zip(states, before)):
            ctx.check(M.close(a, b, 0), 'caller-state', f'op {no}: the caller\'s state {i} was modified')
        if not case['gen']:
            ctx.check(M.intact(model, case['mseed'], shape, scheme, kind), 'model-changed', 'parameters changed')
        ctx.check(not case['dt'] or model.dt == case['dt'], 'model-changed', 'the time step of the model changed')
        alive = ctx.world.alive() if ctx.world else []
        ctx.check(not alive, 'leak', f'{len(alive)} workers outlive the call')
        # the model still integrates a single state as before
        u0 = M.make_state(case['mseed'] + 991, shape, 3, scheme)
        one = ctx.must('raised', 'forecast after the ensemble', model.forecast, w, u0)
        r1 = M.ref_forecast(scheme, ref, op['window'], u0)
        ctx.check(M.close(one[op['window'][-1]], r1[op['window'][-1]]), 'model-changed',
                  'a single forecast differs after the ensemble forecast')


def attribution(M, got, wants):
    for j, w in enumerate(wants):
        if M.close(got, w):
            return f'(this is member {j})'
    return ''


def generated(case, ctx):
    """A Burgers-like generated model; its trend is the reference here."""
    import sys
    from sympy import symbols, Function, Derivative
    from sympkf import FDModelBuilder, PDESystem, Eq, t
    from checks import models as M
    if 'simgen_burgers' in sys.modules:
        return instance(sys.modules['simgen_burgers'], case)
    x, kap = symbols('x kappa')
    u = Function('u')(t, x)
    code = FDModelBuilder(PDESystem(Eq(Derivative(u, t), -u * Derivative(u, x) + kap * Derivative(u, x, 2))),
                          class_name='SimBurgers').code
    return instance(M.gen_module(code, 'simgen_burgers'), case)


def instance(mod, case):
    model = mod.SimBurgers(shape=(case['shape'][1],), kappa=0.01)
    n = case['shape'][1]
    import numpy as np

    def f(tt, s):
        v = s[0]
        dx = 1.0 / n
        return np.array([-v * (np.roll(v, -1) - np.roll(v, 1)) / (2 * dx)
                         + 0.01 * (np.roll(v, -1) - 2 * v + np.roll(v, 1)) / dx ** 2])
    return model, f


def shrink(case):
    import copy
    if len(case['ops']) > 1:
        for i in range(len(case['ops'])):
            c = copy.deepcopy(case)
            del c['ops'][i]
            yield c
    for i, op in enumerate(case['ops']):
        for key, vals in (('n', [1, 2, 3, op['n'] - 1]), ('nb_pool', [1, 2]), ('container', ['list']),
                          ('wkind', ['list'])):
            for v in vals:
                if op[key] != v and (key not in ('n',) or 0 <= v < op[key]) and (key != 'nb_pool' or v < (op[key] or 99)):
                    c = copy.deepcopy(case)
                    c['ops'][i][key] = v
                    yield c
        if len(op['window']) > 2:
            c = copy.deepcopy(case)
            c['ops'][i]['window'] = op['window'][:2]
            c['ops'][i]['saved'] = {'kind': 'none'}
            yield c
        if op['saved']['kind'] != 'none':
            c = copy.deepcopy(case)
            c['ops'][i]['saved'] = {'kind': 'none'}
            yield c
    if case.get('gen') is False and case['scheme'] != 'euler':
        yield dict(case, scheme='euler')
    if case['flavour'] != {'f': 'smooth', 's': 'plain'}:
        yield dict(case, flavour={'f': 'smooth', 's': 'plain'})
        yield dict(case, flavour=dict(case['flavour'], f='smooth'))
        yield dict(case, flavour=dict(case['flavour'], s='plain'))
    if case.get('straggler'):
        yield dict(case, straggler=0.0)
    if case['env'].get('hashseed'):
        yield dict(case, env=dict(case['env'], hashseed=0))
