"""C03: tangent-linear forecasts and propagator matrices."""
import copy

TIERS = {'quick': {'runs': 700, 'wall': 240, 'timeout': 90}, 'thorough': {'runs': 9000, 'wall': 3000, 'timeout': 120}}
RULE = ('a case is 1-3 operations on one model: a tangent-linear forecast (0-8 perturbations, random step size, window '
        'and saved times) or a propagator matrix of a random time-dependent linear model applied to random states, '
        'under a seeded worker schedule; non-trivial when a perturbation or a matrix of size two or more is involved; '
        'distinct by event-log and schedule digest')
REAL = ['sympkf.model.model (forecast_tl, LinearModel.make_M, ensemble_forecast)', 'pickling', 'forked worker processes']
STUB = ['multiprocessing.Pool / concurrent.futures executors: task queue, worker scheduling, clock']
ASSUMPTIONS = ['finite differences compared with tolerance 1e-10 / h', 'propagators compared to 1e-9 relative']


def gen_case(rng, tier, k):
    from checks.gencase import window_saved
    case = {'env': {'hashseed': rng.randrange(4), 'cache': 'default'}, 'mseed': rng.randrange(10 ** 6),
            'scheme': rng.choice(['rk4', 'rk2', 'euler', 'splitting']), 'shape': rng.choice([[2], [4], [2, 3]]),
            'straggler': rng.choice([0.0, 0.3, 0.6]), 'ops': [], 'one': rng.random() < 0.6,
            'ln': rng.choice([1, 2, 3, 5, 9]), 'ltrend': rng.choice(['product', 'product', 'like state']), 'lscheme': rng.choice(['rk4', 'euler', 'rk2'])}
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        w, s = window_saved(rng, 6, 0.1)
        if rng.random() < 0.6:
            case['ops'].append({'op': 'tl', 'window': w, 'saved': s, 'n': rng.choice([0, 1, 2, 3, 5, 8]),
                                'h': rng.choice([None, 1e-4, 1e-3, 1e-2, 1e-6, 0.5, 0.125, -1e-2, 1, 3.0]),
                                'pert': [rng.choice(['rand', 'rand', 'rand', 'zero', 'again', 'int', 'unit']) for _ in range(8)],
                                'container': rng.choice(['list', 'gen', 'tuple', 'array'])})
        else:
            last = [o for o in case['ops'] if o['op'] == 'M']
            if last and rng.random() < 0.6:      # the same bounds, cut otherwise
                o = last[-1]['window']
                k = rng.choice([2, 3, 5, len(o)])
                w = [o[0] + (o[-1] - o[0]) * i / (k - 1) for i in range(k)] if len(o) > 1 and k > 1 else list(o)
                w[-1] = o[-1]
            one = case['one']
            case['ops'].append({'op': 'M', 'window': w, 'n': case['ln'] if one else rng.choice([1, 2, 3, 5, 9]),
                                'scheme': case['lscheme'] if one else rng.choice(['rk4', 'euler', 'rk2']),
                                'change': rng.random() < 0.25})
    return case


def linear_model():
    import numpy as np
    from checks import models as M

    class Lin(M.LinearModel):
        def __init__(self, seed, n, scheme, how='product'):
            super().__init__(time_scheme=scheme)
            self.how = how
            r = np.random.RandomState(seed)
            self.n = n
            self.A = r.uniform(-1, 1, (n, n))
            self.B = r.uniform(-1, 1, (n, n))

        def trend(self, t, state):
            out = (self.A + np.sin(t) * self.B) @ state
            if self.how == 'like state':        # the trend is computed in an array of the kind of the state
                work = np.zeros_like(state)
                work[...] = out
                return work
            return out
    Lin.__qualname__ = 'Lin'
    Lin.__module__ = M.__name__
    M.Lin = Lin
    return Lin


def run_case(case, ctx):
    import numpy as np
    from checks import models as M
    shape, scheme = tuple(case['shape']), case['scheme']
    ctx.pool_cfg = {'straggler': case['straggler']}
    model = M.SimModel(case['mseed'], shape, scheme)
    ref = M.ref_trend(case['mseed'], shape, scheme)
    Lin = linear_model()
    lin = None
    ctx.nontrivial = any(op['n'] >= 2 for op in case['ops'])
    for no, op in enumerate(case['ops']):
        w = np.array(op['window'])
        r = np.random.RandomState(case['mseed'] % 100000 + no)
        if op['op'] == 'tl':
            saved, times = M.build_saved(op['saved'], op['window'])
            u = M.make_state(case['mseed'] + no, shape, 2, scheme)
            u0 = u.copy()
            P = []
            for k in op['pert'][:op['n']]:
                p = r.uniform(-1, 1, shape)
                if k == 'zero':
                    p = np.zeros(shape)
                elif k == 'again' and P:
                    p = P[-1]
                elif k == 'int':
                    p = np.round(3 * p).astype(int)
                elif k == 'unit':
                    p = np.zeros(shape)
                    p.flat[len(P) % p.size] = 1
                P.append(p)
            P0 = [p.copy() for p in P]
            arg = {'list': P, 'tuple': tuple(P), 'gen': (p for p in P),
                   'array': np.array(P) if P else P}[op['container']]
            kw = {} if op['h'] is None else {'h': op['h']}
            h = op['h'] or 1e-4
            out = ctx.must('raised', 'forecast_tl', model.forecast_tl, w, u, arg, saved, **kw)
            ctx.check(isinstance(out, tuple) and len(out) == 2, 'type', 'forecast_tl does not return a pair')
            traj, tl = out
            want = M.ref_forecast(scheme, ref, op['window'], u0)
            ctx.check({float(t) for t in traj} == set(times), 'times', lambda: f'reference at {list(traj)}')
            ctx.check({float(t) for t in tl} == set(times), 'times', lambda: f'tangent-linear at {list(tl)}')
            wants = [M.ref_forecast(scheme, ref, op['window'], u0 + h * p) for p in P0]
            for t in set(times):
                ctx.check(M.close(traj[t], want[t]), 'reference', lambda: f'reference trajectory at {t}')
                ctx.check(len(tl[t]) == len(P0), 'count', lambda: f'{len(tl[t])} for {len(P0)} perturbations')
                for i in range(len(P0)):
                    d = (wants[i][t] - want[t]) / h
                    ctx.check(M.close(tl[t][i], d, 1e-10 / min(1, abs(h))), 'tangent',
                              lambda: f'time {t} perturbation {i}: {np.ravel(tl[t][i])[:3]} instead of {np.ravel(d)[:3]}')
                    ctx.log('tl', no, t, i, np.asarray(tl[t][i], dtype=float).tobytes().hex()[:48])
            ctx.check(M.close(u, u0, 0), 'caller-state', 'the reference state was modified')
            for p, p0 in zip(P, P0):
                ctx.check(M.close(p, p0, 0), 'caller-state', 'a perturbation was modified')
        else:
            if not case['one']:
                lm = Lin(case['mseed'] + no, op['n'], op['scheme'], case.get('ltrend', 'product'))
            elif lin is None:
                lm = lin = Lin(case['mseed'], op['n'], op['scheme'], case.get('ltrend', 'product'))
            else:
                lm = lin                     # the same model as before, maybe with other coefficients
                if op['change']:
                    lm.B = lm.B * 0.5
            mat = ctx.must('raised', 'make_M', lm.make_M, w)
            mat = np.asarray(mat)
            ctx.check(mat.shape == (op['n'], op['n']), 'shape', lambda: f'propagator of shape {mat.shape}')
            for j in range(3):
                x0 = r.uniform(-1, 1, op['n'])
                want = M.ref_forecast(op['scheme'], lm.trend, op['window'], x0)[op['window'][-1]]
                ctx.check(M.close(mat @ x0, want, 1e-9), 'propagator',
                          lambda: f'M@x0 = {(mat @ x0)[:4]} instead of {np.asarray(want)[:4]}')
                f = ctx.must('raised', 'forecast', lm.forecast, w, x0)[op['window'][-1]]
                ctx.check(M.close(f, want, 1e-9), 'propagator', 'forecast of the linear model')
            ctx.log('M', no, mat.tobytes().hex()[:64])
        ctx.check(not (ctx.world and ctx.world.alive()), 'leak', 'workers outlive the call')


def shrink(case):
    for i in range(len(case['ops'])):
        if len(case['ops']) > 1:
            c = copy.deepcopy(case)
            del c['ops'][i]
            yield c
    for i, op in enumerate(case['ops']):
        for n in (1, 2, op['n'] - 1):
            if 0 < n < op['n'] and (op['op'] == 'tl' or not case['one']):
                c = copy.deepcopy(case)
                c['ops'][i]['n'] = n
                yield c
        if len(op['window']) > 2:
            c = copy.deepcopy(case)
            c['ops'][i]['window'] = op['window'][:2]
            if 'saved' in op:
                c['ops'][i]['saved'] = {'kind': 'none'}
            yield c
        if op.get('container', 'list') != 'list':
            c = copy.deepcopy(case)
            c['ops'][i]['container'] = 'list'
            yield c
        if op.get('saved', {}).get('kind', 'none') != 'none':
            c = copy.deepcopy(case)
            c['ops'][i]['saved'] = {'kind': 'none'}
            yield c
    if case['scheme'] != 'euler':
        yield dict(case, scheme='euler')
    if case['straggler']:
        yield dict(case, straggler=0.0)
