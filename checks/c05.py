"""C05: a failed or interrupted integration leaves the model reusable."""
import copy

TIERS = {'quick': {'runs': 700, 'wall': 240, 'timeout': 90}, 'thorough': {'runs': 10000, 'wall': 3000, 'timeout': 120}}
RULE = ('a case is a history of 2-7 operations on one model (forecast, predict, serial ensemble, tangent-linear '
        'forecast, scheme selection with valid and invalid names), some hit by a fault: the trend (or a part of a time splitting) raises at a chosen '
        'evaluation, or an interrupt, memory or recursion error strikes at a chosen source line; each fault is followed '
        'by the same operation without fault; non-trivial when a fault fired or a name was rejected; distinct by '
        'event-log and schedule digest')
REAL = ['sympkf.model.model', 'generated finite-difference models']
STUB = ['process pool used by tangent-linear forecasts (scheduling only; workers are forked)']
ASSUMPTIONS = ['faults are delivered at source-line granularity of sympkf and generated code']


def gen_case(rng, tier, k):
    from checks.gencase import gen_flavour, window_saved
    case = {'env': {'hashseed': rng.randrange(4), 'cache': 'default'}, 'mseed': rng.randrange(10 ** 6),
            'model': rng.choice(['sim', 'sim', 'gen', 'identity']), 'scheme': rng.choice(['rk4', 'rk2', 'euler', 'leapfrog']),
            'shape': rng.choice([[3], [2, 3]]), 'ops': [], 'straggler': 0.2,
            'flavour': gen_flavour(rng, True), 'dt': rng.choice([None, 0.5, 0.03125])}
    if case['model'] == 'gen':
        case['shape'] = [1, rng.choice([4, 7])]
    for _ in range(rng.choice([2, 3, 4, 5, 7])):
        r = rng.random()
        w, s = window_saved(rng, 5, 0.1)
        if r < 0.2:
            case['ops'].append({'op': 'scheme', 'name': rng.choice(['rk4', 'rk2', 'euler', 'leapfrog'])})
        elif r < 0.4:
            case['ops'].append({'op': 'badscheme', 'name': rng.choice(['RK4', 'heun', '', 'rk5', ' euler', 'leap', 'rk', None, 4])})
        else:
            op = {'op': rng.choice(['forecast', 'forecast', 'predict', 'ens', 'tl']), 'window': w, 'saved': s,
                  'fault': None, 'n': rng.choice([1, 2, 3]), 'tag': rng.randrange(50)}
            q = rng.random()
            if q < 0.4:
                op['fault'] = {'trend': rng.random(), 'exc': rng.choice(['member', 'value', 'arith', 'memory', 'kbd', 'stop'])}
            elif q < 0.85:
                op['fault'] = {'ff': rng.random(), 'of': rng.random(), 'kind': rng.choice(['interrupt', 'memory', 'recursion'])}
            case['ops'].append(op)
    if case['model'] == 'sim' and rng.random() < 0.3:
        # a time splitting: its parts are what may fail
        case['scheme'] = 'splitting'
        case['ops'] = [o for o in case['ops'] if o['op'] != 'scheme']
    return case


def run_case(case, ctx):
    import numpy as np
    from checks import models as M
    from checks import c01
    from sim.core import resolve_faults
    from sympkf.model import IdentityModel
    shape = tuple(case['shape'])
    ctx.pool_cfg = {'straggler': case['straggler']}
    scheme = case['scheme']
    count = {'n': 0, 'at': None, 'exc': None}

    kind = case['flavour']['f']

    def build():
        if case['model'] == 'sim':
            m = M.SimModel(case['mseed'], shape, scheme, kind=kind)
        elif case['model'] == 'identity':
            m = IdentityModel(time_scheme=scheme)
        else:
            m = c01.generated(case, ctx)[0]
            m.set_time_scheme(scheme)
        if case['dt']:
            m.set_dt(case['dt'])

        def fail():
            ctx.count('fault.trend_raises')
            ctx.sched_log('fault', 'trend', count['n'], count['exc'])
            raise M.make_exc(count['exc'])
        if case['scheme'] == 'splitting':
            for piece in m.pieces:
                k = 'update' if 'update' in piece else 'trend'
                piece[k] = M.Counted(piece[k], count, fail)
            return m, None
        inner = m.trend

        def trend(t, s):
            count['n'] += 1
            if count['at'] is not None and count['n'] == count['at']:
                fail()
            return inner(t, s)
        return m, trend
    if case['model'] == 'gen':
        ref = c01.generated(case, ctx)[1]
    elif case['model'] == 'identity':
        ref = lambda t, s: np.zeros(np.shape(s))  # noqa
    else:
        ref = M.ref_trend(case['mseed'], shape, scheme, kind)
    model, trend = build()
    parts = list(model.trend) if scheme == 'splitting' else None
    concrete = copy.deepcopy(case['ops'])
    hit = 0

    def call(m, op, u, tr):
        saved, _ = M.build_saved(op['saved'], op['window'])
        w = np.array(op['window'])
        if tr is not None:
            m.trend = tr            # instance attribute, as a user would inject a failing trend
        try:
            if op['op'] == 'forecast':
                return m.forecast(w, u, saved)
            if op['op'] == 'predict':
                return m.predict(w, u, saved)
            if op['op'] == 'ens':
                return m.ensemble_forecast(w, [u] * op['n'], saved, parallel=False)
            return m.forecast_tl(w, u, [0.5 + 0 * u] * op['n'], saved, h=0.01)
        finally:
            if tr is not None:
                del m.trend

    def verify(op, out, u, sch, what):
        _, times = M.build_saved(op['saved'], op['window'])
        want = M.ref_forecast(sch, ref, op['window'], u, times)
        if op['op'] == 'predict':
            ts = [t for t in op['window'] if t in times]
            ctx.check(len(out) == len(ts), 'count', lambda: f'{what}: {len(out)} states')
            pairs = list(zip(out, [want[t] for t in ts]))
        elif op['op'] == 'ens':
            ctx.check(set(out) == set(times), 'times', what)
            ctx.check(all(len(out[t]) == op['n'] for t in times), 'count', what)
            pairs = [(x, want[t]) for t in times for x in out[t]]
        elif op['op'] == 'tl':
            w2 = M.ref_forecast(sch, ref, op['window'], u + 0.01 * (0.5 + 0 * u), times)
            pairs = [(out[0][t], want[t]) for t in times]
            pairs += [(x, (w2[t] - want[t]) / 0.01) for t in set(times) for x in out[1][t]]
        else:
            ctx.check(set(out) == set(times), 'times', what)
            pairs = [(out[t], want[t]) for t in times]
        for a, b in pairs:
            ctx.check(M.close(a, b, 1e-9), 'result', lambda: f'{what} [{sch}]: {np.ravel(a)[:3]} instead of {np.ravel(b)[:3]}')

    def same(what):
        """Time step, windows and parameters of the model are as they were."""
        if case['dt']:
            ctx.check(model.dt == case['dt'], 'model-changed', lambda: f'{what}: the time step is {model.dt} instead of {case["dt"]}')
            ctx.check(M.close(model.window(1.0), np.arange(0., 1.0 + case['dt'] / 3, case['dt']), 0), 'model-changed',
                      lambda: f'{what}: window(1) is {model.window(1.0)}')
        elif case['model'] == 'identity':
            ctx.check(model.dt == 1.0, 'model-changed', lambda: f'{what}: the time step is {model.dt}')
        if parts:
            ctx.check(len(model.trend) == len(parts) and all(a is b for a, b in zip(model.trend, parts)), 'model-changed',
                      lambda: f'{what}: the parts of the time splitting are not those given, in the order given')
        if case['model'] == 'sim':
            ctx.check(M.intact(model, case['mseed'], shape, 'splitting' if parts else 'rk4', kind), 'model-changed', lambda: f'{what}: parameters changed')

    for no, op in enumerate(case['ops']):
        if op['op'] == 'scheme':
            ctx.must('scheme', f'set_time_scheme({op["name"]})', model.set_time_scheme, op['name'])
            scheme = op['name']
            continue
        if op['op'] == 'badscheme':
            st, v = ctx.call(model.set_time_scheme, op['name'])
            ctx.check(st == 'exc', 'accepted', lambda: f'time scheme {op["name"]!r} was accepted')
            st, v = ctx.call(IdentityModel, time_scheme=op['name'])
            ctx.check(st == 'exc', 'accepted', lambda: f'time scheme {op["name"]!r} was accepted by the constructor')
            hit += 1
            ctx.count('fault.rejected_scheme')
            continue
        if op['op'] == 'tl' and scheme == 'leapfrog':
            op = dict(op, op='forecast')
        u = M.make_state(case['mseed'] + op['tag'], shape, 2, scheme)
        if case['model'] != 'gen':
            u = M.hold(u, case['flavour']['s'])
        u0 = M.snap(u)
        f = op['fault']
        if f is not None and 'trend' in f:
            if op['op'] == 'tl':
                op = dict(op, op='ens')
            if 'at' not in f:
                m2, t2 = build()
                m2.set_time_scheme(scheme)
                count.update(n=0, at=None)
                call(m2, op, u, t2)
                if count['n'] == 0:
                    f = None
                else:
                    f = dict(f, at=1 + int(f['trend'] * count['n']) % count['n'])
            concrete[no]['fault'] = f
        elif f is not None and 'func' not in f:
            m2, t2 = build()
            m2.set_time_scheme(scheme)
            ctx.profile()
            call(m2, op, u, None)
            rf = resolve_faults(ctx.end_profile(), [f])
            f = rf[0] if rf else None
            concrete[no]['fault'] = f
        if f is not None:
            if 'trend' in f:
                count.update(n=0, at=f['at'], exc=f['exc'])
                st, v = ctx.call(call, model, op, u, trend)
                count.update(at=None)
                ctx.check(st == 'exc', 'swallowed', lambda: f'op {no}: the trend raised and {op["op"]} returned')
                hit += 1
            else:
                ctx.fired_with_workers = False
                ctx.arm([f])
                st, v = ctx.call(call, model, op, u, None)
                left = ctx.disarm()
                hit += 1 - left
                if ctx.world and ctx.world.alive():
                    ctx.world.end()
                if left == 0:
                    ctx.check(st == 'exc', 'swallowed', lambda: f'op {no}: {f} was swallowed by {op["op"]}')
            ctx.log('faulted', no, st, type(v).__name__)
            ctx.check(M.close(u, u0, 0), 'caller-state', f'op {no}: the initial state was modified by a failed integration')
            same(f'op {no}, failed {op["op"]}')
        out = ctx.must('retry', f'op {no} {op["op"]} [{scheme}] after the fault', call, model, op, u, None)
        verify(op, out, u0, scheme, f'op {no} {op["op"]}')
        ctx.check(M.close(u, u0, 0), 'caller-state', f'op {no}: the initial state was modified')
        same(f'op {no} {op["op"]}')
        ctx.log('verified', no, op['op'])
    # the scheme in force at the end
    u = M.make_state(case['mseed'], shape, 2, scheme)
    op = {'op': 'forecast', 'window': [0.0, 0.125, 0.25], 'saved': {'kind': 'none'}}
    verify(op, ctx.must('retry', 'final forecast', call, model, op, u, None), M.snap(u), scheme, 'final forecast')
    ctx.nontrivial = hit > 0
    ctx.concrete = {'ops': concrete}


def shrink(case):
    for i in range(len(case['ops'])):
        c = copy.deepcopy(case)
        del c['ops'][i]
        yield c
    for i, op in enumerate(case['ops']):
        if op.get('fault'):
            c = copy.deepcopy(case)
            c['ops'][i]['fault'] = None
            yield c
        if len(op.get('window', [])) > 2:
            c = copy.deepcopy(case)
            c['ops'][i]['window'] = op['window'][:2]
            c['ops'][i]['saved'] = {'kind': 'none'}
            yield c
    if case['model'] != 'sim':
        yield dict(case, model='sim')
    if case['flavour'] != {'f': 'smooth', 's': 'plain'}:
        yield dict(case, flavour={'f': 'smooth', 's': 'plain'})
    if case['scheme'] not in ('euler', 'splitting'):
        yield dict(case, scheme='euler')
