"""C02: faults during an ensemble forecast are reported; no hang, no loss."""
import copy

TIERS = {'quick': {'runs': 700, 'wall': 240, 'timeout': 90}, 'thorough': {'runs': 9000, 'wall': 3000, 'timeout': 120}}
RULE = ('a case is an ensemble forecast under 1-3 faults (members that raise ten kinds of exception at a chosen time, '
        'workers killed while they run a chosen task, failed forks, user interrupts after a chosen pool event or at a '
        'chosen source line of the caller), followed by a fault-free forecast on the same model; non-trivial when a '
        'fault actually fired; distinct by event-log and schedule digest')
REAL = ['sympkf.model.model (Model, ensemble_forecast, parallel runner)', 'pickling of tasks, results and exceptions',
        'forked worker processes']
STUB = ['multiprocessing.Pool / concurrent.futures executors: task queue, worker scheduling, death detection, clock']
ASSUMPTIONS = ['simulated pools follow CPython 3.12: a Pool never reports a dead worker, an executor becomes broken',
               'an interrupt inside the pool library itself is delivered only between pool events']
EXC = ['member', 'value', 'arith', 'badunpickle', 'nopickle', 'key', 'stop', 'assert', 'memory', 'os', 'kbd', 'exit']


def gen_case(rng, tier, k):
    from checks.gencase import window_saved
    w, s = window_saved(rng, 5, 0.0, 0.1)
    n = rng.choice([1, 2, 3, 4, 6, 9])
    case = {'env': {'hashseed': rng.randrange(4), 'cache': 'default'}, 'scheme': rng.choice(['rk4', 'euler', 'rk2']),
            'mseed': rng.randrange(10 ** 6), 'shape': rng.choice([[3], [2, 3]]), 'window': w, 'saved': s, 'n': n,
            'nb_pool': rng.choice([1, 2, 3, 4, 8]), 'parallel': rng.random() < 0.9,
            'straggler': rng.choice([0.0, 0.3, 0.6]), 'faults': [], 'bad': {}, 'line': None, 'rounds': 1}
    kinds = rng.sample(['member', 'kill', 'spawn', 'kbd', 'line'], rng.choice([1, 1, 1, 2]))
    if not case['parallel']:
        kinds = rng.choice([['member'], ['line']])
    for kind in kinds:
        if kind == 'member':
            for i in rng.sample(range(n), rng.choice([1, 1, min(2, n), n])):
                case['bad'][str(i)] = {'t': rng.choice(w), 'exc': rng.choice(EXC)}
        elif kind == 'kill':
            for _ in range(rng.choice([1, 1, 2])):
                case['faults'].append({'kind': 'kill', 'task': rng.randrange(n)})
        elif kind == 'spawn':
            case['faults'].append({'kind': 'spawn_fail', 'nth': rng.randrange(case['nb_pool'])})
        elif kind == 'kbd':
            case['faults'].append({'kind': 'kbd', 'at': 1 + rng.randrange(n)})
        else:
            case['line'] = {'ff': rng.random(), 'of': rng.random(), 'kind': rng.choice(['interrupt', 'memory'])}
    case['rounds'] = rng.choice([1, 1, 2])
    return case


def run_case(case, ctx):
    import numpy as np
    from checks import models as M
    from sim.core import resolve_faults
    shape, scheme, n = tuple(case['shape']), case['scheme'], case['n']
    ctx.pool_cfg = {'straggler': case['straggler'], 'faults': []}
    model = M.SimModel(case['mseed'], shape, scheme)
    ref = M.ref_trend(case['mseed'], shape, scheme)
    w = np.array(case['window'])
    saved, times = M.build_saved(case['saved'], case['window'])
    states = [M.make_state(case['mseed'], shape, i, scheme) for i in range(n)]
    want = [M.ref_forecast(scheme, ref, case['window'], u) for u in states]
    line = []
    if case['line']:
        if 'func' in case['line']:
            line = [case['line']]
        else:
            m0 = M.SimModel(case['mseed'], shape, scheme)
            ctx.profile()
            m0.ensemble_forecast(w, states, saved, parallel=case['parallel'], nb_pool=case['nb_pool'])
            line = resolve_faults(ctx.end_profile(), [case['line']])
            ctx.concrete = {'line': line[0]} if line else {}
            if ctx.world:
                ctx.world.end()
            ctx.world = None

    def verify(out, what):
        keys = {float(t) for t in out}
        ctx.check(keys == set(times), 'times', lambda: f'{what}: times {sorted(keys)} instead of {sorted(set(times))}')
        for t in set(times):
            ctx.check(len(out[t]) == n, 'incomplete', lambda: f'{what}: {len(out[t])} states for {n} members at time {t}')
            for i in range(n):
                ctx.check(M.close(out[t][i], want[i][t]), 'wrong-state', lambda: f'{what}: member {i} at time {t}')

    fired = False
    for rnd in range(case['rounds']):
        from sim import pool
        ctx.world = pool.World(ctx, {'straggler': case['straggler'], 'faults': case['faults']})
        before = dict(ctx.stats)
        model.bad = {k: v for k, v in case['bad'].items()}
        ctx.fired_with_workers = False
        ctx.arm(line)
        st, v = ctx.call(model.ensemble_forecast, w, states, saved, parallel=case['parallel'], nb_pool=case['nb_pool'])
        unfired = ctx.disarm()
        model.bad = {}
        ctx.log('outcome', rnd, st, type(v).__name__)
        nf = sum(x for k, x in ctx.stats.items() if k.startswith('fault.')) \
            - sum(x for k, x in before.items() if k.startswith('fault.'))
        # a member that raises within the integrated window must be reported
        raises = len(case['window']) > 1 and any(b['t'] <= case['window'][-2] for b in case['bad'].values())
        if raises:
            ctx.count('fault.member_raises')
        fired = fired or nf > 0 or raises
        ctx.world_alive = ctx.world.alive()
        if ctx.fired_with_workers:
            # no Python code can protect its clean-up against an interrupt that
            # lands inside the clean-up itself: leaks are not judged then
            ctx.count('interrupt.with_live_workers')
            ctx.world.end()
            ctx.world_alive = []
        ctx.check(not ctx.world_alive, 'leak', lambda: f'{len(ctx.world_alive)} worker processes outlive the call')
        import multiprocessing
        ctx.check(not multiprocessing.active_children(), 'leak', 'child processes outlive the call')
        if st == 'ok':
            ctx.count('outcome.returned')
            ctx.check(not raises, 'swallowed', lambda: f'a member raised and the call returned {list(v)}')
            ctx.check('fault.kbd' not in ctx.stats or nf == 0 or ctx.stats.get('fault.kbd', 0) == before.get('fault.kbd', 0),
                      'swallowed', 'the user interrupt was swallowed')
            verify(v, 'faulty forecast')
        else:
            ctx.count('outcome.raised')
            ctx.check(nf > 0 or case['bad'], 'spurious', lambda: f'no fault fired, yet {type(v).__name__}: {str(v)[:200]}')
        # once the faults stop, the same model serves at once
        ctx.world = pool.World(ctx, {'straggler': case['straggler'], 'faults': []})
        out = ctx.must('retry', 'the next forecast on the same model', model.ensemble_forecast, w, states, saved,
                       parallel=case['parallel'], nb_pool=case['nb_pool'])
        verify(out, 'next forecast')
        ctx.check(not ctx.world.alive(), 'leak', 'workers outlive the fault-free call')
    ctx.nontrivial = fired


def shrink(case):
    for i in range(len(case['faults'])):
        c = copy.deepcopy(case)
        del c['faults'][i]
        yield c
    for k in case['bad']:
        c = copy.deepcopy(case)
        del c['bad'][k]
        yield c
    if case['line']:
        yield dict(case, line=None)
    if case['rounds'] > 1:
        yield dict(case, rounds=1)
    for n in (1, 2, 3, case['n'] - 1):
        if 0 < n < case['n']:
            c = copy.deepcopy(case)
            c['n'] = n
            c['bad'] = {k: v for k, v in c['bad'].items() if int(k) < n}
            c['faults'] = [f for f in c['faults'] if f.get('task', 0) < n]
            yield c
    for n in (1, 2):
        if n < case['nb_pool']:
            yield dict(case, nb_pool=n)
    if len(case['window']) > 2:
        c = copy.deepcopy(case)
        c['window'] = c['window'][:2]
        c['saved'] = {'kind': 'none'}
        yield c
    if case['saved']['kind'] != 'none':
        yield dict(case, saved={'kind': 'none'})
    if case['scheme'] != 'euler':
        yield dict(case, scheme='euler')
    if case['straggler']:
        yield dict(case, straggler=0.0)
    if case['env'].get('hashseed'):
        yield dict(case, env=dict(case['env'], hashseed=0))
