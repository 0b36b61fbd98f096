"""C04: crash anywhere, restart from the last saved state on a new model."""
import copy

TIERS = {'quick': {'runs': 1400, 'wall': 240, 'timeout': 90}, 'thorough': {'runs': 14000, 'wall': 3000, 'timeout': 120}}
RULE = ('a case is a window cut into segments integrated by forecast or predict with any scheme, 0-3 crashes placed at '
        'a source line of the running integration, each followed by a restart on a newly built model from the last '
        'durable saved state; non-trivial when a crash fired or three or more steps were made; distinct by event-log '
        'and schedule digest')
REAL = ['sympkf.model.model (Model.forecast, predict, all time schemes)', 'generated finite-difference models',
        'pickling of saved states']
STUB = ['durable storage of saved states: an in-memory byte store that only holds what was pickled before the crash']
ASSUMPTIONS = ['states are saved by the caller when a segment returns', 'relative tolerance 1e-10 to an independent integrator']


def gen_case(rng, tier, k):
    from checks.gencase import gen_flavour, gen_window
    w = gen_window(rng, 10, 0.1, 0.12)
    if len(w) < 3 and rng.random() < 0.7:
        w = gen_window(rng, 10, 0.1, 0.12)
    n = len(w)
    case = {'env': {'hashseed': rng.randrange(4), 'cache': 'default'}, 'mseed': rng.randrange(10 ** 6),
            'scheme': rng.choice(['rk4', 'rk2', 'euler', 'leapfrog', 'splitting']),
            'shape': rng.choice([[], [3], [5], [2, 3]]), 'window': w, 'segs': [], 'crashes': [],
            'flavour': gen_flavour(rng, True)}
    if case['shape'] == [] and case['scheme'] in ('leapfrog', 'splitting'):
        case['shape'] = [3]
    # another model of the same class, with its own scheme
    case['decoy'] = rng.choice([None, None, 'rk4', 'rk2', 'euler', 'leapfrog'])
    for _ in range(n + 4):
        case['segs'].append({'len': rng.choice([1, 1, 2, 3, n]), 'how': rng.choice(['forecast', 'forecast', 'predict']),
                             'saved': rng.choice(['none', 'list', 'array', 'last', 'float', 'tuple', 'np.float64']),
                             'pick': rng.random(), 'wkind': rng.choice(['array', 'list', 'tuple'])})
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        case['crashes'].append({'seg': rng.randrange(max(1, n - 1)), 'ff': rng.random(), 'of': rng.random()})
    return case


def run_case(case, ctx):
    import pickle
    import random
    import numpy as np
    from checks import models as M
    from sim.core import SimCrash, resolve_faults
    shape, scheme = tuple(case['shape']), case['scheme']
    W = case['window']
    kind = case['flavour']['f']
    ref = M.ref_trend(case['mseed'], shape, scheme, kind)
    u0 = M.hold(M.make_state(case['mseed'], shape, 4, scheme), case['flavour']['s'])
    if shape == ():
        u0 = np.float64(u0)
    want = M.ref_forecast(scheme, ref, W, M.snap(u0))

    def new():
        m = M.SimModel(case['mseed'], shape, scheme, kind=kind)
        if case.get('decoy'):
            M.SimModel(case['mseed'] + 1, shape, case['decoy'])
        return m
    # uninterrupted run, both forms
    full = ctx.must('raised', 'forecast', new().forecast, np.array(W), u0)
    arr = ctx.must('raised', 'predict', new().predict, np.array(W), u0)
    ctx.check([float(t) for t in full] == W, 'times', lambda: f'forecast saved {list(full)} for the window {W}')
    ctx.check(len(arr) == len(W), 'predict', lambda: f'predict gives {len(arr)} states for {len(W)} times')
    for i, t in enumerate(W):
        ctx.check(M.close(full[t], want[t]), 'scheme', lambda: f'{scheme} at time {t} (step {i}): '
                  f'{np.ravel(full[t])[:3]} instead of {np.ravel(want[t])[:3]}')
        ctx.check(M.close(arr[i], full[t], 1e-13), 'predict', lambda: f'predict and forecast differ at time {t}')
    held = [(t, full[t], M.snap(full[t])) for t in W]
    # crash and restart
    durable = {'i': 0, 'state': pickle.dumps(u0)}
    crashes = [dict(c) for c in case['crashes']]
    resolved = []
    model = new()
    nseg = ncrash = 0
    while durable['i'] < len(W) - 1:
        ctx.check(nseg < 3 * len(W) + 12, 'progress', 'no progress')
        i = durable['i']
        state = pickle.loads(durable['state'])
        sg = case['segs'][nseg % len(case['segs'])]
        nseg += 1
        j = min(len(W) - 1, i + sg['len'])
        seg = W[i:j + 1]
        win = {'array': np.array, 'list': list, 'tuple': tuple}[sg['wkind']](seg)
        k = 1 + int(sg['pick'] * (len(seg) - 1)) % (len(seg) - 1)
        spec = {'none': (None, list(range(len(seg)))), 'last': ([seg[-1]], [len(seg) - 1]),
                'float': (float(seg[k]), [k]), 'np.float64': (np.float64(seg[k]), [k]),
                'list': ([seg[0], seg[k]], [0, k]), 'tuple': ((seg[k],), [k]),
                'array': (np.array([seg[k], seg[-1]]), sorted({k, len(seg) - 1}))}[sg['saved']]
        saved, idx = spec
        crash = next((c for c in crashes if c['seg'] <= i), None)
        faults = []
        if crash:
            crashes.remove(crash)
            if 'func' in crash:
                faults = [dict(crash, kind='crash')]
            else:
                ctx.profile()
                getattr(new(), sg['how'])(win, pickle.loads(durable['state']), saved)
                faults = resolve_faults(ctx.end_profile(), [dict(crash, kind='crash')])
        ctx.arm(faults)
        try:
            out = getattr(model, sg['how'])(win, state, saved)
        except SimCrash:
            ncrash += 1
            ctx.dead = False
            ctx.disarm()
            resolved.append(dict(faults[0], seg=i))
            ctx.log('crash', i, faults[0]['func'])
            model = new()            # the process is gone: only `durable` survives
            continue
        ctx.disarm()
        if sg['how'] == 'forecast':
            ctx.check({float(t) for t in out} == {seg[q] for q in idx}, 'times',
                      lambda: f'segment {seg}: saved {list(out)} instead of {[seg[q] for q in idx]}')
            out = [out[seg[q]] for q in idx]
        ctx.check(len(out) == len(idx), 'count', lambda: f'{len(out)} states for {len(idx)} saved times')
        for q, st in zip(idx, out):
            t = seg[q]
            ctx.check(M.close(st, want[t]), 'restart', lambda: f'after {ncrash} crashes, state at {t}: '
                      f'{np.ravel(st)[:3]} instead of {np.ravel(want[t])[:3]}')
            held.append((t, st, M.snap(st)))
            ctx.log('state', t, np.asarray(st, dtype=float).tobytes().hex()[:48])
        durable = {'i': i + idx[-1], 'state': pickle.dumps(out[-1])}
        if len(crashes) and sg['pick'] < 0.3:
            model = new()
    for t, st, cp in held:
        ctx.check(M.close(st, cp, 0), 'mutated', lambda: f'the state recorded at {t} changed afterwards')
    ctx.check(M.intact(model, case['mseed'], shape, scheme, kind), 'model-changed', 'the parameters of the model changed')
    ctx.check(M.close(u0, want[W[0]], 0), 'caller-state', 'the initial state was modified')
    ctx.nontrivial = ncrash > 0 or len(W) > 3
    ctx.concrete = {'crashes': resolved}


def shrink(case):
    for i in range(len(case['crashes'])):
        c = copy.deepcopy(case)
        del c['crashes'][i]
        yield c
    for n in (1, 2, len(case['window']) - 1):
        if 0 < n < len(case['window']):
            yield dict(case, window=case['window'][:n])
    for i, s in enumerate(case['segs']):
        d = {'len': 1, 'how': 'forecast', 'saved': 'last', 'wkind': 'list', 'pick': 0.0}
        if s != d:
            c = copy.deepcopy(case)
            c['segs'][i] = d
            yield c
    if case.get('decoy'):
        yield dict(case, decoy=None)
    if case['scheme'] != 'euler':
        yield dict(case, scheme='euler')
    if case['flavour'] != {'f': 'smooth', 's': 'plain'}:
        yield dict(case, flavour={'f': 'smooth', 's': 'plain'})
        yield dict(case, flavour=dict(case['flavour'], f='smooth'))
        yield dict(case, flavour=dict(case['flavour'], s='plain'))
    if len(case['shape']) > 1:
        yield dict(case, shape=[3])
