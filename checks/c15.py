"""C15: code generation is reproducible across processes."""
import copy

TIERS = {'quick': {'runs': 90, 'wall': 300, 'timeout': 240}, 'thorough': {'runs': 6000, 'wall': 4800, 'timeout': 420}}
RULE = ('a case is a system with several constants, constant and exogenous functions (or a PKF system with a closure) and '
        '2-4 processes, each with its own hash seed or simulated set order, memoisation state and order of construction of '
        'the symbols; each generates the program; a forecast started in one is continued by the others from its saved '
        'state; non-trivial when the sources were generated under at least two different set orders; distinct by '
        'event-log digest')
REAL = ['sympkf.symbolic.model_builder*', 'sympkf.symbolic.finite_difference', 'sympkf.symbolic.util', 'sympkf.symbolic.pkfcas',
        'generated model code', 'sympy', 'jinja2', 'operating-system processes with PYTHONHASHSEED (in part of the runs)']
STUB = ['iteration order of sets in sympkf (seeded, in simulated processes)', 'process restart (simulated in part of the runs)']
ASSUMPTIONS = ['a simulated process differs from another by set order, symbol construction order and cache state only; '
               'hash seeds inside sympy differ in the runs with operating-system processes']


def gen_case(rng, tier, k):
    from checks import codegen as G, pdes
    case = {'env': {'hashseed': rng.randrange(8), 'cache': rng.choice(['default'] * 5 + [100])}, 'salt': rng.choice([0, rng.getrandbits(40)]),
            'mseed': rng.randrange(10 ** 6), 'builder': rng.choice(['FD', 'FD', 'FD', 'manifold'])}
    dim = rng.choice([1, 1, 2])
    if rng.random() < 0.2:
        case['spec'] = copy.deepcopy(pdes.FIXED[rng.choice(['burgers', 'advection', 'diffusion', 'cubic', 'lv'])])
        case['pkf'] = rng.choice(['in_metric', 'in_aspect', 'in_diffusion'])
        case['closure'] = rng.choice([0, 'const', 'func'])
        dim = 1
    else:
        case['spec'] = G.gen_spec(rng, dim=dim, nf=rng.choice([1, 2, 3]), order=2, nterms=(1, 4))
        for _ in range(2):
            G.add_sources(rng, case['spec'], {'exog': ['Q', 'F', 'G'], 'cfuncs': ['m_1', 'c_0']} if rng.random() < 0.5 else None)
        for key in ('exog', 'cfuncs'):
            case['spec'][key] = sorted(set(case['spec'][key]))
    case['lengths'] = [rng.choice([1.0, 2.0]) for _ in range(dim)]
    case['shape'] = [rng.choice([6, 7, 8]) for _ in range(dim)]
    case['window'] = [0.0, 1e-3, 2e-3, 3e-3]
    case['cut'] = rng.choice([1, 2])
    procs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        procs.append({'real': rng.random() < 0.4, 'hashseed': rng.randrange(1, 10000), 'salt': rng.getrandbits(40),
                      'clock': rng.choice([0, 3600.0, -86400.0, 1e6, 3e8, rng.uniform(-1e9, 1e9)]), 'tz': rng.choice(['UTC', 'Asia/Tokyo', 'XYZ+7']),
                      'clear': rng.random() < 0.7, 'shuffle': rng.choice([0, rng.randrange(100)])})
    case['procs'] = procs
    if rng.random() < 0.25:
        # names as users of large models write them
        spell_out(rng, case['spec'])
        procs[0]['real'] = True
    return case


LONG = ['concentration_of_ozone', 'potential_temperature', 'specific_humidity', 'zonal_wind_at_the_surface', 'fluxOfMomentum',
        'sea_surface_elevation', 'aVeryLongNameForOneOfTheFields', 'aVeryLongNameForTheOtherField', 'diffusivity_of_the_tracer', 'k']


def spell_out(rng, spec):
    from checks import pdes
    names = spec['fields'] + spec['consts'] + spec['cfuncs'] + spec['exog']
    to = dict(zip(names, rng.sample(LONG, min(len(names), len(LONG)))))
    for key in ('fields', 'consts', 'cfuncs', 'exog'):
        spec[key] = [to.get(n, n) for n in spec[key]]
    for eq in spec['eqs']:
        for t in eq:
            for x in t[2]:
                x[0] = to.get(x[0], x[0])


def build(case, shuffle=0):
    """The system, with its symbols created in a shuffled order."""
    import random
    from checks import pdes
    from sympy import Function, symbols, Integer
    spec = case['spec']
    if shuffle:
        names = spec['coords'] + spec['fields'] + spec['consts'] + spec['cfuncs'] + spec['exog']
        random.Random(shuffle).shuffle(names)
        for n in names:
            symbols(n)
            Function(n)
    pde = pdes.build(spec)
    if 'pkf' not in case:
        return pde
    from sympkf.symbolic import SymbolicPKF, PDESystem
    p = SymbolicPKF(pde)
    x = pde.spatial_coordinates
    closure = {}
    for i, e in enumerate(sorted(p.unclosed_terms, key=str)):
        closure[e] = {0: Integer(0), 'const': symbols('c_%d' % i), 'func': Function('r_%d' % (i % 3))(*x)}[case['closure']]
    p.set_closure(closure)
    return PDESystem(list(getattr(p, case['pkf'])))


def process(case, state=None, shuffle=None):
    """What one process does: generate, describe, run (from the start or from a saved state)."""
    import hashlib
    import numpy as np
    from checks import codegen as G
    pde = build(case, case.get('shuffle', 0) if shuffle is None else shuffle)
    cls, code = G.program(pde, case['builder'])
    w = G.World(pde, [str(c) for c in pde.spatial_coordinates], case['lengths'], case['mseed'])
    m = w.instance(cls, case['shape'], case['builder'])
    out = {'module': module(pde, case['builder'])}
    out.update({'code': code, 'digest': hashlib.sha256(code.encode()).hexdigest()})
    for a in ('prognostic_functions', 'exogenous_functions', 'constant_functions', 'constants', 'coordinates'):
        out[a] = list(getattr(cls, a, ()))
    win = case['window']
    if state is None:
        # the user wrote the list of exogenous functions once, by position
        u = w.to_model(m, w.state(0.0, case['shape']))
        f = m.forecast(win, u)
        out['saved'] = np.asarray(f[win[case['cut']]]).tolist()
        out['end'] = np.asarray(f[win[-1]]).tolist()
    else:
        order = state['exogenous']

        class Fixed(type(m)):
            def compute_exogenous(self, t, st):
                by = {G.S.clean(f.func): f for f in w.exog}
                return [w.sample(by[n], t, case['shape']) for n in order]
        m.__class__ = Fixed
        f = m.forecast(win[case['cut']:], np.array(state['u']))
        out['end'] = np.asarray(f[win[-1]]).tolist()
    return out


def module(pde, kind):
    """Text of the module written by the user, in a directory of its own."""
    import contextlib
    import io
    import os
    import tempfile
    from checks import codegen as G
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                G.builder(pde, kind, 'SimNum').write_module()
            with open('simnum.py', encoding='utf-8') as f:
                return f.read()
        finally:
            os.chdir(cwd)


def run_case(case, ctx):
    import json
    import os
    import subprocess
    import sys
    import numpy as np
    from sim import core
    ref = ctx.must('raises', 'generation and run in the first process', process, case, None, 0)
    ctx.log('code', ref['digest'])
    state = {'u': ref['saved'], 'exogenous': ref['exogenous_functions']}
    orders = {case['salt']}
    for i, p in enumerate(case['procs']):
        if p['real']:
            env = dict(os.environ)
            env['PYTHONHASHSEED'] = str(p['hashseed'])
            env['PYTHONDONTWRITEBYTECODE'] = '1'
            env['TZ'] = p.get('tz', 'UTC')
            ctx.count('clock.jump', int(bool(p.get('clock'))))
            r = subprocess.run([sys.executable, '-m', 'checks.c15_child'], input=json.dumps(
                {'case': dict(case, shuffle=p['shuffle']), 'clock': p.get('clock', 0), 'state': state, 'src': core.SRC.rstrip('/')}), text=True, capture_output=True, env=env,
                cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
            ctx.count('process.real')
            ctx.check(r.returncode == 0, 'raises', lambda: f'process with PYTHONHASHSEED={p["hashseed"]}: {r.stderr[-800:]}')
            got = json.loads(r.stdout)
            what = f'PYTHONHASHSEED={p["hashseed"]}'
        else:
            ctx.salt = p['salt']
            if p['clear']:
                from sympy.core.cache import clear_cache
                clear_cache()
                ctx.count('fault.evict')
            ctx.count('process.simulated')
            got = ctx.must('raises', f'process {i}', process, case, state, p['shuffle'])
            ctx.salt = case['salt']
            what = f'set order {p["salt"]}'
        orders.add(p['hashseed'] if p['real'] else p['salt'])
        ctx.log('process', i, got['digest'])
        for a in ('prognostic_functions', 'exogenous_functions', 'constant_functions', 'constants', 'coordinates'):
            ctx.check(got[a] == ref[a], 'positions', lambda: f'{what}: {a} are {got[a]} instead of {ref[a]}')
        if got['code'] != ref['code']:
            diff = [(x, y) for x, y in zip(ref['code'].splitlines(), got['code'].splitlines()) if x != y]
            ctx.check(False, 'source', f'{what}: the source differs, first in {diff[:1]}')
        ctx.check(got['module'] == ref['module'], 'source', f'{what}: the module written is not the same')
        a, b = np.array(got['end']), np.array(ref['end'])
        ctx.check(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), 'restart', lambda: f'{what}: continuing from the saved state gives a different end state')
    ctx.nontrivial = len(orders) > 1
    ctx.concrete = {}


def shrink(case):
    from checks import codegen as G
    for i in range(len(case['procs'])):
        if len(case['procs']) > 1:
            c = copy.deepcopy(case)
            del c['procs'][i]
            yield c
    for i, p in enumerate(case['procs']):
        if p['shuffle']:
            c = copy.deepcopy(case)
            c['procs'][i]['shuffle'] = 0
            yield c
    yield from G.shrink_spec(case)
