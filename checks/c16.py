"""C16: generated models compute the trend of the equations they come from."""
import copy

TIERS = {'quick': {'runs': 280, 'wall': 300, 'timeout': 240}, 'thorough': {'runs': 9000, 'wall': 4800, 'timeout': 420}}
RULE = ('a case is a system (random with plain or LaTeX names, some with limiters, switches, seasons or explicit coordinates, a library dynamics, or a PKF system with a closure), a '
        'finite-difference or manifold generator run under a seeded set order, then a random history on model instances '
        '(trend evaluations at other times and states, forecasts, failing exogenous functions, interrupts at chosen lines, '
        'changed constants and coefficients, pickled copies) and on other models of the session with the same names, before the judged evaluation; the trend is compared with the exact right-hand '
        'side on two grids, and with the trend of shifted inputs; non-trivial when the right-hand side is not zero; '
        'distinct by event-log digest')
REAL = ['sympkf.symbolic.model_builder*', 'sympkf.symbolic.finite_difference', 'sympkf.symbolic.util', 'sympkf.symbolic.pkfcas',
        'generated model code', 'sympkf.model', 'sympy', 'jinja2']
STUB = ['iteration order of sets in sympkf (seeded)', 'base space of manifold models (exact spectral differentiation)',
        'exogenous functions (supplied by the harness)', 'arrival of faults (seeded)']
ASSUMPTIONS = ['second order is read from two grids, the fields holding at most two waves in each direction']

LIB = ['burgers', 'kuramoto', 'diffusion', 'advection', 'advection_in_2D', 'diffusion_in_2D', 'advection_in_3D']


def gen_case(rng, tier, k):
    from checks import codegen as G, pdes
    case = {'env': {'hashseed': rng.randrange(6), 'cache': 'default'}, 'salt': rng.choice([0, rng.getrandbits(40), rng.getrandbits(40)]),
            'mseed': rng.randrange(10 ** 6), 'builder': rng.choice(['FD', 'FD', 'FD', 'manifold'])}
    r = rng.random()
    dim = rng.choice([1, 1, 1, 2, 2, 3])
    if r < 0.12:
        case['lib'] = rng.choice(LIB)
        dim = 2 if '2D' in case['lib'] else 3 if '3D' in case['lib'] else 1
    elif r < 0.15:
        case['lib'] = 'Burgers'
        case['builder'] = 'FD'
        dim = 1
    elif r < 0.30:
        dim = 1 if rng.random() < 0.8 else 2
        case['spec'] = copy.deepcopy(pdes.FIXED[rng.choice(['burgers', 'advection', 'diffusion', 'cubic', 'advexog'])]) if dim == 1 else \
            copy.deepcopy(pdes.FIXED['adv2d'])
        case['pkf'] = rng.choice(['in_metric', 'in_aspect', 'in_diffusion'])
        case['closure'] = rng.choice([0, 'g2', 'const'])
    else:
        case['spec'] = G.gen_spec(rng, dim=dim, nf=rng.choice([1, 1, 2, 3]), order=rng.choice([2, 2, 2, 3, 4]) if dim < 3 else 2,
                                  nterms=(1, 3), maxdeg=3 if dim == 1 else 2, wrapmax=1)
        if rng.random() < 0.2:
            case['flux'] = rng.randrange(dim)
    if 'spec' in case and 'pkf' not in case and rng.random() < 0.15:
        dim = rng.choice([2, 3, 3])
        case['spec'] = G.gen_family(rng, dim)
        case.pop('flux', None)
    if 'spec' in case and 'pkf' not in case and rng.random() < 0.35:
        case['extra'] = G.gen_extras(rng, where=case['builder'] == 'FD' and rng.random() < 0.4)
        case.pop('flux', None)
    case['others'] = G.gen_others(rng, case['spec'], rng.choice([1, 1, 2])) if 'spec' in case and rng.random() < 0.4 else []
    case['lengths'] = [rng.choice([1.0, 2.0, 0.5, 6.283185307179586]) for _ in range(dim)]
    n0 = {1: 56, 2: 40, 3: 28}[dim]
    case['shape'] = [n0 + rng.randrange(0, 8) for _ in range(dim)]
    case['odd'] = [rng.choice([1, 2, 3, 5, 8, 9]) for _ in range(dim)]
    case['t'] = rng.choice([0.0, 0.5, 1.75, -3.0])
    case['tag'] = rng.randrange(50)
    case['shift'] = [rng.randrange(0, 7) for _ in range(dim)]
    case['scheme'] = rng.choice(['rk4', 'rk2', 'euler'])
    case['special'] = [rng.random(), rng.choice([0, 0.0, 0, 1, -1, -0.5])] if rng.random() < 0.4 else None
    case['wide'] = dim == 1 and rng.random() < 0.15
    case['flavour'] = rng.choice(['int', 'readonly', 'strided', 'fortran', 'float32'])
    case['ops'] = []
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        case['ops'].append({'op': rng.choice(['trend', 'trend', 'forecast', 'fault', 'fault', 'exofail', 'pickle', 'const', 'cfunc', 'other', 'inplace']),
                            't': rng.choice([0.0, 0.25, 2.5]), 'tag': rng.randrange(50), 'ff': rng.random(), 'of': rng.random(),
                            'kind': rng.choice(['interrupt', 'memory'])})
    return case


def system(case, ctx):
    """(PDESystem, name of the coordinates) of the case."""
    from checks import pdes
    from sympy import Derivative, Integer, symbols
    from sympkf.symbolic import SymbolicPKF, PDESystem
    if 'lib' in case:
        if case['lib'] == 'Burgers':
            from sympkf.dynamics.burgers import Burgers
            return PDESystem(list(Burgers.closed_pkf.in_aspect))
        import sympkf.symbolic.dynamics as D
        return getattr(D, case['lib'])
    pde = pdes.build(case['spec'])
    if case.get('extra'):
        from checks import codegen as G
        pde = G.add_extras(pde, case['extra'])
    if 'flux' in case:
        # conservative form: derivatives of expressions
        eqs = []
        for eq in pde.equations:
            lhs, rhs = eq.args
            x = pde.spatial_coordinates[case['flux'] % len(pde.spatial_coordinates)]
            first = rhs.args[0] if rhs.is_Add else rhs
            eqs.append(eq.func(lhs, rhs - Derivative(first * lhs.args[0], x)))
        return PDESystem(eqs)
    if 'pkf' not in case:
        return pde
    p = SymbolicPKF(pde)
    un = sorted(p.unclosed_terms, key=str)
    closure = {}
    for i, e in enumerate(un):
        f = list(p.fields.values())[0]
        g = f.metric[0, 0]
        x = pde.spatial_coordinates[0]
        closure[e] = {0: Integer(0), 'g2': 3 * g ** 2 - 2 * Derivative(g, (x, 2)), 'const': symbols('c_%d' % i)}[case['closure']]
    p.set_closure(closure)
    s = getattr(p, case['pkf'])
    return PDESystem(list(s))


def close(a, b, tol=1e-11):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isfinite(a) == np.isfinite(b))) and \
        bool(np.nanmax(np.abs(a - b), initial=0.0) <= tol * (1 + np.nanmax(np.abs(b), initial=0.0)))


def history(ctx, case, w, cls, kind, shape, model):
    """Random earlier use of the instance; returns the model to judge (a copy after pickling)."""
    import pickle
    import numpy as np
    from checks import smooth as S
    from checks.nummodel import const_value
    from sim.core import resolve_faults
    over = {}
    for i, op in enumerate(case['ops']):
        st = w.to_model(model, w.state(op['t'], shape, op['tag']))
        if op['op'] == 'trend':
            keep = st.copy()
            a = model.trend(op['t'], st)
            ctx.check(np.array_equal(keep, st), 'input-modified', f'op {i}: trend modified its state')
            snap = np.array(a)
            model.trend(op['t'] + 1.0, st * 1.5)
            ctx.check(np.array_equal(snap, a, equal_nan=True), 'aliased', f'op {i}: a later trend evaluation changed an earlier result')
        elif op['op'] == 'forecast':
            ctx.call(model.forecast, [op['t'], op['t'] + 1e-4, op['t'] + 2e-4], st)
        elif op['op'] == 'fault':
            ctx.profile()
            twin = w.instance(cls, shape, kind)
            twin.trend(op['t'], st)
            prof = ctx.end_profile()
            prof = {n: c for n, c in prof.items() if n.endswith('.trend') or n.endswith('.index')} or prof
            f = resolve_faults(prof, [{'ff': op['ff'], 'of': op['of'], 'kind': op['kind']}])
            ctx.arm(f)
            ctx.call(model.trend, op['t'], st)
            ctx.disarm()
            ctx.log('fault', i, f)
        elif op['op'] == 'exofail':
            case_fail = getattr(model, '_verif_fail', None)
            if case_fail is not None:
                case_fail['on'] = True
                ctx.count('fault.exogenous')
                ctx.call(model.trend, op['t'], st)
                case_fail['on'] = False
        elif op['op'] == 'pickle':
            if not w.exog:
                model = pickle.loads(pickle.dumps(model))
        elif op['op'] == 'const' and w.consts:
            c = w.consts[int(op['ff'] * len(w.consts))]
            v = const_value(case['mseed'] + 17, str(c))
            setattr(model, S.clean(c), v)
            over[str(c)] = v
        elif op['op'] == 'cfunc' and w.cfuncs:
            f = w.cfuncs[int(op['ff'] * len(w.cfuncs))]
            w.scales[str(f.func)] = 0.5 + op['of']
            # the coefficient is given again, as another array
            setattr(model, S.clean(f.func), w.sample(f, 0.0, shape))
        elif op['op'] == 'other':
            o = w.instance(cls, [n + 1 for n in shape], kind) if kind == 'FD' else w.instance(cls, shape, kind)
            o.trend(op['t'], w.to_model(o, w.state(op['t'], [n + 1 for n in shape] if kind == 'FD' else shape, op['tag'])))
            if w.consts:
                setattr(o, S.clean(w.consts[0]), 123.0)
        elif op['op'] == 'inplace':
            a = model.trend(op['t'], st)
            a[...] = 1e9
    return model, over


def flavours(ctx, case, w, model, t, shape, tag):
    """The trend of a state does not depend on the kind of array that holds it."""
    import numpy as np
    st = np.round(8 * w.to_model(model, w.state(t, shape, tag)))
    kind = case.get('flavour', 'int')
    if kind == 'int':
        other = st.astype(int)
        if any(not q.args[1].is_positive for e in w.pde.equations for q in e.atoms(_pow())):
            return  # integers to negative powers
    elif kind == 'readonly':
        other = st.copy()
        other.setflags(write=False)
    elif kind == 'strided':
        big = np.full(st.shape + (2,), 7.0)
        big[..., 0] = st
        other = big[..., 0]
    elif kind == 'fortran':
        other = np.asfortranarray(st)
    else:
        other = st.astype(np.float32)
    want = np.array(ctx.must('trend-raises', 'the trend', model.trend, t, st))
    keep = other.copy()
    got = np.array(ctx.must('trend-raises', f'the trend of a {kind} state', model.trend, t, other))
    ctx.check(np.array_equal(keep, other), 'input-modified', f'trend modified its {kind} state')
    ctx.count('state.' + kind)
    ok = np.isfinite(want)
    tol = 1e-3 if kind == 'float32' else 1e-10
    if not ok.all() or np.abs(want).max(initial=0.0) > 1e12:
        return
    ctx.check(got.shape == want.shape and np.all(np.isfinite(got)), 'kind-of-state', f'the trend of a {kind} state is not finite')
    if kind != 'float32':
        ctx.check(close(got, want, tol), 'kind-of-state', lambda: f'the trend of the {kind} state differs by {S_(got - want):.3e} from that of the same numbers')


def S_(a):
    from checks import smooth as S
    return S.scale_of(a)


def _pow():
    import sympy
    return sympy.Pow


def answers(ctx, w, new, shape, t, tag):
    """Exogenous functions that follow the state and the time are those of the evaluation in progress."""
    import numpy as np
    asked = []

    def factor(tt, state):
        asked.append((tt, float(np.mean(state))))
        return 1 + 0.1 * np.cos(tt + float(np.mean(state)) * 3)

    m = new(shape, factor=factor)
    a, b = (w.to_model(m, w.state(t, shape, tag)) for _ in range(2))
    b = 1.25 * b
    for tt, s in ((t, a), (t, b), (t + 0.5, b), (t, b), (t, a)):
        del asked[:]
        got = np.array(ctx.must('trend-raises', 'the trend', m.trend, tt, s))
        ctx.check(asked[-1:] == [(tt, float(np.mean(s)))], 'exogenous-asked',
                  lambda: f'compute_exogenous was not asked for the date {tt} and the state of the evaluation: {asked}')
        c = 1 + 0.1 * np.cos(tt + float(np.mean(s)) * 3)
        want = np.array(new(shape, factor=lambda *a: c).trend(tt, s))
        ctx.check(close(got, want), 'exogenous', 'the trend does not use the exogenous functions of its date and state')


def wide(ctx, case, w, cls, new, t, tag):
    """Grids of other sizes: the default grid, and one of many points whose last part is as good as its first part."""
    import numpy as np
    from checks import smooth as S
    sub = w.subclass(cls, [100])
    m = ctx.must('raises', 'building a model on the default grid', sub, **w.kwargs([100]))
    ctx.check(tuple(m.shape) == (100,) and abs(m.dx[0] - 0.01) < 1e-15 and np.allclose(m.x[0], np.arange(100) / 100), 'grid',
              'the default grid is not 100 points on a length of 1')
    u = w.to_model(m, w.state(t, [100], tag))
    keep, w.lengths = w.lengths, [1.0]
    try:
        want = new([100])
    finally:
        w.lengths = keep
    # coefficients are those of the grid points, whatever the length they are sampled on
    for f in w.cfuncs:
        setattr(want, S.clean(f.func), getattr(m, S.clean(f.func)))
    if not w.exog:
        ctx.check(close(m.trend(t, u), want.trend(t, u)), 'grid', 'on the default grid the trend is not that of a model given this grid')
    # periodicity: the trend of a repeated pattern repeats
    n, k = 50, 1400
    big = sub(shape=(n * k,), lengths=(k * 1.0,), **{c: (np.tile(v, k) if np.ndim(v) == 1 else v) for c, v in w.kwargs([n]).items()})
    one = sub(shape=(n,), lengths=(1.0,), **w.kwargs([n]))
    if w.exog:
        return
    u = w.to_model(m, w.state(t, [n], tag))
    a = np.array(one.trend(t, u))
    b = np.array(big.trend(t, np.tile(u, k)))
    ctx.count('grid.wide')
    if np.all(np.isfinite(a)):
        ctx.check(b.shape == (len(a), n * k) and close(b, np.tile(a, k), 1e-7), 'wide-grid', lambda: f'on {n * k} points the trend of a periodic state does not repeat')


def run_case(case, ctx):
    import numpy as np
    from checks import codegen as G, smooth as S
    pde = ctx.must('raises', 'building the system', system, case, ctx)
    coords = [str(c) for c in pde.spatial_coordinates]
    kind = case['builder']
    w = G.World(pde, coords, case['lengths'], case['mseed'])
    shape, t, tag = case['shape'], case['t'], case['tag']
    try:
        if case.get('special') and w.consts:
            c = str(w.consts[int(case['special'][0] * len(w.consts))])
            w.values[c] = case['special'][1]
            with np.errstate(all='ignore'):
                if np.all(np.isfinite(w.exact(t, shape, tag))):
                    ctx.count('constant.special')
                else:
                    del w.values[c]
        ex = w.exact(t, shape, tag)
    except S.NotEvaluable as e:
        raise G_error(e)
    scale = S.scale_of(ex)
    if not np.isfinite(scale) or scale > 1e9:
        ctx.nontrivial = False
        ctx.concrete = {}
        return
    if case.get('lib') == 'Burgers':
        from sympkf.dynamics.burgers import Burgers
        b = ctx.must('raises', 'Burgers()', Burgers, n=7)
        cls = type(b.model)
    else:
        G.run_others(ctx, case, False)
        cls, code = ctx.must('raises', 'generating the code', G.program, pde, kind)
        G.run_others(ctx, case, True)
    box = {'on': False}

    def fail(tt):
        if box['on']:
            raise RuntimeError('exogenous data not available')

    def new(sh, shift=None, **more):
        m = ctx.must('raises', f'building a model on {sh}', w.instance, cls, sh, kind, shift, fail, **more)
        if w.exog:
            m._verif_fail = box
        return m
    m = new(shape, time_scheme=case['scheme'])
    ctx.check(sorted(m.prognostic_functions) == sorted(S.clean(f.func) for f in w.fields), 'names', lambda: f'prognostic functions {m.prognostic_functions}')
    ctx.check(list(m.coordinates) == [S.clean(c) for c in coords], 'names', lambda: f'coordinates {m.coordinates} for {coords}')
    if kind == 'FD':
        ok = len(m.x) == len(m.dx) == len(shape) and all(np.allclose(a, b) for a, b in zip(m.x, w.axes(shape))) and all(abs(d - l / n) < 1e-12 for d, l, n in zip(m.dx, w.lengths, shape))
        ctx.check(ok, 'grid', lambda: f'x or dx of the model do not describe the periodic grid {shape} x {w.lengths}')
        ok = len(m.X) == len(shape) and all(np.shape(a) == tuple(shape) and np.allclose(a, b) for a, b in zip(m.X, w.grid(shape)))
        ctx.check(ok, 'grid', lambda: f'X of the model has shape {[np.shape(a) for a in m.X]} on a grid {shape}, or does not follow its indices')
    m, over = ctx.must('raises', 'using the model', history, ctx, case, w, cls, kind, shape, m)
    # coordinates that appear explicitly: the trend depends on the place
    placed = any(x['kind'] in G.PLACED for x in case.get('extra', []))
    ex = w.exact(t, shape, tag, over)
    scale = S.scale_of(ex)
    got = ctx.must('trend-raises', 'the trend', w.trend, m, t, shape, tag)
    e1 = S.scale_of(got - ex)
    if kind == 'FD':
        sh2 = [2 * n for n in shape]
        m2 = new(sh2)
        for c, v in over.items():
            setattr(m2, S.clean(c), v)
        ex2 = w.exact(t, sh2, tag, over)
        e2 = S.scale_of(w.trend(m2, t, sh2, tag) - ex2)
        ctx.log('errors', f'{e1:.6e}', f'{e2:.6e}', f'{scale:.6e}')
        floor = 1e-9 * max(1, (max(sh2) / min(w.lengths)) ** 4 * 1e-6)
        bad = not S.second_order((e1, e2), scale, floor=floor)
        ctx.check(not bad, 'not-second-order', lambda: f'errors {e1:.3e} on {shape} and {e2:.3e} on {sh2} for values of size {scale:.3e}')
    else:
        ctx.log('error', f'{e1:.3e}', f'{scale:.6e}')
        ctx.check(e1 <= 1e-6 * (1 + scale), 'not-exact', lambda: f'error {e1:.3e} for values of size {scale:.3e} with an exact base space')
    # after the history, the same as a new instance
    m3 = new(shape)
    for c, v in over.items():
        setattr(m3, S.clean(c), v)
    ctx.check(close(w.trend(m3, t, shape, tag), got), 'history', 'the trend depends on the history of the instance')
    flavours(ctx, case, w, m3, t, shape, tag)
    if w.exog:
        answers(ctx, w, new, shape, t, tag)
    # the scheme asked for is the one in use (one small step)
    if 'lib' not in case or case['lib'] != 'Burgers':
        from checks import models as M
        u0 = w.to_model(m, w.state(t, shape, tag))
        h = 1e-3 / (1 + scale)
        st, f = ctx.call(m.forecast, [t, t + h], u0)
        if st == 'ok' and np.all(np.isfinite(f[t + h])):
            want = M.ref_step(case['scheme'], m3.trend, t, u0, (t + h) - t)
            ctx.check(close(f[t + h], want, 1e-12), 'scheme', lambda: f'a model built with time_scheme={case["scheme"]} does not step with it')
        ctx.check(st == 'ok', 'scheme', lambda: f'forecast raised {f}')
    # equivariance under grid shifts, on any shape
    sh = [max(a, 5) if kind != 'FD' else a for a in case['odd']] if 'pkf' not in case else shape
    s = tuple(case['shift'])
    ma, mb = new(sh), new(sh, shift=s)
    u = w.state(t, sh, tag)
    ta = w.from_model(ma, np.array(ma.trend(t, w.to_model(ma, u))))
    ub = np.roll(u, s, axis=tuple(range(1, u.ndim)))
    tb = w.from_model(mb, np.array(mb.trend(t, w.to_model(mb, ub))))
    ra = np.roll(ta, s, axis=tuple(range(1, u.ndim)))
    if np.all(np.isfinite(ta)) and not placed:
        ctx.check(close(tb, ra, 1e-8), 'shift', lambda: f'on {sh} the trend does not commute with the shift {s}: {S.scale_of(tb - ra):.3e} of {S.scale_of(ra):.3e}')
    ctx.log('shift', list(ta.shape))
    if case.get('wide') and kind == 'FD' and not placed:
        wide(ctx, case, w, cls, new, t, tag)
    ctx.nontrivial = scale > 0
    ctx.concrete = {}


def G_error(e):
    from sim.core import HarnessError
    return HarnessError(f'not evaluable: {e}')


def shrink(case):
    for i in range(len(case['ops'])):
        c = copy.deepcopy(case)
        del c['ops'][i]
        yield c
    for i in range(len(case.get('others', []))):
        c = copy.deepcopy(case)
        del c['others'][i]
        yield c
    for i in range(len(case.get('extra', []))):
        c = copy.deepcopy(case)
        del c['extra'][i]
        yield c
    if case.get('salt'):
        yield dict(copy.deepcopy(case), salt=0)
    if any(case['shift']):
        yield dict(copy.deepcopy(case), shift=[0] * len(case['shift']))
    if 'spec' in case:
        from checks import codegen as G
        yield from G.shrink_spec(case)
