"""C09: metric, diffusion and aspect forms describe the same dynamics."""
import copy

TIERS = {'quick': {'runs': 70, 'wall': 300, 'timeout': 300}, 'thorough': {'runs': 5000, 'wall': 4800, 'timeout': 420}}
RULE = ('a case is a random univariate or multivariate system (1-D to second order, 2-D first order), an optional '
        'external closure of a random subset of the unclosed terms, a random order and repetition of requests for the '
        'three forms, set order, hash seed and cache configuration; each form is evaluated on two random ensembles and '
        'compared with the trends of the statistics of the ensemble (without closure) or with the trends of the base '
        'systems in which the closed terms take the value of the closure; non-trivial when the three forms were judged; '
        'distinct by event-log digest')
REAL = ['sympkf.symbolic.pkfcas', 'sympkf.symbolic.random', 'sympkf.symbolic.util', 'sympy']
STUB = ['iteration order of sets in sympkf (seeded)']
ASSUMPTIONS = ['an identity that fails somewhere fails on a random ensemble up to a relative error of 1e-7']

FORMS = ['in_metric', 'in_diffusion', 'in_aspect']


def gen_case(rng, tier, k):
    from checks import pdes
    case = {'env': {'hashseed': rng.randrange(6), 'cache': rng.choice(['default'] * 7 + [80])},
            'salt': rng.choice([0, rng.getrandbits(40), rng.getrandbits(40)]), 'eseed': rng.getrandbits(30)}
    r = rng.random()
    if r < 0.3:
        case['spec'] = copy.deepcopy(pdes.FIXED[rng.choice(['burgers', 'diffusion', 'lv', 'sw', 'advection', 'cubic'])])
    elif r < 0.4:
        case['spec'] = pdes.gen_spec(rng, anycoord='odd', dim=2, nf=1, order=1, nterms=(1, 1), maxdeg=2, mixed=False)
    elif r < 0.65:
        case['spec'] = pdes.gen_spec(rng, anycoord='odd', dim=1, nf=2, order=rng.choice([1, 2]), nterms=(1, 1), maxdeg=2)
    else:
        case['spec'] = pdes.gen_spec(rng, anycoord='odd', dim=1, nf=1, order=2, nterms=(1, 2), maxdeg=2)
    if rng.random() < 0.05:
        case['spec'] = pdes.gen_spec(rng, anycoord=True, dim=3, nf=1, order=1, nterms=(1, 1), maxdeg=2, mixed=False, cfuncs=False)
        case['env']['cache'] = 'default'
    case['closure'] = None if rng.random() < 0.4 else {'seed': rng.getrandbits(30), 'frac': rng.choice([1.0, 1.0, 0.6]),
                                                       'how': rng.choice(['init', 'set', 'late', 'split'])}
    case['requests'] = [rng.choice(FORMS + ['metric_system', 'unclosed_terms']) for _ in range(rng.choice([0, 1, 2, 3]))] + rng.sample(FORMS, 3)
    if rng.random() < 0.12 and len(case['spec']['coords']) == 1:
        case['spec'] = pdes.seasonal(rng, case['spec'])
    return case


def random_closure(p, unclosed, seed, frac):
    """term -> expression in the metric, its derivatives and the variance."""
    from sympy import Derivative, Rational, Integer
    from sim.core import rng_for
    rng = rng_for('closure', seed)
    out = {}
    fields = list(p.fields.values())
    for term in sorted(unclosed, key=str):
        if rng.random() > frac:
            continue
        who = [mf for mf in fields if term.has(mf.epsilon)] or fields
        mf = who[0]
        X = mf.spatial_coordinates
        n = len(X)

        def g():
            i, j = sorted((rng.randrange(n), rng.randrange(n)))
            return mf.metric_func(i, j)
        e = Rational(rng.choice([3, -2, 1]), rng.choice([1, 2])) * g() * g()
        if rng.random() < 0.6:
            e = e + rng.choice([-2, 1, 3]) * Derivative(g(), rng.choice(X), rng.choice(X))
        if rng.random() < 0.3:
            e = e + Derivative(g(), rng.choice(X)) * Integer(rng.choice([1, -1]))
        if rng.random() < 0.2:
            e = Integer(rng.choice([0, 2, -3]))
        out[term] = e
    return out


def run_case(case, ctx):
    from checks import pdes, c07
    from checks import oracle as O
    from sim import series as S
    import numpy as np
    from sympkf.symbolic import SymbolicPKF
    spec = case['spec']
    pde = pdes.build(spec)
    base = SymbolicPKF(pde)
    closure = {}
    p = None
    if case['closure']:
        c = case['closure']
        closure = random_closure(base, base.unclosed_terms, c['seed'], c['frac'])
        if c['how'] == 'init':
            p = SymbolicPKF(pde, closure=dict(closure))
        elif c['how'] == 'set':
            p = SymbolicPKF(pde)
            p.set_closure(dict(closure))
        elif c['how'] == 'split':
            ks = sorted(closure, key=str)
            p = SymbolicPKF(pde, closure={k: closure[k] for k in ks[::2]})
            p.set_closure({k: closure[k] for k in ks[1::2]})
        ctx.count('closure.terms', len(closure))
    if p is None:
        p = SymbolicPKF(pde)
    late = case['closure'] and case['closure']['how'] == 'late'
    n0 = len(case['requests']) - 3
    got = {}
    for i, r in enumerate(case['requests']):
        if late and i == n0:
            p.set_closure(dict(closure))
        v = getattr(p, r)
        if i >= n0:
            got[r] = list(v)
        ctx.log('request', r, len(v))
    if late is None or late is False:
        pass
    fresh = SymbolicPKF(pde)
    basesys = {k: list(getattr(fresh, k) or []) for k in ('expectation_system', 'variance_system', 'cross_covariance_system', 'metric_system')}
    for seed in (case['eseed'], case['eseed'] + 1):
        ens = O.Ens(spec, seed)
        ev = O.Evaluator(p, spec, ens)
        evc = O.Evaluator(fresh, spec, ens, closure=closure)
        ref = {}
        for k, eqs in basesys.items():
            for q in eqs:
                try:
                    ref[O.lhs_quantity(evc, q)] = evc.value(q.args[1])
                except O.NotEvaluable as e:
                    ctx.check(False, 'left-over', lambda: f'{k}: {e}')
        d = len(spec['coords'])
        for n in spec['fields']:
            G = np.array([[ref[('g', n) + tuple(sorted((i, j)))][0][0] if ('g', n) + tuple(sorted((i, j))) in ref else np.nan
                           for j in range(d)] for i in range(d)])
            mag = max(ref[('g', n, i, j)][1] for i in range(d) for j in range(i, d))
            nu = np.array([[S.at0(ens.val[('nu', n, i, j)])[0] for j in range(d)] for i in range(d)])
            s = 2 * nu
            dn, ds = -2 * nu @ G @ nu, -s @ G @ s
            for i in range(d):
                for j in range(i, d):
                    ref[('nu', n, i, j)] = (np.array([dn[i, j]]), mag * np.max(np.abs(nu)) ** 2 * 2)
                    ref[('s', n, i, j)] = (np.array([ds[i, j]]), mag * np.max(np.abs(s)) ** 2)
        if not closure:
            # without closure the ensemble itself says what the trends are
            for q, (v, m) in list(ref.items()):
                ref[q] = (S.at0(ens.trd[q]), m)
        for form in FORMS:
            seen = []
            for q in got[form]:
                k = O.lhs_quantity(ev, q)
                ctx.check(k in ref, 'lhs', lambda: f'{form}: left-hand side {q.args[0]}')
                m = ref[k][1]
                O.check_equation(ctx, ev, ens, q, form, want=lambda k_: ref[k_][0], tol=1e-7 * (1 + m / (1 + abs(float(ref[k][0][0])))))
                seen.append(k)
            want = c07.expected(spec, form)
            ctx.check(len(set(seen)) == len(seen), 'duplicated', lambda: f'{form} has two equations for one statistic')
            ctx.check(set(seen) == want, 'incomplete', lambda: f'{form} lacks {sorted(map(str, want - set(seen)))} / has extra {sorted(map(str, set(seen) - want))}')
    own = {'in_metric': 'g', 'in_diffusion': 'nu', 'in_aspect': 's'}
    from sympy.core.function import AppliedUndef
    from sympkf.symbolic.random import Expectation
    rand = {Expectation(mf.random) for mf in p.fields.values()}
    for form in FORMS:
        for q in got[form]:
            for a in q.atoms(AppliedUndef):
                k = ev.quantity(a)
                ctx.check(k is None or k[0] not in ('g', 'nu', 's') or k[0] == own[form], 'mixed', lambda: f'{form} involves {a}')
            left = q.atoms(Expectation) & (set(closure) | rand)
            ctx.check(not left, 'closure', lambda: f'{form}: {sorted(map(str, left))[0]} left')
            ctx.log(form, str(q.args[0]), len(str(q.args[1])))
    ctx.nontrivial = True
    ctx.concrete = {}


def shrink(case):
    from checks import c07
    yield from c07.shrink(case)
    if case['closure']:
        yield dict(copy.deepcopy(case), closure=None)
    if len(case['requests']) > 3:
        yield dict(copy.deepcopy(case), requests=case['requests'][-3:])
