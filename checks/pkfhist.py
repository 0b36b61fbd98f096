"""Shared parts of the checks that replay request histories on PKF objects (C10-C13, C20)."""
import copy

PROPS = ['first_order_reynolds_system', 'second_order_reynolds_system', 'expectation_system', 'tl_expectation_system',
         'error_system', 'variance_system', 'std_system', 'epsilon_system', 'cross_covariance_system', 'metric_system',
         'in_metric', 'in_diffusion', 'in_aspect', 'unclosed_terms', 'internal_closure', 'closure']
CHEAP = ['burgers', 'advection', 'advexog', 'diffusion', 'cubic']
MULTI = ['lv', 'sw']
FORMS = ['in_metric', 'in_aspect', 'in_diffusion']
JUDGED = ['expectation_system', 'error_system', 'variance_system', 'std_system', 'epsilon_system',
          'cross_covariance_system', 'metric_system', 'in_metric', 'in_diffusion', 'in_aspect']


def gen_base(rng, small=False, multi=0.3, twod=0.05):
    from checks import pdes
    case = {'env': {'hashseed': rng.randrange(5), 'cache': 'default'},
            'salt': rng.choice([0, rng.getrandbits(40)]), 'eseed': rng.getrandbits(30)}
    r = rng.random()
    if r < multi:
        case['spec'] = copy.deepcopy(pdes.FIXED[rng.choice(MULTI)]) if rng.random() < 0.5 else \
            pdes.gen_spec(rng, dim=1, nf=rng.choice([2, 2, 3]), order=1, nterms=(1, 1), maxdeg=2)
    elif r < multi + twod:
        case['spec'] = copy.deepcopy(pdes.FIXED['adv2d'])
    elif r < 0.65:
        case['spec'] = copy.deepcopy(pdes.FIXED[rng.choice(CHEAP)])
    else:
        case['spec'] = pdes.gen_spec(rng, dim=1, nf=1, order=2, nterms=(1, 2), maxdeg=2)
    if rng.random() < 0.1:
        case['spec'] = pdes.seasonal(rng, case['spec'])
    return case


def fetch(p, name):
    """One request, with the answer copied at once."""
    v = getattr(p, name)
    if v is None:
        return None
    if name == 'unclosed_terms':
        return frozenset(v)
    if name in ('internal_closure', 'closure'):
        return dict(v)
    return list(v)


def means(p, e):
    """The ways the means of the fields are written in an expression."""
    from sympy.core.function import AppliedUndef
    from sympkf.symbolic.random import Expectation
    out = set()
    for mf in p.fields.values():
        for a in (mf.value, Expectation(mf.random)):
            if e.atoms(AppliedUndef, Expectation) & {a}:
                out.add(a)
    return out


def tensors(p, e):
    """The kinds of tensor an expression is written with."""
    from sympy.core.function import AppliedUndef
    at = e.expand().atoms(AppliedUndef)
    return {k for mf in p.fields.values() for k in ('metric', 'diffusion', 'aspect') if at & getattr(mf, k).atoms(AppliedUndef)}


class Judge:
    """Compares answers for meaning: identical, or equal on random ensembles with the same terms left."""

    def __init__(self, ctx, spec, seed):
        self.ctx = ctx
        self.spec = spec
        self.seed = seed
        self.ens = None

    def _evaluator(self, p):
        from checks import oracle as O
        if self.ens is None:
            self.ens = [O.Ens(self.spec, self.seed), O.Ens(self.spec, self.seed + 1)]
        return [O.Evaluator(p, self.spec, e) for e in self.ens]

    def equations_equal(self, p, a, b):
        """Same statistics, same trends on the ensembles, same expectation terms."""
        import numpy as np
        from checks import oracle as O
        if len(a) != len(b):
            return f'{len(a)} equations instead of {len(b)}'
        for ev in self._evaluator(p):
            qa = {O.lhs_quantity(ev, q): q for q in a}
            qb = {O.lhs_quantity(ev, q): q for q in b}
            if set(qa) != set(qb) or None in qa:
                return f'equations for {sorted(map(str, qa))} instead of {sorted(map(str, qb))}'
            for k in qa:
                try:
                    va, ma = ev.value(qa[k].args[1])
                    vb, mb = ev.value(qb[k].args[1])
                except O.NotEvaluable as e:
                    return f'{k}: {e}'
                if np.max(np.abs(va - vb)) > 1e-7 * (1 + ma + mb):
                    return f'{k}: {str(qa[k].args[1])[:200]} instead of {str(qb[k].args[1])[:200]}'
                ea = O.expectations(p, [qa[k].args[1]], expand=True)
                eb = O.expectations(p, [qb[k].args[1]], expand=True)
                if ea != eb:
                    return f'{k} holds {sorted(map(str, ea ^ eb))[:2]} differently'
                ta, tb = tensors(p, qa[k].args[1]), tensors(p, qb[k].args[1])
                if ta != tb:
                    return f'{k} is written with {sorted(ta)} instead of {sorted(tb)}'
                ma, mb = means(p, qa[k].args[1]), means(p, qb[k].args[1])
                if ma != mb:
                    return f'{k} holds {sorted(map(str, ma - mb))[:2]} instead of {sorted(map(str, mb - ma))[:2]}'
        return None

    def same(self, p, name, got, want, what):
        ctx = self.ctx
        if got == want:
            return
        if (got is None) != (want is None):
            ctx.check(False, 'differs', lambda: f'{what} {name}: {str(got)[:200]} instead of {str(want)[:200]}')
        if name == 'unclosed_terms':
            ctx.check(False, 'unclosed-differ', lambda: f'{what}: unclosed terms lack {sorted(map(str, want - got))[:3]} / have extra {sorted(map(str, got - want))[:3]}')
        elif name in ('internal_closure', 'closure'):
            lack = sorted(map(str, set(want) - set(got)))
            extra = sorted(map(str, set(got) - set(want)))
            ctx.check(not lack and not extra, 'closure-differs', lambda: f'{what} {name}: lacks {lack[:3]} / has extra {extra[:3]}')
            for k in want:
                d = got[k] == want[k] or (got[k] - want[k]).doit().expand() == 0
                ctx.check(d, 'closure-differs', lambda: f'{what} {name}: {k} is {str(got[k])[:200]} instead of {str(want[k])[:200]}')
        elif name in JUDGED:
            why = self.equations_equal(p, got, want)
            ctx.check(why is None, 'system-differs', lambda: f'{what} {name}: {why}')
        else:
            ok = len(got) == len(want)
            if ok:
                for a, b in zip(got, want):
                    ok = ok and (a.args[0] - b.args[0]).doit().expand() == 0 and (a.args[1] - b.args[1]).doit().expand() == 0
            ctx.check(ok, 'system-differs', lambda: f'{what} {name}: {str(got)[:300]} instead of {str(want)[:300]}')


class Reference:
    """Answers of newly built objects, one object per question or one pipeline in canonical order."""

    def __init__(self, spec, closure=None):
        self.spec = spec
        self.closure = closure
        self.known = {}
        self.obj = None

    def get(self, name, fresh=False):
        from checks import pdes
        from sympkf.symbolic import SymbolicPKF
        if name in self.known:
            return self.known[name]
        if fresh or self.obj is None:
            o = SymbolicPKF(pdes.build(self.spec), closure=dict(self.closure) if self.closure is not None else None)
            if not fresh:
                self.obj = o
        else:
            o = self.obj
        self.known[name] = fetch(o, name)
        return self.known[name]


def shrink_common(case):
    from checks import pdes
    if case.get('salt'):
        yield dict(copy.deepcopy(case), salt=0)
    for s in pdes.shrink_spec(case['spec']):
        yield dict(copy.deepcopy(case), spec=s)
