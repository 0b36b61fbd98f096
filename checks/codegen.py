"""Generated programs: building, running and judging them (C15-C18, C20)."""
import copy
import itertools

import numpy as np

from checks import pdes
from checks import smooth as S
from checks.models import gen_module

COORDS = [['x', 'y', 'z'], ['x', 'y', 'z'], ['y', 'x', 'z'], ['lon', 'lat', 'z'], ['\\theta', '\\phi', 'z'], ['x', 'xi', 'xx'],
          ['d', 'e', 'f_1'], ['dx1', 'dx2', 'dx3'], ['x_1', 'x_2', 'x_3'], ['x^1', 'x^2', 'x^3'], ['delta', 'x', 'y'], ['s', 'ds2', 'z'],
          ['t1', 'tx', 'y']]
FIELDS = [['u', 'v', 'w'], ['h', 'u', 'q'], ['A', 'B', 'C'], ['\\theta_h', 'q', '\\phi_{1}'], ['u_2', 'u_1', 'u_3'], ['V_{u}', 'g_{u,xx}', 'u'],
          ['u', 'bu', 'u_b'], ['dq', 'q', 'r'], ['Du', 'u', 'ux']]
CONSTS = [['kappa', 'mu', 'gamma_1', 'L'], ['\\kappa', '\\nu_{0}', 'a', 'b'], ['\\lambda', 'k', 'c_1', 'c_2'], ['K_u', 'K', 'k', 'U0']]
CFUNCS = [['k0', 'bb'], ['\\kappa_{11}', '\\kappa_{12}'], ['U', 'W'], ['c', 'm']]
EXOG = [['F', 'G', 'Q'], ['\\Phi', 'S_{1}', 'S_{2}'], ['E', 'I', 'N']]


def gen_spec(rng, dim=1, nf=1, order=2, fancy=0.5, exotic=0.2, wrapmax=9, **kw):
    """A system made for code generation, with all sorts of names."""
    if rng.random() < fancy:
        coords = rng.choice(COORDS)[:dim]
        pick = lambda pools: [n for n in rng.choice(pools) if n not in coords]  # noqa
        names = {'coords': coords, 'fields': pick(FIELDS)}
        taken = set(coords) | set(names['fields'])
        for key, pools in (('consts', CONSTS), ('cfuncs', CFUNCS), ('exog', EXOG)):
            names[key] = [n for n in pick(pools) if n not in taken]
            taken |= set(names[key])
        clean = [S.clean(n) for n in taken]
        if len(names['fields']) < nf or len(set(clean)) < len(clean) or not (names['consts'] and names['cfuncs'] and names['exog']):
            names = None
    else:
        names = None
    spec = pdes.gen_spec(rng, dim=dim, nf=nf, order=order, names=names, **kw)
    if rng.random() < exotic:
        add_exotic(rng, spec, wrapmax)
    if rng.random() < 0.3 and len(spec['exog']) + len(spec['cfuncs']) == 0:
        add_sources(rng, spec, names)
    return spec


def gen_family(rng, dim):
    """Many derivatives of one function that differ by their orders along each coordinate only."""
    spec = gen_spec(rng, dim=dim, nf=1, order=1, nterms=(1, 1), maxdeg=1, exotic=0.0)
    n = rng.choice([2, 3, 4] if dim < 3 else [3, 4])
    every = {tuple(rng.sample(o, dim)) for _ in range(40) for o in [_split(rng, n, dim)]}
    if rng.random() < 0.3:
        every |= {tuple(_split(rng, n - 1, dim)) for _ in range(4)}
    if rng.random() < 0.6:
        # along the same coordinates
        on = rng.sample(range(dim), rng.randint(2, dim))
        n = len(on) + rng.choice([1, 1, 2]) if len(on) < 3 else 4
        every = {o for o in itertools.product(range(n + 1), repeat=dim) if sum(o) == n and all((o[k] > 0) == (k in on) for k in range(dim))}
    some = sorted(every)
    rng.shuffle(some)
    for o in some[:rng.choice([2, 3, 4])]:
        fac = [[spec['fields'][0], list(o), 1]]
        if rng.random() < 0.25:
            fac.append([spec['fields'][0], [0] * dim, 1])
        spec['eqs'][0].append([rng.choice([-1, 1, 2]), 1, fac])
    return spec


def _split(rng, n, dim):
    o = [0] * dim
    for _ in range(n):
        o[rng.randrange(dim)] += 1
    return o


def gen_others(rng, spec, n):
    """Other systems of the session, with the same names in other roles or orders."""
    out = []
    for _ in range(n):
        d = len(spec['coords'])
        if rng.random() < 0.6:
            s = copy.deepcopy(spec)
            at = list(range(d))
            rng.shuffle(at)
            s['coords'] = [s['coords'][i] for i in at]
            if rng.random() < 0.5:
                for eq in s['eqs']:
                    for t in eq:
                        t[0] = rng.choice([-1, 1, 2])
        else:
            d = rng.choice([1, 2, d])
            c = (spec['coords'] + [x for x in ['x', 'y', 'z'] if x not in spec['coords']])
            rng.shuffle(c)
            names = {'coords': c, 'fields': spec['fields'] + ['zz'], 'consts': spec['cfuncs'] + ['mu'], 'cfuncs': spec['consts'] + ['k7'], 'exog': ['F', 'G']}
            for k in ('fields', 'consts', 'cfuncs', 'exog'):
                names[k] = [x for x in names[k] if x not in c[:d]]
            if not all(names.values()):
                continue
            s = pdes.gen_spec(rng, dim=d, nf=min(2, len(names['fields'])), order=2, nterms=(1, 2), maxdeg=2, names=names)
        out.append({'spec': s, 'kind': rng.choice(['FD', 'FD', 'manifold']), 'after': rng.random() < 0.4})
    return out


def run_others(ctx, case, after):
    """Generates and uses the other systems of the session."""
    for k, o in enumerate(case.get('others', [])):
        if o['after'] == after:
            pde = pdes.build(o['spec'])
            w = World(pde, o['spec']['coords'], [1.0] * len(o['spec']['coords']), case['mseed'] + 31 * k)
            cls, _ = ctx.must('raises', 'generating another system', program, pde, o['kind'], 'Other', 'simgen_other%d' % k)
            sh = [6] * len(w.coords)
            w.trend(w.instance(cls, sh, o['kind']), 0.5, sh)
            ctx.count('other_system')


def add_exotic(rng, spec, wrapmax=9):
    """Reciprocals, fractional powers and elementary functions of fields, coefficients and their derivatives."""
    for eq in spec['eqs']:
        if not eq:
            continue
        t = rng.choice(eq)
        x = [f for f in t[2] if f[0] not in spec['consts']]
        d = [0] * len(spec['coords'])
        kind = rng.choice(['wrap', 'wrap', 'recip', 'frac'])
        if kind == 'wrap':
            if x and rng.random() < 0.6:
                y = rng.choice(x)
                if isinstance(y[2], int) and sum(y[1]) <= wrapmax:
                    y[2:] = [y[2], rng.choice(['exp', 'sin', 'cos', 'tanh'])]
            else:
                t[2].append([rng.choice(spec['fields']), d, 1, rng.choice(['exp', 'sin', 'cos', 'tanh'])])
        elif kind == 'recip':
            t[2].append([rng.choice(spec['fields']), d, rng.choice([-1, -2])])
        else:
            t[2].append([rng.choice(spec['fields']), d, rng.choice(['1/2', '3/2', '-1/2'])])


def add_sources(rng, spec, names):
    d = [0] * len(spec['coords'])
    pool = (names or {}).get('exog', ['F', 'G', 'Q'])
    cf = (names or {}).get('cfuncs', ['k0', 'bb'])
    if rng.random() < 0.6:
        for n in pool[:rng.choice([2, 3])]:
            rng.choice(spec['eqs']).append([1, 1, [[n, d, 1], [rng.choice(spec['fields']), d, rng.choice([0, 1])]]])
            spec['exog'].append(n)
    else:
        for n in cf[:2]:
            rng.choice(spec['eqs']).append([1, 1, [[n, d, 1]]])
            spec['cfuncs'].append(n)
    for eq in spec['eqs']:
        for t in eq:
            t[2] = [f for f in t[2] if f[2] != 0]


EXTRAS = ['max', 'max', 'min', 'max3', 'upwind', 'abs', 'sign', 'piecewise', 'mod', 'pi', 'time', 'season', 'power', 'exponential', 'atan2', 'log']


PLACED = ['place', 'slope', 'fall', 'corner']


def gen_extras(rng, n=3, where=False):
    """Terms made of other functions than those of gen_spec: limiters, switches, seasons, .. and coordinates if `where`"""
    kinds = EXTRAS + (4 * PLACED if where else [])
    return [{'kind': rng.choice(kinds), 'eq': rng.random(), 'a': rng.random(), 'b': rng.random(), 'c': rng.choice([1, 2, 3])}
            for _ in range(rng.randint(1, n))]


def add_extras(pde, extras):
    import sympy as sp
    from sympy.core.function import AppliedUndef
    from sympkf.symbolic import PDESystem
    eqs = list(pde.equations)
    t = sp.Symbol('t')
    t = next((s for eq in eqs for s in eq.atoms(sp.Symbol) if str(s) == 't'), t)
    fs = set()
    ds = set()
    for eq in eqs:
        fs |= eq.atoms(AppliedUndef)
        ds |= {d for d in eq.args[1].atoms(sp.Derivative) if d.derivative_count == 1 and isinstance(d.args[0], AppliedUndef)}
    fs, ds = sorted(fs, key=str), sorted(ds, key=str)
    xs = list(pde.spatial_coordinates)
    for x in extras:
        a, b = fs[int(x['a'] * len(fs))], fs[int(x['b'] * len(fs))]
        d = ds[int(x['b'] * len(ds))] if ds else b
        at = xs[int(x['b'] * 7) % len(xs)]
        half = sp.Rational(1, 2)
        mid = sp.Rational(13, 10)
        term = {'max': lambda: sp.Max(a, mid), 'min': lambda: sp.Min(a, b), 'max3': lambda: sp.Max(a, b, 1),
                'upwind': lambda: sp.Max(a - mid, 0) * d + sp.Min(d, 0), 'abs': lambda: sp.Abs(a - mid), 'sign': lambda: b * sp.sign(a - mid),
                'piecewise': lambda: sp.Piecewise((a, b > mid), (sp.Integer(2), b > 1), (b ** 2, True)), 'mod': lambda: sp.Mod(a, half),
                'pi': lambda: sp.pi * a, 'time': lambda: t * a, 'season': lambda: a * sp.sin(2 * sp.pi * t / 7), 'power': lambda: a ** sp.Symbol('n_p'),
                'place': lambda: at ** 2 * a, 'slope': lambda: sp.sin(3 * at) * d, 'fall': lambda: sp.exp(-sum(z ** 2 for z in xs)) * (1 + t),
                'corner': lambda: sp.Max(at, a) + xs[-1], 'exponential': lambda: 2 ** a, 'atan2': lambda: sp.atan2(a, b), 'log': lambda: sp.log(a)}[x['kind']]()
        i = int(x['eq'] * len(eqs))
        lhs, rhs = eqs[i].args
        eqs[i] = eqs[i].func(lhs, rhs + x['c'] * term)
    return PDESystem(eqs)


def builder(pde, kind, name):
    import sympkf.symbolic.model_builder_FD as fd
    import sympkf.symbolic.model_builder_manifold as mf
    return (fd.FDModelBuilder if kind == 'FD' else mf.ManifoldModelBuilder)(pde, class_name=name)


def program(pde, kind='FD', name='SimNum', mod='simgen_num'):
    code = builder(pde, kind, name).code
    return getattr(gen_module(code, mod), name), code


class Spectral:
    """A periodic base space that differentiates band-limited fields exactly."""

    def __init__(self, coords, shape, lengths):
        self.coords = [S.clean(c) for c in coords]
        self.shape = tuple(shape)
        self.lengths = tuple(lengths)
        self.dimension = len(self.coords)
        self.calls = 0

    def diff(self, f, *orders):
        self.calls += 1
        f = np.asarray(f)
        out = np.fft.fftn(f)
        for k in range(0, len(orders), 2):
            ax = self.coords.index(orders[k])
            n = self.shape[ax]
            w = 2 * np.pi * np.fft.fftfreq(n, self.lengths[ax] / n)
            sh = [1] * self.dimension
            sh[ax] = n
            out = out * ((1j * w) ** orders[k + 1]).reshape(sh)
        return np.fft.ifftn(out).real


class World:
    """A system on periodic grids: smooth exact fields, and model instances as a user builds them."""

    def __init__(self, pde, coords, lengths, seed, modes=2, amp=0.3, lo=1.2):
        self.pde = pde
        self.coords = [str(c) for c in coords]
        self.lengths = list(lengths)
        self.seed = seed
        self.modes = modes
        self.amp = amp
        self.lo = lo
        from sympy.core.function import AppliedUndef
        from sympy import Symbol
        self.scales = {}
        self.values = {}
        self.fields = [eq.args[0].args[0] for eq in pde.equations]
        fs = set()
        for eq in pde.equations:
            fs |= eq.atoms(AppliedUndef)
        self.cfuncs = sorted((f for f in fs if f not in self.fields and 't' not in {str(s) for s in f.free_symbols}), key=str)
        self.exog = sorted((f for f in fs if f not in self.fields and f not in self.cfuncs), key=str)
        sy = set()
        for eq in pde.equations:
            sy |= eq.args[1].atoms(Symbol)
        self.consts = sorted((s for s in sy if str(s) not in self.coords and str(s) != 't'), key=str)

    def F(self, tag=0):
        return S.Fields(self.seed + 1009 * tag, self.coords, self.lengths, self.modes, self.amp, self.lo)

    def axes(self, shape):
        return [np.arange(n) * (l / n) for n, l in zip(shape, self.lengths)]

    def grid(self, shape):
        return np.meshgrid(*self.axes(shape), indexing='ij') if len(shape) else []

    def ev(self, t, shape, tag=0, over=None):
        """Coefficients do not depend on the tag; the prognostic fields do."""
        X = self.grid(shape)
        env = dict(zip(self.coords, X))
        env['t'] = t
        env.update(self.values)
        env.update(over or {})
        return _Ev(self, env, tag)

    def sample(self, f, t, shape, tag=0):
        v = self.ev(t, shape, tag)(f)
        return np.array(np.broadcast_to(v, tuple(shape)) if len(f.args) - (1 if 't' in {str(s) for s in f.free_symbols} else 0) == len(shape) else v)

    def state(self, t, shape, tag=0):
        return np.array([self.sample(f, t, shape, tag) for f in self.fields])

    def exact(self, t, shape, tag=0, over=None):
        ev = self.ev(t, shape, tag, over)
        return np.array([np.broadcast_to(ev(eq.args[1]), tuple(shape)) for eq in self.pde.equations])

    def kwargs(self, shape):
        from checks.nummodel import const_value
        kw = {S.clean(c): self.values.get(str(c), const_value(self.seed, str(c))) for c in self.consts}
        kw.update({S.clean(f.func): self.sample(f, 0.0, shape) for f in self.cfuncs})
        return kw

    def subclass(self, cls, shape, shift=None, fail=None, factor=None):
        """The user's subclass giving the exogenous functions; `shift` rolls them, `fail` raises on demand,
        `factor(t, state)` scales them."""
        if not self.exog:
            return cls
        byname = {S.clean(f.func): f for f in self.exog}
        world = self

        class User(cls):
            def compute_exogenous(self, t, state):
                if fail is not None:
                    fail(t)
                out = []
                for n in self.exogenous_functions:
                    v = world.sample(byname[n], t, shape)
                    if shift is not None and v.ndim == len(shape):
                        v = np.roll(v, shift, axis=range(len(shape)))
                    out.append(v if factor is None else v * factor(t, state))
                return out
        return User

    def instance(self, cls, shape, kind='FD', shift=None, fail=None, factor=None, **more):
        kw = self.kwargs(shape)
        if shift is not None:
            kw = {k: np.roll(v, shift, axis=range(len(shape))) if isinstance(v, np.ndarray) and v.ndim == len(shape) else v for k, v in kw.items()}
        kw.update(more)
        cls = self.subclass(cls, shape, shift, fail, factor)
        if kind == 'FD':
            return cls(shape=self.as_given(shape), lengths=self.as_given(self.lengths), **kw)
        self.base = Spectral(self.coords, shape, self.lengths)
        return cls(self.base, **kw)

    def as_given(self, seq):
        """Shapes and lengths are given as tuples, lists or arrays."""
        kind = self.seed % 4
        return list(seq) if kind == 1 else np.array(seq) if kind == 2 else tuple(seq)

    def order(self, model):
        """Positions of the model's prognostic functions in our order."""
        ours = [S.clean(f.func) for f in self.fields]
        return [ours.index(n) for n in model.prognostic_functions]

    def to_model(self, model, state):
        return np.ascontiguousarray(state[self.order(model)])

    def from_model(self, model, state):
        out = np.empty_like(state)
        for k, i in enumerate(self.order(model)):
            out[i] = state[k]
        return out

    def trend(self, model, t, shape, tag=0):
        return self.from_model(model, np.array(model.trend(t, self.to_model(model, self.state(t, shape, tag)))))


class _Ev(S.Eval):
    def __init__(self, world, env, tag):
        self.world = world
        self.tagged = world.F(tag)
        self.names = {str(f.func) for f in world.fields}
        super().__init__(world.F(0), env, world.seed)

    def func(self, f, orders=None):
        keep = self.fields
        if str(f.func) in self.names:
            self.fields = self.tagged
        try:
            return super().func(f, orders) * self.world.scales.get(str(f.func), 1)
        finally:
            self.fields = keep


def shrink_spec(case, key='spec'):
    for s in pdes.shrink_spec(case[key]):
        yield dict(copy.deepcopy(case), **{key: s})
