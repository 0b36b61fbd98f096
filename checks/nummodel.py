"""Numerical models generated by the code under test from a spec."""
import numpy as np

from checks import pdes
from checks.models import gen_module


def fd_class(spec, name='SimNum', modname='simgen_num', builder='FD'):
    import sympkf.symbolic.model_builder_FD as fd
    import sympkf.symbolic.model_builder_manifold as mf
    pde = pdes.build(spec, name=name)
    b = (fd.FDModelBuilder if builder == 'FD' else mf.ManifoldModelBuilder)(pde, class_name=name)
    code = b.code
    mod = gen_module(code, modname)
    return getattr(mod, name), code


def smooth(seed, name, X, L, lo=0.6, amp=0.35, tfac=0.0):
    """A periodic smooth function of the coordinates (and of time)."""
    h = int.from_bytes(name.encode(), 'little') % (2 ** 31)
    r = np.random.RandomState((seed * 7919 + h) % (2 ** 32))
    out = lo + 0.2 * r.uniform(-1, 1) + 0 * sum(X)
    for _ in range(3):
        k = [int(r.randint(0, 3)) for _ in X]
        ph = r.uniform(0, 2 * np.pi)
        out = out + amp * r.uniform(-1, 1) * np.sin(sum(2 * np.pi * ki * x / l for ki, x, l in zip(k, X, L)) + ph + tfac)
    return out


def grids(shape, lengths):
    ax = [np.arange(n) * (l / n) for n, l in zip(shape, lengths)]
    return np.meshgrid(*ax, indexing='ij')


def const_value(seed, name):
    h = int.from_bytes(name.encode(), 'little') % (2 ** 31)
    return float(np.random.RandomState((seed * 31 + h) % (2 ** 32)).uniform(0.05, 0.3))


def instance(cls, spec, seed, shape, lengths, **kw):
    """Build the model as a user does: a subclass for the exogenous functions,
    constants and constant functions through keyword arguments."""
    X = grids(shape, lengths)
    args = {n: const_value(seed, n) for n in spec['consts']}
    args.update({n: smooth(seed, n, X, lengths) for n in spec['cfuncs']})
    if spec['exog']:
        class Sub(cls):
            def compute_exogenous(self, t, state):
                return [smooth(seed, n, X, lengths, tfac=1.3 * t) for n in self.exogenous_functions]
        cls = Sub
    args.update(kw)
    return cls(shape=tuple(shape), lengths=tuple(lengths), **args)


def state(spec, seed, shape, lengths, tag=0):
    X = grids(shape, lengths)
    return np.array([smooth(seed + 101 * tag, n, X, lengths, lo=1.0) for n in spec['fields']])
