"""Case generation that needs no import of the code under test."""


def gen_window(rng, nmax=8, back=0.0, far=0.0):
    if far and rng.random() < far:          # times that are close to one another for their size, or close at all
        n = rng.choice([2, 3, 4, nmax])
        if rng.random() < 0.4:              # steps that are nearly equal
            t, dt = rng.choice([0.0, 0.5, -3.0]), rng.choice([1e-3, 0.01, 0.125])
            w = [t]
            for _ in range(n):
                w.append(w[-1] + dt * (1 + rng.choice([0.0, 0.4, -0.3, 1e-2, -2e-3, 1e-6])))
            return w
        t, dt = rng.choice([(1e6, 0.25), (1e5, 0.125), (2.0 ** 24, 1.0), (0.0, 1e-9), (0.0, 2.0 ** -32), (1.0, 1e-7), (-1e6, 0.5)])
        return [t + k * dt for k in range(n)]
    if back and rng.random() < back:        # integration backward in time
        w = gen_window(rng, nmax)
        return [w[0] - (t - w[0]) for t in w]
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, nmax])
    t = rng.choice([0.0, 0.0, 1.5, -2.25, 10.0])
    if rng.random() < 0.5:
        dt = rng.choice([0.125, 0.25, 0.0625, 0.1, 0.3])
        return [t + k * dt for k in range(n)]
    w = [t]
    for _ in range(n - 1):
        w.append(w[-1] + rng.choice([0.0625, 0.125, 0.25, 0.1875, 0.05]))
    return w


def gen_saved(rng, window):
    k = rng.random()
    if k < 0.25:
        return {'kind': 'none'}
    if k < 0.4:
        return {'kind': rng.choice(['float', 'np.float64']), 'i': [rng.randrange(len(window))]}
    n = rng.randint(1, len(window))
    idx = rng.sample(range(len(window)), n)
    if rng.random() < 0.6:
        idx.sort()
    if rng.random() < 0.15:
        idx = idx + [idx[0]]
    return {'kind': rng.choice(['list', 'tuple', 'array']), 'i': idx}


def window_saved(rng, nmax=8, back=0.0, far=0.0):
    w = gen_window(rng, nmax, back, far)
    return w, gen_saved(rng, w)


def gen_flavour(rng, alias=False):
    """How trends and states are held: trends that return arrays they own, read-only or shared ones, ..."""
    kinds = ['owned', 'bcast'] + (['alias', 'view'] if alias else [])
    return {'f': 'smooth' if rng.random() < 0.7 else rng.choice(kinds),
            's': 'plain' if rng.random() < 0.7 else rng.choice(['readonly', 'int', 'strided'])}
