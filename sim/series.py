"""Truncated multivariate power series on floats, for ensembles of fields.

A series is an array: axis 0 runs over the members of the ensemble (length 1
for a deterministic quantity), the others over powers of the expansion
variables.  A coefficient that a truncation no longer determines is NaN.
"""
import numpy as np


def mul(a, b):
    if np.count_nonzero(a) > np.count_nonzero(b):
        a, b = b, a
    m = max(a.shape[0], b.shape[0])
    out = np.zeros((m,) + tuple(max(p, q) for p, q in zip(a.shape[1:], b.shape[1:])))
    shape = out.shape[1:]
    nz = np.argwhere(np.any(a != 0, axis=0))
    bnz = np.any(b != 0)
    if not bnz:
        return out
    for idx in nz:
        lead = a[(slice(None),) + tuple(idx)]
        lead = lead.reshape((-1,) + (1,) * len(shape))
        src = b[(slice(None),) + tuple(slice(0, n - i) for n, i in zip(shape, idx))]
        dst = tuple(slice(i, i + s) for i, s in zip(idx, src.shape[1:]))
        z = src == 0
        out[(slice(None),) + dst] += np.where(z, 0.0, lead * src)
    return out


def const(c, shape):
    out = np.zeros((1,) + tuple(shape))
    out[(0,) + (0,) * len(shape)] = c
    return out


def _compose(a, lead, coef):
    """lead * sum_k coef(k) h**k with a = a0*(1+h) or a = a0 + h handled by the caller through h."""
    h = a
    n = sum(s - 1 for s in h.shape[1:])
    shape = h.shape[1:]
    out = const(coef(0), shape) + np.zeros((h.shape[0],) + shape)
    p = None
    for k in range(1, n + 1):
        p = h if p is None else mul(p, h)
        if not np.any(p != 0):
            break
        out = out + coef(k) * p
    return lead * out


def _split(a):
    nd = a.ndim - 1
    z = (slice(None),) + (0,) * nd
    a0 = a[z].reshape((-1,) + (1,) * nd)
    h = a.copy()
    h[z] = 0
    return a0, h


def power(a, r):
    ri = int(r)
    if ri == r and ri >= 0:
        out = const(1.0, a.shape[1:])
        base = a
        while ri:
            if ri & 1:
                out = mul(out, base)
            ri >>= 1
            if ri:
                base = mul(base, base)
        return out
    a0, h = _split(a)
    if ri != r and np.any(a0 < 0):
        raise ArithmeticError('fractional power of a negative series')
    h = h / a0
    c = [1.0]
    for k in range(1, 64):
        c.append(c[-1] * (r - k + 1) / k)
    return _compose(h, np.abs(a0) ** r if ri != r else a0 ** float(r), lambda k: c[k])


def exp(a):
    from math import factorial
    a0, h = _split(a)
    return _compose(h, np.exp(a0), lambda k: 1.0 / factorial(k))


def sin(a):
    from math import factorial
    a0, h = _split(a)
    s = _compose(h, 1.0, lambda k: 0.0 if k % 2 == 0 else (-1.0) ** (k // 2) / factorial(k))
    c = _compose(h, 1.0, lambda k: 0.0 if k % 2 else (-1.0) ** (k // 2) / factorial(k))
    return np.sin(a0) * c + np.cos(a0) * s


def cos(a):
    from math import factorial
    a0, h = _split(a)
    s = _compose(h, 1.0, lambda k: 0.0 if k % 2 == 0 else (-1.0) ** (k // 2) / factorial(k))
    c = _compose(h, 1.0, lambda k: 0.0 if k % 2 else (-1.0) ** (k // 2) / factorial(k))
    return np.cos(a0) * c - np.sin(a0) * s


def diff(a, axis, n=1):
    """n-th derivative along expansion axis (0-based among the expansion axes)."""
    ax = axis + 1
    for _ in range(n):
        K = a.shape[ax]
        out = np.full(a.shape, np.nan)
        k = np.arange(1, K).reshape([-1 if i == ax else 1 for i in range(a.ndim)])
        src = np.take(a, np.arange(1, K), axis=ax) * k
        sl = [slice(None)] * a.ndim
        sl[ax] = slice(0, K - 1)
        out[tuple(sl)] = src
        if not np.any(a != 0):
            out[...] = 0
        a = out
    return a


def mean(a):
    return a.mean(axis=0, keepdims=True)


def at0(a):
    """Value at the expansion point, one per member."""
    return a[(slice(None),) + (0,) * (a.ndim - 1)]


def inv_matrix(m):
    """Inverse of a small symmetric matrix (list of lists) of series."""
    n = len(m)
    if n == 1:
        return [[power(m[0][0], -1)]]

    def det(mat):
        if len(mat) == 1:
            return mat[0][0]
        out = None
        for j in range(len(mat)):
            minor = [row[:j] + row[j + 1:] for row in mat[1:]]
            t = mul(mat[0][j], det(minor)) * (-1) ** j
            out = t if out is None else out + t
        return out
    d = power(det(m), -1)
    res = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [row[:i] + row[i + 1:] for k, row in enumerate(m) if k != j]
            res[i][j] = mul(det(minor) * (-1) ** (i + j), d)
    return res
