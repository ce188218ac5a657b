"""Workload generators shared by the property modules."""
import logging
import os

import numpy as np

logging.disable(logging.CRITICAL)


def weights(rng, n, kind=None):
    kind = kind or rng.choice(['unit', 'int', 'float', 'wide', 'none'])
    if kind == 'none':
        return None, kind
    if kind == 'unit':
        return np.ones(n), kind
    if kind == 'int':
        return rng.integers(1, int(rng.choice([3, 8, 40])), n).astype(float), kind
    if kind == 'float':
        return rng.uniform(0.05, 3, n) * 10. ** rng.integers(-3, 4), kind
    if kind == 'wide':
        return np.exp(rng.normal(0, 3, n)), kind
    raise ValueError(kind)


def params(rng, n, p, ties=True):
    """n x p array with different locations, scales, correlations, shapes and ties."""
    x = rng.normal(size=(n, p))
    for j in range(p):
        k = rng.integers(0, 6)
        if k == 1:
            x[:, j] = rng.exponential(size=n)
        elif k == 2:
            x[:, j] = rng.uniform(-1, 1, n)
        elif k == 3 and ties:
            x[:, j] = np.round(x[:, j] * 2) / 2
        elif k == 4:
            x[:, j] = np.cumsum(x[:, j]) * 0.3
    if p > 1 and rng.random() < 0.7:
        A = np.eye(p) + rng.normal(size=(p, p)) * 0.5
        x = x.dot(A)
    sc = 10. ** rng.uniform(-4, 4, p)
    off = rng.normal(size=p) * sc * rng.choice([0, 1, 30], p)
    return x * sc + off


def loglikes(rng, n):
    return rng.exponential(3, n) + rng.choice([0, 10, 500.5, -40])


NAME_POOL = ['omegabh2', 'omegach2', 'theta', 'tau', 'logA', 'ns', 'mnu', 'w', 'H0*', 'sigma8*', 'A', 'AL', 'alpha', 'a.b',
             'n_s', 'r02', 'x', 'y', 'z', 'rdrag*', 'chi2_BAO*', 'S8']


def names(rng, p, derived=True, dots=False):
    pool = [s.rstrip('*') for s in NAME_POOL]
    if not dots:
        pool = [s for s in pool if '.' not in s]
    base = list(rng.choice(pool, min(p, len(pool)), replace=False))
    while len(base) < p:
        base.append('extra%d' % len(base))
    return [str(b) for b in base]


LABELS = [r'\Omega_b h^2', r'\tau', 'x', r'n_{\rm s}', r'{\rm{ln}}(10^{10} A_s)', r'H_0', r'\sigma_8', r'100\theta_{MC}',
          'a b', r'\alpha', r'w_0', r'\chi^2_{\rm BAO}']


def labels(rng, p):
    return [str(LABELS[i % len(LABELS)]) + ('' if i < len(LABELS) else '_%d' % i) for i in rng.permutation(p)]


NOBURN = {'ignore_rows': 0}


def mc(samples, weights=None, loglikes=None, names=None, settings=None, **kw):
    """MCSamples built through the public constructor without burn-in removal."""
    from getdist import MCSamples
    st = dict(NOBURN)
    if settings:
        st.update(settings)
    return MCSamples(samples=samples, weights=weights, loglikes=loglikes, names=names, settings=st, **kw)


def wmean(x, w):
    import math
    return math.fsum((np.asarray(w, float) * np.asarray(x, float)).tolist()) / math.fsum(np.asarray(w, float).tolist())


def ref_mean(x, w):
    """Weighted mean in extended precision."""
    x = np.asarray(x, np.longdouble)
    w = np.asarray(w, np.longdouble)
    return float((x * w).sum() / w.sum())


def ref_cov(x, y, w):
    x = np.asarray(x, np.longdouble)
    y = np.asarray(y, np.longdouble)
    w = np.asarray(w, np.longdouble)
    W = w.sum()
    return float((w * (x - (x * w).sum() / W) * (y - (y * w).sum() / W)).sum() / W)


def write_chain(fn, w, ll, x, header=None, fmt='%.10e', sep=' ', comments=None):
    """Write rows as a chain file, optionally with comment lines after given row numbers."""
    rows = np.column_stack([w, ll, x]) if len(w) else np.zeros((0, 0))
    with open(fn, 'w') as f:
        if header:
            f.write(header if header.endswith('\n') else header + '\n')
        for i, r in enumerate(rows):
            if comments and i in comments:
                f.write(comments[i] + '\n')
            f.write(sep.join(fmt % v for v in r) + '\n')
    return rows


def mcmc_chain(rng, n, p=2, step=1.2):
    """A Metropolis chain with integer weights: returns weights, loglikes, samples."""
    x = rng.normal(size=p)
    L = 0.5 * x.dot(x)
    W, LL, X = [], [], []
    w = 1
    while len(W) < n:
        y = x + rng.normal(size=p) * step
        Ly = 0.5 * y.dot(y)
        if np.log(rng.random()) < L - Ly:
            W.append(w)
            LL.append(L)
            X.append(x)
            x, L, w = y, Ly, 1
        else:
            w += 1
    return np.array(W, float), np.array(LL), np.array(X)
