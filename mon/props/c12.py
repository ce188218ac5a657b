import math
import os
import re

import numpy as np

from .. import gen
from ..core import Skip

RULE = 'a case is one set of generated chains; every diagnostic number (API, attribute and report text) is recomputed by plain sums from the raw ' \
       'chains, or compared with a transformed twin; distinct = (chains, weights, parameters, tests)'
ASSUMPTIONS = ['correlation lengths where the auto-correlation stays above the cut-off for all computed lags are not judged',
               'Raftery-Lewis comparisons use the thinned indices of the public thin_indices (checked by C02)']


def chains(rng, nch=None, integer=None, p=None, n=None):
    """list of (weights, loglikes, samples): auto-correlated, different lengths, scales and offsets."""
    p = p or int(rng.integers(1, 5))
    nch = nch or int(rng.integers(1, 5) if rng.random() < 0.85 else rng.integers(5, 8))
    integer = rng.random() < 0.6 if integer is None else integer
    sc = 10. ** rng.uniform(-3, 3, p)
    off = rng.normal(size=p) * sc * rng.choice([0, 3, 30], p)
    A = np.eye(p) + (rng.normal(size=(p, p)) * 0.4 if rng.random() < 0.6 else 0)
    phi = float(rng.choice([0, 0.3, 0.8, 0.93]))
    n0 = n or int(rng.choice([120, 400, 1200]))
    out = []
    shift = float(rng.choice([0, 0.1, 1]))
    for c in range(nch):
        n = int(n0 * rng.uniform(0.5, 1.5))
        e = rng.normal(size=(n, p))
        x = np.zeros((n, p))
        x[0] = e[0]
        for i in range(1, n):
            x[i] = phi * x[i - 1] + np.sqrt(1 - phi ** 2) * e[i]
        x = (x + rng.normal(size=p) * shift).dot(A) * sc + off
        w = rng.integers(1, int(rng.choice([2, 4, 9])), n).astype(float) if integer else rng.uniform(0.1, 3, n)
        out.append((w, rng.exponential(2, n), x))
    return out, dict(p=p, nch=nch, integer=bool(integer), phi=phi, shift=shift, n0=n0)


def make(cs, names, settings=None, derived=0):
    nm = [n + '*' if i >= len(names) - derived else n for i, n in enumerate(names)]
    if len(cs) == 1:
        w, l, x = cs[0]
        return gen.mc(x, w, l, names=nm, settings=settings)
    return gen.mc([c[2] for c in cs], [c[0] for c in cs], [c[1] for c in cs], names=nm, settings=settings)


def wm(x, w):
    return np.sum(w * x) / np.sum(w)


def quant(x, w, f):
    """smallest value with at least a fraction f of the weight at or below it; None when ambiguous through rounding"""
    o = np.argsort(x, kind='stable')
    c = np.cumsum(w[o])
    t = f * c[-1]
    i = int(np.searchsorted(c, t))
    amb = min(abs(c - t)) < 1e-9 * c[-1]
    return x[o][min(i, len(o) - 1)], amb


def autocov(d, k):
    return float(np.dot(d[:-k] if k else d, d[k:])) / (d.size - k)


def corrlen(c, cut=0.05):
    """(length, judged?)"""
    below = np.nonzero(~(c > cut * c[0]))[0]
    near = np.min(np.abs(c / c[0] - cut)[1:]) < 1e-7 if c.size > 1 else False
    if not below.size or near:
        return None
    return c[0] + 2 * np.sum(c[1:below[0]])


def sections(txt, npar):
    """Parse the report."""
    L = txt.split('\n')
    out = dict(corr=[], meanvar=[], eig=[], split=[], rl=[], head=None, steps=[])
    mode = None
    for line in L:
        if line.startswith('Parameter autocorrelation lengths'):
            mode = 'corr'
        elif line.startswith('param sqrt(var'):
            mode = 'meanvar'
        elif line.startswith('var(mean)/mean(var) for eigenvalues'):
            mode = 'eig'
        elif line.startswith('Split tests'):
            mode = 'split'
            out['head'] = line
        elif line.startswith('mean convergence stats') or line.startswith('Raftery&Lewis'):
            mode = None
        elif line.startswith('chain  markov'):
            mode = 'rl'
        elif line.startswith('Parameter auto-correlations as function'):
            mode = 'steps'
        elif mode and line.strip():
            it = line.split()
            if mode == 'corr' and it[0] != 'Weight':
                out['corr'].append((it[0], float(it[1]), float(it[2]), int(it[3])))
            elif mode == 'meanvar':
                out['meanvar'].append((it[0], float(it[1])))
            elif mode == 'eig':
                out['eig'].append(float(it[1]))
            elif mode == 'split' and it[-1] in ('upper', 'lower'):
                out['split'].append((it[0], [float(v) for v in it[1:-1]], it[-1]))
            elif mode == 'rl':
                if 'Failed' in line:
                    out['rl'].append(None)
                elif len(it) == 4:
                    out['rl'].append(tuple(int(v) for v in it[1:]))
            elif mode == 'steps':
                out['steps'].append(it)
    return out


def report(rng, rec):
    cs, info = chains(rng)
    p, nch = info['p'], info['nch']
    names = ['p%s' % 'abcdef'[i] for i in range(p)]
    der = int(rng.integers(0, p)) if rng.random() < 0.4 else 0
    s = make(cs, names, derived=der)
    conf = float(rng.choice([0.95, 0.68, 0.9]))
    rec.set(conf=conf, derived=der, **info)
    fn = os.path.join(rec.tmp, 'x.converge')
    if nch == 1:
        # single chain given directly: separate chains only known for lists of chains
        s = gen.mc([cs[0][2]], [cs[0][0]], [cs[0][1]], names=[n + ('*' if i >= p - der else '') for i, n in enumerate(names)])
    txt = s.getConvergeTests(conf, writeDataToFile=True, filename=fn)
    with open(fn) as f:
        rec.eq(f.read(), txt, 'file and returned text')
    R = sections(txt, p)
    W = np.hstack([c[0] for c in cs])
    X = np.vstack([c[2] for c in cs])
    norm = W.sum()
    mean = np.array([wm(X[:, j], W) for j in range(p)])
    var = np.array([wm((X[:, j] - mean[j]) ** 2, W) for j in range(p)])
    cm = [[wm(c[2][:, j], c[0]) for j in range(p)] for c in cs]
    stars = names
    # ---- correlation lengths
    maxoff = min(len(c[0]) // 10 for c in cs)
    rec.eq([r[0] for r in R['corr']], stars, 'parameters of correlation lengths')
    for j in range(p):
        corr = np.zeros(maxoff + 1)
        for c, m in zip(cs, cm):
            d = c[0] * (c[2][:, j] - m[j])
            corr += np.array([autocov(d, k) for k in range(maxoff + 1)]) * len(d)
        corr /= norm * var[j]
        N = corrlen(corr)
        if N is not None:
            got = R['corr'][j]
            tol = 0.006 if np.mean(W) > 1 else 0.006 * N
            rec.near(got[1], N, 'weight correlation length', rtol=1e-6, atol=tol)
            rec.near(got[2], N / np.mean(W), 'sample correlation length', rtol=1e-6, atol=0.006)
            rec.near(got[3], norm / N, 'effective number of samples', rtol=1e-6, atol=1.01)
    # ---- between chains
    if nch > 1:
        rec.eq([r[0] for r in R['meanvar']], stars, 'parameters of chain means')
        for j in range(p):
            B = sum((m[j] - mean[j]) ** 2 for m in cm) / (nch - 1)
            Wv = sum(np.sum(c[0] * (c[2][:, j] - m[j]) ** 2) for c, m in zip(cs, cm)) / norm
            rec.near(R['meanvar'][j][1], np.sqrt(B / Wv), 'sqrt(var(mean)/mean(var))', rtol=1e-6, atol=6e-5)
        np_ = p - der
        M = sum(np.outer(np.array(m) - mean, np.array(m) - mean) for m in cm)[:np_, :np_] / (nch - 1)
        C = sum(np.cov(c[2].T, aweights=c[0], ddof=0).reshape(p, p) for c in cs)[:np_, :np_] / nch
        sd = np.sqrt(np.diag(C))
        ev = np.sort(np.linalg.eigvals(np.linalg.solve(C / np.outer(sd, sd), M / np.outer(sd, sd))).real)
        rec.near(s.getGelmanRubinEigenvalues(), ev, 'Gelman-Rubin eigenvalues', rtol=1e-5, atol=1e-6 * ev[-1] + 1e-12)
        rec.near(s.getGelmanRubin(), ev[-1], 'Gelman-Rubin', rtol=1e-5, atol=1e-12)
        rec.near(s.GelmanRubin, ev[-1], 'stored Gelman-Rubin', rtol=1e-5, atol=1e-12)
        rec.near(R['eig'], ev, 'eigenvalues in report', rtol=1e-5, atol=6e-6)
        k = int(rng.integers(1, p + 1))
        M = sum(np.outer(np.array(m) - mean, np.array(m) - mean) for m in cm)[:k, :k] / (nch - 1)
        C = sum(np.cov(c[2].T, aweights=c[0], ddof=0).reshape(p, p) for c in cs)[:k, :k] / nch
        sd = np.sqrt(np.diag(C))
        ev = np.sort(np.linalg.eigvals(np.linalg.solve(C / np.outer(sd, sd), M / np.outer(sd, sd))).real)
        rec.near(s.getGelmanRubin(k), ev[-1], 'Gelman-Rubin of the first parameters', rtol=1e-5, atol=1e-9)
    else:
        rec.check(not R['meanvar'] and not R['eig'], 'no between-chain statistics for one chain')
    # ---- splits
    rec.check('limit=%.0f%%' % (100 * conf) in R['head'], 'limit of the split test', head=R['head'])
    rec.eq([(r[0], r[2]) for r in R['split']], [(n, e) for n in stars for e in ('upper', 'lower')], 'rows of the split tests')
    cw = np.cumsum(W)
    for j in range(p):
        for e, f in enumerate((1 - (1 - conf) / 2, (1 - conf) / 2)):
            q, amb = quant(X[:, j], W, f)
            exp = []
            for ns in (2, 3, 4):
                # each split holds rows up to the stated fraction of the weight
                ed = [0] + [int(np.searchsorted(cw, norm * i / ns)) for i in range(1, ns)] + [len(W)]
                amb = amb or any(np.min(np.abs(cw - norm * i / ns)) < 1e-9 * norm for i in range(1, ns))
                tot = 0
                for a, b in zip(ed[:-1], ed[1:]):
                    v, am = quant(X[a:b, j], W[a:b], f)
                    amb = amb or am
                    tot += (v - q) ** 2
                exp.append(np.sqrt(tot / ns / var[j]))
            if not amb:
                rec.near(R['split'][2 * j + e][1], exp, 'split tests', rtol=1e-4, atol=6e-5)
                rec.ev('split rows judged')
    # ---- Raftery-Lewis
    integer = np.all(W == np.round(W))
    if integer:
        exp = rl(s, cs, X, W, p - der, conf, rec)
        rec.eq(len(R['rl']), nch, 'Raftery-Lewis chains')
        for a, b in zip(R['rl'], exp):
            if b is not None:
                rec.eq(a, b, 'Raftery-Lewis statistics', all=R['rl'], expected_all=exp)
                rec.ev('RL judged')
    else:
        rec.check(not R['rl'], 'Raftery-Lewis only for integer weights')
    # ---- auto-correlations against separation of thinned samples
    if integer:
        R2 = sections(s.getConvergeTests(conf, what=('CorrSteps',)), p)['steps']
        if R2:
            seps = [int(v) for v in R2[0]]
            thin = seps[0]
            rec.eq(seps, [thin * (i + 1) for i in range(len(seps))], 'separations')
            rec.eq([r[0] for r in R2[1:]], stars, 'parameters of the auto-correlations by separation')
            zs = [[(x_ - m_)[s.thin_indices(thin, c[0])] for x_, m_ in zip(c[2].T, m)] for c, m in zip(cs, cm)]
            for j in range(p):
                exp = [np.mean([autocov(z[j], k) for z in zs]) / var[j] for k in range(1, len(seps) + 1)]
                rec.near([float(v) for v in R2[j + 1][1:1 + len(seps)]], exp, 'auto-correlations by separation', rtol=1e-6, atol=6e-4)
            rec.ev('separations judged', len(seps))
    # ---- summary text
    t = s.getNumSampleSummaryText()
    rec.check('using %d rows, %d parameters' % (len(W), p) in t, 'rows and parameters', text=t)
    m = re.search(r'mean weight (\S+), tot weight (\S+)', t)
    rec.near([float(m.group(1)), float(m.group(2))], [norm / len(W), norm], 'weights in summary', rtol=1e-9)
    m = re.search(r'max\(w\): (\d+)', t)
    rec.near(float(m.group(1)), norm / W.max(), 'single samples', rtol=1e-9, atol=0.51)
    m = re.search(r'sum\(w\^2\): (\d+)', t)
    rec.near(float(m.group(1)), norm ** 2 / np.sum(W ** 2), 'effective weighted samples', rtol=1e-9, atol=1.01)
    # ---- subsets of tests
    what = [str(q) for q in ('MeanVar', 'GelmanRubin', 'SplitTest', 'CorrLengths') if rng.random() < 0.5]
    r2 = sections(s.getConvergeTests(conf, what=what), p)
    for key, wn in (('corr', 'CorrLengths'), ('meanvar', 'MeanVar'), ('eig', 'GelmanRubin'), ('split', 'SplitTest')):
        rec.eq(r2[key], R[key] if wn in what else [], 'test run only when asked', what=what)
    rec.sig('report', nch, p, der, info['integer'], info['phi'], info['n0'], conf)


def rl(s, cs, X, W, npm, conf, rec):
    """Raftery & Lewis by plain counting. None where the chain is too short to judge."""
    out = []
    lims = [1 - (1 - conf) / 2, (1 - conf) / 2]
    hardest, hend = -1, 0
    for w, l, x in cs:
        thin, burn, res = int(round(w.max())), 0, None
        bad = False
        for j in range(npm):
            for e in (0, 1):
                u, _ = quant(x[:, j], w, lims[e])
                while True:
                    z = [0 if v >= u else 1 for v in x[s.thin_indices(thin, w), j]]
                    if len(z) < 3:
                        bad = True
                        break
                    T = {}
                    for a, b, c in zip(z, z[1:], z[2:]):
                        T[a, b, c] = T.get((a, b, c), 0) + 1
                    g = 0.
                    for (a, b, c), v in T.items():
                        f = sum(T.get((a, b, q), 0) for q in (0, 1)) * sum(T.get((q, b, c), 0) for q in (0, 1)) / sum(
                            T.get((q, b, r), 0) for q in (0, 1) for r in (0, 1))
                        g += 2 * v * math.log(v / f)
                    if abs(g - 2 * math.log(len(z) - 2)) < 1e-9:
                        bad = True
                    if g < 2 * math.log(len(z) - 2):
                        break
                    thin += 1
                if bad:
                    break
                up = sum(v for k, v in T.items() if k[1:] == (0, 1))
                dn = sum(v for k, v in T.items() if k[1:] == (1, 0))
                if not up or not dn:
                    bad = True
                    break
                al = up / (up + sum(v for k, v in T.items() if k[1:] == (0, 0)))
                be = dn / (dn + sum(v for k, v in T.items() if k[1:] == (1, 1)))
                if abs(1 - al - be) < 1e-12:
                    bad = True
                    break
                t = math.log((al + be) * 0.001 / max(al, be)) / math.log(abs(1 - al - be))
                if int(t + 1) * thin > burn:
                    burn, hardest, hend = int(t + 1) * thin, j, e
            if bad:
                break
        if bad:
            out.append(None)
            # the hardest parameter carries over to later chains, whose thinning is then not judged
            out += [None] * (len(cs) - len(out))
            return out
        mt = thin
        h = max(hardest, 0)
        u, _ = quant(X[:, h], W, 1 - (1 - conf) / 2 if hend == 0 else (1 - conf) / 2)
        while True:
            z = [0 if v >= u else 1 for v in x[s.thin_indices(thin, w), h]]
            if len(z) < 3:
                bad = True
                break
            T = {}
            for a, b in zip(z, z[1:]):
                T[a, b] = T.get((a, b), 0) + 1
            g = 0.
            for (a, b), v in T.items():
                f = sum(T.get((a, q), 0) for q in (0, 1)) * sum(T.get((q, b), 0) for q in (0, 1)) / (len(z) - 1.)
                g += 2 * v * math.log(v / f)
            if abs(g - math.log(len(z) - 1)) < 1e-9:
                bad = True
            if g < math.log(len(z) - 1):
                break
            thin += 1
        out.append(None if bad else (mt, thin, burn))
    return out


def invariance(rng, rec):
    """Chain order, affine maps, linear mixing, and weight scaling."""
    cs, info = chains(rng, nch=int(rng.integers(2, 5)))
    p = info['p']
    names = ['p%s' % 'abcdef'[i] for i in range(p)]
    s = make(cs, names)
    rec.set(**info)
    what = ['MeanVar', 'GelmanRubin', 'SplitTest', 'CorrLengths']
    A = sections(s.getConvergeTests(what=what), p)
    e0 = s.getGelmanRubinEigenvalues()
    # order
    o = rng.permutation(len(cs))
    t = make([cs[i] for i in o], names)
    B = sections(t.getConvergeTests(what=what), p)
    rec.near([r[1:] for r in B['corr']], [r[1:] for r in A['corr']], 'correlation lengths do not depend on chain order', rtol=0.01, atol=1.01)
    rec.near([r[1] for r in B['meanvar']], [r[1] for r in A['meanvar']], 'chain means statistic does not depend on chain order', rtol=1e-6, atol=2e-4)
    rec.near(t.getGelmanRubinEigenvalues(), e0, 'Gelman-Rubin does not depend on chain order', rtol=1e-5, atol=1e-9 * e0.max())
    # affine per parameter
    a = 2. ** rng.integers(-6, 7, p) * rng.choice([-1, 1], p)
    b = rng.normal(size=p) * a * np.std(cs[0][2], axis=0)
    t = make([(w, l, x * a + b) for w, l, x in cs], names)
    B = sections(t.getConvergeTests(what=what), p)
    rec.near([r[1:] for r in B['corr']], [r[1:] for r in A['corr']], 'correlation lengths invariant under affine maps', rtol=0.01, atol=1.01)
    rec.near([r[1] for r in B['meanvar']], [r[1] for r in A['meanvar']], 'chain means statistic invariant under affine maps', rtol=1e-6, atol=2e-4)
    rec.near(t.getGelmanRubinEigenvalues(), e0, 'Gelman-Rubin invariant under affine maps', rtol=1e-4, atol=1e-6 * e0.max())
    for j in range(p):
        u, l = A['split'][2 * j][1], A['split'][2 * j + 1][1]
        if a[j] > 0:
            rec.near([B['split'][2 * j][1], B['split'][2 * j + 1][1]], [u, l], 'split tests invariant under affine maps', rtol=1e-4, atol=2e-4)
    # linear mixing
    sd = np.std(np.vstack([c[2] for c in cs]), axis=0)
    M = np.linalg.qr(rng.normal(size=(p, p)))[0] * rng.uniform(0.5, 2, p)
    t = make([(w, l, (x / sd).dot(M)) for w, l, x in cs], names)
    rec.near(t.getGelmanRubinEigenvalues(), e0, 'Gelman-Rubin invariant under linear re-parameterization', rtol=1e-4, atol=1e-6 * e0.max())
    # weight scale
    t = make([(w * 2., l, x) for w, l, x in cs], names)
    B = sections(t.getConvergeTests(what=what), p)
    rec.near(t.getGelmanRubinEigenvalues(), e0, 'Gelman-Rubin does not depend on the weight scale', rtol=1e-6, atol=1e-9)
    rec.near([r[2] for r in B['corr']], [r[2] for r in A['corr']], 'sample correlation lengths do not depend on the weight scale', rtol=0.01, atol=0.02)
    # identical chains have no between-chain variance
    t = make([cs[0]] * 3, names)
    rec.near(t.getGelmanRubin(), 0, 'identical chains', rtol=0, atol=1e-9)
    rec.sig('inv', info['nch'], p, info['integer'], info['phi'])


def single(rng, rec):
    """getCorrelationLength, getEffectiveSamples, KDE effective numbers of one set of samples."""
    cs, info = chains(rng, nch=1)
    w, l, x = cs[0]
    p = info['p']
    names = ['p%s' % 'abcdef'[i] for i in range(p)]
    s = gen.mc(x, w, l, names=names)
    rec.set(**info)
    j = int(rng.integers(0, p))
    m = wm(x[:, j], w)
    d = w * (x[:, j] - m)
    v = wm((x[:, j] - m) ** 2, w)
    cut = float(rng.choice([0.05, 0.2, 0.01]))
    off = len(w) // 10
    c = np.array([autocov(d, k) for k in range(off + 1)]) / v
    N = corrlen(c, cut)
    if N is None:
        raise Skip()
    rec.near(s.getCorrelationLength(j, weight_units=False, min_corr=cut), N, 'correlation length in rows', rtol=1e-7)
    rec.near(s.getCorrelationLength(j, min_corr=cut), N * len(w) / w.sum(), 'correlation length in weight units', rtol=1e-7)
    rec.near(s.getEffectiveSamples(j, min_corr=cut), w.sum() ** 2 / (N * len(w)), 'effective samples', rtol=1e-7)
    rec.near(s.getCorrelationLength(j, corr=c, min_corr=cut), N, 'given auto-correlation', rtol=1e-9)
    k = int(rng.integers(1, off + 1))
    rec.near(s.getAutocorrelation(j, maxOff=k, weight_units=False), c[:k + 1], 'auto-correlation', rtol=1e-7, atol=1e-9 * c[0])
    rec.near(s.getAutocorrelation(x[:, j], maxOff=k, weight_units=False, normalized=False), c[:k + 1] * v, 'auto-covariance of a vector', rtol=1e-7, atol=1e-9 * c[0] * v)
    rec.near(s.getAutocorrelation(j, maxOff=k), c[:k + 1] * len(w) / w.sum(), 'auto-correlation in weight units', rtol=1e-7, atol=1e-9 * c[0])
    # KDE
    top = w.sum() ** 2 / np.sum(w ** 2)
    for smp in ('nested', 'uncorrelated'):
        t = gen.mc(x, w, l, names=names, sampler=smp)
        rec.near(t.getEffectiveSamplesGaussianKDE(j), top, 'independent samples', rtol=1e-9)
        if p > 1:
            rec.near(t.getEffectiveSamplesGaussianKDE_2d(0, 1), top, 'independent samples in 2D', rtol=1e-9)
    n1 = s.getEffectiveSamplesGaussianKDE(j)
    rec.check(0 < n1 <= top * (1 + 1e-9), 'KDE effective number', got=n1, top=top)
    n2 = s.getEffectiveSamplesGaussianKDE(x[:, j] * 8 + 1)
    rec.near(n2, n1, 'KDE effective number invariant under affine maps', rtol=1e-3)
    # first terms, where only short lags correlate
    h = float(rng.choice([0.2, 0.01]))
    kw = np.sqrt(v) * h
    half = len(w) // 2
    un = sum(np.dot(np.exp(-(x[:-q, j] - x[q:, j]) ** 2 / 4 / kw ** 2) * w[:-q], w[q:]) for q in range(half, half + 5)) / sum(
        len(w) - q for q in range(half, half + 5))

    def term(q):
        return np.dot(np.exp(-(x[:-q, j] - x[q:, j]) ** 2 / 4 / kw ** 2) * w[:-q], w[q:]) - (len(w) - q) * un

    thr = 0.05 * np.sum(w ** 2)
    t1, t2 = term(1), term(2)
    if t1 < thr * 0.999:
        rec.near(s.getEffectiveSamplesGaussianKDE(j, h=h), top, 'KDE effective number without correlations', rtol=1e-6)
        rec.ev('KDE uncorrelated')
    elif t1 > thr * 1.001 and t2 < thr * 0.999:
        rec.near(s.getEffectiveSamplesGaussianKDE(j, h=h), w.sum() ** 2 / (np.sum(w ** 2) + 2 * t1), 'KDE effective number, neighbours correlated', rtol=1e-6)
        rec.ev('KDE neighbours')
    elif t1 > thr * 1.001 and t2 > thr * 1.001 and off >= 4:
        # sampled sum: within a factor of the full sum
        tot, q = t1 + t2, 3
        while q <= off:
            tq = term(q)
            if tq < thr:
                break
            tot += tq
            q += 1
        exp = w.sum() ** 2 / (np.sum(w ** 2) + 2 * tot)
        got = s.getEffectiveSamplesGaussianKDE(j, h=h)
        rec.check(exp / 6 < got < exp * 8, 'KDE effective number of correlated samples', got=got, full_sum=exp)
        rec.ev('KDE correlated')
    rec.sig('single', p, info['integer'], info['phi'], info['n0'], cut)


def ends(rng, rec):
    """Known answers: well-mixed chains converge, separated ones do not; files with separate chains."""
    from getdist import loadMCSamples
    p = int(rng.integers(1, 4))
    nch = int(rng.integers(2, 5))
    n = 1500
    sep = float(rng.choice([0, 5]))
    root = os.path.join(rec.tmp, 'ch')
    cs = []
    for c in range(nch):
        x = rng.normal(size=(n, p)) + sep * c
        w = rng.integers(1, 4, n).astype(float)
        ll = rng.exponential(size=n)
        rows = gen.write_chain('%s_%d.txt' % (root, c + 1), w, ll, x, fmt='%.12e')
        cs.append((w, ll, np.array([[float('%.12e' % v) for v in r] for r in x])))
    with open(root + '.paramnames', 'w') as f:
        f.write('\n'.join('p%s  p_%s' % (q, q) for q in 'abcd'[:p]) + '\n')
    s = loadMCSamples(root, settings={'ignore_rows': 0})
    gr = s.getGelmanRubin()
    rec.set(p=p, nch=nch, sep=sep, gr=gr)
    if sep:
        rec.check(gr > 5, 'separated chains not converged')
    else:
        rec.check(gr < 0.05, 'independent samples converged')
    t = make(cs, ['p' + q for q in 'abcd'[:p]])
    rec.near(s.getGelmanRubinEigenvalues(), t.getGelmanRubinEigenvalues(), 'files and arrays agree', rtol=1e-6, atol=1e-9)
    rec.near(s.getGelmanRubin(chainlist=s.getSeparateChains()[:2]) >= 0, True, 'chain subset')
    # after removing burn in the numbers are those of the remaining rows
    ig = int(rng.choice([100, 500]))
    s2 = loadMCSamples(root, settings={'ignore_rows': ig})
    t2 = make([(w[ig:], l[ig:], x[ig:]) for w, l, x in cs], ['p' + q for q in 'abcd'[:p]])
    rec.near(s2.getGelmanRubinEigenvalues(), t2.getGelmanRubinEigenvalues(), 'after burn-in removal', rtol=1e-6, atol=1e-9)
    rec.sig('ends', p, nch, sep, ig)


GROUPS = {'report': (report, 160, 2500), 'invariance': (invariance, 80, 1200), 'single': (single, 200, 4000), 'ends': (ends, 20, 200)}
