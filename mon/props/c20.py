import os

import numpy as np

from .. import gen

RULE = 'a case is one set of samples (likelihood offsets and spreads, ties, weights of many kinds, one to many chains, fixed and derived parameters), ' \
       'optionally after a history of re-weighting, cooling or filtering; likelihood statistics and dictionaries are recomputed from the arrays; ' \
       'distinct = (weights, likelihood shape, history, contours)'
ASSUMPTIONS = ['the sample that crosses an N-dimensional confidence level may count as inside or outside it']


def lnsum(a, w):
    """ln(sum w exp(a)/sum w) in extended precision"""
    a, w = np.asarray(a, np.longdouble), np.asarray(w, np.longdouble)
    m = a.max()
    return float(np.log((w * np.exp(a - m)).sum() / w.sum()) + m)


def lls(rng, n):
    k = str(rng.choice(['chi2', 'wide', 'ties', 'huge', 'const', 'neg', 'inverted']))
    if k == 'chi2':
        v = 0.5 * rng.chisquare(4, n)
    elif k == 'wide':
        v = rng.exponential(30, n)
    elif k == 'ties':
        v = np.round(rng.exponential(3, n))
    elif k == 'huge':
        v = 0.5 * rng.chisquare(4, n) + 54321.987
    elif k == 'const':
        v = np.full(n, float(rng.choice([0., 7.5])))
    elif k == 'neg':
        v = rng.exponential(4, n) - 1000.25
    else:
        v = 20 - np.minimum(rng.exponential(3, n), 20)
    return v, k


def stats(rec, s, X, w, ll, contours, names):
    L = s.getLikeStats()
    b = int(np.argmin(ll))
    best = ll[b]
    tol = 1e-9 * max(1, abs(best)) + 1e-9
    rec.near(L.logLike_sample, best, 'best likelihood', rtol=1e-12, atol=1e-12)
    rec.near(L.meanLogLike, gen.ref_mean(ll, w), 'mean log-likelihood', rtol=1e-10, atol=tol)
    rec.near(L.logMeanLike, -lnsum(-ll, w), 'log mean likelihood', rtol=1e-10, atol=tol)
    rec.near(L.complexity, 2 * (gen.ref_mean(ll, w) - best), 'complexity', rtol=1e-7, atol=10 * tol)
    if ll.max() - best < 29.999:
        rec.near(L.logMeanInvLike, lnsum(ll, w), 'log mean inverse likelihood', rtol=1e-10, atol=tol)
    elif ll.max() - best > 30.001:
        rec.check(L.logMeanInvLike is None, 'unreliable inverse likelihood not given')
    rec.eq([q.name for q in L.names], names, 'parameters of the statistics')
    cands = np.flatnonzero(ll == best)
    bs = np.array([q.bestfit_sample for q in L.names])
    rec.check(any(np.array_equal(bs, X[c]) for c in cands), 'best sample is a sample of the best likelihood', got=bs)
    # N-D regions: best samples holding each fraction of the weight
    o = np.argsort(ll, kind='stable')
    cs = np.cumsum(w[o].astype(np.longdouble))
    # the samples can be taken in any order within a tie
    for c, cont in enumerate([contours[0], contours[min(1, len(contours) - 1)]]):
        tgt = float(cont) * float(cs[-1])
        ks = set()
        for f in (1 - 1e-9, 1 + 1e-9):
            k = int(np.searchsorted(cs, tgt * f))
            ks |= {max(1, k), max(1, min(k + 1, len(o)))}
        for j, q in enumerate(L.names):
            lo, hi = q.ND_limit_bot[c], q.ND_limit_top[c]
            rec.check(lo <= hi, 'ordered N-D range')
            ok = False
            for k in ks:
                edge = ll[o[k - 1]]
                inner = o[ll[o] < edge]
                tied = o[ll[o] <= edge]
                if len(tied) == len(inner) + 1 or len(tied) == k:
                    reg = X[o[:k], j]
                    ok = ok or (lo == reg.min() and hi == reg.max())
                else:
                    # ties: at least the strictly better samples, at most all tied ones, limits being sample values
                    full = X[tied, j]
                    a = X[inner, j] if len(inner) else np.array([X[cands, j].max()])
                    ok = ok or (full.min() <= lo and hi <= full.max() and lo in full and hi in full and
                                (not len(inner) or (lo <= a.min() and hi >= a.max())))
            rec.check(ok, 'N-D confidence range of the parameter', param=q.name, got=(lo, hi), contour=cont)
    return L


def dicts(rng, rec, s, X, w, ll, names, der, fixed, files=None):
    n = len(w)
    for _ in range(3):
        ix = int(rng.integers(-n, n)) if rng.random() < 0.3 else int(rng.integers(0, n))
        wd, wf = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
        kw = {}
        if not wd or rng.random() < 0.5:
            kw['want_derived'] = wd
        wd = kw.get('want_derived', True)
        if not wf or rng.random() < 0.5:
            kw['want_fixed'] = wf
        wf = kw.get('want_fixed', True)
        d = s.getParamSampleDict(ix, **kw)
        one(rec, d, X[ix], w[ix], None if ll is None else ll[ix], names, der, fixed if wf else {}, wd, 'sample dictionary')
        if ll is not None:
            d = s.getParamBestFitDict(best_sample=True, **kw)
            rec.check(any(np.array_equal([d[nm] for i, nm in enumerate(names) if wd or not der[i]], [X[c, i] for i, nm in enumerate(names) if wd or not der[i]])
                          for c in np.flatnonzero(ll == ll.min())), 'values of the best sample', got=d)
            c = [c for c in np.flatnonzero(ll == ll.min()) if np.array_equal([d[nm] for i, nm in enumerate(names) if wd or not der[i]], [X[c, i] for i, nm in enumerate(names) if wd or not der[i]])]
            rec.check(any(d['weight'] == w[q] for q in c), 'weight of the best sample')
            one(rec, d, X[c[0]], d['weight'], ll.min(), names, der, fixed if wf else {}, wd, 'best sample dictionary')
    rec.raises(ValueError, lambda: s.getParamBestFitDict(best_sample=True, max_posterior=False), 'best likelihood sample refused')


def one(rec, d, x, w, ll, names, der, fixed, wd, msg):
    exp = {nm: x[i] for i, nm in enumerate(names) if wd or not der[i]}
    exp.update(fixed)
    exp['weight'] = w
    if ll is not None:
        exp['loglike'] = ll
    else:
        d = {k: v for k, v in d.items() if not (k == 'loglike' and v is None)}
    rec.eq(set(d), set(exp), msg + ': parameters')
    for k, v in exp.items():
        rec.near(d[k], v, msg + ': value', rtol=1e-13, atol=0, name=k)


def arrays(rng, rec):
    n = int(rng.choice([1, 2, 12, 200, 3000])) if rng.random() < 0.9 else 40
    n = max(n, 5)
    p = int(rng.integers(1, 6))
    X = gen.params(rng, n, p, ties=False)
    w, wk = gen.weights(rng, n)
    ll, lk = lls(rng, n)
    names = gen.names(rng, p)
    der = [bool(rng.random() < 0.3) for _ in range(p)]
    contours = [[0.68, 0.95, 0.99], [0.5], [0.3, 0.9], [0.95, 0.68]][int(rng.integers(0, 4))]
    fixed = {}
    ranges = {}
    for i in range(int(rng.integers(0, 3))):
        fixed['fix%d' % i] = float(rng.choice([0., 0.06, 3.046, -1.]))
        ranges['fix%d' % i] = [fixed['fix%d' % i]] * 2
    if rng.random() < 0.5:
        ranges[names[0]] = [X[:, 0].min() - 1, None]
        if p > 1:
            ranges[names[1]] = [X[:, 1].min() - abs(X[:, 1]).max(), X[:, 1].max() + abs(X[:, 1]).max()]
    s = gen.mc(X, w, ll, names=[a + ('*' if d else '') for a, d in zip(names, der)], ranges=ranges or None, settings=dict(contours=contours))
    w = np.ones(n) if w is None else w
    rec.set(n=n, wk=wk, lk=lk, contours=contours)
    stats(rec, s, X, w, ll, contours, names)
    dicts(rng, rec, s, X, w, ll, names, der, fixed)
    hist = []
    for _ in range(int(rng.integers(0, 4))):
        op = str(rng.choice(['add', 'cool', 'filter', 'weights_only']))
        hist.append(op)
        rec.set(hist=hist)
        if op == 'add':
            a = rng.exponential(1, len(w))
            s.reweightAddingLogLikes(a)
            w, ll = w * np.exp(-(a - a.min())), ll + a
        elif op == 'cool':
            c = float(rng.choice([0.5, 1.5]))
            s.cool(c)
            nl = ll * c
            w = w * np.exp(-((nl - ll) - (nl - ll).min()))
            ll = nl
        elif op == 'filter':
            keep = rng.random(len(w)) < 0.8
            if keep.sum() < 5:
                continue
            s.filter(keep)
            X, w, ll = X[keep], w[keep], ll[keep]
        else:
            s.updateBaseStatistics()
        X, w, ll = resync(rec, s, X, w, ll)
        if len(w) < 5:
            break
        stats(rec, s, X, w, ll, contours, names)
        dicts(rng, rec, s, X, w, ll, names, der, fixed)
    rec.sig('arrays', wk, lk, hist, len(contours), len(fixed))


def resync(rec, s, X, w, ll):
    """Re-weighting may drop samples of negligible weight and rescale: use the stored arrays (checked by C03) but require them to be sub-sets."""
    if len(s.weights) == len(w):
        rec.near(s.weights / s.weights.sum(), w / w.sum(), 'relative weights', rtol=1e-7, atol=1e-15)
        rec.near(s.loglikes, ll, 'likelihoods', rtol=1e-10, atol=1e-10)
        return X, np.array(s.weights), np.array(s.loglikes)
    return np.array(s.samples), np.array(s.weights), np.array(s.loglikes)


def nolikes(rng, rec):
    n, p = int(rng.integers(5, 300)), int(rng.integers(1, 5))
    X = gen.params(rng, n, p, ties=False)
    w, wk = gen.weights(rng, n)
    names = gen.names(rng, p)
    der = [bool(rng.random() < 0.3) for _ in range(p)]
    fixed = {'fx': 2.5} if rng.random() < 0.5 else {}
    s = gen.mc(X, w, None, names=[a + ('*' if d else '') for a, d in zip(names, der)], ranges={'fx': [2.5, 2.5]} if fixed else None)
    rec.check(s.getLikeStats() is None, 'no likelihood statistics without likelihoods')
    dicts(rng, rec, s, X, np.ones(n) if w is None else w, None, names, der, fixed)
    rec.raises(Exception, lambda: s.getParamBestFitDict(best_sample=True), 'no best sample without likelihoods')
    rec.sig('nolikes', wk, p)


def files(rng, rec):
    """From chain files: fixed columns, fixed ranges, best fits from files."""
    from getdist import loadMCSamples
    p = int(rng.integers(2, 6))
    names = gen.names(rng, p)
    der = [i >= 1 and rng.random() < 0.4 for i in range(p)]
    const = [i for i in range(1, p) if rng.random() < 0.25]
    nc = int(rng.integers(1, 4))
    root = os.path.join(rec.tmp, 'c')
    XS, W, LL = [], [], []
    vals = rng.normal(size=p).round(4)
    for c in range(nc):
        n = int(rng.integers(20, 200))
        x = rng.normal(size=(n, p)).round(6)
        x[:, const] = vals[const]
        w = rng.integers(1, 6, n).astype(float)
        ll = (lls(rng, n)[0]).round(6)
        gen.write_chain(root + ('_%d.txt' % (c + 1) if nc > 1 else '.txt'), w, ll, x)
        XS.append(x), W.append(w), LL.append(ll)
    with open(root + '.paramnames', 'w') as f:
        for nm, d in zip(names, der):
            f.write('%s%s\tL\n' % (nm, '*' if d else ''))
    fixed = {names[i]: float(vals[i]) for i in const}
    with open(root + '.ranges', 'w') as f:
        for i in const:
            if rng.random() < 0.5:
                f.write('%s %s %s\n' % (names[i], vals[i], vals[i]))
        if rng.random() < 0.5:
            f.write('%s N N\n' % names[0])
        f.write('nnu 3.046 3.046\n')
        fixed['nnu'] = 3.046
    s = loadMCSamples(root, settings={'ignore_rows': 0})
    keep = [i for i in range(p) if i not in const]
    X, w, ll = np.vstack(XS)[:, keep], np.hstack(W), np.hstack(LL)
    # chain order is not specified: order both by content
    got = np.column_stack([s.weights, s.loglikes, s.samples])
    exp = np.column_stack([w, ll, X])
    rec.eq(sorted(map(tuple, got.tolist())), sorted(map(tuple, exp.tolist())), 'samples loaded')
    X, w, ll = np.array(s.samples), np.array(s.weights), np.array(s.loglikes)
    nm = [names[i] for i in keep]
    dr = [der[i] for i in keep]
    # a parameter that does not vary and is not derived is reported as fixed
    stats(rec, s, X, w, ll, s.contours, nm)
    dicts(rng, rec, s, X, w, ll, nm, dr, fixed)
    # best fit files
    for ext, off in (('.minimum', 100.), ('.bestfit', 200.)):
        with open(root + ext, 'w') as f:
            f.write(' -log(Like) =   %.5f\n chi-sq    =   1.0\n\n' % (off / 8))
            k = 0
            for d in (False, None, True):
                for i in range(p):
                    if (d is None and i in const) or (d is not None and i not in const and bool(der[i]) == d):
                        k += 1
                        f.write('%5i %15.7E   %-22s L\n' % (k, off + i if i not in const else vals[i], names[i]))
                f.write('\n')
    for mp, off in ((True, 100.), (False, 200.)):
        for wd in (True, False):
            for wf in (True, False):
                d = s.getParamBestFitDict(want_derived=wd, want_fixed=wf, max_posterior=mp)
                x = {names[i]: off + i for i in range(p) if i not in const and (wd or not der[i])}
                if wf:
                    x.update(fixed)
                rec.eq(set(d) - {'weight', 'loglike'}, set(x), 'parameters of the best fit', derived=wd, fixed=wf)
                for k, v in x.items():
                    rec.near(d[k], v, 'value of the best fit', rtol=1e-7, name=k)
                rec.near(d['loglike'], off / 8, 'likelihood of the best fit', rtol=1e-6)
    mp = bool(rng.random() < 0.5)
    os.unlink(root + ('.minimum' if mp else '.bestfit'))
    rec.raises(Exception, lambda: s.getParamBestFitDict(max_posterior=mp), 'missing best fit refused', posterior=mp)
    rec.raises(Exception, lambda: s.getBestFit(max_posterior=mp), 'missing best fit file refused', posterior=mp)
    rec.near(s.getBestFit(max_posterior=not mp).logLike, 25. if mp else 12.5, 'best fit of the kind asked for', rtol=1e-6)
    rec.sig('files', p, len(const), nc, sum(der))


GROUPS = {'arrays': (arrays, 700, 20000), 'nolikes': (nolikes, 60, 600), 'files': (files, 200, 3000)}
QUICK_BUDGET = 120
THOROUGH_BUDGET = 500
