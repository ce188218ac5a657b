import numpy as np

RULE = 'a case is one random mixture (1-6 dimensions, 1-4 components, unequal weights, correlated covariances of different scales, optional limits); ' \
       'its densities, marginals, conditionals, moments, ranges, grids, simulated samples and their log-likelihoods are compared with scipy ' \
       'normal densities, quadrature and exact region probabilities; distinct = (class, dimension, components, limits, parameters kept)'
ASSUMPTIONS = ['simulated counts are compared at 6.5 standard errors (false alarm < 1e-9 per comparison)']


def make(rng, d=None, lims=None, cls=None):
    from getdist import gaussian_mixtures as g
    d = int(d or rng.integers(1, 7))
    k = int(rng.choice([1, 2, 3, 4]))
    sc = 10. ** rng.uniform(-3, 3, d)
    off = rng.normal(size=d) * rng.choice([0, 5.], d)
    means = (rng.normal(size=(k, d)) * rng.choice([0.3, 2.]) + off) * sc
    covs = []
    for _ in range(k):
        A = rng.normal(size=(d, d + 2)) * 0.6
        covs.append(A.dot(A.T) * np.outer(sc, sc))
    w = None if rng.random() < 0.25 else rng.uniform(0.05, 1, k) * rng.choice([1., 20.])
    ww = np.ones(k) if w is None else w
    ww = ww / ww.sum()
    L = None
    if lims:
        L = []
        for i in range(d):
            s = np.sqrt(max(c[i, i] for c in covs))
            m = ww.dot(means[:, i])
            lo = float(m - s * rng.uniform(0.1, 2)) if rng.random() < 0.5 else None
            hi = float(m + s * rng.uniform(0.1, 2)) if rng.random() < 0.5 else None
            if lo is not None and rng.random() < 0.3:  # zero is a limit like any other
                means[:, i] -= lo
                lo, hi = 0., None if hi is None else hi - lo
            elif hi is not None and rng.random() < 0.3:
                means[:, i] -= hi
                lo, hi = None if lo is None else lo - hi, 0.
            L.append((lo, hi))
    names = ['p%d' % i for i in range(d)] if rng.random() < 0.7 else None
    labels = [r'\alpha_{%d}' % i for i in range(d)] if rng.random() < 0.7 else None
    kw = dict(label='mix', labels=labels)
    c = 'ND'
    if d == 1 and rng.random() < 0.7:
        c = '1D'
        sig = [float(np.sqrt(q[0, 0])) for q in covs]
        lk = {}
        if L and rng.random() < 0.5:
            lk = dict(lims=L[0])
            if rng.random() < 0.5:  # explicit values take the place of those in lims
                lk = dict(lims=list(L[0]))
                for e, kn in enumerate(('xmin', 'xmax')):
                    if L[0][e] is not None and rng.random() < 0.6:
                        lk[kn] = L[0][e]
                        lk['lims'][e] = [None, L[0][e] - 0.5 * sig[0], L[0][e] + 0.5 * sig[0]][int(rng.integers(0, 3))]
        elif L:
            lk = dict(xmin=L[0][0], xmax=L[0][1])
        if k == 1 and rng.random() < 0.5:
            m = g.Gaussian1D(means[0][0], sig[0], name='p0', **lk, **kw)
        else:
            m = g.Mixture1D(means[:, 0], sig, w, name='p0', **lk, **kw)
        names = ['p0']
    elif d == 2 and rng.random() < 0.6:
        c = '2D'
        cc = []
        for q in covs:
            if rng.random() < 0.5:
                cc.append([float(np.sqrt(q[0, 0])), float(np.sqrt(q[1, 1])), float(q[0, 1] / np.sqrt(q[0, 0] * q[1, 1]))])
            else:
                cc.append(q)
        lk = {}
        if L and rng.random() < 0.5:
            lk = dict(lims=L)
            if rng.random() < 0.5:
                lk = dict(lims=[list(v) for v in L])
                for e, kn in enumerate(('xmin', 'xmax', 'ymin', 'ymax')):
                    a, b = e // 2, e % 2
                    if L[a][b] is not None and rng.random() < 0.6:
                        lk[kn] = L[a][b]
                        lk['lims'][a][b] = [None, L[a][b] - 0.5 * sc[a], L[a][b] + 0.5 * sc[a]][int(rng.integers(0, 3))]
        elif L:
            lk = dict(xmin=L[0][0], xmax=L[0][1], ymin=L[1][0], ymax=L[1][1])
        names = names or ['x', 'y']
        if k == 1 and rng.random() < 0.5:
            m = g.Gaussian2D(means[0], cc[0], names=names, **lk, **kw)
        else:
            m = g.Mixture2D(means, cc, w, names=names, **lk, **kw)
    elif k == 1 and rng.random() < 0.5:
        c = 'G'
        if rng.random() < 0.4:
            m = g.GaussianND(means[0], np.linalg.inv(covs[0]), is_inv_cov=True, lims=L, names=names, **kw)
        else:
            m = g.GaussianND(means[0], covs[0], lims=L, names=names, **kw)
    else:
        m = g.MixtureND(means, covs, w, lims=L, names=names, **kw)
    names = names or ['param%d' % (i + 1) for i in range(d)]
    labels = labels or None
    return m, dict(d=d, k=k, means=means, covs=covs, w=ww, lims=L, names=names, labels=labels, cls=c)


def ref_pdf(q, x, idx=None):
    """Sum of normal densities through the Cholesky factor of each correlation matrix."""
    from scipy.linalg import solve_triangular
    idx = list(range(q['d'])) if idx is None else idx
    x = np.atleast_2d(x)
    tot = 0
    for w, m, c in zip(q['w'], q['means'], q['covs']):
        c = c[np.ix_(idx, idx)]
        s = np.sqrt(np.diag(c))
        ch = np.linalg.cholesky(c / np.outer(s, s))
        z = solve_triangular(ch, ((x - m[idx]) / s).T, lower=True)
        tot = tot + w * np.exp(-0.5 * (z ** 2).sum(0) - np.log(np.diag(ch)).sum() - np.log(s).sum() - 0.5 * len(idx) * np.log(2 * np.pi))
    return tot


def points(rng, q, n=20, spread=1.):
    comp = rng.integers(0, q['k'], n)
    return np.array([q['means'][c] + spread * np.linalg.cholesky(q['covs'][c]).dot(rng.normal(size=q['d'])) for c in comp])


def cmp(rec, got, exp, msg, **kw):
    exp = np.asarray(exp)
    rec.near(np.asarray(got).reshape(exp.shape), exp, msg, rtol=1e-6, atol=1e-9 * float(np.max(np.abs(exp))) + 1e-300, **kw)


def subset(rng, d):
    k = int(rng.integers(1, d + 1))
    return [int(v) for v in rng.permutation(d)[:k]]


def as_arg(rng, m, q, idx):
    r = rng.integers(0, 3)
    if r == 0:
        return [q['names'][i] for i in idx]
    if r == 1:
        return list(idx)
    return [m.paramNames.parWithName(q['names'][i]) if rng.random() < 0.5 else q['names'][i] for i in idx]


def dist(rng, rec):
    m, q = make(rng)
    d = q['d']
    rec.set(cls=q['cls'], d=d, k=q['k'], w=q['w'])
    x = points(rng, q)
    if q['cls'] == '1D':
        cmp(rec, m.pdf(x[:, 0]), ref_pdf(q, x), 'density')
    else:
        cmp(rec, m.pdf(x), ref_pdf(q, x), 'density')
        for i in range(2):
            cmp(rec, m.pdf(x[i]), ref_pdf(q, x[i])[0], 'density at one point')
    if q['cls'] == '2D':
        xx, yy = np.meshgrid(x[:7, 0], x[:5, 1])
        cmp(rec, m.pdf(xx, yy), ref_pdf(q, np.column_stack([xx.ravel(), yy.ravel()])).reshape(xx.shape), 'density on a grid')
    mean = q['w'].dot(q['means'])
    cov = sum(w * (c + np.outer(mu - mean, mu - mean)) for w, mu, c in zip(q['w'], q['means'], q['covs']))
    s = np.sqrt(np.diag(cov))
    rec.near(np.asarray(m.total_mean) / s, mean / s, 'mean of the distribution', rtol=1e-9, atol=1e-9)
    rec.near(np.asarray(m.total_cov) / np.outer(s, s), cov / np.outer(s, s), 'covariance of the distribution', rtol=1e-7, atol=1e-7)
    rec.eq(m.paramNames.list(), q['names'], 'names')
    if q['labels']:
        rec.eq(m.paramNames.labels(), q['labels'], 'labels')
    for nm in q['names']:
        rec.check(m.getUpper(nm) is None and m.getLower(nm) is None, 'no limits')
    # 1D marginals
    i = int(rng.integers(0, d))
    a = q['names'][i] if rng.random() < 0.5 else i
    cmp(rec, m.pdf_marged(a, x[:, i]), ref_pdf(q, x[:, [i]], [i]), '1D marginal density')
    sm, npts = float(rng.choice([4, 6])), int(rng.choice([64, 501]))
    D = m.density1D(a, num_points=npts, sigma_max=sm)
    rec.eq((len(D.x), len(D.P)), (npts, npts), 'number of points of the 1D density')
    cmp(rec, D.P, ref_pdf(q, np.asarray(D.x)[:, None], [i]), '1D density grid')
    lo = min(mu[i] - sm * np.sqrt(c[i, i]) for mu, c in zip(q['means'], q['covs']))
    hi = max(mu[i] + sm * np.sqrt(c[i, i]) for mu, c in zip(q['means'], q['covs']))
    rec.check(D.x[0] <= lo + 1e-6 * s[i] and D.x[-1] >= hi - 1e-6 * s[i], 'range of the 1D density', got=(D.x[0], D.x[-1]), need=(lo, hi))
    # marginal mixtures, in any order
    idx = subset(rng, d)
    mm = m.marginalizedMixture(as_arg(rng, m, q, idx), label=str(rng.choice(['a', 'b'])) if rng.random() < 0.3 else None)
    rec.eq(mm.paramNames.list(), [q['names'][j] for j in idx], 'names of the marginal')
    lb = str(rng.choice(['mylabel', 'other']))
    m.label = lb
    rec.eq(m.marginalizedMixture(as_arg(rng, m, q, idx)).label, lb, 'a marginal has the label of its parent if none is given')
    rec.eq(m.marginalizedMixture(as_arg(rng, m, q, idx), label='new').label, 'new', 'label given for the marginal')
    if q['labels']:
        rec.eq(mm.paramNames.labels(), [q['labels'][j] for j in idx], 'labels of the marginal')
    cmp(rec, mm.pdf(x[:, idx]), ref_pdf(q, x[:, idx], idx), 'marginal density')
    rec.near(np.asarray(mm.total_mean) / s[idx], mean[idx] / s[idx], 'marginal mean', rtol=1e-9, atol=1e-9)
    rec.near(np.asarray(mm.total_cov) / np.outer(s[idx], s[idx]), (cov / np.outer(s, s))[np.ix_(idx, idx)], 'marginal covariance', rtol=1e-7, atol=1e-7)
    cmp(rec, m.pdf(x[:, 0]) if q['cls'] == '1D' else m.pdf(x), ref_pdf(q, x), 'density after marginalizing')
    # conditionals: joint = marginal * conditional
    if d > 1:
        fix = subset(rng, d)[:d - 1]
        keep = [j for j in range(d) if j not in fix]
        y = points(rng, q, 1, spread=float(rng.choice([0.3, 1., 2.])))[0]
        cm = m.conditionalMixture(as_arg(rng, m, q, fix), list(y[fix]), label='cond')
        rec.eq(cm.paramNames.list(), [q['names'][j] for j in keep], 'names of the conditional')
        if q['labels']:
            rec.eq(cm.paramNames.labels(), [q['labels'][j] for j in keep], 'labels of the conditional')
        z = x.copy()
        z[:, fix] = y[fix]
        zz = np.vstack([z, np.tile(y, (1, 1))])
        cmp(rec, cm.pdf(zz[:, keep]) * ref_pdf(q, y[fix], fix)[0], ref_pdf(q, zz), 'conditional times marginal is the joint density', fix=fix)
        fm = m.marginalizedMixture([q['names'][j] for j in fix])
        cmp(rec, cm.pdf(zz[:, keep]) * fm.pdf(y[fix][None, :])[0], ref_pdf(q, zz), 'conditional times marginal mixture is the joint density')
        # two-step conditioning
        if len(fix) > 1:
            order = list(rng.permutation(fix))
            c2 = m.conditionalMixture([q['names'][order[0]]], [y[order[0]]])
            c2 = c2.conditionalMixture([q['names'][j] for j in order[1:]], [y[j] for j in order[1:]])
            cmp(rec, c2.pdf(zz[:, keep]), cm.pdf(zz[:, keep]), 'conditioning in steps')
        rec.raises(Exception, lambda: m.conditionalMixture(list(range(d)), list(y)), 'all fixed refused')
    # 2D densities
    if d > 1:
        ij = [int(v) for v in rng.permutation(d)[:2]]
        npts = int(rng.choice([33, 64]))
        D2 = m.density2D(as_arg(rng, m, q, ij), num_points=npts)
        xx, yy = np.meshgrid(D2.x, D2.y)
        cmp(rec, D2.P, ref_pdf(q, np.column_stack([xx.ravel(), yy.ravel()]), ij).reshape(xx.shape), '2D density grid', params=ij)
        for ax, j in ((D2.x, ij[0]), (D2.y, ij[1])):
            lo = min(mu[j] - 5 * np.sqrt(c[j, j]) for mu, c in zip(q['means'], q['covs']))
            hi = max(mu[j] + 5 * np.sqrt(c[j, j]) for mu, c in zip(q['means'], q['covs']))
            rec.check(ax[0] <= lo + 1e-6 * s[j] and ax[-1] >= hi - 1e-6 * s[j], 'range of the 2D density')
        tot = np.trapz(np.trapz(D2.P, D2.x), D2.y)
        if npts == 64 and q['k'] == 1:
            rec.near(tot, 1., '2D density integrates to one', rtol=0.05)
    # scaled weights give the same distribution
    rec.sig(q['cls'], d, q['k'], len(idx))


def region(rng, q, n):
    """A random box and its exact probability under the (untruncated) mixture, by marginalizing to at most two dimensions."""
    from scipy.stats import multivariate_normal as mvn
    idx = sorted(int(v) for v in rng.permutation(q['d'])[:int(rng.integers(1, min(q['d'], 2) + 1))])
    mean = q['w'].dot(q['means'])
    hi = []
    for i in idx:
        s = np.sqrt(max(c[i, i] for c in q['covs']))
        hi.append(float(mean[i] + s * rng.normal()))
    p = 0
    for w, m, c in zip(q['w'], q['means'], q['covs']):
        c = c[np.ix_(idx, idx)]
        s = np.sqrt(np.diag(c))
        p += w * mvn(np.zeros(len(idx)), c / np.outer(s, s)).cdf((np.array(hi) - m[idx]) / s)
    return idx, hi, float(p)


def sim(rng, rec):
    m, q = make(rng)
    d = q['d']
    n = int(rng.choice([1, 17, 2000, 20000]))
    seed = int(rng.integers(0, 2 ** 31))
    x = m.sim(n, random_state=seed)
    rec.set(cls=q['cls'], d=d, k=q['k'], n=n)
    rec.eq(x.shape, (n, d), 'number of simulated samples')
    rec.check(np.array_equal(x, m.sim(n, random_state=seed)), 'same seed gives the same samples')
    if n > 1000:
        mean = q['w'].dot(q['means'])
        cov = sum(w * (c + np.outer(mu - mean, mu - mean)) for w, mu, c in zip(q['w'], q['means'], q['covs']))
        s = np.sqrt(np.diag(cov))
        rec.check(np.all(abs(x.mean(0) - mean) < 6.5 * s / np.sqrt(n)), 'mean of the samples', got=x.mean(0), expected=mean, err=s / np.sqrt(n))
        z = (x - mean) / s
        for i in range(d):
            for j in range(d):
                v = z[:, i] * z[:, j]
                e = cov[i, j] / s[i] / s[j]
                rec.check(abs(v.mean() - e) < 6.5 * max(v.std(), 0.3) / np.sqrt(n), 'covariance of the samples', pair=(i, j), got=v.mean(), expected=e)
        for _ in range(4):
            idx, hi, p = region(rng, q, n)
            f = np.mean(np.all(x[:, idx] <= hi, axis=1))
            rec.check(abs(f - p) < 6.5 * np.sqrt(max(p * (1 - p), 1. / n) / n) + 2e-5, 'probability of a region', got=f, expected=p)
        # independence of order (no ordering by component)
        h = n // 2
        for i in range(d):
            df = x[:h, i].mean() - x[h:, i].mean()
            rec.check(abs(df) < 6.5 * s[i] * np.sqrt(1 / h + 1 / (n - h)), 'samples not ordered by component', diff=df)
    # samples object
    s_ = m.MCSamples(n, logLikes=True, random_state=seed, settings={'ignore_rows': 0}) if n > 1 else None
    if s_ is not None:
        rec.eq(s_.numrows, n, 'number of samples in the object')
        rec.check(np.array_equal(s_.samples, x), 'same seed gives the same samples object')
        rec.near(s_.loglikes, -np.log(ref_pdf(q, x)), 'log-likelihoods are of the density', rtol=1e-6, atol=1e-6)
        rec.eq(s_.paramNames.list(), q['names'], 'names of samples')
        if q['labels']:
            rec.eq(s_.paramNames.labels(), q['labels'], 'labels of samples')
        s2 = m.MCSamples(n, names=['q%d' % i for i in range(d)], random_state=seed, settings={'ignore_rows': 0})
        rec.eq(s2.paramNames.list(), ['q%d' % i for i in range(d)], 'overridden names')
        rec.check(s2.loglikes is None, 'no log-likelihoods unless asked')
        rec.eq(m.paramNames.list(), q['names'], 'names of the mixture unchanged')
        s_.paramNames.parWithName(q['names'][0]).label = 'changed'
        rec.check(m.paramNames.labels()[0] != 'changed', 'samples do not share names with the mixture')
    rec.sig(q['cls'], d, q['k'], n)


def limits(rng, rec):
    """Hard limits."""
    m, q = make(rng, d=int(rng.integers(1, 4)), lims=True)
    d, L = q['d'], q['lims']
    rec.set(cls=q['cls'], d=d, k=q['k'], lims=L)
    for nm, (lo, hi) in zip(q['names'], L):
        rec.eq((m.getLower(nm), m.getUpper(nm)), (lo, hi), 'limits returned are the ones set')
    n = int(rng.choice([50, 5000]))
    seed = int(rng.integers(0, 2 ** 31))
    # acceptance of the limits, by independent simulation (avoids cases with hopeless acceptance)
    N = 20000
    comp = rng.choice(q['k'], N, p=q['w'])
    y = np.empty((N, d))
    for c in range(q['k']):
        sel = comp == c
        y[sel] = rng.multivariate_normal(q['means'][c], q['covs'][c], sel.sum())
    ok = np.ones(N, bool)
    for i, (lo, hi) in enumerate(L):
        if lo is not None:
            ok &= y[:, i] >= lo
        if hi is not None:
            ok &= y[:, i] <= hi
    y = y[ok]
    if len(y) < 500:
        return
    x = m.sim(n, random_state=seed)
    rec.eq(x.shape, (n, d), 'number of samples with limits')
    for i, (lo, hi) in enumerate(L):
        rec.check((lo is None or x[:, i].min() >= lo) and (hi is None or x[:, i].max() <= hi), 'samples within the limits')
    if n > 1000:
        for _ in range(5):
            idx = sorted(int(v) for v in rng.permutation(d)[:int(rng.integers(1, min(d, 2) + 1))])
            hi = np.array([float(np.quantile(y[:, i], rng.uniform(0.15, 0.85))) for i in idx])
            f, p = np.mean(np.all(x[:, idx] <= hi, axis=1)), np.mean(np.all(y[:, idx] <= hi, axis=1))
            pe = min(max(p, 0.01), 0.99)
            rec.check(abs(f - p) < 6.5 * np.sqrt(pe * (1 - pe) * (1 / n + 1 / len(y))), 'probability of a region with limits', got=f, expected=p)
    s = m.MCSamples(n, random_state=seed, logLikes=True, settings={'ignore_rows': 0})
    rec.near(s.loglikes, -np.log(ref_pdf(q, s.samples)), 'log-likelihoods with limits', rtol=1e-6, atol=1e-6)
    for nm, (lo, hi) in zip(q['names'], L):
        rec.eq((s.getLower(nm), s.getUpper(nm)), (lo, hi), 'limits of the samples')
    # ranges: inside the limits, reaching them
    for sm in (3, 5):
        for (mn, mx), (lo, hi) in zip(m.autoRanges(sm), L):
            rec.check(mn < mx and (lo is None or mn == lo) and (hi is None or mx == hi), 'automatic range ends at the limits', got=(mn, mx), lims=(lo, hi))
        for j, ((mn, mx), (lo, hi)) in enumerate(zip(m.autoRanges(sm), L)):  # open sides reach the stated number of deviations from every component, and not further than needed
            sg = [np.sqrt(c[j, j]) for c in q['covs']]
            if lo is None:
                far = min(min(mu[j], hi if hi is not None else mu[j]) - sm * g for mu, g in zip(q['means'], sg))
                rec.near(mn, far, 'lower end of the automatic range', rtol=1e-9, atol=1e-9 * max(sg))
            if hi is None:
                far = max(max(mu[j], lo if lo is not None else mu[j]) + sm * g for mu, g in zip(q['means'], sg))
                rec.near(mx, far, 'upper end of the automatic range', rtol=1e-9, atol=1e-9 * max(sg))
    lim = [i for i in range(d) if L[i] != (None, None)]
    i = int(rng.integers(0, d))
    if [j for j in lim if j != i]:
        rec.raises(Exception, lambda: m.density1D(i), 'marginalizing over limits refused')
        rec.raises(Exception, lambda: m.pdf_marged(i, 0.), 'marginalizing over limits refused')
        if d > 1:
            rec.raises(Exception, lambda: m.marginalizedMixture([i]), 'marginalizing over limits refused')
        kw = dict(no_limit_marge=True)
    else:
        kw = {}
    D = m.density1D(i, **kw)
    cmp(rec, D.P, ref_pdf(q, np.asarray(D.x)[:, None], [i]), '1D density with limits')
    lo, hi = L[i]
    rec.check((lo is None or D.x[0] == lo) and (hi is None or D.x[-1] == hi), '1D density ends at the limits')
    if d > 1:
        mm = m.marginalizedMixture([q['names'][i]], no_limit_marge=True)
        rec.eq((mm.getLower(q['names'][i]), mm.getUpper(q['names'][i])), L[i], 'limits of the marginal')
        ij = [int(v) for v in rng.permutation(d)[:2]]
        if all(j in ij for j in lim):
            D2 = m.density2D([q['names'][j] for j in ij], num_points=40)
            xx, yy = np.meshgrid(D2.x, D2.y)
            cmp(rec, D2.P, ref_pdf(q, np.column_stack([xx.ravel(), yy.ravel()]), ij).reshape(xx.shape), '2D density with limits')
            for ax, j in ((D2.x, ij[0]), (D2.y, ij[1])):
                lo, hi = L[j]
                rec.check((lo is None or ax[0] == lo) and (hi is None or ax[-1] == hi), '2D density ends at the limits')
            # a range given for the plot is used, whatever the limits
            kw2 = {}
            for kn, j, e in (('xmin', ij[0], 0), ('xmax', ij[0], 1), ('ymin', ij[1], 0), ('ymax', ij[1], 1)):
                if rng.random() < 0.5:
                    mid, sg = q['w'].dot(q['means'])[j], np.sqrt(max(c[j, j] for c in q['covs']))
                    bot, top = [v for v in L[j]]
                    bot, top = mid - sg if bot is None else bot, mid + sg if top is None else top
                    kw2[kn] = float(bot + (0.2, 0.7)[e] * (top - bot)) if rng.random() < 0.8 or not bot < 0. < top else 0.
            if all(kw2.get(a + 'min') is None or kw2.get(a + 'max') is None or kw2[a + 'min'] < kw2[a + 'max'] for a in 'xy'):
                D3 = m.density2D([q['names'][j] for j in ij], num_points=20, **kw2)
                rec.eq((len(D3.x), len(D3.y)), (20, 20), 'points of the 2D density')
                for kn, v in kw2.items():
                    rec.eq(float(getattr(D3, kn[0])[0 if kn.endswith('min') else -1]), v, 'given range of the 2D density', asked=kw2)
                for ax, j, c in ((D3.x, ij[0], 'x'), (D3.y, ij[1], 'y')):
                    lo, hi = L[j]
                    rec.check((lo is None or c + 'min' in kw2 or ax[0] == lo) and (hi is None or c + 'max' in kw2 or ax[-1] == hi), '2D density with one side given ends at the limits', asked=kw2)
                xx, yy = np.meshgrid(D3.x, D3.y)
                cmp(rec, D3.P, ref_pdf(q, np.column_stack([xx.ravel(), yy.ravel()]), ij).reshape(xx.shape), '2D density in a given range')
                rec.ev('given_range', len(kw2))
        else:
            rec.raises(Exception, lambda: m.density2D(ij), 'marginalizing over limits refused')
        for j in range(d):
            if [l for l in lim if l != j]:
                rec.raises(Exception, lambda: m.conditionalMixture([q['names'][j]], [float(s.samples[0, j])]), 'conditional of limited parameters refused')
        free = [j for j in range(d) if j not in lim]
        if free and lim:
            keep = [j for j in free]
            fix = [j for j in range(d) if j not in keep]
            yv = s.samples[0]
            cm = m.conditionalMixture([q['names'][j] for j in fix], list(yv[fix]))
            z = s.samples[:20].copy()
            z[:, fix] = yv[fix]
            cmp(rec, cm.pdf(z[:, keep]) * ref_pdf(q, yv[fix], fix)[0], ref_pdf(q, z), 'conditional on limited parameters')
    rec.sig(q['cls'], d, q['k'], [(a is None, b is None) for a, b in L])


def random_models(rng, rec):
    from getdist.gaussian_mixtures import RandomTestMixtureND, randomTestMCSamples
    d, k = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    seed = int(rng.integers(0, 10 ** 6))
    a, b = RandomTestMixtureND(d, k, seed=seed), RandomTestMixtureND(d, k, seed=seed)
    rec.check(np.array_equal(a.means, b.means) and np.array_equal(a.covs, b.covs), 'same seed gives the same model')
    rec.eq((len(a.means), a.dim), (k, d), 'components and dimensions')
    rec.near(np.sum(a.weights), 1., 'weights sum to one')
    n = 500
    r = randomTestMCSamples(d, k, nsamp=n, nMCSamples=2, seed=seed)
    rec.eq(len(r), 2, 'number of sets')
    for s in r:
        rec.eq(s.paramNames.list(), ['x%d' % i for i in range(d)], 'default names')
        rec.eq(s.paramNames.labels(), ['x_{%d}' % i for i in range(d)], 'default labels')
    rec.check(not np.array_equal(r[0].samples, r[1].samples), 'different samples')
    rec.check(np.array_equal(r[0].samples, randomTestMCSamples(d, k, nsamp=n, nMCSamples=2, seed=seed)[0].samples), 'reproducible')
    rec.sig(d, k)


GROUPS = {'dist': (dist, 600, 20000), 'sim': (sim, 250, 8000), 'limits': (limits, 400, 12000), 'random_models': (random_models, 20, 200)}
QUICK_BUDGET = 120
THOROUGH_BUDGET = 600
