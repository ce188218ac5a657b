import numpy as np

from .. import gen

RULE = 'a case builds the density of a generated parameter and compares it with a direct kernel-sum model, an analytic truth or a ' \
       'transformed twin; distinct = (shape, limits, smoothing, orders, weights)'
ASSUMPTIONS = ['known-truth error bounds are set at about twice the largest error seen over many seeds on the reference tree']


# ---------------------------------------------------------------- direct kernel model
def kernel_matrix(n, smooth):
    winw = min(int(round(2.5 * smooth)), n // 2 - 2)
    i = np.arange(-winw, winw + 1)
    win = np.exp(-(i / smooth) ** 2 / 2)
    return i, win / win.sum(), winw


def toep(vals, idx, n, m=None):
    """M[a, b] = vals at offset a-b (zero outside the window)"""
    d = np.arange(n)[:, None] - np.arange(m or n)[None, :]
    w = (len(vals) - 1) // 2
    out = np.zeros(d.shape)
    ok = np.abs(d) <= w
    out[ok] = vals[d[ok] + w]
    return out


def model1d(x, samples, weights, smooth, lim_bot, lim_top, border, bias):
    """Direct evaluation of the documented estimator on the grid x (smooth in grid units)."""
    n = x.size
    dx = (x[-1] - x[0]) / (n - 1)
    ix = np.clip(np.floor((samples - x[0]) / dx + 0.5).astype(int), 0, n - 1)
    bins = np.zeros(n)
    np.add.at(bins, ix, weights)
    off, win, winw = kernel_matrix(n, smooth)
    K = toep(win, off, n)
    P = K.dot(bins)
    ext = np.arange(-winw, n + winw)
    mask = np.ones(ext.size)
    if lim_bot:
        mask[ext < 0] = 0
        mask[ext == 0] = 0.5
    if lim_top:
        mask[ext > n - 1] = 0
        mask[ext == n - 1] = 0.5

    def mom(k):
        # sum over kernel offsets of kernel * offset^k * (allowed fraction at the offset position)
        return np.array([np.dot(win * off ** k, mask[a:a + 2 * winw + 1][::-1]) for a in range(n)])

    if (lim_bot or lim_top) and border >= 0:
        a0 = mom(0)
        ok = (a0 * P) != 0
        normed = np.where(ok, P / np.where(ok, a0, 1), P)
        if border == 0:
            P = normed
        else:
            a1, a2 = mom(1), mom(2)
            xP = toep(win * off, off, n).dot(bins)
            if border == 1:
                corr = (P * a2 - xP * a1) / (a0 * a2 - a1 ** 2)
            else:
                a3, a4 = mom(3), mom(4)
                x2P = toep(win * off ** 2, off, n).dot(bins)
                A = np.stack([np.stack([a0, a1, a2]), np.stack([a1, a2, a3]), np.stack([a2, a3, a4])]).transpose(2, 0, 1)
                corr = np.linalg.solve(A, np.stack([P, xP, x2P]).T[..., None])[:, 0, 0]
            with np.errstate(all='ignore'):
                P = np.where(ok, normed * np.exp(np.minimum(corr / normed, 4) - 1), P)
    elif border == 2:
        x2P = toep(win * off ** 2, off, n).dot(bins)
        a2, a4 = np.dot(win, off ** 2), np.dot(win, off ** 4)
        corr = (P * a4 - a2 * x2P) / (a4 - a2 ** 2)
        ok = P > 0
        P = np.where(ok, P * np.exp(np.minimum(corr / np.where(ok, P, 1), 2) - 1), P)
    if bias:
        m = np.ones(n)
        if lim_bot:
            m[0] = 0.5
        if lim_top:
            m[-1] = 0.5
        a0 = K.dot(m)
        for _ in range(bias):
            P = P * K.dot(bins / np.where(P == 0, 1, P)) / a0
    return P / P.max(), bins, K


def draw_shape(rng, n):
    k = str(rng.choice(['gauss', 'uniform', 'exp', 'trunc', 'bimodal', 'gamma', 'corner', 'beta']))
    lo = hi = None
    if k == 'gauss':
        x = rng.normal(size=n)
    elif k == 'uniform':
        x = rng.uniform(0, 1, n)
        lo, hi = [(0, 1), (None, 1), (0, None), (None, None)][int(rng.integers(0, 4))]
    elif k == 'exp':
        x = rng.exponential(size=n)
        lo = 0
    elif k == 'trunc':
        c = rng.uniform(-1, 1)
        x = rng.normal(size=4 * n + 100)
        x = x[x > c][:n]
        while x.size < n:
            x = np.append(x, c + rng.exponential(0.5, n - x.size))
        lo = float(c)
    elif k == 'bimodal':
        x = np.where(rng.random(n) < 0.4, rng.normal(-3, 0.7, n), rng.normal(2, 1, n))
    elif k == 'gamma':
        x = rng.gamma(3, 1, n)
        lo = 0 if rng.random() < 0.5 else None
    elif k == 'corner':
        x = 1 - rng.exponential(0.2, n)
        x = np.where(x < 0, rng.uniform(0, 1, n), x)
        lo, hi = 0, 1
    else:
        x = rng.beta(2, 1.2, n)
        lo, hi = 0, 1
    if rng.random() < 0.15:
        lo = (-100 if lo is None else lo)
    s, o = 10. ** rng.uniform(-3, 3), 0
    if rng.random() < 0.6:
        o = rng.normal() * s * rng.choice([1, 10])
    f = -1 if rng.random() < 0.4 else 1
    lim = [None if v is None else f * v * s + o for v in (lo, hi)]
    if f < 0:
        lim = lim[::-1]
    x = f * x * s + o
    if lim[0] is not None:
        x = np.maximum(x, lim[0])
    if lim[1] is not None:
        x = np.minimum(x, lim[1])
    return k, x, lim


def at(a, b, span):
    return b is not None and abs(a - b) < 1e-9 * span


def fixed(rng, rec):
    """Stated smoothing: density equals the direct kernel estimator."""
    n = int(rng.choice([40, 200, 1000, 3000]))
    shape, x, lim = draw_shape(rng, n)
    w, wk = gen.weights(rng, n, str(rng.choice(['unit', 'int', 'float', 'none'])))
    border, bias = int(rng.choice([0, 1, 1, 2, -1])), int(rng.choice([0, 1, 1, 2]))
    nb = int(rng.choice([256, 512, 1024, 1025]))
    num_bins = int(rng.choice([50, 100, 30]))
    scale = float(rng.uniform(0.1, 0.6)) if rng.random() < 0.6 else float(rng.uniform(1, 5))
    st = dict(smooth_scale_1D=scale, boundary_correction_order=border, mult_bias_correction_order=bias, fine_bins=nb, num_bins=num_bins)
    how = str(rng.choice(['settings', 'kwargs', 'update']))
    other = rng.normal(size=n)
    cols = [x, other] if rng.random() < 0.7 else [other, x]
    j = 0 if cols[0] is x else 1
    names = ['px', 'other'] if j == 0 else ['other', 'px']
    lims = list(lim) if any(v is not None for v in lim) else None
    rg = {'px': [('N' if v is None and rng.random() < 0.3 else v) for v in lims]} if lims else None
    rec.set(shape=shape, n=n, wk=wk, lim=lim, settings=st, how=how)
    s = gen.mc(np.array(cols).T, w, None, names=names, ranges=rg, settings=st if how == 'settings' else None)
    if how == 'update':
        s.updateSettings(st)
    d = s.get1DDensity('px', **(st if how == 'kwargs' else {}))
    ww = np.ones(n) if w is None else np.asarray(w, float)
    X, P = d.x, d.P
    rec.eq(X.size, nb, 'number of grid points')
    rec.check(np.all(np.diff(X) > 0) and np.allclose(np.diff(X), (X[-1] - X[0]) / (nb - 1), rtol=1e-6), 'even increasing grid')
    span = X[-1] - X[0]
    rec.check(X[0] <= x.min() + 1e-9 * span and X[-1] >= x.max() - 1e-9 * span, 'grid covers samples', grid=(X[0], X[-1]),
              samples=(x.min(), x.max()))
    bot, top = at(X[0], lim[0], span), at(X[-1], lim[1], span)
    mean = np.sum(ww * x) / ww.sum()
    sd = np.sqrt(np.sum(ww * (x - mean) ** 2) / ww.sum())
    for v, hit, edge, sgn in ((lim[0], bot, x.min(), 1), (lim[1], top, x.max(), -1)):
        if v is not None:
            beyond = sgn * (X - v) < -1e-9 * span
            rec.check(not np.any(beyond) or np.max(d.P[beyond]) < 0.6 and abs(edge - v) > 0.02 * sd, 'density stops at hard limit', lim=v,
                      grid=(X[0], X[-1]), edge=edge)
            if abs(edge - v) < 0.02 * sd:
                rec.check(hit, 'limit used when samples reach it', lim=v, edge=edge)
            if abs(edge - v) > 4 * sd:
                rec.check(not hit, 'distant limit has no effect', lim=v, edge=edge)
    rng_lo, rng_hi = d.bounds()
    dx = span / (nb - 1)
    smooth = scale * sd / dx if scale < 1 else scale * (rng_hi - rng_lo) / (num_bins - 1) / dx
    smooth = min(max(1., smooth), nb // 2)
    exp, bins, K = model1d(X, x, ww, smooth, bot, top, border, bias)
    rec.near(np.max(P), 1, 'peak is one', rtol=0, atol=1e-9)
    rec.check(np.min(P) > -1e-6, 'non-negative', min=np.min(P))
    rec.near(P, exp, 'density equals direct kernel estimate', rtol=0, atol=4e-3, smooth=smooth)
    # interpolation and normalisation of the returned object
    k = rng.integers(0, nb, 5)
    rec.near(d(X[k]), P[k], 'interpolates its own grid', rtol=0, atol=1e-8)
    rec.near(np.asarray(d.Prob(list(X[k]))), P[k], 'Prob on a list', rtol=0, atol=1e-8)
    rec.near(np.ravel(d.Prob(float(X[k[0]])))[0], P[k[0]], 'Prob of a number', rtol=0, atol=1e-8)
    rec.near(d([X[0] - span * 0.1, X[-1] + span * 0.1]), [0, 0], 'zero outside its range', rtol=0, atol=0)
    mid = X[nb // 3] + 0.4 * dx
    lo_, hi_ = sorted([P[nb // 3], P[nb // 3 + 1]])
    rec.check(lo_ - 0.02 <= float(d(mid)[0]) <= hi_ + 0.02, 'interpolation between neighbours')
    import copy
    e = copy.deepcopy(d)
    inplace = bool(rng.random() < 0.5)
    P0 = e.P
    r = e.normalize(in_place=inplace)
    rec.check(r is e, 'normalize returns itself')
    rec.near((np.sum(e.P) - 0.5 * (e.P[0] + e.P[-1])) * dx, 1, 'unit integral after normalize', rtol=1e-6)
    if not inplace:
        rec.near(P0, P, 'normalize out of place keeps the array', rtol=0, atol=0)
    rec.near(e(X[k]), e.P[k], 'interpolation after normalize', rtol=1e-6, atol=1e-8 * np.max(e.P))
    e.normalize('max', in_place=True)
    rec.near(e.P, P, 'normalize back to the peak', rtol=0, atol=1e-9)
    rec.sig('fixed', shape, bot, top, border, bias, scale < 1, wk, how, nb)


def repeats(rng, rec):
    """Integer weights count as repeats; overall weight scale is irrelevant; row order is irrelevant (fixed smoothing)."""
    n = int(rng.choice([60, 300]))
    shape, x, lim = draw_shape(rng, n)
    w = rng.integers(1, 7, n).astype(float)
    rg = {'px': list(lim)} if any(v is not None for v in lim) else None
    st = dict(smooth_scale_1D=float(rng.uniform(0.2, 0.5)))
    ll = rng.exponential(size=n) + float(rng.choice([0, 900]))
    mlog = bool(rng.random() < 0.3)

    def mk(a, b, l):
        s = gen.mc(np.asarray(a)[:, None], b, l, names=['px'], ranges=rg, settings=st)
        s.shade_likes_is_mean_loglikes = mlog
        return s.get1DDensityGridData('px', meanlikes=True)
    d = mk(x, w, ll)
    e = mk(np.repeat(x, w.astype(int)), None, np.repeat(ll, w.astype(int)))
    p = rng.permutation(n)
    f = mk(x[p], w[p], ll[p])
    g = mk(x, w * 2. ** int(rng.integers(-12, 13)), ll)
    rec.set(shape=shape, lim=lim)
    for o, msg in ((e, 'weights as repeats'), (f, 'row order'), (g, 'weight scale')):
        rec.near(o.x, d.x, msg + ': grid', rtol=1e-9, atol=1e-9 * abs(d.x).max())
        rec.near(o.P, d.P, msg + ': density', rtol=0, atol=1e-5)
        if np.all(d.P > -1e-9):
            rec.near(o.likes[d.P > 1e-3], d.likes[d.P > 1e-3], msg + ': mean likelihoods', rtol=1e-3, atol=1e-3)
    rec.sig('rep', shape, mlog)


def transform(rng, rec):
    """Shift, rescale, reflect and weight-scale twins, automatic smoothing included."""
    n = int(rng.choice([300, 1500]))
    shape, x, lim = draw_shape(rng, n)
    w, wk = gen.weights(rng, n, str(rng.choice(['unit', 'int', 'float', 'none'])))
    st = dict(smooth_scale_1D=float(rng.choice([-1, -1, -0.6, 0.3, 2])), boundary_correction_order=int(rng.choice([0, 1, 2])),
              mult_bias_correction_order=int(rng.choice([0, 1])))
    # unit-weight rows with a sampler tag: the effective sample number then does not depend on rounding-sensitive searches
    sampler = str(rng.choice(['uncorrelated', 'mcmc', 'nested']))
    rg = {'px': list(lim)} if any(v is not None for v in lim) else None
    mk = lambda a, b, r: gen.mc(np.asarray(a)[:, None], b, None, names=['px'], ranges=r, settings=st, sampler=sampler)
    d = mk(x, w, rg).get1DDensity('px')
    a = float(rng.choice([-1, 1])) * 2. ** int(rng.integers(-6, 7))
    b = float(rng.normal() * np.std(x) * abs(a) * rng.choice([0, 1, 5]))
    m = lambda v: None if v is None else a * v + b
    l2 = [m(v) for v in lim]
    if a < 0:
        l2 = l2[::-1]
    y = a * x + b
    if l2[0] is not None:
        y = np.maximum(y, l2[0])
    if l2[1] is not None:
        y = np.minimum(y, l2[1])
    wf = None if w is None else w * 2. ** int(rng.integers(-8, 9))
    e = mk(y, wf, {'px': l2} if rg else None).get1DDensity('px')
    rec.set(shape=shape, lim=lim, st=st, a=a, b=b, wk=wk, sampler=sampler)
    ex, eP = (e.x - b) / a, e.P
    if a < 0:
        ex, eP = ex[::-1], eP[::-1]
    span = d.x[-1] - d.x[0]
    act = lambda X, L, sp: [at(X[0], L[0], sp), at(X[-1], L[1], sp)]
    A, B = act(d.x, lim, span), act(e.x, l2, span * abs(a))
    if A != (B[::-1] if a < 0 else B):
        # a limit just at the distance where it starts to matter: the two sides may differ by one sample
        Bm = B[::-1] if a < 0 else B
        for v, h1, h2, edge in ((lim[0], A[0], Bm[0], x.min()), (lim[1], A[1], Bm[1], x.max())):
            if v is not None and h1 != h2:
                rec.check(abs(edge - v) > 0.02 * np.std(x), 'limit used when samples reach it', A=A, B=B)
        rec.ev('borderline limit')
        return
    tol = 0.05 if a < 0 else 1e-3
    rec.near(ex, d.x, 'grid moves with the samples', rtol=0, atol=tol * span)
    rec.near(np.interp(d.x, ex, eP), d.P, 'density moves with the samples', rtol=0, atol=0.01 if a > 0 else 0.06 if st['smooth_scale_1D'] > 0 else 0.3)
    bb = np.sort((np.array(e.bounds()) - b) / a)
    rec.near(bb, d.bounds(), 'view range moves with the samples', rtol=0, atol=tol * span)
    rec.sig('tr', shape, a < 0, st['smooth_scale_1D'], st['boundary_correction_order'], st['mult_bias_correction_order'], sampler, wk)


# ---------------------------------------------------------------- analytic truths with automatic smoothing
def truths():
    from scipy import stats
    phi = stats.norm
    return {
        'gauss': (lambda r, n: r.normal(size=n), phi.pdf, None, None),
        'half': (lambda r, n: np.abs(r.normal(size=n)), lambda x: phi.pdf(x) * 2, 0, None),
        'exp': (lambda r, n: r.exponential(size=n), lambda x: np.exp(-x), 0, None),
        'uniform': (lambda r, n: r.uniform(0, 1, n), lambda x: np.ones_like(x), 0, 1),
        'slope': (lambda r, n: r.beta(2, 1, n), lambda x: 2 * x, 0, 1),
        'gamma': (lambda r, n: r.gamma(4, 1, n), stats.gamma(4).pdf, 0, None),
        'bimodal': (lambda r, n: np.where(r.random(n) < 0.5, r.normal(-2.5, 0.8, n), r.normal(2, 1, n)),
                    lambda x: 0.5 * phi(-2.5, 0.8).pdf(x) + 0.5 * phi(2, 1).pdf(x), None, None),
        'cutmid': (lambda r, n: _cut(r, n, 1.), lambda x: phi.pdf(x) / phi.sf(1.), 1., None),
        'cutboth': (lambda r, n: _cut2(r, n, -1., 1.5), lambda x: phi.pdf(x) / (phi.cdf(1.5) - phi.cdf(-1.)), -1., 1.5),
        'student': (lambda r, n: r.standard_t(5, n), stats.t(5).pdf, None, None),
    }


def _cut(r, n, c):
    from scipy import stats
    return stats.norm.isf(r.random(n) * stats.norm.sf(c))


def _cut2(r, n, a, b):
    from scipy import stats
    lo, hi = stats.norm.cdf(a), stats.norm.cdf(b)
    return stats.norm.ppf(lo + r.random(n) * (hi - lo))


BOUND = {}


def truth_error(rng, name, n, border, bias, wmode, f=1):
    draw, pdf, lo, hi = truths()[name]
    w = None
    if wmode == 'tilt':
        # importance weights: draw from a broader set of points and weight to the target
        x = draw(rng, n)
        x2 = draw(rng, n)
        keep = rng.random(n) < 0.5
        x = np.where(keep, x, x2)
        w = rng.uniform(0.5, 1.5, n) * 7
        sampler = 'uncorrelated'
    elif wmode == 'int':
        x = draw(rng, n)
        w = rng.integers(1, 4, n).astype(float)
        sampler = 'mcmc'
    elif wmode == 'repeat':
        # rejections: rows repeated consecutively with unit weights
        x = np.repeat(draw(rng, n // 2), 2)
        sampler = 'mcmc'
    else:
        x = draw(rng, n)
        sampler = str(rng.choice(['mcmc', 'uncorrelated', 'nested']))
    lims = [lo, hi]
    if f < 0:
        x = -x
        lims = [None if v is None else -v for v in lims[::-1]]
    rg = {'px': lims} if lo is not None or hi is not None else None
    s = gen.mc(x[:, None], w, None, names=['px'], ranges=rg, sampler=sampler,
               settings=dict(boundary_correction_order=border, mult_bias_correction_order=bias))
    d = s.get1DDensity('px')
    d2 = s.get1DDensityGridData('px')
    t = pdf(f * d.x)
    if lo is not None:
        t = np.where(f * d.x < lo - 1e-9, 0, t)
    dx = d.x[1] - d.x[0]
    P = d2.P / ((np.sum(d2.P) - 0.5 * (d2.P[0] + d2.P[-1])) * dx)
    err = np.abs(P - t)
    L1 = np.sum(err) * dx
    return d, L1, np.max(err) / np.max(t), err, t


# largest acceptable integrated error |P - truth| at 20000 independent samples (about twice the largest seen)
L1_BOUND = dict(gauss=0.040, half=0.045, exp=0.07, uniform=0.045, slope=0.06, gamma=0.055, bimodal=0.060, cutmid=0.06, cutboth=0.05,
                student=0.055)
MAX_BOUND = dict(gauss=0.12, half=0.17, exp=0.26, uniform=0.28, slope=0.24, gamma=0.13, bimodal=0.18, cutmid=0.24, cutboth=0.19,
                 student=0.14)


def truth(rng, rec):
    name = str(rng.choice(list(L1_BOUND)))
    n = 20000
    border, bias = int(rng.choice([1, 1, 2])), int(rng.choice([0, 1, 1]))
    wmode = str(rng.choice(['none', 'none', 'tilt', 'int', 'repeat']))
    f = int(rng.choice([-1, 1]))
    d, L1, mx, err, t = truth_error(rng, name, n, border, bias, wmode, f)
    rec.set(name=name, border=border, bias=bias, wmode=wmode, f=f)
    rec.near(np.max(d.P), 1, 'peak is one', rtol=0, atol=1e-9)
    rec.check(np.min(d.P) > -1e-6, 'non-negative')
    rec.check(L1 < L1_BOUND[name] * (1.4 if wmode == 'repeat' else 1), 'close to the true density', L1=L1, bound=L1_BOUND[name])
    rec.check(mx < MAX_BOUND[name] * (1.4 if wmode == 'repeat' else 1), 'close to the true density everywhere', mx=mx, bound=MAX_BOUND[name],
              at=d.x[int(np.argmax(err))])
    rec.sig('truth', name, border, bias, wmode, f)


def converge(rng, rec):
    """Errors fall as samples increase."""
    name = str(rng.choice(['gauss', 'half', 'gamma', 'bimodal', 'cutboth']))
    errs = []
    for n in (300, 6000, 120000):
        errs.append(np.mean([truth_error(rng, name, n, 1, 1, 'none')[1] for _ in range(3 if n < 1000 else 1)]))
    rec.set(name=name, errs=errs)
    rec.check(errs[2] < 0.6 * errs[0] and errs[1] < 0.95 * errs[0] and errs[2] < 0.03, 'error falls with more samples', errs=errs)
    rec.sig('conv', name)


def bandwidth(rng, rec):
    """Automatic bandwidth for Gaussian samples is the textbook one, in the stated units and scaling with samples."""
    n = int(rng.choice([2000, 10000, 50000]))
    sig, mu = 10. ** rng.uniform(-3, 3), rng.normal()
    x = rng.normal(size=n) * sig + mu * sig
    from getdist import kde_bandwidth
    opt = 1.06 * sig * n ** -0.2
    h = kde_bandwidth.gaussian_kde_bandwidth(x)
    rec.set(n=n, sig=sig)
    rec.check(h is not None and 0.5 * opt < h < 1.4 * opt, 'bandwidth of Gaussian samples', h=h, opt=opt)
    h4 = kde_bandwidth.gaussian_kde_bandwidth(x, Neff=n / 16.)
    rec.check(1.02 < h4 / h < 8, 'scaling with effective samples', ratio=h4 / h)
    # density smoothed over and above the samples by no more than the (higher-order) optimum: measured from its width
    for bias, fac in ((0, 1.0), (1, None)):
        s = gen.mc(x[:, None], None, None, names=['px'], sampler='uncorrelated', settings=dict(mult_bias_correction_order=bias))
        d = s.get1DDensityGridData('px')
        p = d.P / np.sum(d.P)
        v = np.sum(p * d.x ** 2) - np.sum(p * d.x) ** 2
        extra = (v - np.var(x)) / sig ** 2
        if bias == 0:
            rec.near(extra, (opt / sig) ** 2, 'variance added by plain kernel', rtol=0.85, atol=0.004)
        else:
            rec.check(abs(extra) < 0.05, 'bias-corrected estimate keeps the variance', extra=extra)
        rec.near(np.sum(p * d.x), np.mean(x), 'density keeps the mean', rtol=0, atol=0.02 * sig)
    # scale factor on the automatic smoothing
    s = gen.mc(x[:, None], None, None, names=['px'], sampler='uncorrelated', settings=dict(mult_bias_correction_order=0, fine_bins=2048))
    va = []
    for k in (-1., -2.):
        d = s.get1DDensityGridData('px', smooth_scale_1D=k)
        p = d.P / np.sum(d.P)
        va.append((np.sum(p * d.x ** 2) - np.sum(p * d.x) ** 2 - np.var(x)))
    if n <= 10000:
        rec.near(va[1] / va[0], 4, 'negative smoothing scales the automatic bandwidth', rtol=0.25)
    rec.sig('bw', n)


def likes(rng, rec):
    """Mean-likelihood curve: flat for constant likelihoods, follows a likelihood that depends on the parameter."""
    n = 6000
    x = rng.normal(size=n)
    meanlog = bool(rng.random() < 0.3)
    sc, off = 10. ** rng.uniform(-2, 2), 0. if meanlog else float(rng.choice([0, 50, 1200.]))
    w, wk = gen.weights(rng, n, str(rng.choice(['unit', 'int', 'none'])))
    if rng.random() < 0.4:
        ll = np.full(n, off)
        want = lambda t: np.ones_like(t)
    else:
        c = rng.uniform(-0.5, 0.5)
        ll = (x - c) ** 2 / 2 + off
        want = lambda t: np.exp(-(t / sc - c) ** 2 / 2)
    st = {}
    if rng.random() < 0.5:
        st['smooth_scale_1D'] = 0.15
    s = gen.mc((x * sc)[:, None], w, ll, names=['px'], settings=st)
    s.shade_likes_is_mean_loglikes = meanlog
    d = s.get1DDensityGridData('px', meanlikes=True)
    rec.set(off=off, wk=wk, meanlog=meanlog, const=bool(np.all(ll == off)), st=st)
    rec.check(d.likes is not None and d.likes.shape == d.P.shape, 'likelihood curve on the same grid')
    rec.near(np.max(d.likes), 1, 'likelihood peak is one', rtol=0, atol=1e-6)
    ok = (d.P > 0.3)
    if np.all(ll == off) or meanlog:
        if np.all(ll == off):
            rec.near(d.likes[ok] / np.max(d.likes[ok]), want(d.x[ok]), 'constant likelihood', rtol=0, atol=0.3)
        else:
            rec.near(d.likes[ok] / np.max(d.likes[ok]), want(d.x[ok]), 'mean log likelihood follows the parameter', rtol=0, atol=0.15)
    else:
        rec.near(d.likes[ok] / np.max(d.likes[ok]), want(d.x[ok]), 'mean likelihood follows the parameter', rtol=0, atol=0.2)
    rec.check(s.get1DDensityGridData('px').likes is None, 'no likelihood curve unless asked for')
    rec.sig('likes', wk, meanlog, bool(np.all(ll == off)), bool(st.get('smooth_scale_1D')))


def small(rng, rec):
    """Few samples, ties, huge offsets: still a valid density."""
    n = int(rng.integers(2, 40))
    x = rng.normal(size=n)
    k = str(rng.choice(['plain', 'ties', 'offset', 'outlier']))
    if k == 'ties':
        x = np.round(x)
    elif k == 'offset':
        x = x * 1e-3 + 1e3
    elif k == 'outlier':
        x[0] = 50
    if len(np.unique(x)) < 2:
        x[0] += 1
    w, wk = gen.weights(rng, n, str(rng.choice(['unit', 'int', 'none', 'float'])))
    st = dict(smooth_scale_1D=float(rng.choice([-1, 0.3, 2])))
    s = gen.mc(x[:, None], w, None, names=['px'], settings=st, sampler=str(rng.choice(['mcmc', 'nested', 'uncorrelated'])))
    rec.set(n=n, k=k, wk=wk, st=st)
    d = s.get1DDensity('px')
    rec.check(np.all(np.isfinite(d.P)) and np.min(d.P) > -1e-6 and abs(np.max(d.P) - 1) < 1e-9, 'valid density', P=d.P)
    rec.check(d.x[0] <= x.min() and d.x[-1] >= x.max(), 'covers samples')
    m = np.argmax(d.P)
    near = np.min(np.abs(x - d.x[m])) / (x.max() - x.min())
    rec.check(near < 0.5, 'peak is among the samples', peak=d.x[m])
    rec.check(s.get1DDensity('nosuchparam') is None, 'unknown parameter gives no density')
    rec.sig('small', k, wk, st['smooth_scale_1D'], n < 6)


GROUPS = {'fixed': (fixed, 500, 8000), 'repeats': (repeats, 120, 2000), 'transform': (transform, 500, 8000), 'truth': (truth, 400, 6000),
          'converge': (converge, 24, 300), 'bandwidth': (bandwidth, 40, 300), 'likes': (likes, 40, 600), 'small': (small, 200, 4000)}
