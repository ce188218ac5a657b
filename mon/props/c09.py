import numpy as np

from .. import gen
from .c08 import at

RULE = 'a case builds the joint density of two generated parameters and compares it with a direct kernel-sum model, an analytic truth, ' \
       'a transformed twin, or the mass inside its own contours; distinct = (shape, limits, smoothing, orders, weights)'
ASSUMPTIONS = ['known-truth error bounds are set at about twice the largest error seen over many seeds on the reference tree']
QUICK_BUDGET = 150
REFL = 0.12


def trunc_normal(rng, n, c):
    from scipy import stats
    return stats.norm.isf(rng.random(n) * stats.norm.sf(c))


def draw2(rng, n):
    """shape, x, y, limits of x, limits of y"""
    k = str(rng.choice(['corr', 'corr', 'anticorr', 'indep', 'banana', 'bimodal', 'halfx', 'halfy', 'quarter', 'box', 'boxx', 'cutcorr']))
    a, b = rng.normal(size=n), rng.normal(size=n)
    lx, ly = [None, None], [None, None]
    r = float(rng.uniform(0.3, 0.9)) * (1 if k != 'anticorr' else -1)
    x, y = a, b
    if k in ('corr', 'anticorr'):
        y = r * a + np.sqrt(1 - r * r) * b
        if rng.random() < 0.2:
            r = float(rng.choice([0.985, 0.996])) * np.sign(r)
            y = r * a + np.sqrt(1 - r * r) * b
    elif k == 'banana':
        y = 0.5 * a ** 2 + 0.4 * b
    elif k == 'bimodal':
        z = rng.random(n) < 0.4
        x, y = np.where(z, a - 3, a + 2), np.where(z, b + 2.5, b - 2)
    elif k == 'halfx':
        x, lx = np.abs(a), [0, None]
    elif k == 'halfy':
        y, ly = np.abs(b), [0, None]
    elif k == 'quarter':
        x, y, lx, ly = np.abs(a), rng.exponential(size=n), [0, None], [0, None]
    elif k == 'box':
        x, y, lx, ly = rng.uniform(0, 1, n), rng.beta(2, 1, n), [0, 1], [0, 1]
    elif k == 'boxx':
        x, lx = rng.uniform(-1, 1, n), [-1, 1]
        y = b + 0.8 * x
    elif k == 'cutcorr':
        x = trunc_normal(rng, n, -0.3)
        y = r * x + np.sqrt(1 - r * r) * b
        lx = [-0.3, None]
    out = []
    for v, l in ((x, lx), (y, ly)):
        s, f = 10. ** rng.uniform(-3, 3), int(rng.choice([-1, 1]))
        o = rng.normal() * s * rng.choice([0, 1, 8])
        v = f * v * s + o
        l = [None if q is None else f * q * s + o for q in l][::f]
        if l[0] is not None:
            v = np.maximum(v, l[0])
        if l[1] is not None:
            v = np.minimum(v, l[1])
        out.append((v, l))
    (x, lx), (y, ly) = out
    if rng.random() < 0.4:
        x, y, lx, ly = y, x, ly, lx
        k += '-swap'
    return k, x, y, lx, ly


def conv(a, k, mode):
    from scipy.signal import oaconvolve
    return oaconvolve(a, k, mode)


def model2d(X, Y, x, y, w, rx, ry, c, lims, border, bias):
    nx, ny = X.size, Y.size
    dx, dy = (X[-1] - X[0]) / (nx - 1), (Y[-1] - Y[0]) / (ny - 1)
    ix = np.clip(np.floor((x - X[0]) / dx + 0.5).astype(int), 0, nx - 1)
    iy = np.clip(np.floor((y - Y[0]) / dy + 0.5).astype(int), 0, ny - 1)
    H = np.zeros((ny, nx))
    np.add.at(H, (iy, ix), w)
    winw = int(round(2.5 * max(rx, ry)))
    o = np.arange(-winw, winw + 1)
    oy, ox = np.meshgrid(o, o, indexing='ij')
    win = np.exp(-((ox / rx) ** 2 + (oy / ry) ** 2 - 2 * c * ox * oy / (rx * ry)) / 2 / (1 - c ** 2))
    win /= win.sum()
    P = conv(H, win, 'same')
    xb, xt, yb, yt = lims

    def mask(alledge):
        m = np.ones((ny + 2 * winw, nx + 2 * winw))
        def kill(b, t, ax):
            mm = m if ax == 1 else m.T
            if b:
                mm[:, winw] *= 0.5
            if t:
                mm[:, mm.shape[1] - winw - 1] *= 0.5
            if b or alledge:
                mm[:, :winw] = 0
            if t or alledge:
                mm[:, mm.shape[1] - winw:] = 0
        kill(xb, xt, 1)
        kill(yb, yt, 0)
        return m

    if any(lims) and border >= 0:
        m = mask(False)
        M = lambda f: conv(m, win * f, 'valid')
        a00 = M(1)
        ok = a00 * P > np.max(P) * 1e-8
        with np.errstate(all='ignore'):
            normed = P / a00
            if border == 1:
                a10, a01, a20, a02, a11 = M(ox), M(oy), M(ox ** 2), M(oy ** 2), M(ox * oy)
                xP, yP = conv(H, win * ox, 'same'), conv(H, win * oy, 'same')
                A = np.stack([a00, a10, a01, a10, a20, a11, a01, a11, a02], -1).reshape(ny, nx, 3, 3)
                R = np.stack([P, xP, yP], -1)[..., None]
                A[~ok] = np.eye(3)
                corr = np.linalg.solve(A, R)[..., 0, 0]
                normed = normed * np.exp(np.minimum(corr / normed, 4) - 1)
        P = np.where(ok, normed, P)
    if bias:
        a00 = conv(mask(True), win, 'valid')
        for _ in range(bias):
            ok = P > np.max(P) * 1e-8
            P = P * conv(np.where(ok, H / np.where(ok, P, 1), H), win, 'same') / a00
    return P / P.max(), H


def bracket(flat, l):
    """grid values next below and above a level, counting values equal up to rounding as one"""
    b, a = flat[flat < l * (1 - 1e-9)], flat[flat > l * (1 + 1e-9)]
    lo = b[-1] if b.size else flat[0]
    b = b[b < lo * (1 - 1e-9)]
    lo = b[-1] if b.size else lo
    hi = a[0] if a.size else flat[-1]
    return lo * (1 - 1e-9), hi * (1 + 1e-9)


def contour_checks(rec, d, fracs, msg=''):
    """Levels are ordered and the region above each level holds the requested fraction of the probability (half-weighted edges)."""
    lev = np.asarray(d.contours if fracs is None else d.getContourLevels(fracs))
    fr = np.asarray(fracs)
    o = np.argsort(fr)
    rec.check(np.all(np.diff(lev[o]) <= 1e-12) and np.all(lev > 0) and np.all(lev <= np.max(d.P) * (1 + 1e-9)), 'levels ordered' + msg, lev=lev)
    W = np.ones(d.P.shape)
    for ax in range(W.ndim):
        Wm = np.moveaxis(W, ax, 0)
        Wm[0] *= 0.5
        Wm[-1] *= 0.5
    mass = W * d.P
    tot = mass.sum()
    for f, l in zip(fr, lev):
        inside = mass[d.P >= l].sum() / tot
        # at most the cells whose value brackets the level can make a difference
        flat = np.sort(d.P.ravel())
        lo, hi = bracket(flat, l)
        above = mass[d.P > hi].sum() / tot
        below = mass[d.P >= lo].sum() / tot
        rec.check(above - 1e-6 <= f <= below + 1e-6, 'mass above contour level' + msg, frac=f, inside=inside, lo=above, hi=below, level=l)


def fixed(rng, rec):
    n = int(rng.choice([100, 500, 2000]))
    shape, x, y, lx, ly = draw2(rng, n)
    w, wk = gen.weights(rng, n, str(rng.choice(['unit', 'int', 'float', 'none'])))
    border, bias = int(rng.choice([0, 1, 1])), int(rng.choice([0, 1, 1, 2]))
    nb = int(rng.choice([64, 128, 200]))
    nbin = int(rng.choice([20, 40, 60]))
    scale = float(rng.uniform(0.15, 0.5)) if rng.random() < 0.6 else float(rng.uniform(1, 3))
    maxc = float(rng.choice([0.95, 0.99, 0.5, 0]))
    st = dict(smooth_scale_2D=scale, boundary_correction_order=border, mult_bias_correction_order=bias, fine_bins_2D=nb)
    st0 = dict(num_bins_2D=nbin, max_corr_2D=maxc)
    how = str(rng.choice(['settings', 'kwargs']))
    cols = {'px': x, 'py': y, 'other': rng.normal(size=n)}
    names = [str(s) for s in rng.permutation(list(cols))]
    rg = {k: list(l) for k, l in (('px', lx), ('py', ly)) if l != [None, None]} or None
    rec.set(shape=shape, n=n, wk=wk, lx=lx, ly=ly, st=st, st0=st0, how=how)
    s = gen.mc(np.array([cols[k] for k in names]).T, w, None, names=names, ranges=rg, settings=dict(st0, **(st if how == 'settings' else {})))
    kw = st if how == 'kwargs' else {}
    d = s.get2DDensity('px', 'py', **kw)
    ww = np.ones(n) if w is None else np.asarray(w, float)
    X, Y, P = d.x, d.y, d.P
    rec.eq(P.shape, (Y.size, X.size), 'grid indexed y, x')
    hit = []
    mean = [np.sum(ww * v) / ww.sum() for v in (x, y)]
    dev = [x - mean[0], y - mean[1]]
    cov = np.array([[np.sum(ww * a * b) / ww.sum() for a in dev] for b in dev])
    sd = np.sqrt(np.diag(cov))
    for v, l, G, sg in ((x, lx, X, sd[0]), (y, ly, Y, sd[1])):
        span = G[-1] - G[0]
        rec.check(G[0] <= v.min() + 1e-9 * span and G[-1] >= v.max() - 1e-9 * span, 'grid covers samples')
        for q, e, end in ((l[0], v.min(), 0), (l[1], v.max(), -1)):
            h = at(G[end], q, span)
            if q is not None and abs(e - q) < 0.02 * sg:
                rec.check(h, 'grid stops at the hard limit', lim=q, grid=(G[0], G[-1]))
            hit.append(h)
    c = cov[0, 1] / sd[0] / sd[1]
    if abs(abs(c) - 0.1) < 1e-6:
        return
    if abs(c) < 0.1:
        c = 0.
    ang = max(0.2, np.sqrt(1 - min(maxc, abs(c)) ** 2))
    c = max(min(c, maxc), -maxc)
    dx, dy = (X[-1] - X[0]) / (X.size - 1), (Y[-1] - Y[0]) / (Y.size - 1)
    if scale < 1:
        rx, ry = scale * sd[0] / dx, scale * sd[1] / dy
    else:
        rx = ry = scale * X.size / int(round(nbin / ang))
    if min(rx, ry) < 1:
        return
    exp, H = model2d(X, Y, x, y, ww, rx, ry, c, hit, border, bias)
    rec.near(np.max(P), 1, 'peak is one', rtol=0, atol=1e-9)
    rec.check(np.min(P) > -1e-4, 'non-negative', min=np.min(P))
    big = exp > 0.02
    rec.near(P[big], exp[big], 'density equals direct kernel estimate', rtol=0, atol=6e-3, rx=rx, ry=ry, c=c)
    rec.check(np.all(P[~big] < 0.05), 'no density where there are no samples')
    # swapped parameters give the transposed density
    e = s.get2DDensity('py', 'px', **kw)
    rec.near(e.P.T, P, 'swapping parameters transposes the density', rtol=0, atol=1e-6)
    rec.near(e.x, Y, 'swapped grid', rtol=1e-9, atol=1e-12)
    # contours
    fr = sorted(rng.uniform(0.2, 0.97, int(rng.integers(1, 4))))
    contour_checks(rec, d, fr)
    # object behaviour
    i, j = rng.integers(0, X.size, 4), rng.integers(0, Y.size, 4)
    rec.near(d(X[i], Y[j], grid=False), P[j, i], 'interpolates its own grid', rtol=0, atol=1e-6)
    rec.near(d.Prob(X[i], Y[j]), P[j, i], 'Prob interpolates its own grid', rtol=0, atol=1e-6)
    import copy
    e = copy.deepcopy(d)
    e.normalize(in_place=bool(rng.random() < 0.5))
    W = np.ones(P.shape)
    W[0] /= 2
    W[-1] /= 2
    W[:, 0] /= 2
    W[:, -1] /= 2
    rec.near(np.sum(W * e.P) * dx * dy, 1, 'unit integral after normalize', rtol=1e-6)
    rec.near(e(X[i], Y[j], grid=False), e.P[j, i], 'interpolation after normalize', rtol=1e-5, atol=1e-6 * np.max(e.P))
    nd = s.get2DDensity('px', 'py', normalized=True, **kw)
    rec.near(nd.P, e.P, 'normalized=True', rtol=1e-6, atol=1e-9 * np.max(e.P))
    (b0, b1) = d.bounds()
    rec.check(X[0] - 1e-9 * (X[-1] - X[0]) <= b0[0] < b0[1] <= X[-1] + 1e-9 * (X[-1] - X[0]) and Y[0] - 1e-9 * (Y[-1] - Y[0]) <= b1[0] < b1[1] <= Y[-1] + 1e-9 * (Y[-1] - Y[0]),
              'bounds are in x, y order inside the grid', bounds=(b0, b1))
    rec.sig('fixed', shape, hit, border, bias, scale < 1, wk, how, nb, maxc)


def auto(rng, rec):
    """Automatic smoothing: valid density, contours, agreement of mass with samples, transposition, invariance."""
    n = int(rng.choice([400, 1500, 4000]))
    shape, x, y, lx, ly = draw2(rng, n)
    w, wk = gen.weights(rng, n, str(rng.choice(['unit', 'int', 'float', 'none'])))
    border, bias = int(rng.choice([0, 1])), int(rng.choice([0, 1]))
    contours = [float(v) for v in sorted(rng.uniform(0.3, 0.96, int(rng.integers(1, 4))))]
    st = dict(boundary_correction_order=border, mult_bias_correction_order=bias, contours=contours, fine_bins_2D=int(rng.choice([128, 256])),
              use_effective_samples_2D=bool(rng.random() < 0.3))
    if rng.random() < 0.3:
        st['smooth_scale_2D'] = -float(rng.uniform(0.7, 1.5))
    sampler = str(rng.choice(['mcmc', 'nested', 'uncorrelated']))
    rg = {k: list(l) for k, l in (('px', lx), ('py', ly)) if l != [None, None]} or None
    mk = lambda a, b, u, r: gen.mc(np.array([a, b]).T, u, None, names=['px', 'py'], ranges=r, settings=st, sampler=sampler)
    s = mk(x, y, w, rg)
    d = s.get2DDensityGridData('px', 'py')
    rec.set(shape=shape, n=n, wk=wk, lx=lx, ly=ly, st=st, sampler=sampler)
    X, Y, P = d.x, d.y, d.P
    rec.check(np.all(np.isfinite(P)) and np.min(P) > -1e-3 and abs(np.max(P) - 1) < 1e-9, 'valid density', min=np.min(P), max=np.max(P))
    rec.eq(len(d.contours), len(contours), 'a level for each contour')
    rec.near(d.contours, d.getContourLevels(contours), 'stored contour levels', rtol=1e-9)
    contour_checks(rec, d, contours)
    k = int(rng.integers(1, len(contours) + 1))
    d2 = s.get2DDensityGridData('px', 'py', num_plot_contours=k)
    rec.near(d2.contours, d.contours[:k], 'first contours only', rtol=1e-9)
    i, j = int(s.index['px']), int(s.index['py'])
    rec.near(s.get2DDensity(i, j).P, P, 'by index', rtol=0, atol=1e-9)
    # marginals of the joint density agree with the samples (the automatic bandwidth may over-smooth few or multi-modal samples)
    strict = n >= 1500 and 'bimodal' not in shape and 'banana' not in shape
    if 'boxx' in shape:  # the automatic width is known to be wrong there: see group flat
        rec.sig('auto', shape, border, bias, wk, sampler)
        return
    ww = np.ones(n) if w is None else np.asarray(w, float)
    neff = ww.sum() ** 2 / np.sum(ww ** 2)
    for v, G, ax in ((x, X, 0), (y, Y, 1)):
        Wt = np.ones(P.shape)
        Wt[0] /= 2
        Wt[-1] /= 2
        Wt[:, 0] /= 2
        Wt[:, -1] /= 2
        p = (np.maximum(P, 0) * Wt).sum(axis=ax)
        p /= p.sum()
        m, sg = np.sum(ww * v) / ww.sum(), 0
        sg = np.sqrt(np.sum(ww * (v - m) ** 2) / ww.sum())
        rec.check(abs(np.sum(p * G) - m) < (0.3 if strict else 0.6) * sg, 'marginal mean of the density', got=np.sum(p * G), mean=m, sd=sg)
        sp = np.sqrt(np.sum(p * (G - np.sum(p * G)) ** 2))
        rec.check(0.75 * sg < sp < (1.4 if strict else 3.5) * sg, 'marginal width of the density', got=sp, sd=sg)
    r = np.sum(ww * (x - np.average(x, weights=ww)) * (y - np.average(y, weights=ww))) / ww.sum() / np.sqrt(
        np.cov(x, aweights=ww, ddof=0) * np.cov(y, aweights=ww, ddof=0))
    q = np.maximum(P, 0) / np.maximum(P, 0).sum()
    gx, gy = np.meshgrid((X - X[0]) / (X[-1] - X[0]), (Y - Y[0]) / (Y[-1] - Y[0]))
    mx, my = (q * gx).sum(), (q * gy).sum()
    rr = (q * (gx - mx) * (gy - my)).sum() / np.sqrt((q * (gx - mx) ** 2).sum() * (q * (gy - my) ** 2).sum())
    rec.check(abs(rr - r) < (0.2 if strict else 0.5), 'correlation of the density', got=rr, samples=r)
    # samples inside each contour
    ix = np.clip(np.rint((x - X[0]) / (X[1] - X[0])).astype(int), 0, X.size - 1)
    iy = np.clip(np.rint((y - Y[0]) / (Y[1] - Y[0])).astype(int), 0, Y.size - 1)
    val = P[iy, ix]
    for f, l in zip(contours, d.contours):
        got = np.sum(ww[val >= l]) / ww.sum()
        rec.check(abs(got - f) < (0.13 if strict else 0.3) + 2.5 * np.sqrt(f * (1 - f) / neff), 'samples inside contour', frac=f, got=got, neff=neff)
    # symmetry and invariance
    e = s.get2DDensity('py', 'px')
    if strict:
        rec.near(e.P.T, P, 'swapping parameters transposes the density', rtol=0, atol=0.3)
    if strict:
        fl = lambda l: [None if u is None else -u for u in l[::-1]]
        t = mk(x, -y, w, {k: l for k, l in (('px', list(lx)), ('py', fl(ly))) if l != [None, None]} or None)
        e = t.get2DDensity('px', 'py')
        k = rng.choice(n, 300)
        dev = np.max(np.abs(e.Prob(x[k], -y[k]) - s.get2DDensity('px', 'py').Prob(x[k], y[k])))
        rec.check(dev < REFL, 'reflected samples give the reflected density', dev=dev)
    if rng.random() < 0.5:
        a, b = 2. ** rng.integers(-5, 6, 2)
        sc = lambda l, f: [None if u is None else u * f for u in l]
        rg2 = {k: sc(l, f) for k, l, f in (('px', lx, a), ('py', ly, b)) if l != [None, None]} or None
        t = mk(x * a, y * b, None if w is None else w * 2. ** int(rng.integers(-6, 7)), rg2)
        e = t.get2DDensity('px', 'py')
        rec.near(e.x, X * a, 'grid scales with the samples', rtol=1e-9, atol=1e-12 * abs(X * a).max())
        rec.near(e.P, P, 'density unchanged by rescaling parameters and weights', rtol=0, atol=0.02)
    rec.sig('auto', shape, border, bias, wk, sampler, len(contours), st['use_effective_samples_2D'])


# ------------------------------------------------------------------ truths
def t2(name):
    from scipy import stats
    N = stats.norm
    g = lambda r: (lambda x, y: np.exp(-(x ** 2 + y ** 2 - 2 * r * x * y) / 2 / (1 - r * r)) / (2 * np.pi * np.sqrt(1 - r * r)))
    cg = lambda r: (lambda rng, n: _corr(rng, n, r))
    if name.startswith('corr'):
        r = float(name[4:])
        return cg(r), g(r), [None, None], [None, None]
    if name == 'halfx':
        return (lambda R, n: (np.abs(R.normal(size=n)), R.normal(size=n))), (lambda x, y: 2 * N.pdf(x) * N.pdf(y)), [0, None], [None, None]
    if name == 'halfy':
        return (lambda R, n: (R.normal(size=n), np.abs(R.normal(size=n)))), (lambda x, y: 2 * N.pdf(x) * N.pdf(y)), [None, None], [0, None]
    if name == 'quarter':
        return (lambda R, n: (np.abs(R.normal(size=n)), R.exponential(size=n))), (lambda x, y: 2 * N.pdf(x) * np.exp(-y)), [0, None], [0, None]
    if name == 'box':
        return (lambda R, n: (R.uniform(0, 1, n), R.beta(2, 1, n))), (lambda x, y: 2 * y + 0 * x), [0, 1], [0, 1]
    if name == 'cutcorr':
        def f(R, n):
            x, y = _corr(R, 3 * n, 0.6)
            ok = x > -0.3
            return x[ok][:n], y[ok][:n]
        return f, (lambda x, y: g(0.6)(x, y) / N.sf(-0.3)), [-0.3, None], [None, None]
    if name == 'cutcorry':
        def f(R, n):
            x, y = _corr(R, 3 * n, -0.7)
            ok = y < 0.5
            return x[ok][:n], y[ok][:n]
        return f, (lambda x, y: g(-0.7)(x, y) / N.cdf(0.5)), [None, None], [None, 0.5]
    if name == 'banana':
        def f(R, n):
            x = R.normal(size=n)
            return x, 0.5 * x ** 2 + 0.5 * R.normal(size=n)
        return f, (lambda x, y: N.pdf(x) * N.pdf((y - 0.5 * x ** 2) / 0.5) / 0.5), [None, None], [None, None]
    if name == 'bimodal':
        def f(R, n):
            z = R.random(n) < 0.5
            return np.where(z, -2, 2) + R.normal(size=n), np.where(z, 1.5, -1.5) + R.normal(size=n)
        return f, (lambda x, y: 0.5 * N.pdf(x + 2) * N.pdf(y - 1.5) + 0.5 * N.pdf(x - 2) * N.pdf(y + 1.5)), [None, None], [None, None]
    raise ValueError(name)


def _corr(R, n, r):
    a, b = R.normal(size=n), R.normal(size=n)
    return a, r * a + np.sqrt(1 - r * r) * b


L1_BOUND = {'corr0': .08, 'corr0.5': .08, 'corr-0.8': .08, 'corr0.93': .08, 'halfx': .075, 'halfy': .075, 'quarter': .085, 'box': .065,
            'cutcorr': .075, 'cutcorry': .075, 'banana': .1, 'bimodal': .105}


def truth_error(rng, name, n, border=1, bias=1, wmode='none'):
    draw, pdf, lx, ly = t2(name)
    x, y = draw(rng, n)
    w = None
    if wmode == 'int':
        w = rng.integers(1, 4, x.size).astype(float)
    rg = {k: list(l) for k, l in (('px', lx), ('py', ly)) if l != [None, None]} or None
    s = gen.mc(np.array([x, y]).T, w, None, names=['px', 'py'], ranges=rg, sampler='uncorrelated',
               settings=dict(boundary_correction_order=border, mult_bias_correction_order=bias))
    d = s.get2DDensity('px', 'py', normalized=True)
    t = pdf(d.x[None, :], d.y[:, None])
    W = np.ones(d.P.shape)
    W[0] /= 2
    W[-1] /= 2
    W[:, 0] /= 2
    W[:, -1] /= 2
    err = np.abs(d.P - t)
    area = (d.x[1] - d.x[0]) * (d.y[1] - d.y[0])
    return d, np.sum(err * W) * area, np.max(err) / np.max(t), t


def truth(rng, rec):
    name = str(rng.choice(list(L1_BOUND)))
    border, bias, wm = 1, int(rng.choice([0, 1])), str(rng.choice(['none', 'int']))
    d, L1, mx, t = truth_error(rng, name, 20000, border, bias, wm)
    rec.set(name=name, bias=bias, wm=wm)
    rec.check(L1 < L1_BOUND[name], 'close to the true joint density', L1=L1, bound=L1_BOUND[name])
    # true probability inside the reported 68/95% contours
    fr = [0.68, 0.95]
    lev = d.getContourLevels(fr)
    for f, l in zip(fr, lev):
        got = t[d.P >= l].sum() / t.sum()
        rec.check(abs(got - f) < 0.035, 'true probability inside the contour', frac=f, got=got)
    rec.sig('truth', name, bias, wm)


def levels(rng, rec):
    """getContourLevels on arbitrary grids in one to three dimensions."""
    from getdist.densities import getContourLevels, Density1D, Density2D
    dim = int(rng.integers(1, 4))
    shape = [int(v) for v in rng.integers(4, 40 if dim > 1 else 300, dim)]
    ax = [np.linspace(-2, 2, k) for k in shape]
    g = np.meshgrid(*ax, indexing='ij')
    k = int(rng.integers(0, 3))
    c = rng.normal(size=dim) * (1.5 if k else 0.3)
    P = np.exp(-sum((v - u) ** 2 for v, u in zip(g, c)) * rng.uniform(0.2, 2))
    if k == 2:
        P = rng.random(shape)
    P0 = P.copy()
    half = bool(rng.random() < 0.7)
    fr = [float(v) for v in rng.uniform(0.1, 0.97, int(rng.integers(1, 4)))]
    W = np.ones(shape)
    if half:
        for a in range(dim):
            Wm = np.moveaxis(W, a, 0)
            Wm[0] *= 0.5
            Wm[-1] *= 0.5
    mass = W * P
    tot = mass.sum()
    rec.set(shape=shape, k=k, half=half, fr=fr)
    flat = np.sort(P.ravel())
    if (1 - max(fr)) * tot <= mass.ravel()[np.argsort(P.ravel())][0]:
        return
    lev = getContourLevels(P, fr, half_edge=half)
    rec.check(np.array_equal(P, P0), 'grid not modified')
    for f, l in zip(fr, lev):
        lo, hi = bracket(flat, l)
        a, b = mass[P > hi].sum() / tot, mass[P >= lo].sum() / tot
        rec.check(a - 1e-6 <= f <= b + 1e-6, 'mass above contour level', frac=f, lo=a, hi=b, level=l)
    # missing probability outside the grid counts as tail
    miss = float(rng.uniform(0, 0.02)) * tot
    if (1 - max(fr)) * tot - miss > mass.ravel()[np.argsort(P.ravel())][0]:
        lm = getContourLevels(P, fr, missing_norm=miss, half_edge=half)
        rec.check(np.all(np.asarray(lm) <= np.asarray(lev) + 1e-12), 'missing tail lowers levels')
    rec.sig('levels', dim, k, half, len(fr))


def degenerate(rng, rec):
    """Perfectly correlated pairs, heavy tails, few samples: still a finite unit-peak density."""
    n = int(rng.choice([12, 60, 800]))
    k = str(rng.choice(['same', 'neg', 'tails', 'nearly', 'few']))
    x = rng.normal(size=n)
    if k == 'same':
        y = x * 3 + 1
    elif k == 'neg':
        y = -x
    elif k == 'tails':
        x = x * 1.0
        x[0] = 60
        y = rng.normal(size=n)
    elif k == 'nearly':
        y = x + 1e-5 * rng.normal(size=n)
    else:
        y = rng.normal(size=n)
    st = dict(smooth_scale_2D=float(rng.choice([-1, 0.3, 2])), mult_bias_correction_order=int(rng.choice([0, 1])))
    s = gen.mc(np.array([x, y]).T, None, None, names=['px', 'py'], settings=st, sampler=str(rng.choice(['mcmc', 'uncorrelated'])))
    rec.set(k=k, n=n, st=st)
    d = s.get2DDensity('px', 'py')
    rec.check(np.all(np.isfinite(d.P)) and abs(np.max(d.P) - 1) < 1e-9 and np.min(d.P) > -0.05, 'valid density', min=np.min(d.P))
    rec.check(d.x[0] <= x.min() and d.x[-1] >= x.max() and d.y[0] <= y.min() and d.y[-1] >= y.max(), 'covers samples')
    rec.check(s.get2DDensity('px', 'nosuch') is None, 'unknown parameter gives no density')
    rec.sig('deg', k, n, st['smooth_scale_2D'])


def likes(rng, rec):
    n = 4000
    x, y = rng.normal(size=(2, n))
    ll = (x ** 2 + y ** 2) / 2 + float(rng.choice([0, 700]))
    const = rng.random() < 0.4
    if const:
        ll = np.full(n, ll[0])
    s = gen.mc(np.array([x, y]).T, None, ll, names=['px', 'py'], settings=dict(smooth_scale_2D=0.2))
    d = s.get2DDensityGridData('px', 'py', meanlikes=True)
    rec.set(const=bool(const))
    rec.near(np.max(d.likes), 1, 'likelihood peak', rtol=0, atol=1e-9)
    rec.eq(d.likes.shape, d.P.shape, 'likelihood grid')
    ok = d.P > 0.3
    L = d.likes / np.median(d.likes[d.P > 0.7])
    if const:
        rec.check(np.max(np.abs(L[ok] - 1)) < 0.3, 'constant likelihood', dev=np.max(np.abs(L[ok] - 1)))
    else:
        t = np.exp(-(d.x[None, :] ** 2 + d.y[:, None] ** 2) / 2)
        t = t / np.median(t[d.P > 0.7])
        rec.check(np.mean(np.abs(L[ok] - t[ok])) < 0.2, 'likelihood follows the parameters', dev=np.mean(np.abs(L[ok] - t[ok])))
    rec.check(s.get2DDensityGridData('px', 'py').likes is None, 'no likelihood grid unless asked')
    rec.sig('likes', bool(const))


def flat(rng, rec):
    """Bounded uniform x with y = slope x + Gaussian: density close to the truth."""
    R = np.random.default_rng(0)
    n, case = 100000, int(rec.idx) % 2
    slope = (0, 0.8)[case]
    x = R.uniform(-1, 1, n)
    y = slope * x + R.normal(size=n)
    s = gen.mc(np.array([x, y]).T, None, None, names=['px', 'py'], ranges={'px': [-1, 1]}, sampler='uncorrelated')
    d = s.get2DDensity('px', 'py')
    t = np.exp(-(d.y[:, None] - slope * d.x[None, :]) ** 2 / 2)
    t, p = t / t.sum(), d.P / d.P.sum()
    err = np.abs(t - p).sum()
    rec.set(slope=slope, err=err)
    rec.check(err < 0.12, 'density of bounded uniform x and y=%s*x+Gaussian' % slope, finding='auto2d-bounded-sheared' if case else None, err=err)
    rec.sig('flat', case)


def bandwidth(rng, rec):
    """kernel chosen for Gaussian histograms: scales as the width in each direction, tilts the way the samples do"""
    from getdist.kde_bandwidth import KernelOptimizer2D
    n = int(rng.choice([64, 128, 256]))
    sx, sy = [float(v) for v in rng.uniform(0.06, 0.14, 2)]
    r = float(rng.choice([0, 0, 0.4, -0.4, 0.7, -0.7]))
    N = float(10 ** rng.uniform(2.5, 5))
    x = np.linspace(0, 1, n)
    A, B = np.meshgrid((x - 0.5) / sx, (x - 0.5) / sy)
    d = np.exp(-(A * A - 2 * r * A * B + B * B) / 2 / (1 - r * r))
    noisy = bool(rng.random() < 0.5)
    if noisy:
        d = rng.poisson(d / d.sum() * N * 3).astype(float)
    o = KernelOptimizer2D(d, N, r, do_correlation=True)
    f = N ** (-1 / 6.)
    rec.set(bins=n, sx=sx, sy=sy, r=r, N=N, noisy=noisy)
    hx, hy, c = [float(v) for v in o.get_hdiag()]
    rec.check(0.55 < hx / sx / f < 1.7 and 0.55 < hy / sy / f < 1.7 and abs(c) < 1e-9, 'width of the kernel for a Gaussian', got=(hx / sx / f, hy / sy / f, c))
    rec.check(abs(np.log(hx / sx / (hy / sy))) < 0.35, 'width of the kernel in the two directions', got=(hx / sx, hy / sy))
    hx, hy, c = [float(v) for v in o.get_h()]
    top = 1.6 if not r or (abs(r) < 0.5 and N > 10 ** 4.3) else 6
    rec.check(0.55 < hx / sx / f < top and 0.55 < hy / sy / f < top, 'width of the correlated kernel for a Gaussian', got=(hx / sx / f, hy / sy / f, c))
    rec.check(abs(c) < 0.2 if not r else c * r >= 0, 'tilt of the kernel and of the samples', got=c)
    rec.sig('bandwidth', n, r, noisy, int(np.log10(N) * 2))
    rec.ev('kernels')


GROUPS = {'flat': (flat, 2, 2), 'fixed': (fixed, 200, 3000), 'auto': (auto, 160, 3000), 'truth': (truth, 64, 800), 'levels': (levels, 300, 6000),
          'degenerate': (degenerate, 60, 1000), 'likes': (likes, 12, 150), 'bandwidth': (bandwidth, 200, 6000)}
