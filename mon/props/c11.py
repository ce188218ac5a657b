import numpy as np

from .. import gen

RULE = 'a case convolves or correlates generated arrays with the fast routines and with explicit summation; distinct = ' \
       '(routine, mode, sizes class, cache use)'
ASSUMPTIONS = ['kernels are no longer than the data they are applied to; while a cache is shared, cached arrays stay alive and unmodified '
               '(both are the documented conditions of use)']


def direct(x, y):
    full = np.zeros(x.size + y.size - 1)
    if y.size <= x.size:
        for j in range(y.size):
            full[j:j + x.size] += x * y[j]
    else:
        for i in range(x.size):
            full[i:i + y.size] += y * x[i]
    return full


def cut1(full, nx, ny, mode):
    if mode == 'full':
        return full
    if mode == 'same':
        return full[(ny - 1) // 2:(ny - 1) // 2 + nx]
    return full[ny - 1:nx]


def direct2(x, y):
    full = np.zeros((x.shape[0] + y.shape[0] - 1, x.shape[1] + y.shape[1] - 1))
    for i in range(y.shape[0]):
        for j in range(y.shape[1]):
            full[i:i + x.shape[0], j:j + x.shape[1]] += x * y[i, j]
    return full


def cut2(full, s1, s2, mode):
    if mode == 'full':
        return full
    if mode == 'same':
        a = [(k - 1) // 2 for k in s2]
        return full[a[0]:a[0] + s1[0], a[1]:a[1] + s1[1]]
    return full[s2[0] - 1:s1[0], s2[1] - 1:s1[1]]


def data(rng, shape):
    k = rng.integers(0, 5)
    x = rng.normal(size=shape) * 10. ** rng.uniform(-3, 3)
    if k == 1:
        x = np.abs(x)
    elif k == 2:
        x = np.where(rng.random(shape) < 0.9, 0, x)
    elif k == 3:
        x = x + 100
    elif k == 4:
        x = np.zeros(shape)
        x.flat[int(rng.integers(0, x.size))] = 2.5
    return x


def cmp(rec, got, exp, scale, msg):
    got = np.asarray(got)
    rec.eq(got.shape, exp.shape, msg + ': shape')
    rec.near(got, exp, msg, rtol=0, atol=1e-10 * scale + 1e-300)


def norm1(x, y):
    return float(np.sqrt(np.sum(np.asarray(x, float) ** 2) * np.sum(np.asarray(y, float) ** 2)))


def conv1d(rng, rec):
    from getdist import convolve
    big = rng.random() < 0.25
    nx = int(rng.integers(1001, 2600)) if big else int(rng.integers(1, 400))
    ny = int(rng.integers(1001, nx + 1)) if big and nx > 1001 and rng.random() < 0.7 else int(rng.integers(1, nx + 1))
    x, y = data(rng, nx), data(rng, ny)
    x0, y0 = x.copy(), y.copy()
    mode = str(rng.choice(['same', 'full', 'valid']))
    full = direct(x, y)
    sc = norm1(x, y)
    exp = cut1(full, nx, ny, mode)
    kw = {}
    if rng.random() < 0.5:
        kw['largest_size'] = int(rng.integers(0, 3 * nx))
    cache = {} if rng.random() < 0.5 else None
    rec.set(nx=nx, ny=ny, mode=mode, kw=kw, cache=cache is not None)
    cmp(rec, convolve.convolve1D(x, y, mode, cache=cache, **kw), exp, sc, 'convolve1D ' + mode)
    cmp(rec, convolve.convolveFFT(x, y, mode, cache=cache, **kw), exp, sc, 'convolveFFT ' + mode)
    if cache is not None:
        cmp(rec, convolve.convolveFFT(x, y, mode, cache=cache, **kw), exp, sc, 'convolveFFT cached ' + mode)
    rec.check(np.array_equal(x, x0) and np.array_equal(y, y0), 'inputs not modified')
    rec.sig('1d', mode, nx > 1000, ny > 1000, nx % 2, ny % 2, ny == nx, cache is not None, bool(kw))


def conv2d(rng, rec):
    from getdist import convolve
    s1 = [int(k) for k in rng.integers(1, 70, 2)]
    s2 = [int(rng.integers(1, min(k, 24) + 1)) for k in s1]
    x, y = data(rng, s1), data(rng, s2)
    x0, y0 = x.copy(), y.copy()
    mode = str(rng.choice(['same', 'full', 'valid']))
    exp = cut2(direct2(x, y), s1, s2, mode)
    kw = {}
    if rng.random() < 0.5:
        kw['largest_size'] = int(rng.integers(0, 150))
    cache = {} if rng.random() < 0.5 else None
    rec.set(s1=s1, s2=s2, mode=mode, kw=kw)
    for rep in range(2 if cache is not None else 1):
        cmp(rec, convolve.convolve2D(x, y, mode, cache=cache, **kw), exp, norm1(x, y), 'convolve2D ' + mode)
    cmp(rec, convolve.convolveFFTn(x, y, mode, **kw), exp, norm1(x, y), 'convolveFFTn ' + mode)
    rec.check(np.array_equal(x, x0) and np.array_equal(y, y0), 'inputs not modified')
    rec.sig('2d', mode, [k % 2 for k in s1 + s2], cache is not None, bool(kw))


def shared(rng, rec):
    """Histories of calls through one transform cache: arrays of equal and different sizes, 1D and 2D."""
    from getdist import convolve
    two = rng.random() < 0.4
    cache = {}
    if two:
        xs = [data(rng, (int(rng.integers(10, 40)), int(rng.integers(10, 40)))) for _ in range(2)]
        xs.append(data(rng, xs[0].shape))
        ys = [data(rng, (int(rng.integers(1, 10)), int(rng.integers(1, 10)))) for _ in range(2)]
        ys.append(data(rng, ys[0].shape))
        f, dr, ct, sz = convolve.convolveFFTn, direct2, cut2, np.shape
    else:
        n = int(rng.integers(60, 300))
        xs = [data(rng, n), data(rng, n), data(rng, int(rng.integers(60, 300)))]
        m = int(rng.integers(1, 40))
        ys = [data(rng, m), data(rng, m), data(rng, int(rng.integers(1, 40)))]
        f, dr, ct, sz = convolve.convolveFFT, direct, cut1, np.size
    size = int(rng.choice([0, 300, 700]))
    for step in range(int(rng.integers(3, 12))):
        i, j = int(rng.integers(0, 3)), int(rng.integers(0, 3))
        mode = str(rng.choice(['same', 'full', 'valid']))
        args = [(1, 2), [1], [2], ()][int(rng.integers(0, 4))]
        # an array marked as not cacheable may be a temporary, as the density code does
        x = xs[i] if 1 in args else xs[i] * 2.0
        y = ys[j] if 2 in args else ys[j] * 3.0
        got = f(x, y, mode, largest_size=size, cache=cache, cache_args=args)
        cmp(rec, got, ct(dr(x, y), sz(x), sz(y), mode), norm1(x, y), 'shared cache ' + mode)
        rec.sig('shared', two, mode, len(args), step)


def gauss_direct(x, sigma):
    n = x.size
    i = np.arange(n)
    K = np.exp(-(i[:, None] - i[None, :]) ** 2 / (2 * sigma ** 2)) / np.sqrt(2 * np.pi) / sigma
    return K.dot(x)


def gaussian(rng, rec):
    from getdist import convolve
    n = int(rng.integers(2, 300))
    x = np.abs(data(rng, n))
    x0 = x.copy()
    sigma = float(rng.uniform(1.2, max(1.3, n / 6)))
    top = float(np.max(np.abs(x)))
    caches = {} if rng.random() < 0.6 else None
    rec.set(n=n, sigma=sigma, cache=caches is not None)
    exp = gauss_direct(x, sigma)
    order = rng.permutation(4)
    for rep in range(2 if caches is not None else 1):
        for k in order:
            if k == 0:
                rng_ = int(rng.integers(3, 7))
                got = convolve.convolveGaussian(x, sigma, sigma_range=rng_, cache=caches)
                # periodic images beyond the padding and the pixelised kernel are all that differ
                rec.eq(got.size, n, 'convolveGaussian size')
                rec.near(got, exp, 'convolveGaussian', rtol=0, atol=top * (0.004 + np.exp(-rng_ ** 2 / 2)))
            elif k == 1:
                got = convolve.convolveGaussianDCT(x, sigma, pad_sigma=4, cache=caches)
                rec.eq(got.size, n, 'convolveGaussianDCT size')
                rec.near(got, exp, 'convolveGaussianDCT', rtol=0, atol=top * 0.004)
            elif k == 2:
                got = convolve.convolveGaussianDCT(x, sigma, pad_sigma=0, cache=caches)
                m = int(6 * sigma) + 2
                reps = int(np.ceil(m / n)) + 1
                per = np.concatenate([x, x[::-1]])
                long = np.concatenate([per] * (2 * reps + 1))
                want = gauss_direct(long, sigma)[2 * n * reps:2 * n * reps + n] if long.size < 4000 else None
                rec.eq(got.size, n, 'convolveGaussianDCT reflected size')
                if want is not None:
                    rec.near(got, want, 'convolveGaussianDCT with reflection at the ends', rtol=0, atol=top * 0.004)
            else:
                for mode in ['same', 'full', 'valid']:
                    rg = int(rng.integers(1, 5)) if rng.random() < 0.8 else 0
                    fill = int(rg * sigma)
                    if mode == 'valid' and 2 * fill >= n:
                        continue
                    pts = np.arange(-fill, fill + 1)
                    win = np.exp(-(pts / sigma) ** 2 / 2)
                    win /= win.sum()
                    got = convolve.convolveGaussianTrunc(x, sigma, sigma_range=rg, mode=mode, cache=caches)
                    full = direct(x, win)
                    want = dict(same=full[fill:fill + n], full=full, valid=full[2 * fill:n])[mode]
                    cmp(rec, got, want, norm1(x, win), 'convolveGaussianTrunc ' + mode)
    # the parts not affected by the ends
    fill = int(4 * sigma)
    if 0 < 2 * fill < n:
        got = convolve.convolveGaussianDCT(x, sigma, pad_sigma=4, mode='valid', cache=caches)
        rec.eq(got.size, n - 2 * fill, 'convolveGaussianDCT valid size')
        rec.near(got, exp[fill:n - fill], 'convolveGaussianDCT valid', rtol=0, atol=top * 0.004)
        rec.ev('dct_valid')
    # nearby widths sharing one cache: each result is that of its own width
    cache = {}
    for sg in [sigma] + [float(sigma + d) for d in rng.uniform(-0.2, 0.2, 3)] + [sigma, float(int(sigma)), float(int(sigma) + 0.05), float(int(sigma) + 0.15)]:
        e = gauss_direct(x, sg)
        rec.near(convolve.convolveGaussian(x, sg, sigma_range=5, cache=cache), convolve.convolveGaussian(x, sg, sigma_range=5), 'convolveGaussian with a cache used for another width', rtol=0, atol=top * 1e-9, width=sg)
        rec.near(convolve.convolveGaussianDCT(x, sg, cache=cache), convolve.convolveGaussianDCT(x, sg), 'convolveGaussianDCT with a cache used for another width', rtol=0, atol=top * 1e-9, width=sg)
        rec.near(convolve.convolveGaussianTrunc(x, sg, cache=cache), convolve.convolveGaussianTrunc(x, sg), 'convolveGaussianTrunc with a cache used for another width', rtol=0, atol=top * 1e-9, width=sg)
        rec.near(convolve.convolveGaussianDCT(x, sg), e, 'convolveGaussianDCT', rtol=0, atol=top * 0.004)
    # 2D cosine transforms
    a = rng.normal(size=(int(rng.integers(2, 30)), int(rng.integers(2, 30))))
    ci = [np.cos(np.pi * np.outer(np.arange(m), 2 * np.arange(m) + 1) / (2. * m)) * 2 for m in a.shape]
    t = convolve.dct2d(a)
    rec.near(t, ci[0].dot(a).dot(ci[1].T), 'dct2d', rtol=0, atol=1e-9 * a.size * 4)
    rec.near(convolve.idct2d(t), 4. * a.size * a, 'idct2d inverts dct2d', rtol=0, atol=1e-9 * a.size ** 2)
    rec.check(np.array_equal(x, x0), 'input not modified')
    rec.sig('gauss', n % 2, caches is not None, int(order[0]))


def autocorr(rng, rec):
    from getdist import convolve
    n = int(rng.integers(1, 500)) if rng.random() < 0.8 else int(rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 32, 64, 128, 1000]))
    x = data(rng, n)
    if rng.random() < 0.3:
        x = np.cumsum(x)
    x0 = x.copy()
    k = int(rng.integers(1, n + 1)) if rng.random() < 0.7 else None
    m = k or n
    lag = np.array([np.dot(x[:n - i], x[i:]) for i in range(m)])
    sc = float(np.dot(x, x))
    rec.set(n=n, k=k)
    cmp(rec, convolve.autoConvolve(x, k, normalize=False), lag, sc, 'autoConvolve')
    norm = np.arange(n, n - m, -1)
    cmp(rec, convolve.autoConvolve(x, k) * norm, lag, sc, 'autoConvolve per term')
    d = x - x.mean()
    if np.dot(d, d) > 1e-9 * sc and n > 1:
        c = np.array([np.dot(d[:n - i], d[i:]) / (n - i) for i in range(m)])
        st = int(rng.integers(0, m))
        tol = 1e-8 * n / (n - m + 1) * max(1, sc / np.dot(d, d))
        rec.near(convolve.autoCorrelation(x, k), c / c[0], 'autoCorrelation', rtol=0, atol=tol)
        rec.near(convolve.autoCorrelation(x, k, start_index=st), (c / c[0])[st:], 'autoCorrelation from start_index', rtol=0, atol=tol)
        rec.near(convolve.autoCorrelation(x, k, normalized=False), c, 'autoCovariance', rtol=0, atol=tol * c[0])
    rec.check(np.array_equal(x, x0), 'input not modified')
    rec.sig('auto', n % 2, k is None, m == n, int(np.log2(n)))


def chain_autocorr(rng, rec):
    """Autocorrelations reported for weighted chains equal direct lagged sums."""
    from getdist import WeightedSamples
    n, p = int(rng.integers(20, 500)), int(rng.integers(1, 4))
    x = gen.params(rng, n, p)
    w, wk = gen.weights(rng, n)
    s = WeightedSamples(samples=x, weights=w)
    w = np.ones(n) if w is None else np.asarray(w, float)
    j = int(rng.integers(0, p))
    mean = np.sum(w * x[:, j]) / w.sum()
    d = (x[:, j] - mean)
    var = np.sum(w * d ** 2) / w.sum()
    e = d * w
    m = int(rng.integers(1, n - 1))
    cov = np.array([np.dot(e[:n - i], e[i:]) / (n - i) for i in range(m + 1)])
    rec.set(n=n, wk=wk, m=m)
    vec = x[:, j] if rng.random() < 0.3 else j
    tol = 1e-9 * n / (n - m) * (1 + abs(mean) / np.sqrt(var)) ** 2 + 1e-9
    sc = np.dot(e, e) / n
    rec.near(s.getAutocorrelation(vec, m, weight_units=False, normalized=False), cov, 'covariance per row', rtol=0, atol=tol * sc)
    rec.near(s.getAutocorrelation(vec, m, weight_units=False), cov / var, 'correlation per row', rtol=0, atol=tol * sc / var)
    rec.near(s.getAutocorrelation(vec, m), cov / var * n / w.sum(), 'correlation in weight units', rtol=0,
             atol=tol * sc / var * n / w.sum())
    rec.sig('chain', wk, n % 2, p)


GROUPS = {'conv1d': (conv1d, 500, 6000), 'conv2d': (conv2d, 400, 5000), 'shared': (shared, 300, 6000), 'gaussian': (gaussian, 250, 3000),
          'autocorr': (autocorr, 500, 8000), 'chain_autocorr': (chain_autocorr, 250, 4000)}
