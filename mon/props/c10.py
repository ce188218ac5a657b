import re

import numpy as np

from .. import gen

RULE = 'a case is one generated chain; every reported limit of every parameter is checked against mass accounting on the raw samples ' \
       'and on the reported density; distinct = (shape, limits, tag, contour count, weights)'
ASSUMPTIONS = ['tag decisions within 4% of the threshold density are not judged', 'force_twotail and settings of max_frac_twotail above the defaults are not exercised']
QUICK_BUDGET = 40


def draw(rng, n):
    k = str(rng.choice(['gauss', 'gauss', 'skew', 'exp', 'halfgauss', 'cutgauss', 'uniform', 'slope', 'beta', 'bimodal', 'expfree', 'gausslim', 'onelim']))
    lim = [None, None]
    if k == 'gauss':
        x = rng.normal(size=n)
    elif k == 'gausslim':
        x, lim = rng.normal(size=n), [-30, 30]
    elif k == 'onelim':
        x, lim = rng.normal(size=n), [-30, None]
    elif k == 'skew':
        x = rng.gamma(3, size=n)
    elif k in ('exp', 'expfree'):
        x = rng.exponential(size=n)
        if k == 'exp':
            lim = [0, None]
    elif k == 'halfgauss':
        x, lim = np.abs(rng.normal(size=n)), [0, None]
    elif k == 'cutgauss':
        c = float(rng.uniform(-2.2, 0.5))
        x = rng.normal(size=4 * n + 1000)
        x = x[x > c]
        while x.size < n:
            y = rng.normal(size=4 * n)
            x = np.append(x, y[y > c])
        x, lim = x[:n], [c, None]
    elif k == 'uniform':
        x, lim = rng.uniform(0, 1, n), [0, 1]
    elif k == 'slope':
        x, lim = np.sqrt(rng.uniform(0.1, 1, n)), [float(np.sqrt(0.1)), 1]
    elif k == 'beta':
        a = float(rng.uniform(1, 4))
        x, lim = rng.beta(a, 1, n), [0, 1]
    else:
        z = rng.random(n) < 0.4
        x = np.where(z, rng.normal(size=n) - 3, rng.normal(size=n) + 2.5)
    s, f = 10. ** rng.uniform(-4, 4), int(rng.choice([-1, 1]))
    o = rng.normal() * s * rng.choice([0, 1, 8])
    x = f * x * s + o
    lim = [None if q is None else f * q * s + o for q in lim][::f]
    if lim[0] is not None:
        x = np.maximum(x, lim[0])
    if lim[1] is not None:
        x = np.minimum(x, lim[1])
    return k, x, lim


def hpd(x, P, c, fac=40):
    """threshold density with mass c above it, mass above the edges' densities (fine spline of the reported density)."""
    from scipy.interpolate import UnivariateSpline
    f = UnivariateSpline(x, P, s=0)
    n = (x.size - 1) * fac + 1
    g = np.linspace(x[0], x[-1], n)
    v = f(g)
    w = np.full(n, 1.)
    w[0] = w[-1] = 0.5
    o = np.argsort(v)
    cs = np.cumsum((v * w)[o])
    t = v[o][np.searchsorted(cs, (1 - c) * cs[-1])]
    ends = []
    for q in (t * 1.03, t, t * 0.97):
        ab = np.nonzero(v >= q)[0]
        ends.append((g[ab[0]], g[ab[-1]]) if ab.size else ends[-1] if ends else (g[np.argmax(v)],) * 2)
    ab = np.nonzero(v >= t)[0]
    simple = ab.size == ab[-1] - ab[0] + 1
    return t, (ends[2][0], ends[0][0]), (ends[0][1], ends[2][1]), f, simple


def quantile_ok(rec, x, w, value, frac_above, msg, n):
    """The weight above (below) value brackets frac (one sample's granularity plus interpolation)."""
    tot = w.sum()
    gt, ge = w[x > value].sum() / tot, w[x >= value].sum() / tot
    # the value may be interpolated between neighbouring samples
    tol = 1.01 * w.max() / tot + 1e-9
    rec.check(gt - tol <= frac_above <= ge + tol, msg, value=value, frac=frac_above, strictly_above=gt, at_or_above=ge)


num = r'[-+]?\d+(?:\.\d*)?'


def parse_tex(t):
    m = re.fullmatch(r'\\left\(\\,(.*)\\,\\right\)\\cdot 10\^\{(-?\d+)\}', t)
    sc = 1.
    if m:
        t, sc = m.group(1), 10. ** int(m.group(2))
    m = re.fullmatch('(%s)\\\\pm (%s)' % (num, num), t)
    if m:
        return 'pm', float(m.group(1)) * sc, float(m.group(2)) * sc, dp(m.group(1)) * sc, dp(m.group(2)) * sc
    m = re.fullmatch('(%s)\\^\\{(%s)\\}_\\{(%s)\\}' % (num, num, num), t)
    if m:
        return 'asym', float(m.group(1)) * sc, float(m.group(2)) * sc, float(m.group(3)) * sc, dp(m.group(1)) * sc, dp(m.group(2)) * sc, dp(m.group(3)) * sc
    m = re.fullmatch('([<>]) (%s)(?:\\\\cdot 10\\^\\{(-?\\d+)\\})?' % num, t)
    if m:
        sc = 10. ** int(m.group(3) or 0)
        return m.group(1), float(m.group(2)) * sc, dp(m.group(2)) * sc
    if t == '---':
        return ('none',)
    return ('unparsed', t)


def dp(s):
    """value of one unit in the last printed place (trailing zeros before the point count as unknown digits)"""
    if '.' in s:
        return 10. ** -(len(s) - s.index('.') - 1)
    s = s.lstrip('+-')
    z = len(s) - len(s.rstrip('0'))
    return 10. ** z


def limits(rng, rec):
    n = int(rng.choice([1000, 3000, 8000]))
    npar = int(rng.integers(1, 4))
    w, wk = gen.weights(rng, n, str(rng.choice(['unit', 'int', 'float', 'none'])))
    ds = [draw(rng, n) for _ in range(npar)]
    X = np.array([d[1] for d in ds]).T
    names = ['par%d' % i for i in range(npar)]
    ranges = {nm: list(d[2]) for nm, d in zip(names, ds) if d[2] != [None, None]} or None
    contours = sorted(float(v) for v in rng.uniform(0.2, 0.97, int(rng.integers(1, 4))))
    if rng.random() < 0.4:
        contours = [0.68, 0.95, 0.99][:len(contours)]
    st = dict(contours=contours)
    if rng.random() < 0.3:
        st['credible_interval_threshold'] = float(rng.choice([0, 0.02, 0.3, 2]))
    thr = st.get('credible_interval_threshold', 0.05)
    if rng.random() < 0.3:
        st['smooth_scale_1D'] = float(rng.choice([0.15, 0.3, -0.8]))
    s = gen.mc(X, w, None, names=names, ranges=ranges, settings=st, sampler=str(rng.choice(['mcmc', 'nested', 'uncorrelated'])))
    ww = np.ones(n) if w is None else np.asarray(w, float)
    marge = s.getMargeStats()
    rec.eq(list(marge.limits), list(s.contours), 'contours of the statistics')
    tags = []
    for nm, (k, x, lim) in zip(names, ds):
        par = marge.parWithName(nm)
        rec.set(shape=k, n=n, lim=lim, wk=wk, st=st)
        m = np.sum(ww * x) / ww.sum()
        sd = np.sqrt(np.sum(ww * (x - m) ** 2) / ww.sum())
        rec.near(par.mean, m, 'mean of the statistics', rtol=1e-9, atol=1e-9 * sd)
        rec.near(par.err, sd, 'standard deviation of the statistics', rtol=1e-7, atol=0)
        rec.eq(len(par.limits), len(contours), 'number of limits')
        d = s.get1DDensity(nm)
        dx = d.x[1] - d.x[0]
        lo = lim[0] if lim[0] is not None else -np.inf
        hi = lim[1] if lim[1] is not None else np.inf
        prev = None
        for c, L in zip(contours, par.limits):
            tag = L.limitTag()
            tags.append(tag)
            t, a, b, f, simple = hpd(d.x, d.P, c)
            rec.set(contour=c, tag=tag, lower=L.lower, upper=L.upper, edges=(d.P[0], d.P[-1]), threshold=t)
            rec.check(L.lower < L.upper, 'ordered')
            eps = 1e-9 * max(sd, abs(L.lower), abs(L.upper))
            rec.check(L.lower >= lo - eps and L.upper <= hi + eps, 'limits inside the hard prior range')
            rec.eq((L.twotail, L.onetail_upper, L.onetail_lower), (tag == 'two', tag == '>', tag == '<'), 'flags consistent')
            # ---- which kind of limit
            mf = np.exp(-get_z(c) ** 2 / 2)
            both = lim[0] is not None and lim[1] is not None
            near_none = both and min(abs(d.P[0] - mf), abs(d.P[-1] - mf)) < 0.04
            eb, et = d.P[0] - t, d.P[-1] - t
            if not near_none and min(abs(eb), abs(et)) > 0.04 * t:
                if both and d.P[0] > mf and d.P[-1] > mf:
                    exp = 'none'
                else:
                    exp = {(False, False): 'two', (True, False): '>', (False, True): '<', (True, True): 'none'}[(eb > 0, et > 0)]
                rec.eq(tag, exp, 'kind of limit from the density at the ends')
                rec.ev('kind ' + tag)
            if tag in ('>', 'none'):
                rec.check(lim[0] is not None, 'lower end without limit only at a hard limit')
                rec.near(L.lower, lim[0], 'lower end is the hard limit', rtol=1e-9, atol=1e-9 * sd)
                rec.check(d.P[0] > 0.02, 'one-tail limit only where the posterior is not small')
            if tag in ('<', 'none'):
                rec.check(lim[1] is not None, 'upper end without limit only at a hard limit')
                rec.near(L.upper, lim[1], 'upper end is the hard limit', rtol=1e-9, atol=1e-9 * sd)
                rec.check(d.P[-1] > 0.02, 'one-tail limit only where the posterior is not small')
            # ---- mass
            inside = ww[(x >= L.lower - eps) & (x <= L.upper + eps)].sum() / ww.sum()
            if tag == '>':
                quantile_ok(rec, x, ww, L.upper, 1 - c, 'one-tail upper limit contains the probability', n)
            elif tag == '<':
                quantile_ok(rec, x, ww, L.lower, c, 'one-tail lower limit contains the probability', n)
            elif tag == 'two':
                tot = ww.sum()
                eq = all(abs(ww[x > v].sum() / tot - q) <= 1.01 * ww.max() / tot + 1e-9 or
                         ww[x > v].sum() / tot <= q <= ww[x >= v].sum() / tot for v, q in ((L.lower, 1 - (1 - c) / 2), (L.upper, (1 - c) / 2)))
                tol = 3 * dx + 1e-9 * sd
                hp = a[0] - tol < L.lower < a[1] + tol and b[0] - tol < L.upper < b[1] + tol
                rec.check(eq or hp, 'two-tail limits are the equal-tail or the equal-density interval', hpd=(a, b), dx=dx)
                rec.ev('equal-tail' if eq else 'equal-density')
                # choice between them by the density at the equal-tail ends
                ql, qu = (s.confidence(nm, (1 - c) / 2, upper=u) for u in (False, True))
                diff = abs(f(ql) - f(qu))
                if abs(diff - thr) > 0.02:
                    rec.check(eq if diff < thr else hp, 'kind of two-tail interval', diff=diff, thr=thr, hpd=(a, b), quant=(ql, qu))
                tolm = 0.02 + 3 * np.sqrt(np.sum(ww ** 2)) / tot + (0.1 if k in ('bimodal', 'expfree', 'skew', 'beta', 'cutgauss') and not eq else 0.03)
                if (k != 'bimodal' and simple) or eq:
                    rec.check(abs(inside - c) < tolm, 'two-tail interval contains the probability', inside=inside, tol=tolm)
            # ---- nesting
            kind = tag + str(eq if tag == 'two' else '')
            if prev is not None and pkind == kind:
                rec.check(L.lower <= prev.lower + 3 * dx and L.upper >= prev.upper - 3 * dx, 'limits nested', prev=(prev.lower, prev.upper))
            prev, pkind = L, kind
            # ---- same from the density object
            mn, mx, hb, ht = d.getLimits(c)
            rec.check(a[0] - 3 * dx < mn < a[1] + 3 * dx and b[0] - 3 * dx < mx < b[1] + 3 * dx, 'equal-density limits of the density', got=(mn, mx), hpd=(a, b), dx=dx)
            if min(abs(eb), abs(et)) > 0.04 * t:
                rec.eq((bool(hb), bool(ht)), (bool(eb > 0), bool(et > 0)), 'density ends above the level')
        got = d.getLimits(contours)
        for c, g in zip(contours, got):
            rec.near(g[:2], d.getLimits(c)[:2], 'limits of a list of levels', rtol=1e-12, atol=1e-9 * sd)
        # ---- latex
        for i, L in enumerate(par.limits):
            tex = s.getInlineLatex(nm, limit=i + 1)
            lab, t2 = s.getLatex([nm], limit=i + 1)
            rec.check(tex in (lab[0] + ' = ' + t2[0], lab[0] + ' ' + t2[0]), 'inline latex', tex=tex, parts=(lab, t2))
            p = parse_tex(t2[0])
            rec.set(tex=t2[0], lower=L.lower, upper=L.upper, mean=par.mean, err=par.err, tag=L.limitTag())
            if L.twotail:
                rec.check(p[0] in ('pm', 'asym'), 'two-tail latex')
                rec.check(abs(p[1] - par.mean) < 0.6 * (p[3] if p[0] == 'pm' else p[4]) + 0.13 * par.err + 1e-3 * abs(par.mean), 'mean in latex', parsed=p)
                if p[0] == 'pm':
                    rec.check(abs(p[2] - par.err) < 0.6 * p[4] + 0.01 * par.err, 'error in latex', parsed=p)
                    rec.check(i == 0, 'symmetric error only for the first limit')
                    rec.check(abs(abs((L.upper - par.mean) / (L.lower - par.mean)) - 1) < 0.11, 'symmetric error only for symmetric limits')
                else:
                    rec.check(abs(p[2] - (L.upper - par.mean)) < 0.6 * p[5] + 0.01 * par.err, 'plus error in latex', parsed=p)
                    rec.check(abs(p[3] - (L.lower - par.mean)) < 0.6 * p[6] + 0.01 * par.err, 'minus error in latex', parsed=p)
            elif L.onetail_upper:
                rec.check(p[0] == '<' and abs(p[1] - L.upper) < 0.006 * abs(L.upper), 'upper limit in latex', parsed=p)
            elif L.onetail_lower:
                rec.check(p[0] == '>' and abs(p[1] - L.lower) < 0.006 * abs(L.lower), 'lower limit in latex', parsed=p)
            else:
                rec.eq(p[0], 'none', 'no limit in latex')
            tab = s.getTable(limit=i + 1).tableTex()
            rec.check(t2[0] in tab, 'same limit in the table', table=tab)
        rec.sig('limits', k, lim[0] is not None, lim[1] is not None, tuple(tags[-len(contours):]), wk, thr)


def get_z(c):
    from scipy.stats import norm
    return norm.ppf(0.5 + c / 2)


def grids(rng, rec):
    """Density1D.getLimits on explicit densities with known truth."""
    from getdist.densities import Density1D
    n = int(rng.integers(60, 400))
    k = str(rng.choice(['gauss', 'exp', 'half', 'laplace', 'ramp']))
    x = np.linspace(0, 1, n) * 10. ** rng.uniform(-3, 3)
    L = x[-1]
    c = float(rng.uniform(0.05, 0.98))
    from scipy.stats import norm
    if k == 'gauss':
        mu, sg = L * rng.uniform(0.4, 0.6), L * rng.uniform(0.05, 0.09)
        P = np.exp(-(x - mu) ** 2 / 2 / sg ** 2)
        z = norm.ppf(0.5 + c / 2)
        exp = (mu - z * sg, mu + z * sg, False, False)
    elif k in ('exp',):
        sg = L / rng.uniform(12, 25)
        P = np.exp(-x / sg)
        exp = (0, -np.log(1 - c) * sg, True, False)
    elif k == 'half':
        sg = L / rng.uniform(5, 15)
        P = np.exp(-x ** 2 / 2 / sg ** 2)
        exp = (0, norm.ppf(0.5 + c / 2) * sg, True, False)
    elif k == 'laplace':
        mu, sg = L * 0.5, L / 30
        P = np.exp(-np.sqrt((x - mu) ** 2 + (L / 500) ** 2) / sg)
        from scipy.integrate import quad
        exp = None
    elif k == 'uniformish':
        P = np.ones(n)
        exp = (0, L, True, True)
    else:
        P = np.linspace(0, 1, n)
        exp = (L * np.sqrt(1 - c), L, False, True)
    flip = rng.random() < 0.4
    sc = 10. ** rng.uniform(-3, 3)
    P = P * sc
    if flip:
        P = P[::-1].copy()
        if exp:
            exp = (L - exp[1], L - exp[0], exp[3], exp[2])
    d = Density1D(x, P)
    got = d.getLimits(c)
    rec.set(k=k, n=n, c=c, flip=bool(flip), got=got, exp=exp)
    dx = x[1] - x[0]
    rec.check(got[0] < got[1] and got[0] >= x[0] - 1e-9 * L and got[1] <= x[-1] + 1e-9 * L, 'ordered inside the grid')
    if exp:
        rec.check(abs(got[0] - exp[0]) < 0.5 * dx and abs(got[1] - exp[1]) < 0.5 * dx, 'known equal-density interval')
        rec.eq((bool(got[2]), bool(got[3])), (exp[2], exp[3]), 'known open ends')
    if not got[2] and not got[3]:
        rec.near(d.Prob(got[0]), d.Prob(got[1]), 'equal density at both ends', rtol=0.02, atol=0.01 * sc)
    c2 = float(rng.uniform(c, 0.99))
    g2 = d.getLimits(c2)
    rec.check(g2[0] <= got[0] + 0.2 * dx and g2[1] >= got[1] - 0.2 * dx, 'nested')
    rec.sig('grids', k, flip, n // 100, int(c * 5))


def tableparts(rng, rec):
    """Parameters named chi2.. and reference results; names not found."""
    n = 3000
    X = np.array([rng.chisquare(float(rng.integers(3, 30)), size=n) + rng.choice([0, 700]), rng.normal(size=n) * 0.4]).T
    s = gen.mc(X, None, None, names=['chi2_X', 'b'])
    m, sd = X[:, 0].mean(), X[:, 0].std()
    t = s.getInlineLatex('chi2_X', limit=1)
    v = re.search('(%s)\\\\pm (%s)' % (num, num), t)
    rec.set(tex=t, m=m, sd=sd)
    rec.check(v and abs(float(v.group(1)) - m) < 0.2 * sd and abs(float(v.group(2)) - sd) < 0.11 * sd, 'chi2 latex')
    t = s.getInlineLatex('chi2_X', limit=2)
    v = re.search(r'\\nu\\rm\{:\}\\,(%s)' % num, t)
    rec.check(v and abs(float(v.group(1)) - sd ** 2 / 2) < 0.051, 'effective degrees of freedom of a chi2', tex=t)
    rec.raises(ValueError, lambda: s.getInlineLatex('nosuch'), 'unknown parameter refused')
    labs, texs = s.getLatex(['b', 'nosuch'])
    rec.check(texs[1] is None and labs[1] is None and texs[0] is not None, 'unknown parameters in a list')
    labs, texs = s.getLatex()
    rec.eq(len(texs), 2, 'all parameters by default')
    err = int(rng.integers(1, 4))
    t = s.getLatex(['b'], err_sig_figs=err)[1][0]
    p = parse_tex(t)
    e = X[:, 1].std()
    if p[0] == 'pm':
        rec.check(abs(p[2] - e) < 0.6 * p[4] and abs(p[4] / 10. ** -err - 1) < 0.01, 'error significant figures', tex=t, err=e, figs=err)
    rec.sig('tab', err)


GROUPS = {'limits': (limits, 220, 4000), 'grids': (grids, 400, 8000), 'tableparts': (tableparts, 16, 200)}
