import numpy as np

from .. import gen
from ..gen import ref_cov, ref_mean

RULE = 'a case builds weighted samples (plain, named or full sample object) and issues a random series of statistic queries; ' \
       'non-trivial: more than one row and a varying column; distinct = (container, weight kind, rows, query kinds)'


def build(rng, rec, n, p, kind=None):
    from getdist import WeightedSamples, MCSamples
    from getdist.chains import Chains
    kind = kind or rng.choice(['ws', 'chains', 'mc', 'mc_multi'])
    x = gen.params(rng, n, p)
    w, wk = gen.weights(rng, n)
    ll = gen.loglikes(rng, n) if rng.random() < 0.7 else None
    nm = gen.names(rng, p)
    if kind == 'ws':
        s = WeightedSamples(samples=x, weights=w, loglikes=ll)
    elif kind == 'chains':
        s = Chains(samples=x, weights=w, loglikes=ll, names=nm)
    elif kind == 'mc':
        s = gen.mc(x, w, ll, nm)
    else:
        k = int(rng.integers(2, 4))
        cut = np.sort(rng.choice(np.arange(3, n - 3), k - 1, replace=False)) if n > 12 else [n // 2]
        sp = lambda a: None if a is None else np.split(a, cut)
        s = gen.mc(sp(x), sp(w), sp(ll), nm)
    if w is None:
        w = np.ones(n)
    rec.set(kind=kind, n=n, p=p, wk=wk)
    return s, x, w, ll, nm, kind, wk


def where_of(rng, n):
    k = rng.choice(['none', 'mask', 'index', 'slice'])
    if k == 'none':
        return None, np.arange(n)
    if k == 'mask':
        m = rng.random(n) < rng.choice([0.2, 0.5, 0.9])
        m[rng.integers(n)] = True
        return m, np.nonzero(m)[0]
    if k == 'index':
        ix = np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
        return ix, ix
    a = int(rng.integers(0, n))
    b = int(rng.integers(a + 1, n + 1))
    return slice(a, b), np.arange(a, b)


def check_quantile(rec, v, x, w, target, msg, exact=False):
    """v must be the sample value at which the cumulative weight reaches target."""
    tot = w.sum()
    eps = 1e-9 * tot
    below = w[x < v].sum()
    upto = w[x <= v].sum()
    rec.check(np.any(x == v), msg + ' is a sample value', v=v)
    if exact and np.all(w == np.round(w)) and tot < 2 ** 40 and target > 0:
        # no rounding anywhere: the first value whose cumulative weight is the target or more
        rec.ev('exact tail limits')
        rec.check(below < target <= upto, msg + ' (first value reaching the target)', v=v, below=below, upto=upto, target=target)
    rec.check(below <= target + eps and upto >= min(target, tot) - eps, msg, v=v, below=below, upto=upto, target=target,
              total=tot)


def stats(rng, rec):
    n = int(rng.choice([1, 2, 3, 12, 40, 150])) if rng.random() < 0.3 else int(rng.integers(12, 120))
    p = int(rng.integers(1, 5))
    kinds = ['ws', 'chains', 'mc', 'mc_multi'] if n >= 12 else ['ws', 'chains']
    s, x, w, ll, nm, kind, wk = build(rng, rec, n, p, rng.choice(kinds))
    named = kind != 'ws'
    sd = np.array([max(np.sqrt(max(ref_cov(x[:, j], x[:, j], w), 0)), 1e-300) for j in range(p)])
    big = np.max(np.abs(x), axis=0)

    def par(j, allow_special=True):
        """A way of referring to column j and its values."""
        c = rng.integers(0, 6)
        if c == 0 and named:
            return nm[j], x[:, j]
        if c == 1 and named:
            return s.paramNames.parWithName(nm[j]), x[:, j]
        if c == 2:
            return x[:, j].copy(), x[:, j]
        if c == 3 and j + 1 < p:
            v = x[:, j] / big[j] - 2 * x[:, j + 1] / big[j + 1] if big[j] and big[j + 1] else x[:, j]
            return v, v
        if c == 4:
            return np.int64(j), x[:, j]
        return j, x[:, j]

    ops = []
    for _ in range(14):
        op = str(rng.choice(['mean', 'var', 'std', 'cov', 'corr', 'sum', 'norm', 'conf', 'twotail', 'getmeans', 'getcov',
                             'vars', 'diff', 'diffs', 'special', 'getcorr', 'lists', 's2n', 'setdiffs', 'prep']))
        ops.append(op)
        where, ix = where_of(rng, n)
        ww = w[ix]
        j = int(rng.integers(p))
        a, v = par(j)
        vv = v[ix]
        sc = max(np.max(np.abs(v)), 1e-300)
        vsd = np.sqrt(max(ref_cov(vv, vv, ww), 0))
        atol_v = 1e-9 * vsd ** 2 + 1e-13 * sc * vsd + 1e-26 * sc ** 2
        rec.set(op=op, arg=a, where=where)
        kw = {} if where is None else {'where': where}
        if op == 'mean':
            rec.near(s.mean(a, **kw), ref_mean(vv, ww), 'mean', atol=1e-11 * sc)
        elif op == 'var':
            rec.near(s.var(a, **kw), ref_cov(vv, vv, ww), 'variance', atol=atol_v)
        elif op == 'std':
            rec.near(s.std(a, **kw) ** 2, ref_cov(vv, vv, ww), 'standard deviation', atol=2 * atol_v)
        elif op == 'sum':
            rec.near(s.weighted_sum(a, **kw), float((ww * vv).sum()), 'weighted sum', atol=1e-11 * float((ww * np.abs(vv)).sum()))
        elif op == 'norm':
            rec.near(s.get_norm(**kw), ww.sum(), 'normalization')
        elif op == 'diff':
            rec.near(s.mean_diff(a, **kw), vv - ref_mean(vv, ww), 'deviations from mean', atol=1e-11 * sc)
        elif op in ('cov', 'corr', 'diffs', 'lists'):
            js = [int(i) for i in rng.choice(p, int(rng.integers(1, p + 1)), replace=False)]
            refs = [par(i) for i in js]
            args = [r[0] for r in refs]
            vals = [r[1][ix] for r in refs]
            if op == 'lists':
                rec.near(s.mean(args, **kw), [ref_mean(u, ww) for u in vals], 'list of means',
                         atol=1e-11 * max(np.max(np.abs(r[1])) for r in refs))
                got = s.var(args, **kw)
                rec.eq(len(got), len(vals), 'list of variances length')
                for g, u, r in zip(got, vals, refs):
                    e = ref_cov(u, u, ww)
                    rec.near(g, e, 'list of variances', atol=1e-9 * e + 1e-13 * np.max(np.abs(r[1])) * np.sqrt(e)
                             + 1e-26 * np.max(np.abs(r[1])) ** 2)
            elif op == 'diffs':
                got = s.mean_diffs(args, **kw)
                rec.eq(len(got), len(vals), 'number of deviation vectors')
                for g, u, r in zip(got, vals, refs):
                    rec.near(g, u - ref_mean(u, ww), 'deviation vectors', atol=1e-11 * np.max(np.abs(r[1])))
            else:
                if rng.random() < 0.3:
                    args, vals, refs = None, [x[ix, i] for i in range(p)], [(i, x[:, i]) for i in range(p)]
                e = np.array([[ref_cov(u, t, ww) for t in vals] for u in vals])
                ss = np.sqrt(np.maximum(np.diag(e), 0)) + 1e-13 * np.array([np.max(np.abs(r[1])) for r in refs])
                bb = np.array([np.max(np.abs(r[1])) for r in refs])
                if op == 'cov':
                    got = s.cov(args, **kw) if args is not None else s.cov(**kw)
                    rec.check(got.shape == e.shape and np.all(np.abs(got - e) <= 1e-9 * np.outer(ss, ss) + 1e-24 * np.outer(bb, bb)),
                              'covariance matrix', got=got, expected=e)
                elif where is None:
                    if np.all(np.diag(e) > 1e-20 * np.array([np.max(np.abs(r[1])) for r in refs]) ** 2):
                        got = s.corr(args) if args is not None else s.corr()
                        rec.near(got, e / np.outer(np.sqrt(np.diag(e)), np.sqrt(np.diag(e))), 'correlation matrix', atol=1e-8)
        elif op == 'getcov':
            e = np.array([[ref_cov(x[:, i], x[:, k], w) for k in range(p)] for i in range(p)])
            tol = 1e-9 * np.outer(sd, sd) + 1e-22 * np.outer(big, big)
            k = int(rng.integers(0, 3))
            if k == 0:
                got = s.getCov()
            elif k == 1:
                m = int(rng.integers(1, p + 1))
                got, e, tol = s.getCov(m), e[:m, :m], tol[:m, :m]
            else:
                js = [int(i) for i in rng.choice(p, int(rng.integers(1, p + 1)), replace=False)]
                got, e, tol = s.getCov(pars=js), e[np.ix_(js, js)], tol[np.ix_(js, js)]
            rec.check(got.shape == e.shape and np.all(np.abs(got - e) <= tol), 'stored covariance', got=got, expected=e)
        elif op == 'getcorr':
            e = np.array([[ref_cov(x[:, i], x[:, k], w) for k in range(p)] for i in range(p)])
            if np.all(np.diag(e) > 1e-20 * big ** 2):
                rec.near(s.getCorrelationMatrix(), e / np.outer(np.sqrt(np.diag(e)), np.sqrt(np.diag(e))),
                         'stored correlation matrix', atol=1e-8)
        elif op == 'getmeans':
            e = np.array([ref_mean(x[:, i], w) for i in range(p)])
            if rng.random() < 0.5:
                rec.check(np.all(np.abs(s.getMeans() - e) <= 1e-11 * big), 'stored means', got=s.getMeans(), expected=e)
            else:
                js = [int(i) for i in rng.choice(p, int(rng.integers(1, p + 1)), replace=False)]
                got = s.getMeans(pars=js)
                rec.check(np.shape(got) == (len(js),) and np.all(np.abs(got - e[js]) <= 1e-11 * big[js]), 'stored means by index',
                          got=got, expected=e[js])
            if ll is not None and s.mean_loglike is not None:
                rec.near(s.mean_loglike, ref_mean(ll, w), 'mean log likelihood', atol=1e-9)
        elif op == 'vars':
            e = np.array([ref_cov(x[:, i], x[:, i], w) for i in range(p)])
            got = s.getVars()
            rec.check(np.shape(got) == (p,) and np.all(np.abs(got - e) <= 1e-9 * e + 1e-22 * big ** 2), 'stored variances',
                      got=got, expected=e)
            rec.near(np.asarray(s.sddev) ** 2, got, 'stored standard deviations', rtol=1e-9)
        elif op == 'setdiffs':
            s.setDiffs()
            rec.ev('deviations cached')
            m = int(rng.integers(0, p + 1))
            got = s.mean_diffs(m)
            rec.eq(len(got), m, 'number of leading deviation vectors')
            for i, g in enumerate(got):
                rec.near(g, x[:, i] - ref_mean(x[:, i], w), 'leading deviation vectors', atol=1e-11 * big[i])
        elif op in ('conf', 'prep'):
            f = float(rng.choice([0.025, 0.05, 0.16, 0.5, 0.5, 0.25, 0.95, rng.random(), 0, 1]))
            up = bool(rng.random() < 0.5)
            st, en = (0, None) if rng.random() < 0.6 else (int(rng.integers(0, n)), None)
            if st and rng.random() < 0.7 and st + 1 < n:
                en = int(rng.integers(st + 1, n + 1))
            w2, wkw = (w, {}) if rng.random() < 0.7 else (lambda q: (q, {'weights': q}))(rng.uniform(0.1, 2, n))
            arr = rng.random() < 0.3
            fr = np.array([f, min(1, f / 2 + 0.1)]) if arr else f
            if op == 'prep':
                d = s.initParamConfidenceData(a, start=st, end=en, **wkw)
                got = s.confidence(d, fr, upper=up)
            else:
                got = s.confidence(a, fr, upper=up, start=st, end=en, **wkw)
            rec.eq(np.shape(got), np.shape(fr), 'tail limit shape')
            for fi, g in zip(np.atleast_1d(fr), np.atleast_1d(got)):
                xs, ws = v[st:en], w2[st:en]
                check_quantile(rec, g, xs, ws, ws.sum() * ((1 - fi) if up else fi), 'tail limit', exact=fi in (0.25, 0.5))
        elif op == 'twotail':
            c = float(rng.choice([0.68, 0.95, 0.99, rng.uniform(0.01, 0.99)]))
            lo, hi = s.twoTailLimits(a, c)
            check_quantile(rec, lo, v, w, w.sum() * (1 - c) / 2, 'two-tail lower limit')
            check_quantile(rec, hi, v, w, w.sum() * (1 + c) / 2, 'two-tail upper limit')
        elif op == 'special':
            rec.near(s.mean(-2), ref_mean(w, w), 'mean weight')
            if ll is not None:
                rec.near(s.mean(-1), ref_mean(ll, w), 'mean stored likelihood', atol=1e-9)
                if named:
                    rec.near(s.mean('loglike'), ref_mean(ll, w), 'mean likelihood by name', atol=1e-9)
                    rec.near(s['loglike'], ll, 'likelihoods by name')
            if named:
                rec.near(s[nm[j]], x[:, j], 'column by name', rtol=0, atol=0)
                rec.near(s['weight'], w, 'weights by name')
                rec.near(getattr(s.getParams(), nm[j]), x[:, j], 'column attribute', rtol=0, atol=0)
                rec.raises(Exception, lambda: s.mean('nosuchparam'), 'unknown name reported')
            rec.raises(Exception, lambda: s.mean(p), 'out of range index reported')
        elif op == 's2n' and n > 5 * p:
            e = np.array([[ref_cov(x[:, i], x[:, k], w) for k in range(p)] for i in range(p)])
            if np.all(np.diag(e) > 1e-16 * big ** 2):
                A = rng.normal(size=(p, p)) + 2 * np.eye(p)
                N = A.dot(A.T) * np.outer(sd, sd)
                import scipy.linalg
                ev = scipy.linalg.eigh(e / np.outer(sd, sd), N / np.outer(sd, sd), eigvals_only=True)
                # scale-free check: eigenvalues of N^-1 C
                got = s.getSignalToNoise(list(range(p)), noise=N, eigs_only=True)
                if np.min(np.linalg.eigvalsh(A.dot(A.T))) > 1e-4:
                    rec.near(np.sort(got), ev, 'signal to noise eigenvalues', rtol=1e-5, atol=1e-7 * np.max(ev))
                    w1, U = s.getSignalToNoise(list(range(p)), noise=N)
                    rec.near(np.sort(w1), ev, 'signal to noise eigenvalues with modes', rtol=1e-5, atol=1e-7 * np.max(ev))
                    C1 = U.dot(e).dot(U.T)
                    rec.near(C1, np.diag(w1), 'signal to noise modes diagonalize', atol=1e-5 * np.max(ev))
                    rec.near(U.dot(N).dot(U.T), np.eye(p), 'noise in the signal to noise modes', atol=1e-6)
    if n > 1:
        rec.sig(kind, wk, n, p, tuple(sorted(set(ops))))


def twins(rng, rec):
    """Weight rescaling, repeated rows, row permutation: metamorphic twins on the whole statistic set."""
    from getdist import WeightedSamples
    n, p = int(rng.integers(5, 60)), int(rng.integers(1, 4))
    x = gen.params(rng, n, p)
    w = rng.integers(1, 6, n).astype(float)
    ll = gen.loglikes(rng, n)
    rec.set(n=n, p=p)
    a = WeightedSamples(samples=x.copy(), weights=w.copy(), loglikes=ll.copy())
    rep = np.repeat(np.arange(n), w.astype(int))
    c = 10. ** rng.integers(-6, 6) * rng.uniform(0.5, 2)
    pm = rng.permutation(n)
    others = {'repeated': WeightedSamples(samples=x[rep], weights=None if rng.random() < 0.5 else np.ones(len(rep)),
                                          loglikes=ll[rep]),
              'rescaled': WeightedSamples(samples=x, weights=w * c, loglikes=ll),
              'permuted': WeightedSamples(samples=x[pm], weights=w[pm], loglikes=ll[pm])}
    big = np.max(np.abs(x), axis=0)
    sd = np.sqrt(np.maximum(a.getVars(), 0))
    for k, b in others.items():
        rec.set(twin=k)
        rec.check(np.all(np.abs(b.getMeans() - a.getMeans()) <= 1e-11 * big), 'twin means agree', a=a.getMeans(), b=b.getMeans())
        rec.check(np.all(np.abs(b.getCov() - a.getCov()) <= 1e-9 * np.outer(sd, sd) + 1e-22 * np.outer(big, big)),
                  'twin covariances agree', a=a.getCov(), b=b.getCov())
        rec.near(b.mean(-1), a.mean(-1), 'twin mean likelihoods agree', atol=1e-9)
        for j in range(p):
            f = rng.random()
            if abs((f * w.sum()) - round(f * w.sum())) > 1e-6:
                for up in (False, True):
                    rec.eq(float(b.confidence(j, f, upper=up)), float(a.confidence(j, f, upper=up)), 'twin tail limits agree', f=f)
        m = x[:, 0] > np.median(x[:, 0])
        mb = (b.samples[:, 0] > np.median(x[:, 0]))
        if m.any():
            rec.near(b.mean(0, where=mb), a.mean(0, where=m), 'twin restricted means agree', atol=1e-11 * big[0])
    rec.near(others['rescaled'].get_norm(), a.get_norm() * c, 'norm scales')
    rec.sig(n, p)


GROUPS = {'stats': (stats, 1200, 30000), 'twins': (twins, 300, 8000)}
