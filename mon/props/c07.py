import copy
import os

import numpy as np

from .. import gen

RULE = 'a case applies a random interleaving of modifying operations and queries to an object and its copies; after each operation ' \
       'some queries are compared with a twin newly built from the current arrays, ranges and settings; distinct = (operation and ' \
       'query sequence)'
CASE_LIMIT = 240


def q_means(s):
    return s.getMeans()


def q_vars(s):
    return np.concatenate([s.getVars(), [s.std(i) for i in range(s.n)], [s.mean(i) for i in range(s.n)]])


def q_cov(s):
    return np.concatenate([s.getCov().ravel(), s.getCorrelationMatrix().ravel()])


def q_covmat(s):
    return s.getCovMat().matrix.ravel()


def q_dens1(s):
    out = []
    for nm in s.paramNames.list()[:2]:
        d = s.get1DDensity(nm)
        out += [d.x[0], d.x[-1]] + list(d.P[::37]) + list(d.bounds()) + list(np.ravel(d.Prob([s.mean(nm)])))
    return out


def q_dens1_opt(s):
    d = s.get1DDensity(s.paramNames.list()[0], smooth_scale_1D=0.4, num_bins=60, fine_bins=512)
    return [d.x[0], d.x[-1]] + list(d.P[::37])


def q_dens2(s):
    nm = s.paramNames.list()
    if len(nm) < 2:
        return []
    d = s.get2DDensity(nm[0], nm[1], fine_bins_2D=64)
    return [d.x[0], d.x[-1], d.y[0], d.y[-1]] + list(d.P[::7, ::5].ravel()) + list(d.getContourLevels())


def q_marge(s):
    m = s.getMargeStats()
    out = list(m.limits)
    for p in m.names:
        out += [p.mean, p.err]
        for lim in p.limits:
            out += [lim.lower, lim.upper, lim.twotail, lim.onetail_upper, lim.onetail_lower]
    return out


def q_like(s):
    if s.loglikes is None:
        return []
    L = s.getLikeStats()
    out = [L.logLike_sample, L.meanLogLike, L.logMeanLike, L.complexity, L.logMeanInvLike or 0]
    for p in L.names:
        out += list(p.ND_limit_bot) + list(p.ND_limit_top) + [p.bestfit_sample]
    return out


def q_conf(s):
    return [s.confidence(0, 0.1), s.confidence(0, 0.1, upper=True), s.confidence(s.n - 1, 0.4)] + list(s.twoTailLimits(0, 0.9))


def q_bounds(s):
    out = []
    for n in s.paramNames.list():
        out += [s.getLower(n), s.getUpper(n)]
    return [np.nan if v is None else v for v in out]


def q_text(s):
    return s.getTable(limit=1).tableTex() + s.getInlineLatex(s.paramNames.list()[0])


def q_latex2(s):
    return repr(s.getLatex(limit=2))


def q_numtext(s):
    return s.getNumSampleSummaryText().split('\n')[0].split(';')[0] + ' %.6g' % s.max_mult


def q_pars(s):
    pars = s.getParams()
    nm = s.paramNames.list()
    return np.concatenate([np.asarray(getattr(pars, nm[0])), s[nm[-1]]])


def q_dict(s):
    return [v for v in s.getParamSampleDict(s.numrows // 2).values()] if s.loglikes is not None else []


def q_corrlen(s):
    return [s.getEffectiveSamples(0), s.getEffectiveSamplesGaussianKDE(0), s.getCorrelationLength(s.n - 1)]


def q_single(s):
    return s.makeSingleSamples(random_state=10, single_thin=2).ravel()


def q_singleix(s):
    return list(s.random_single_samples_indices(random_state=5)) + list(s.thin_indices(3) if np.all(
        s.weights == np.round(s.weights)) else [])


def q_split(s):
    if s.chain_offsets is None:
        return []
    ch = s.getSeparateChains()
    return [v for c in ch for v in (c.numrows, c.get_norm())] + list(np.concatenate([c.getMeans() for c in ch if c.numrows]))


def q_gr(s):
    if s.chain_offsets is None or min(c.numrows for c in s.getSeparateChains()) < 10:
        return []
    return s.getGelmanRubinEigenvalues()


def q_pca(s):
    nm = s.paramNames.list()
    if len(nm) < 2:
        return ''
    return s.PCA(nm[:2], param_map='NN')


def q_corrvars(s):
    return repr(s.getCorrelatedVariable2DPlots(num_plots=3))


def q_likes1(s):
    if s.loglikes is None:
        return []
    d = s.get1DDensity(s.paramNames.list()[0], meanlikes=True)
    return list(d.likes[::41])


def q_conv(s):
    if s.chain_offsets is None or min(c.numrows for c in s.getSeparateChains()) < 40:
        return ''
    return s.getConvergeTests(0.9, what=('MeanVar', 'CorrLengths'))


QUERIES = dict(means=q_means, vars=q_vars, cov=q_cov, covmat=q_covmat, dens1=q_dens1, dens1_opt=q_dens1_opt, dens2=q_dens2,
               marge=q_marge, like=q_like, conf=q_conf, bounds=q_bounds, text=q_text, latex2=q_latex2, numtext=q_numtext,
               pars=q_pars, dict=q_dict, corrlen=q_corrlen, single=q_single, singleix=q_singleix, split=q_split, gr=q_gr,
               pca=q_pca, corrvars=q_corrvars, likes1=q_likes1, conv=q_conv)
WEIGHTS = dict(dens2=0.5, marge=2, text=1, latex2=1, like=2, dens1=2, bounds=2)
QN = list(QUERIES)
QP = np.array([WEIGHTS.get(q, 1) for q in QN], float)
QP /= QP.sum()


class Model:
    """A sample object with what is needed to build a fresh twin of it."""

    def __init__(self, s, settings, meta):
        self.s, self.settings, self.meta = s, settings, meta

    def twin(self):
        from getdist import ParamNames
        s = self.s
        pn = ParamNames()
        from getdist import ParamInfo
        pn.names = [ParamInfo(name=p.name, label=p.label, derived=p.isDerived) for p in s.paramNames.names]
        for a, b in zip(pn.names, s.paramNames.names):
            a.label = b.label
        x, w, ll = s.samples.copy(), s.weights.copy(), None if s.loglikes is None else s.loglikes.copy()
        if s.chain_offsets is not None:
            o = list(s.chain_offsets)
            cut = lambda a: None if a is None else [a[i:j] for i, j in zip(o[:-1], o[1:]) if j > i]
            if len(cut(x)) > 1:
                x, w, ll = cut(x), cut(w), cut(ll)
        return gen.mc(x, w, ll, paramNamesFile=None, names=pn, ranges=copy.deepcopy(s.ranges), settings=dict(self.settings),
                      label=self.meta.get('label'), sampler=s.sampler)

    def copy(self):
        return Model(copy.deepcopy(self.s) if self.meta['deep'] else self.s.copy(), dict(self.settings), dict(self.meta))


def same(rec, a, b, msg, **wit):
    if isinstance(a, str):
        return rec.check(a == b, msg, got=a, expected=b, **wit)
    # automatic bandwidths come from iterative optimisers: the last digits of densities depend on rounding
    tol = (1e-3, 2e-4) if 'dens2' in msg else (1e-4, 1e-5) if 'dens1' in msg else (1e-6, 1e-9)
    return rec.near(a, b, msg, rtol=tol[0], atol=tol[1], **wit)


def check_query(rec, m, q, ops, who):
    if q in ('split', 'gr', 'conv') and m.s.chain_offsets is not None and np.any(np.diff(m.s.chain_offsets) == 0):
        return
    t = m.twin()
    try:
        exp = QUERIES[q](t)
    except Exception as e:
        # a fresh object cannot answer either (e.g. a numerically degenerate pair): the same must be reported
        rec.raises(Exception, lambda: QUERIES[q](m.s), 'also an error as a fresh object', ops=ops)
        return
    got = QUERIES[q](m.s)
    same(rec, got, exp, 'fresh: ' + q, who=who, ops=ops)
    rec.ev('queries compared with a fresh twin')


def operate(rng, m, op, held):
    s = m.s
    n = s.numrows
    if op == 'filter':
        k = rng.integers(0, 3)
        if k == 0:
            s.filter(s.samples[:, 0] > np.quantile(s.samples[:, 0], 0.1))
        elif k == 1:
            s.filter(rng.random(n) < 0.85)
        else:
            s.filter(np.sort(rng.choice(n, int(n * 0.9), replace=False)))
    elif op == 'reweight':
        s.reweightAddingLogLikes(rng.normal(size=n) * 0.5 + (s.samples[:, 0] - s.samples[:, 0].mean()) / s.samples[:, 0].std() * 0.3)
    elif op == 'cool':
        if s.loglikes is None:
            return False
        s.cool(float(rng.choice([0.7, 1.2])))
    elif op == 'thin':
        if not np.all(s.weights == np.round(s.weights)) or s.weights.sum() < 700:
            return False
        s.thin(2)
    elif op == 'wthin':
        if not np.all(s.weights == np.round(s.weights)) or s.weights.sum() < 700:
            return False
        s.weighted_thin(2)
    elif op == 'derived':
        nm = 'der%d' % len(s.paramNames.names)
        lim = None
        if rng.random() < 0.4:
            lim = [float(s.samples[:, 0].min() - 0.1), None]
        s.addDerived(s.samples[:, 0] * 2 + 1 + (s.samples[:, -1] if s.n > 1 else 0), name=nm, label='d%d' % s.n,
                     range=lim and [lim[0] * 2 - 60, None])
    elif op == 'ranges':
        nm = str(rng.choice(s.paramNames.list()))
        v = s[nm]
        lo = float(v.min() - rng.choice([0, 0.01, 5]) * v.std())
        hi = float(v.max() + rng.choice([0, 0.01, 5]) * v.std())
        s.setRanges({nm: [[lo, hi], [lo, None], [None, hi]][int(rng.integers(3))]})
    elif op == 'settings':
        new = [{'contours': [0.5, 0.9]}, {'contours': [0.68, 0.95, 0.99]}, {'smooth_scale_1D': 0.3}, {'smooth_scale_1D': -1},
               {'fine_bins': 600}, {'range_confidence': 0.01}, {'force_twotail': True}, {'mult_bias_correction_order': 0},
               {'boundary_correction_order': 0}, {'num_bins': 50, 'smooth_scale_1D': 2}, {'smooth_scale_2D': 0.4},
               {'max_frac_twotail1': 0.2}, {'credible_interval_threshold': 0.5}, {'range_ND_contour': -1},
               {'range_ND_contour': 1},
               {'limits[%s]' % s.paramNames.list()[0]: '%r %r' % (float(s.samples[:, 0].min() - 1), float(s.samples[:, 0].max() + 1))}
               ][int(rng.integers(16))]
        m.settings.update(new)
        s.updateSettings(dict(new))
    elif op == 'burn':
        s.removeBurn(float(rng.choice([0.05, 5])))
    elif op == 'minw':
        s.setMinWeightRatio(float(rng.choice([0.02, 0.1])))
    elif op == 'change':
        # replace all parameter values
        s.changeSamples(s.samples * 1.5 + 0.25)
    elif op == 'labels':
        s.paramNames.names[0].label = 'L%d' % int(rng.integers(100))
    else:
        raise ValueError(op)
    return True


OPS = ['filter', 'filter', 'reweight', 'reweight', 'cool', 'thin', 'wthin', 'derived', 'ranges', 'ranges', 'settings', 'settings',
       'burn', 'minw', 'change', 'labels']


def start(rng, rec):
    p = int(rng.integers(1, 4))
    nch = int(rng.choice([1, 1, 2, 3]))
    n = int(rng.integers(260, 420))
    x = rng.normal(size=(n, p))
    if rng.random() < 0.5:
        x[:, 0] = np.abs(x[:, 0])
    if p > 1:
        x[:, 1] += 0.6 * x[:, 0]
    w, wk = gen.weights(rng, n, str(rng.choice(['unit', 'int', 'int', 'float', 'none'])))
    ll = 0.5 * np.sum(x ** 2, axis=1) + 3 if rng.random() < 0.8 else None
    nm = ['x', 'y', 'z'][:p]
    ranges = {}
    if rng.random() < 0.5:
        ranges['x'] = [float(x[:, 0].min()), None]
    settings = {'ignore_rows': 0}
    if rng.random() < 0.3:
        settings['smooth_scale_1D'] = 0.35
    cut = lambda a: a if a is None or nch == 1 else np.array_split(a, nch)
    meta = dict(deep=bool(rng.integers(2)), label=None)
    sampler = str(rng.choice(['mcmc', 'mcmc', 'uncorrelated']))
    s = gen.mc(cut(x), cut(w), cut(ll), nm, ranges=ranges, settings=settings, sampler=sampler)
    rec.set(p=p, nch=nch, n=n, wk=wk, ll=ll is not None, ranges=ranges, settings=settings, sampler=sampler)
    return Model(s, settings, meta)


def history(rng, rec):
    ms = [start(rng, rec)]
    ops = []
    for step in range(int(rng.integers(2, 6))):
        i = int(rng.integers(len(ms)))
        m = ms[i]
        # queries before the operation fill whatever the object remembers
        for q in rng.choice(QN, int(rng.integers(0, 4)), p=QP):
            try:
                QUERIES[str(q)](m.s)
            except Exception:
                rec.raises(Exception, lambda: QUERIES[str(q)](m.twin()), 'query fails only if it fails for a fresh object',
                           query=str(q), ops=ops)
            ops.append((i, 'query ' + str(q)))
        op = str(rng.choice(OPS))
        if m.s.numrows < 150 and op in ('filter', 'burn', 'thin', 'wthin', 'minw'):
            continue
        if rng.random() < 0.25 and len(ms) < 3:
            ms.append(m.copy())
            ops.append((i, 'copy'))
            if rng.random() < 0.5:
                i, m = len(ms) - 1, ms[-1]
        others = [j for j in range(len(ms)) if j != i]
        watch = {}
        if others:
            q0 = str(rng.choice(QN, p=QP))
            j0 = others[0]
            if q0 == 'dens2':
                q0 = 'dens1'
            watch = (j0, q0, QUERIES[q0](ms[j0].s))
        rec.set(ops=ops, op=op)
        if not operate(rng, m, op, None):
            continue
        ops.append((i, op))
        if watch:
            same(rec, QUERIES[watch[1]](ms[watch[0]].s), watch[2], 'copy unaffected: ' + watch[1], ops=ops)
        for q in rng.choice(QN, 3, p=QP, replace=False):
            rec.set(ops=ops, query=str(q))
            check_query(rec, m, str(q), ops, i)
            ops.append((i, 'check ' + str(q)))
    rec.sig(*[o[1] for o in ops])
    # finally everything
    for i, m in enumerate(ms):
        for q in rng.choice(QN, 6, p=QP, replace=False):
            rec.set(ops=ops, query='final ' + str(q))
            check_query(rec, m, str(q), ops, i)


def pure(rng, rec):
    """No query changes the answer to another query, in any order."""
    m = start(rng, rec)
    ref = m.twin()
    order = [str(q) for q in rng.permutation(QN)[:9]]
    exp = {}
    for q in order:
        exp[q] = QUERIES[q](m.twin())
    for q in order + [str(q) for q in rng.permutation(order)]:
        rec.set(order=order, q=q)
        same(rec, QUERIES[q](ref), exp[q], 'query order does not matter: ' + q, order=order)
    rec.sig(*order)


def copied_settings(rng, rec):
    """copy(settings) has the new settings, the original keeps its own."""
    m = start(rng, rec)
    for q in rng.choice(QN, 3, p=QP):
        QUERIES[str(q)](m.s)
    new = [{'contours': [0.4, 0.8]}, {'smooth_scale_1D': 0.5}, {'fine_bins': 700}, {'force_twotail': True}][int(rng.integers(4))]
    q = str(rng.choice(['marge', 'dens1', 'latex2', 'text', 'like']))
    before = QUERIES[q](m.s)
    c = Model(m.s.copy(label='new label', settings=new), dict(m.settings, **new), dict(m.meta))
    rec.eq((c.s.label, m.s.label), ('new label', None), 'copy label')
    check_query(rec, c, q, ['copy(settings)'], 'copy')
    same(rec, QUERIES[q](m.s), before, 'original keeps its settings')
    check_query(rec, m, q, ['original'], 'original')
    rec.sig(repr(new), q)


GROUPS = {
    'history': (history, 160, 6000),
    'pure': (pure, 60, 1500),
    'copied_settings': (copied_settings, 60, 800),
}
