import os
import re

import numpy as np

from .. import gen

RULE = 'a case is one set of samples whose statistics files are written and read back, one generated best-fit file, or one table of several results ' \
       'with different parameters, parsed cell by cell; distinct = (parameters, limits, limit types, layout)'
ASSUMPTIONS = ['files are compared at the figures of their format (8 significant, or 6 decimals for likelihoods)',
               'tables mixing results with and without best fits are not generated']

POOL = ['omegabh2', 'omegach2', 'theta', 'tau', 'logA', 'ns', 'mnu', 'w', 'H0', 'sigma8', 'A', 'AL', 'alpha1', 'alpha10', 'alpha', 'a.b', 'averyveryverylongname12', 'x_y']
LABELS = [r'\Omega_b h^2', r'\tau', 'x', r'n_{\rm s}', r'{\rm{ln}}(10^{10} A_s)', r'H_0 \,[{\rm km}]', r'\sigma_8', 'a b c', '', r'\alpha = 1', 'two', '&x' if False else 'y:z']


def pick(rng, n):
    return [str(v) for v in rng.choice(POOL, n, replace=False)], [str(v) for v in rng.choice(LABELS, n)]


def make(rng, rec, n=None, nchain=1):
    p = int(rng.integers(1, 7))
    names, labels = pick(rng, p)
    der = rng.random(p) < 0.3
    n = n or int(rng.choice([300, 1000]))
    cols = []
    ranges = {}
    for i in range(p):
        k = rng.integers(0, 4)
        sc = 10. ** rng.uniform(-6, 5)
        x = rng.normal(size=n)
        if k == 1:
            x = np.abs(x)
            ranges[names[i]] = [0., None]
        elif k == 2:
            x = -np.abs(x)
            ranges[names[i]] = [None, 0.]
        elif k == 3:
            x = rng.uniform(-1, 1, n)
            ranges[names[i]] = [-sc, sc]
        else:
            x = x + rng.choice([0, 30, -5])
        cols.append(x * sc)
    X = np.array(cols).T
    w, _ = gen.weights(rng, n, str(rng.choice(['unit', 'int', 'float'])))
    contours = [0.68, 0.95, 0.99, 0.997][:int(rng.integers(1, 5))]
    if rng.random() < 0.4:
        contours = sorted(float(np.round(v, int(rng.integers(2, 6)))) for v in rng.uniform(0.3, 0.98, int(rng.integers(1, 4))))
    s = gen.mc(X, w, gen.loglikes(rng, n), names=[a + ('*' if d else '') for a, d in zip(names, der)], labels=labels, ranges=ranges, settings=dict(contours=contours))
    return s, names, labels, der, contours


def marge(rng, rec):
    from getdist.types import MargeStats
    s, names, labels, der, contours = make(rng, rec)
    rec.set(names=names, labels=labels, contours=contours)
    m = s.getMargeStats()
    fn = os.path.join(rec.tmp, 'a.margestats')
    m.saveAsText(fn)
    L = MargeStats(fn)
    tags = []
    rec.eq(L.list(), names, 'parameters of the file')
    rec.eq([bool(q.isDerived) for q in L.names], [bool(d) for d in der], 'derived parameters of the file')
    rec.eq(L.labels(), [l.strip() for l in labels], 'labels of the file')
    rec.near(L.limits, contours, 'contours of the file')
    means, sd = s.getMeans(), np.sqrt(s.getVars())
    for i, (a, b) in enumerate(zip(L.names, m.names)):
        rec.near([a.mean, a.err], [means[i], sd[i]], 'mean and error of the file', rtol=1e-7, atol=1e-12 * sd[i])
        rec.eq(len(a.limits), len(contours), 'number of limits of the file')
        for x, y in zip(a.limits, b.limits):
            rec.near([x.lower, x.upper], [y.lower, y.upper], 'limits of the file', rtol=1e-7, atol=1e-12 * sd[i])
            rec.eq((x.limitTag(), x.twotail, x.onetail_upper, x.onetail_lower), (y.limitTag(), y.limitTag() == 'two', y.limitTag() == '>', y.limitTag() == '<'), 'limit type of the file')
            rec.eq(x.limitType(), {'two': 'two tail', '>': 'one tail upper limit', '<': 'one tail lower limit', 'none': 'none'}[x.limitTag()], 'limit description')
            tags.append(x.limitTag())
            g = str(x).split()
            rec.near([float(g[0]), float(g[1])], [x.lower, x.upper], 'limit as text', rtol=1e-5)
    head = [l for l in open(fn).read().split('\n') if l.startswith('parameter')]
    rec.eq(len(head), 1, 'heading of the file')
    rec.eq(head[0].split(), ['parameter', 'mean', 'sddev'] + [q + str(i + 1) for i in range(len(contours)) for q in ('lower', 'upper', 'limit')], 'columns named in the heading')
    # text of the file is the text of the object, and writing what was read gives the same file
    fn2 = os.path.join(rec.tmp, 'b.margestats')
    L.saveAsText(fn2)
    rec.eq(open(fn2).read(), open(fn).read(), 'file written again')
    # the same latex from the file to the displayed precision
    for i, nm in enumerate(names):
        g = s.getInlineLatex(nm, limit=len(contours))
        rec.check(g.startswith(labels[i] or nm), 'label of the inline result', got=g)
    rec.sig('marge', len(names), len(contours), sorted(set(tags)), der.tolist())


def like(rng, rec):
    from getdist.types import LikeStats
    s, names, labels, der, contours = make(rng, rec)
    st = s.getLikeStats()
    fn = os.path.join(rec.tmp, 'a.likestats')
    st.saveAsText(fn)
    L = LikeStats(fn)
    ll, w = s.loglikes, s.weights
    best = ll.min()
    rec.near(L.logLike_sample, best, 'best likelihood of the file', rtol=0, atol=1e-6)
    rec.near(L.meanLogLike, gen.ref_mean(ll, w), 'mean likelihood of the file', rtol=1e-9, atol=1e-6)
    rec.near(L.logMeanLike, -np.log(gen.ref_mean(np.exp(-(ll - best)), w)) + best, 'log mean likelihood of the file', rtol=1e-9, atol=1e-6)
    if ll.max() - best < 30:
        rec.near(L.logMeanInvLike, np.log(gen.ref_mean(np.exp(ll - best), w)) + best, 'log mean inverse likelihood of the file', rtol=1e-9, atol=1e-6)
    else:
        rec.check(L.logMeanInvLike is None, 'no unreliable inverse likelihood')
    lines = open(fn).read().split('\n')
    rows = [l for l in lines[lines.index('') + 2:] if l.strip()]
    rec.eq(len(rows), len(names), 'one row per parameter')
    for i, (l, q) in enumerate(zip(rows, st.names)):
        it = l.split(None, 6)
        rec.eq(it[0], names[i] + ('*' if der[i] else ''), 'parameter of the row')
        rec.near([float(v) for v in it[1:6]], [q.bestfit_sample, q.ND_limit_bot[0], q.ND_limit_top[0], q.ND_limit_bot[1], q.ND_limit_top[1]], 'row of the parameter', rtol=6e-8)
        rec.eq(it[6].strip() if len(it) > 6 else '', labels[i].strip(), 'label of the row')
        rec.near(q.bestfit_sample, s.samples[np.argmin(ll), i], 'best sample')
    # zero log mean inverse likelihood
    n = 20
    z = gen.mc(rng.normal(size=(n, 1)), None, np.zeros(n), names=['x'])
    z.getLikeStats().saveAsText(fn)
    Z = LikeStats(fn)
    rec.eq((Z.logLike_sample, Z.logMeanInvLike, Z.meanLogLike), (0., 0., 0.), 'zero likelihoods of the file')
    rec.sig('like', len(names), len(contours), ll.max() - best < 30)


def converge(rng, rec):
    from getdist.types import ConvergeStats
    from getdist import MCSamples
    p = int(rng.integers(1, 5))
    names, labels = pick(rng, p)
    labels = [l or 'q' for l in labels]
    nc = int(rng.integers(2, 5))
    parts = [gen.mcmc_chain(rng, int(rng.integers(150, 400)), p) for _ in range(nc)]
    if rng.random() < 0.3:  # far from converged
        for q in parts:
            q[2][:] += rng.normal(size=p) * q[2].std(axis=0) * 10. ** rng.uniform(-1, 1, p)
    s = MCSamples(samples=[q[2] for q in parts], weights=[q[0] for q in parts], loglikes=[q[1] for q in parts], names=names, labels=labels, settings={'ignore_rows': 0})
    fn = os.path.join(rec.tmp, 'a.converge')
    txt = s.getConvergeTests(0.95, writeDataToFile=True, filename=fn, what=('MeanVar', 'GelmanRubin', 'SplitTest', 'RafteryLewis', 'CorrLengths', 'CorrSteps'))
    rec.eq(open(fn).read(), txt, 'written text')
    C = ConvergeStats(fn)
    D = s.getGelmanRubinEigenvalues()
    rec.near([float(v) for v in C.R_eigs], D, 'eigenvalues of the file', rtol=0, atol=6e-6)
    rec.near(float(C.worstR()), s.getGelmanRubin(), 'worst eigenvalue of the file', rtol=0, atol=6e-6)
    if hasattr(C, 'auto_correlations'):
        rec.eq(C.auto_correlation_pars, names, 'parameters of the correlations in the file')
        # rows of the file, read by columns
        body = txt[txt.index('Parameter auto-correlations'):].split('\n')
        steps = [int(v) for v in body[2].split()]
        rec.eq(C.auto_correlation_steps, steps, 'steps of the file')
        for row, l, nm, lab in zip(C.auto_correlations, body[3:], names, labels):
            rec.eq(len(row), len(steps), 'correlations of each step', row=row, label=lab)
            rec.near(row, [float(v) for v in l.split()[1:1 + len(steps)]], 'correlations of the file', rtol=0, atol=1e-9)
        rec.ev('files with auto-correlations')
    rec.sig('conv', p, nc)


def bestfit(rng, rec):
    from getdist.types import BestFit, ResultTable
    from getdist.paramnames import ParamNames
    nv, nf, nd = int(rng.integers(1, 6)), int(rng.integers(0, 4)), int(rng.integers(0, 5))
    names, labels = pick(rng, nv + nf + nd)
    vals = [float('%.7e' % v) for v in rng.normal(size=nv + nf + nd) * 10. ** rng.uniform(-6, 5, nv + nf + nd)]
    ll = float(np.round(rng.normal() * 100, 5))
    like = []
    for i in range(int(rng.integers(0, 5))):
        kind = str(rng.choice(['CMB', 'BAO', '']))
        if like and rng.random() < 0.3:  # same data name in another kind
            like.append((kind, '', like[-1][2] if kind or ':' not in like[-1][2] else 'x', float(np.round(rng.exponential() * 100, 4))))
            continue
        if kind and rng.random() < 0.2:
            like.append((kind, '', 'set: a%d' % i, float(np.round(rng.exponential() * 100, 4))))
            continue
        like.append((kind, str(rng.choice(['', 'T%d' % i])), 'data_%d v%d.1' % (i, i) if rng.random() < 0.5 else 'name%d' % i, float(np.round(rng.exponential() * 100, 4))))
    out = []
    has_w = bool(rng.random() < 0.3)
    if has_w:
        out.append(' weight = 3.5')
    out.append(' -log(Like) =   %.7f' % ll)
    if rng.random() < 0.7:
        out.append(' chi-sq    =   %.7f' % (2 * ll))
    out.append('')
    k = 0
    for chunk in (nv, nf, nd):
        for _ in range(chunk):
            out.append('%5i %15.7E   %-22s %s' % (k + 1, vals[k], names[k], labels[k]))
            k += 1
        out.append('')
    if like:
        out.append(' -log(Like)     chi-sq   data')
        for kind, tag, nm, c in like:
            out.append('%11.3f%11.4f   %s%s%s' % (c / 2, c, kind + ': ' if kind else '', tag + ' = ' if tag else '', nm))
    elif rng.random() < 0.5:
        while out[-1] == '':
            out.pop()
    fn = os.path.join(rec.tmp, 'a.minimum')
    with open(fn, 'w') as f:
        f.write('\n'.join(out) + '\n')
    rec.set(file=out)
    for fixed in (False, True):
        b = BestFit(fn, want_fixed=fixed)
        exp = [(n, v, l.strip(), nv <= i < nv + nf, i) for i, (n, v, l) in enumerate(zip(names, vals, labels)) if fixed or not nv <= i < nv + nf]
        rec.near(b.logLike, ll, 'likelihood of the file')
        if has_w:
            rec.near(b.weight, 3.5, 'weight of the file')
        rec.eq([q.name for q in b.names], [e[0] for e in exp], 'parameters of the file')
        for q, e in zip(b.names, exp):
            rec.near(q.best_fit, e[1], 'value of the parameter')
            rec.eq((q.label, bool(q.isFixed), q.number), (e[2], e[3], e[4] + 1), 'label, fixed flag and number of the parameter')
            rec.eq(bool(q.isDerived), e[4] >= nv, 'derived flag of the parameter')
        d = b.getParamDict()
        rec.eq({k: v for k, v in d.items() if k not in ('weight', 'loglike')}, {e[0]: e[1] for e in exp}, 'dictionary of parameters')
        rec.near(d['loglike'], ll, 'likelihood of the dictionary')
        d = b.getParamDict(include_derived=False)
        rec.eq({k for k in d if k not in ('weight', 'loglike')}, {e[0] for e in exp if e[4] < nv}, 'dictionary without derived parameters')
        got = [(k, c.tag, c.name, c.chisq) for k, c in b.chiSquareds]
        rec.eq(got, [(k, t or None, nm, c) for k, t, nm, c in like], 'likelihood contributions')
        for kind, t, nm, c in like:
            first = [q[3] for q in like if q[0] == kind and q[2] == nm][0]
            rec.eq(b.chiSquareForKindName(kind, nm), first, 'contribution by name')
        rec.check(b.chiSquareForKindName('nosuch', 'x') is None, 'unknown contribution')
        srt = b.sortedChiSquareds()
        rec.eq([(k, sorted(c.chisq for c in v)) for k, v in srt], [(k, sorted(q[3] for q in like if q[0] == k)) for k in sorted({q[0] for q in like})], 'contributions sorted by kind')
    # labels from a list of parameters
    pn = os.path.join(rec.tmp, 'a.paramnames')
    with open(pn, 'w') as f:
        for i, n in enumerate(names[::2]):
            f.write('%s   NEW_%d\n' % (n, i))
    b = BestFit(fn, setParamNameFile=pn)
    for i, n in enumerate(names[::2]):
        q = b.parWithName(n)
        if q is not None:
            rec.eq(q.label, 'NEW_%d' % i, 'label from the list of parameters')
    # table of the best fit
    b = BestFit(fn)
    if b.names:
        cols = int(rng.integers(1, 4))
        cells = parse(ResultTable(cols, [b] if rng.random() < 0.5 else b).tableTex(), cols, 1)
        rec.eq(sorted(c[0] for c in cells), sorted(lab(q) for q in b.names), 'one entry per parameter')
        if len({lab(q) for q in b.names}) == len(b.names):
            for l, v in cells:
                q = [q for q in b.names if lab(q) == l][0]
                rec.near(float(v[0]), q.best_fit, 'best fit in the table', rtol=6e-4)
    rec.sig('bf', nv, nf, nd, len(like), has_w)


def lab(q):
    return q.label or q.name


def parse(tex, ncol, ncell):
    """[(label, [cells])] in table order; every row must have the same number of columns."""
    lines = tex.split('\n')
    out = []
    first = True
    cols = [[] for _ in range(ncol)]
    for l in lines:
        if not l.endswith('\\\\') or '&' not in l:
            continue
        it = [c.strip() for c in l[:-2].split('&')]
        if any('multicolumn' in c for c in it):
            continue
        if len(it) != ncol * (1 + ncell):
            raise AssertionError('table row with %d columns rather than %d: %s' % (len(it), ncol * (1 + ncell), l))
        if first:
            first = False
            continue
        for c in range(ncol):
            part = it[c * (1 + ncell):(c + 1) * (1 + ncell)]
            if part[0]:
                m = re.fullmatch(r'(?:\{\\boldmath)?\$(.*?)\s*\$\}?', part[0])
                cols[c].append((m.group(1).strip(), [v.strip('$').strip() for v in part[1:]], '\\boldmath' in part[0]))
    for c in cols:
        out += [(a, b) for a, b, _ in c]
    return out


def tables(rng, rec):
    from getdist import types
    from getdist.paramnames import ParamInfo, ParamNames
    nres = int(rng.integers(1, 5))
    names, _ = pick(rng, int(rng.integers(1, 12)))
    best = bool(rng.random() < 0.4)
    # (percentages that are not exact in floating point among them)
    levels = [(0.68, 0.95), (0.57, 0.95), (0.29, 0.58), (0.68, 0.9545), (0.6827, 0.99)][int(rng.integers(0, 5))]
    results = []
    for r in range(nres):
        m = types.MargeStats()
        m.limits, m.hasBestFit = list(levels), best
        sub = [n for n in names if rng.random() < 0.75] or [names[0]]
        for n in (names if r == 0 else sub):
            q = ParamInfo()
            q.name, q.label = n, 'L' + n.replace('_', '')
            i = names.index(n)
            q.isDerived = bool(i % 3 == 1)
            q.mean, q.err = 1000. * (r + 1) + 10 * i, 0.02
            q.best_fit = q.mean + 1.
            q.limits = [types.ParamLimit([q.mean - .02, q.mean + .02], 'two'), types.ParamLimit([q.mean - .05, q.mean + .04], str(rng.choice(['two', 'two', '>', '<', 'none'])))]
            m.names.append(q)
        results.append(m)
    ncol = int(rng.integers(1, 5))
    limit = int(rng.integers(1, 3))
    titles = ['Title %d' % r for r in range(nres)] if rng.random() < 0.5 else None
    kw = {}
    sel = names
    if rng.random() < 0.4:
        k = int(rng.integers(1, len(names) + 1))
        kw['paramList'] = [str(v) for v in rng.permutation(names)[:k]]
        sel = [n for n in names if n in kw['paramList']]
    elif rng.random() < 0.3:
        k = int(rng.integers(1, len(names) + 1))
        order = [str(v) for v in rng.permutation(names)[:k]]
        pn = ParamNames()
        pn.names = [ParamInfo(n + ' L' + n.replace('_', '')) for n in order]
        kw['tableParamNames'] = pn
        sel = order
    if rng.random() < 0.5:
        kw['formatter'] = [types.TableFormatter, types.OpenTableFormatter, types.NoLineTableFormatter][int(rng.integers(0, 3))]()
    fig = None
    if rng.random() < 0.3:
        fig = int(rng.choice([1, 3, 4]))
        kw['numFormatter'] = types.NumberFormatter(err_sf=fig)
    if rng.random() < 0.5 and ncol == 1:
        kw['blockEndParams'] = [str(v) for v in rng.permutation(names)[:int(rng.integers(1, 4))]]
    arg = results[0] if nres == 1 and rng.random() < 0.3 else results
    rec.set(names=names, ncol=ncol, nres=nres, best=best, limit=limit, sel=sel, opts=sorted(kw))
    ref, how = None, {}
    if rng.random() < 0.35:
        # shifts with respect to a reference, which has only some of the parameters
        ref = types.MargeStats()
        ref.limits, ref.hasBestFit = list(levels), False
        for n in names:
            if rng.random() < 0.8:
                q = ParamInfo()
                q.name, q.label = n, 'other'
                q.mean, q.err = 1000. + 10 * names.index(n) + float(rng.normal()) * 0.1, 0.02 * float(rng.choice([0.5, 1., 1.0005, 2.]))
                ref.names.append(q)
        how = [{}, dict(shiftSigma_indep=True), dict(shiftSigma_subset=True), dict(shiftSigma_indep=True, shiftSigma_subset=True)][int(rng.integers(0, 4))]
        kw.update(refResults=ref, **how)
    t = types.ResultTable(ncol, arg, limit=limit, titles=titles, **kw)
    per = 2 if best else 1
    tex = t.tableTex()
    cells = parse(tex, ncol, per * nres)
    rec.eq([c[0] for c in cells], ['L' + n.replace('_', '') for n in sel], 'one entry per requested parameter, in order')
    lim = '%d' % int(levels[limit - 1] * 100 + 0.5)
    rec.eq(tex.count(lim + r'\% limits'), nres * ncol, 'header for each result')
    rec.eq(tex.count('Best fit'), (nres if best else 0) * ncol, 'best fit header for each result')
    if titles:
        for ti in titles:
            rec.eq(tex.count(ti), ncol, 'title of each result')
    for (l, vals), n in zip(cells, sel):
        for r, m in enumerate(results):
            q = m.parWithName(n)
            part = vals[r * per:(r + 1) * per]
            if q is None:
                rec.check(all(v == '' for v in part), 'no value for a parameter the result does not have', got=part, name=n)
                continue
            v = part[-1]
            L = q.limits[limit - 1]
            rq = ref.parWithName(n) if ref is not None else None
            if rq is not None and v != t.format.noConstraint:
                v, sh = v.split('\\quad(')
                v = v.strip()
                dm = q.mean - rq.mean
                sub, ind = dm / max(np.sqrt(abs(q.err ** 2 - rq.err ** 2)), rq.err / 20), dm / np.hypot(q.err, rq.err)
                exp = [] if how else [dm / rq.err]
                exp += [sub] if how.get('shiftSigma_subset') else []
                exp += [ind] if how.get('shiftSigma_indep') else []
                rec.near([float(g) for g in re.findall(r'([-+][\d.]+) \\sigma', sh)], exp, 'shift of the parameter with respect to the reference', rtol=1e-6, atol=0.051, name=n, cell=sh)
            else:
                rec.check('sigma' not in v, 'no shift without a reference value', cell=v)
            if best:
                rec.near(float(part[0]), q.best_fit, 'best fit of the parameter and result', rtol=0, atol=0.06, name=n)
            if L.twotail:
                rec.near(float(re.match(r'-?[\d.]+', v).group(0)), q.mean, 'value of the parameter and result', rtol=0, atol=0.02 if fig == 1 else 0.006, name=n, cell=v)
                if limit == 1:
                    rec.eq(v.split(r'\pm ')[1], {None: '0.020', 1: '0.02', 3: '0.0200', 4: '0.02000'}[fig], 'error in the table', cell=v)
            elif L.onetail_upper or L.onetail_lower:
                rec.check(v.startswith('< ' if L.onetail_upper else '> '), 'direction of the limit', cell=v)
                rec.near(float(v[2:]), L.upper if L.onetail_upper else L.lower, 'limit of the parameter and result', rtol=6e-3)
            else:
                rec.eq(v, t.format.noConstraint, 'no constraint', cell=v)
    if ncol == 1:  # lines between the parameters
        ls = tex.split('\n')
        at = [i for i, l in enumerate(ls) if l.endswith(t.format.endofrow) and '&' in l and 'multicolumn' not in l][1:]
        rec.eq(len(at), len(sel), 'rows of the table')
        for i, (k, n) in enumerate(zip(at, sel)):
            pos = 'belowFinalRow' if i == len(sel) - 1 else 'belowBlockRow' if n in kw.get('blockEndParams', []) else 'belowRow'
            rec.eq(ls[k + 1], t.format.getLine(pos), 'line below the row of a parameter', pos=pos, param=n)
    # bold only for non-derived
    for n in sel:
        bold = ('{\\boldmath$L%s ' % n.replace('_', '')) in tex or ('{\\boldmath$L%s$' % n.replace('_', '')) in tex
        isd = (kw['tableParamNames'].parWithName(n) if 'tableParamNames' in kw else results[0].parWithName(n)).isDerived
        rec.eq(bold, not isd, 'bold for non-derived parameters', name=n)
    body = [l for l in tex.split('\n') if l.strip()]
    rec.check(body[0].startswith(r'\begin{tabular}') and body[-1] == r'\end{tabular}', 'table is complete')
    fn = os.path.join(rec.tmp, 't.tex')
    t.write(fn)
    rec.eq(open(fn).read().rstrip('\n'), tex.rstrip('\n'), 'written table')
    doc = t.tableTex(document=True, latex_preamble='PRE')
    rec.check(tex in doc and 'PRE' in doc and doc.index(r'\begin{document}') < doc.index(tex) < doc.index(r'\end{document}'), 'table in a document')
    rec.sig('table', nres, ncol, best, limit, len(sel) < len(names), sorted(kw))


def sample_tables(rng, rec):
    """Tables from samples, with the best fit from a file."""
    from getdist import loadMCSamples
    p = int(rng.integers(2, 6))
    names, _ = pick(rng, p)
    n = 600
    x = rng.normal(size=(n, p)) * 0.03 + np.arange(1, p + 1) * 7
    root = os.path.join(rec.tmp, 'ch')
    gen.write_chain(root + '.txt', np.ones(n), gen.loglikes(rng, n), x)
    der = [i >= p - 1 for i in range(p)]
    # the minimum may list the parameters in another order, and derived parameters not flagged in the list
    flagged = bool(rng.random() < 0.5)
    order = [int(v) for v in rng.permutation(p)]
    with open(root + '.paramnames', 'w') as f:
        for i, nm in enumerate(names):
            f.write('%s%s\tL%d\n' % (nm, '*' if der[i] and flagged else '', i))
    have = [i for i in range(p) if i == 0 or rng.random() < 0.8]
    inv = [i for i in order if i in have]
    with open(root + '.minimum', 'w') as f:
        f.write(' -log(Like) =  12.5\n chi-sq    =  25.0\n\n')
        for i in inv:
            if not der[i]:
                f.write('%5i %15.7E   %-22s L%d\n' % (i + 1, x[:, i].mean() + 0.5, names[i], i))
        f.write('\n\n')
        for i in inv:
            if der[i]:
                f.write('%5i %15.7E   %-22s L%d\n' % (i + 1, x[:, i].mean() + 0.5, names[i], i))
        f.write('\n')
    s = loadMCSamples(root, settings={'ignore_rows': 0})
    cells = parse(s.getTable(limit=1).tableTex(), 1, 1)
    rec.eq([c[0] for c in cells], ['L%d' % i for i in range(p)], 'all parameters')
    for i, (l, v) in enumerate(cells):
        rec.near(float(re.match(r'-?[\d.]+', v[0]).group(0)), x[:, i].mean(), 'mean in the table', rtol=0, atol=0.0006)
    cells = parse(s.getTable(columns=2, limit=1, include_bestfit=True).tableTex(), 2, 2)
    rec.eq([c[0] for c in cells], ['L%d' % i for i in have], 'parameters with a best fit')
    for (l, v), i in zip(cells, have):
        rec.near(float(v[0]), x[:, i].mean() + 0.5, 'best fit in the table', rtol=0, atol=0.012)
        rec.near(float(re.match(r'-?[\d.]+', v[1]).group(0)), x[:, i].mean(), 'mean in the table', rtol=0, atol=0.0006)
    m = s.getMargeStats(include_bestfit=True)
    rec.near(m.logLike, 12.5, 'best-fit likelihood')
    rec.eq([q.name for q in m.names], [names[i] for i in have], 'parameters with a best fit')
    for q, i in zip(m.names, have):
        rec.near(q.best_fit, x[:, i].mean() + 0.5, 'best fit of the parameter', rtol=1e-6)
        rec.eq(bool(q.isDerived), der[i], 'derived flag as in the minimum')
    cells = parse(s.getTable(limit=1).tableTex(), 1, 1)
    rec.eq([c[0] for c in cells], ['L%d' % i for i in range(p)], 'all parameters after using best fits')
    rec.sig('stable', p, len(have))


GROUPS = {'marge': (marge, 200, 4000), 'like': (like, 150, 3000), 'converge': (converge, 60, 1000), 'bestfit': (bestfit, 400, 8000), 'tables': (tables, 600, 15000),
          'sample_tables': (sample_tables, 30, 500)}
QUICK_BUDGET = 120
THOROUGH_BUDGET = 600
