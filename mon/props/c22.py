import os
import re

import numpy as np

from .. import gen

RULE = 'a case is one pair of sample sets with partly shared parameters that are combined (histories of up to 3 combinations), or one set of samples whose ' \
       'principal components are parsed from the report and compared with an independent eigen-decomposition; distinct = (overlap, order, weights, options)'
ASSUMPTIONS = ['reports are compared at the figures printed', 'principal components are compared where eigenvalues and dominant coefficients are not degenerate',
               'the choice of logarithmic mapping when none is given is not prescribed, only that it is reported and defined for all samples']

POOL = ['omegabh2', 'omegach2', 'theta', 'tau', 'logA', 'ns', 'mnu', 'w', 'A', 'AL', 'alpha1', 'alpha10', 'a.b', 'H0', 'sigma8', 'x_y']


def table(s):
    """rows by parameter name, with weights and likelihoods"""
    return {a: s.samples[:, i].copy() for i, a in enumerate(s.paramNames.list())}, np.array(s.weights, float), None if s.loglikes is None else s.loglikes.copy()


def combine(rng, rec):
    k = int(rng.integers(1, 5))
    shared = [str(v) for v in rng.choice(POOL, k, replace=False)]
    rest = [a for a in POOL if a not in shared]
    sets = []
    derived = {a: bool(rng.random() < 0.3) for a in POOL}
    if all(derived[a] for a in shared):
        derived[shared[0]] = False
    bounded = {a: (-1e15, 1e16) if rng.random() < 0.5 else (None, 1e15) for a in shared if rng.random() < 0.2}
    for q in range(int(rng.integers(2, 4))):
        own = [rest.pop(int(rng.integers(0, len(rest)))) for _ in range(int(rng.integers(0, 3)))]
        names = [str(v) for v in rng.permutation(shared + own)]
        n = int(rng.choice([3, 10, 50, 200]))
        w, _ = gen.weights(rng, n)
        ll = gen.loglikes(rng, n) if rng.random() < 0.8 else None
        X = gen.params(rng, n, len(names), ties=False)
        ranges = {}
        if rng.random() < 0.3:
            j = int(rng.integers(0, len(names)))
            ranges[names[j]] = [float(X[:, j].min()) - 1, None]
        for x in bounded:
            # the same hard bounds in every set
            ranges[x] = list(bounded[x])
        if rng.random() < 0.3:
            # samples already processed in some way, with statistics cached
            s = gen.mc(X, w, ll, names=[a + ('*' if derived[a] else '') for a in names], labels=['L ' + a for a in names], ranges=ranges)
            s.getCov()
            if n >= 50 and np.max(s.weights) < 0.1 * np.sum(s.weights):
                s.getMargeStats()
            if rng.random() < 0.5 and n > 5:
                s.filter(np.arange(n) % 3 != 1)
        else:
            s = gen.mc(X, w, ll, names=[a + ('*' if derived[a] else '') for a in names], labels=['L ' + a for a in names], ranges=ranges)
        sets.append(s)
    a = sets[0]
    ops = []
    for b in sets[1:]:
        sw = [(1, 1), None, (2, 1), (0.3, 5.), (1, 1e-3)][int(rng.integers(0, 5))]
        default = bool(sw == (1, 1) and rng.random() < 0.6)
        ops.append(str(sw))
        ta, wa, la = table(a)
        tb, wb, lb = table(b)
        rec.set(weights=ops, first=list(ta), second=list(tb))
        c = a.getCombinedSamplesWithSamples(b) if default else a.getCombinedSamplesWithSamples(b, sample_weights=sw)
        common = [x for x in tb if x in ta]
        rec.eq(sorted(c.paramNames.list()), sorted(common), 'parameters in common')
        rec.eq(c.numrows, len(wa) + len(wb), 'every row kept')
        na = len(wa)
        for x in common:
            v = c[x]
            rec.check(np.array_equal(v[:na], ta[x]) and np.array_equal(v[na:], tb[x]), 'values of the rows kept', param=x)
            rec.eq(c.paramNames.parWithName(x).label, 'L ' + x, 'label')
            rec.eq(bool(c.paramNames.parWithName(x).isDerived), derived[x], 'derived')
            if x in bounded:
                rec.eq((c.getLower(x), c.getUpper(x)), bounded[x], 'hard bounds shared by the sets')
        if la is not None and lb is not None:
            rec.check(c.loglikes is not None and np.array_equal(c.loglikes, np.concatenate([la, lb])), 'likelihoods of the rows kept')
        else:
            rec.check(c.loglikes is None, 'no invented likelihoods')
        wc = np.asarray(c.weights, float)
        rec.near(wc[:na] / wc[:na].sum(), wa / wa.sum(), 'weights within the first set', rtol=1e-10, atol=1e-300)
        rec.near(wc[na:] / wc[na:].sum(), wb / wb.sum(), 'weights within the second set', rtol=1e-10, atol=1e-300)
        if sw is None:
            rec.near(wc[na:].sum() / wc[:na].sum(), wb.sum() / wa.sum(), 'directly appended', rtol=1e-10)
        else:
            rec.near(wc[na:].sum() / wc[:na].sum(), sw[1] / sw[0], 'probability in the requested proportion', rtol=1e-10)
        for x in common:
            i = c.paramNames.list().index(x)
            col = np.concatenate([ta[x], tb[x]])
            rec.near(c.getMeans()[i], gen.ref_mean(col, wc), 'mean of the combination', rtol=1e-9, atol=1e-9 * np.abs(col).max())
        # inputs unchanged, and not shared with the result
        c.weights *= 1.7
        c.samples += 1.
        if c.loglikes is not None:
            c.loglikes += 2.
        c.paramNames.names[0].label = 'changed'
        c.ranges.setRange(common[0], [None, None])
        for s, (t, w, l) in ((a, (ta, wa, la)), (b, (tb, wb, lb))):
            t2, w2, l2 = table(s)
            rec.check(list(t) == list(t2) and all(np.array_equal(t[x], t2[x]) for x in t) and np.array_equal(w, w2) and (l is None or np.array_equal(l, l2)), 'combined samples unchanged')
            rec.eq([p.label for p in s.paramNames.names], ['L ' + p.name for p in s.paramNames.names], 'labels of the combined samples unchanged')
        c.samples -= 1.
        c.paramNames.names[0].label = 'L ' + c.paramNames.names[0].name
        c.weights /= 1.7
        a = c
    rec.ev('combinations', len(ops))
    rec.sig(ops, len(shared), [len(s.paramNames.names) for s in sets], [s.loglikes is None for s in sets])


FLOAT = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)'


def parse(text):
    """sections of a PCA report"""
    r = {'labels': [], 'corr': [], 'evals': [], 'evecs': [], 'modes': [], 'pccorr': [], 'parcorr': []}
    head, rest = text.split('Correlation matrix for reduced parameters\n')
    for l in head.split('\n')[1:]:
        if l.strip():
            ix, lab = l.split(':', 1)
            r['labels'].append((int(ix), lab))
    c, rest = rest.split('e-values of correlation matrix\n')
    for l in c.split('\n'):
        if l.strip():
            n, v = l.rsplit(':', 1)
            r['corr'].append((n.strip(), [float(x) for x in re.findall(FLOAT, v)]))
    e, rest = rest.split('e-vectors\n')
    r['evals'] = [float(l.split(':')[1]) for l in e.split('\n') if l.strip()]
    e, rest = rest.split('Principle components\n')
    for l in e.split('\n'):
        if l.strip():
            n, v = l.split(':', 1)
            r['evecs'].append((int(n), [float(x) for x in re.findall(FLOAT, v)]))
    e, rest = rest.split('Correlations of principle components\n')
    r['modes'] = modes(e)
    for l in rest.split('\n')[1:]:
        if l.startswith('PC'):
            r['pccorr'].append([float(x) for x in re.findall(FLOAT, l[4:])])
        elif l.strip():
            n = len(r['evals'])
            r['parcorr'].append([float(l[4 + 8 * i:12 + 8 * i]) for i in range(n)])
    return r


def modes(e):
    out = []
    for block in e.split('\n\n'):
        ls = [l for l in block.split('\n') if l.strip()]
        if not ls:
            continue
        m = re.match(r'PC(\d+) \(e-value: (%s)\)' % FLOAT, ls[0])
        coef = []
        for l in ls[1:-1]:
            mm = re.match(r'\[(%s)\] +(.*)$' % FLOAT, l)
            coef.append((float(mm.group(1)), mm.group(2)))
        mean, sd = re.match(r' *= (%s) \+- (%s)' % (FLOAT, FLOAT), ls[-1]).groups()
        out.append((int(m.group(1)), float(m.group(2)), coef, float(mean), float(sd)))
    return out


def pca(rng, rec):
    p = int(rng.integers(2, 7))
    names = [str(v) for v in rng.choice(POOL, p, replace=False)]
    n = int(rng.choice([60, 300]))
    A = np.eye(p) + 0.6 * rng.normal(size=(p, p))
    z = rng.normal(size=(n, p)).dot(A)
    positive = rng.random(p) < 0.6
    scale = 10. ** rng.uniform(-1, 1.5, p)
    X = np.where(positive, np.exp(0.3 * z), z + rng.normal(size=p) * 2) * scale
    negative = ~positive & (rng.random(p) < 0.4)
    X = np.where(negative, -np.exp(0.3 * z) * scale, X)
    w, _ = gen.weights(rng, n, str(rng.choice(['unit', 'int', 'float', 'none'])))
    labels = ['lab%s' % chr(97 + i) for i in range(p)]
    s = gen.mc(X, w, gen.loglikes(rng, n), names=names, labels=labels)
    w = np.ones(n) if w is None else w
    q = int(rng.integers(2, p + 1)) if p > 1 else 1
    order = [int(i) for i in rng.permutation(p)]
    use, cond = order[:q], order[q:]
    cond = cond[:int(rng.integers(0, len(cond) + 1))] if rng.random() < 0.6 else []
    given = rng.random() < 0.75
    pm = None
    if given:
        pm = ''.join('L' if positive[i] and rng.random() < 0.6 else 'M' if negative[i] and rng.random() < 0.7 else 'N' for i in use)
    params = [names[i] for i in use]
    missing = bool(rng.random() < 0.2)
    ask, askmap = list(params), pm
    if missing:
        at = int(rng.integers(0, q + 1))
        ask.insert(at, 'nosuchparam')
        if pm is not None:
            askmap = pm[:at] + str(rng.choice(['L', 'N'])) + pm[at:]
    norm = params[int(rng.integers(0, q))] if rng.random() < 0.5 or (q == 2) else None
    rec.set(params=ask, map=askmap, norm=norm, conditional=[names[i] for i in cond])
    kw = {}
    if cond:
        kw['conditional_params'] = [names[i] for i in cond]
    tofile = bool(rng.random() < 0.4)
    fn = os.path.join(rec.tmp, 'x.PCA')
    if tofile:
        kw.update(writeDataToFile=True, filename=fn)
    before = (s.samples.copy(), s.weights.copy(), s.getMeans().copy())
    # reference
    S, W = X, np.asarray(w, float) / np.sum(w)
    text = s.PCA(ask, list(askmap) if askmap is not None and rng.random() < 0.5 else askmap, norm, **kw)
    rec.check(np.array_equal(before[0], s.samples) and np.array_equal(before[1], s.weights) and np.array_equal(before[2], s.getMeans()), 'samples unchanged')
    again = parse(s.PCA(ask, askmap, norm, **{k: v for k, v in kw.items() if k == 'conditional_params'}))
    if tofile:
        with open(fn, encoding='utf-8') as f:
            rec.eq(f.read(), text, 'report in the file')
    r = parse(text)
    rec.eq((again['labels'], [a for a, _ in again['corr']]), (r['labels'], [a for a, _ in r['corr']]), 'same report again')
    rec.near(again['evals'], r['evals'], 'same report again', atol=1.01e-4)
    rec.eq([i for i, _ in r['labels']], [i + 1 for i in use], 'parameters analysed')
    labs = [l for _, l in r['labels']]
    if pm is None:
        pm = ''
        for i, l in zip(use, labs):
            pm += 'L' if l == 'ln(%s)' % labels[i] else 'M' if l == 'ln(-%s)' % labels[i] else 'N'
            rec.check(pm[-1] != 'L' or X[:, i].min() > 0, 'log mapping only of positive parameters', param=names[i])
    rec.eq(labs, [{'L': 'ln(%s)', 'M': 'ln(-%s)', 'N': '%s'}[m] % labels[i] for m, i in zip(pm, use)], 'mappings')
    Y = np.column_stack([np.log(X[:, i]) if m == 'L' else np.log(-X[:, i]) if m == 'M' else X[:, i] for m, i in zip(pm + 'N' * len(cond), use + cond)])
    mean = W.dot(Y)
    D = Y - mean
    sd = np.sqrt(W.dot(D ** 2))
    D = D / sd
    C = (D * W[:, None]).T.dot(D)
    rec.eq([a for a, _ in r['corr']], params, 'rows of the correlation matrix')
    for i, (_, row) in enumerate(r['corr']):
        rec.near(row, C[i], 'correlation matrix', atol=6e-5)
    M = C[:q, :q]
    if cond:
        M = M - C[:q, q:].dot(np.linalg.solve(C[q:, q:], C[q:, :q]))
    ev, U = np.linalg.eigh(M)
    rec.near(r['evals'], ev, 'eigenvalues', atol=6e-5)
    rec.eq([i for i, _ in r['evecs']], [i + 1 for i in use], 'rows of the eigenvectors')
    gap = np.min(np.diff(ev))
    V = np.array([v for _, v in r['evecs']])
    rec.near(V.T.dot(V), np.eye(q), 'orthonormal eigenvectors', atol=4e-4)
    rec.near(V.T.dot(M).dot(V), np.diag(ev), 'eigenvectors of the matrix', atol=1e-3)
    if gap < 1e-3:
        rec.ev('nearly degenerate')
        return
    # components
    rec.eq(len(r['modes']), q, 'number of components')
    doexp = any(m in 'LM' for m in pm)
    D = D[:, :q]
    comps = []
    for i, (num, e, coef, m, sdev) in enumerate(r['modes']):
        u = U[:, i]
        if norm:
            j = params.index(norm)
        else:
            so = np.sort(np.abs(u))
            if so[-1] - so[-2] < 1e-4:
                rec.ev('no dominant parameter')
                return
            j = int(np.abs(u).argmax())
        u = u / u[j] * sd[j]
        rec.eq(num, i + 1, 'number of the component')
        rec.near(e, ev[i], 'eigenvalue of the component', atol=2e-6)
        amp = np.abs(u).max() + 1
        if amp > 300:
            rec.ev('component with a huge amplitude')
            return
        tol = 1e-6 + 1e-9 * amp / gap
        rec.near([c for c, _ in coef], u, 'coefficients of the component', atol=tol, rtol=1e-6)
        for jj, (c, expr) in enumerate(coef):
            lab = labels[use[jj]]
            if pm[jj] in 'LM':
                mm = re.match(r'\((\w+)/(%s)\)\^\{(%s)\}$' % (FLOAT, FLOAT), expr)
                rec.check(mm is not None and mm.group(1) == lab, 'term of the component', got=expr)
                rec.near(float(mm.group(2)), np.exp(mean[jj]) * (-1 if pm[jj] == 'M' else 1), 'pivot of the term', atol=1e-6, rtol=1e-6)
                rec.near(float(mm.group(3)), u[jj] / sd[jj], 'power of the term', atol=1e-6 + tol / sd[jj], rtol=1e-5)
            else:
                mm = re.match(r'(?:exp\()?\((\w+)-(%s)\)/(%s)\)$' % (FLOAT, FLOAT), expr)
                rec.check(mm is not None and mm.group(1) == lab and expr.startswith('exp') == doexp, 'term of the component', got=expr)
                rec.near(float(mm.group(2)), mean[jj], 'pivot of the term', atol=1e-6, rtol=1e-6)
                ex = sd[jj] / u[jj]
                if abs(ex) < 1e3:
                    rec.near(float(mm.group(3)), ex, 'scale of the term', atol=1e-6 + tol * abs(ex / u[jj]), rtol=1e-5)
        with np.errstate(over='ignore'):
            v = D.dot(u)
            v = np.exp(v) if doexp else v
        if not np.all(np.isfinite(v)) or np.abs(v).max() > 1e6:
            rec.ev('component out of range')
            return
        vm = W.dot(v)
        vs = np.sqrt(W.dot((v - vm) ** 2))
        rec.near([m, sdev], [vm, vs], 'mean and error of the component', atol=2e-6 + 10 * tol * np.abs(v).max(), rtol=1e-6)
        comps.append((v - vm) / vs)
    comps = np.array(comps)
    cc = (comps * W).dot(comps.T)
    rec.near(np.array(r['pccorr']), cc, 'correlations of the components', atol=1.1e-3)
    Z = (X - W.dot(X))
    Z = Z / np.sqrt(W.dot(Z ** 2))
    rec.near(np.array(r['parcorr']), (comps * W).dot(Z).T, 'correlations of components and parameters', atol=1.1e-3)
    nb = int(rng.integers(1, q + 1))
    best = s.PCA(ask, askmap, norm, n_best_only=nb, **{k: v for k, v in kw.items() if k == 'conditional_params'})
    best = [best] if isinstance(best, str) else list(best)
    rec.eq(len(best), nb, 'tightest components only')
    for t, mode in zip(best, r['modes']):
        t = modes(t)[0]
        rec.eq((t[0], [x.split(')')[0] for _, x in t[2]]), (mode[0], [x.split(')')[0] for _, x in mode[2]]), 'tightest components only')
        rec.near([c for c, _ in t[2]], [c for c, _ in mode[2]], 'tightest components only', atol=3e-6 + 1e-8 / gap, rtol=1e-6)
    rec.ev('components compared', q)
    rec.sig(p, q, len(cond), pm, norm is not None, missing, given)


GROUPS = {'combine': (combine, 150, 4000), 'pca': (pca, 150, 4000)}
QUICK_BUDGET = 100
THOROUGH_BUDGET = 500
