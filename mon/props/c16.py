import os
import subprocess
import sys

import numpy as np

from .. import core, gen

RULE = 'a case is a history of covariance operations (save, load, rescale, merge, correlate) on several matrices of overlapping names, or one set of ' \
       'samples whose covariances are taken, written and re-read; every pair of names is compared with a name-pair dictionary after every ' \
       'operation; distinct = (operations, sizes, overlaps)'
ASSUMPTIONS = ['saved matrices are compared at the 8 significant figures of the file format']

POOL = ['omegabh2', 'omegach2', 'theta', 'tau', 'logA', 'ns', 'mnu', 'w', 'A', 'AL', 'a.b', 'alpha1', 'alpha10', 'alpha', 'x', 'y[1]', 'omega', 'H0']


def matrix(rng, n, scales=None):
    A = rng.normal(size=(n, n + 2))
    C = A.dot(A.T)
    s = 10. ** rng.uniform(-6, 4, n) if scales is None else scales
    return C * np.outer(s, s)


class M:
    """name-pair dictionary"""

    def __init__(self, names, mat, rtol=1e-12):
        self.names = list(names)
        self.d = {(a, b): float(mat[i, j]) for i, a in enumerate(names) for j, b in enumerate(names)}
        self.rtol = rtol

    def copy(self):
        r = M([], np.zeros((0, 0)))
        r.names, r.d, r.rtol = list(self.names), dict(self.d), self.rtol
        return r


def compare(rec, C, m, msg):
    rec.eq(sorted(C.paramNames), sorted(m.names), msg + ': names')
    rec.eq(tuple(np.shape(C.matrix)), (len(m.names),) * 2, msg + ': shape')
    mat = np.asarray(C.matrix)
    rec.check(np.array_equal(mat, mat.T) or np.allclose(mat, mat.T, rtol=1e-12, atol=0), msg + ': symmetric')
    for i, a in enumerate(C.paramNames):
        for j, b in enumerate(C.paramNames):
            e = m.d.get((a, b), 0.)
            rec.check(abs(mat[i, j] - e) <= m.rtol * abs(e), msg + ': entry of the pair', pair=(a, b), got=mat[i, j], expected=e, order=C.paramNames)


def corr(rec, C, m):
    before = C.matrix.copy()
    R = C.correlation()
    rec.check(np.array_equal(before, C.matrix), 'correlating does not change the matrix')
    for i, a in enumerate(C.paramNames):
        for j, b in enumerate(C.paramNames):
            rec.near(R[i, j], m.d.get((a, b), 0.) / np.sqrt(m.d[(a, a)] * m.d[(b, b)]), 'correlation of the pair', rtol=4 * m.rtol + 1e-10, atol=1e-10)
    rec.check(np.array_equal(before, C.matrix), 'correlating does not change the matrix')


def merged(m1, m2):
    r = m1.copy()
    for n in m2.names:
        if n not in r.names:
            r.names.append(n)
    for (a, b), v in m2.d.items():
        if a in m1.names and b in m1.names:
            continue
        r.d[(a, b)] = v
    r.rtol = max(m1.rtol, m2.rtol)
    return r


def ops(rng, rec):
    from getdist.covmat import CovMat
    objs = []
    for k in range(int(rng.integers(2, 5))):
        n = int(rng.integers(1, 9))
        names = [str(v) for v in rng.choice(POOL, n, replace=False)]
        mat = matrix(rng, n)
        objs.append([CovMat(matrix=mat.copy(), paramNames=list(names)), M(names, mat)])
    hist = []
    for step in range(int(rng.integers(4, 14))):
        i = int(rng.integers(0, len(objs)))
        C, m = objs[i]
        op = str(rng.choice(['save', 'scale', 'merge', 'corr', 'scale_missing', 'merge']))
        hist.append(op)
        rec.set(history=hist)
        if op == 'save':
            fn = os.path.join(rec.tmp, 'm%d.covmat' % step)
            C.saveToFile(fn)
            compare(rec, C, m, 'after saving')
            L = CovMat(fn)
            lm = m.copy()
            lm.rtol = m.rtol + 6e-8
            rec.eq(L.paramNames, C.paramNames, 'order of names in the file')
            compare(rec, L, lm, 'loaded')
            # the file itself, read independently
            with open(fn, encoding='utf-8') as f:
                first = f.readline()
                rows = [[float(v) for v in l.split()] for l in f if l.strip()]
            rec.eq(first.lstrip('#').split(), C.paramNames, 'header of the file')
            rec.near(np.array(rows), np.asarray(C.matrix), 'rows of the file', rtol=6e-8, atol=0)
            objs[i] = [L, lm]
            if rng.random() < 0.4:
                # other layouts
                with open(fn, 'w', encoding=str(rng.choice(['utf-8', 'utf-8-sig']))) as f:
                    f.write('#' + str(rng.choice(['', ' ', '   '])) + str(rng.choice([' ', '  ', '\t'])).join(L.paramNames) + '\n')
                    for r in np.asarray(L.matrix):
                        f.write(str(rng.choice([' ', '   '])).join(repr(float(v)) for v in r) + '\n')
                L2 = CovMat(fn)
                compare(rec, L2, lm, 'loaded with another layout')
        elif op in ('scale', 'scale_missing'):
            s = float(rng.choice([2., -1., 0.01, 1e3, rng.normal() + 3]))
            name = str(rng.choice(C.paramNames)) if op == 'scale' else 'nosuch'
            C.rescaleParameter(name, s)
            if op == 'scale':
                for (a, b) in list(m.d):
                    m.d[(a, b)] *= (s if a == name else 1.) * (s if b == name else 1.)
                m.rtol += 1e-15
        elif op == 'merge':
            j = int(rng.integers(0, len(objs)))
            D, dm = objs[j]
            a, b = C.matrix.copy(), D.matrix.copy()
            na, nb = list(C.paramNames), list(D.paramNames)
            N = C.mergeCovmatWhereNew(D)
            rec.check(np.array_equal(C.matrix, a) and np.array_equal(D.matrix, b) and C.paramNames == na and D.paramNames == nb, 'merging does not change its inputs')
            nm = merged(m, dm)
            compare(rec, N, nm, 'merged')
            for x in set(na) - set(nb):
                for y in set(nb) - set(na):
                    rec.check(N.matrix[N.paramNames.index(x), N.paramNames.index(y)] == 0, 'no invented correlation', pair=(x, y))
            corr(rec, N, nm)
            # independent of its inputs afterwards
            N.rescaleParameter(N.paramNames[0], 3.)
            rec.check(np.array_equal(C.matrix, a) and np.array_equal(D.matrix, b), 'merged matrix does not share its inputs')
            N.rescaleParameter(N.paramNames[0], 1 / 3.)
            nm.rtol += 1e-14
            rec.ev('merges with %s names in common' % ('all' if set(na) == set(nb) else 'some' if set(na) & set(nb) else 'no'))
            if len(objs) < 8:
                objs.append([N, nm])
            else:
                objs[j] = [N, nm]
        else:
            corr(rec, C, m)
        for C2, m2 in objs:
            compare(rec, C2, m2, 'after %s' % op)
    rec.sig(hist, [len(m.names) for _, m in objs])


def samples(rng, rec):
    """Covariances of samples by name, by index, in files; derived parameters anywhere."""
    from getdist.covmat import CovMat
    p = int(rng.integers(1, 8))
    n = int(rng.choice([15, 200, 1500]))
    x = gen.params(rng, n, p)
    w, k = gen.weights(rng, n)
    ww = np.ones(n) if w is None else w
    names = [str(v) for v in rng.choice([q for q in POOL if '[' not in q], p, replace=False)]
    der = rng.random(p) < 0.35
    der[int(rng.integers(0, p))] = False
    s = gen.mc(x, weights=w, loglikes=gen.loglikes(rng, n), names=[a + ('*' if d else '') for a, d in zip(names, der)])
    scale = np.sqrt([max(gen.ref_cov(x[:, i], x[:, i], ww), 0) for i in range(p)])
    ref = {(a, b): gen.ref_cov(x[:, i], x[:, j], ww) for i, a in enumerate(names) for j, b in enumerate(names)}
    tol = {(a, b): scale[i] * scale[j] * 1e-8 + (abs(x[:, i]).max() * scale[j] + abs(x[:, j]).max() * scale[i]) * 1e-12 for i, a in enumerate(names) for j, b in enumerate(names)}
    run = [a for a, d in zip(names, der) if not d]
    rec.sig(p, der.tolist(), k)

    def cmp(mat, rows, msg, extra=0.):
        rec.eq(np.shape(mat), (len(rows),) * 2, msg + ': shape')
        for i, a in enumerate(rows):
            for j, b in enumerate(rows):
                rec.near(mat[i, j], ref[(a, b)], msg + ': pair', rtol=extra, atol=tol[(a, b)], pair=(a, b))

    C = s.getCovMat()
    rec.eq(C.paramNames, run, 'covariance matrix of the non-derived parameters')
    cmp(C.matrix, run, 'getCovMat')
    cmp(s.getCov(), names, 'getCov')
    sub = [int(v) for v in rng.permutation(p)[:int(rng.integers(1, p + 1))]]
    cmp(s.getCov(pars=sub), [names[i] for i in sub], 'getCov of a list')
    cmp(s.cov([names[i] for i in sub]), [names[i] for i in sub], 'cov of names')
    q = int(rng.integers(1, p + 1))
    cmp(s.getCov(q), names[:q], 'getCov of the first')
    R = s.getCorrelationMatrix()
    for i in range(p):
        for j in range(p):
            rec.near(R[i, j], ref[(names[i], names[j])] / scale[i] / scale[j], 'correlation', rtol=0, atol=1e-7)
    # most correlated pairs of the (leading, non-derived) parameters
    if not any(a and not b for a, b in zip(der[:-1], der[1:])):
        for np_ in (None, int(rng.integers(2, p + 1)) if p > 1 else None):
            m = np_ or len(run)
            rr = sorted(((abs(ref[(names[i], names[j])] / scale[i] / scale[j]), names[i], names[j]) for i in range(m) for j in range(i + 1, m)), reverse=True)
            if all(a[0] - b[0] > 1e-5 for a, b in zip(rr[:-1], rr[1:])):
                want = int(rng.integers(1, 9))
                rec.eq([tuple(v) for v in s.getCorrelatedVariable2DPlots(want, np_)], [v[1:] for v in rr[:want]], 'most correlated pairs of parameters', nparam=np_)
                rec.ev('correlated_pairs', len(rr))
    # using the CovMat does not change what the samples report
    C.rescaleParameter(run[0], 7.)
    if len(run) > 1:
        C.rescaleParameter(run[-1], -2.)
    C.correlation()
    cmp(s.getCov(), names, 'getCov after rescaling a CovMat')
    cmp(s.getCovMat().matrix, run, 'getCovMat after rescaling another')
    fn = os.path.join(rec.tmp, 'a.covmat')
    s.writeCovMatrix(fn)
    L = CovMat(fn)
    rec.eq(L.paramNames, run, 'names of written covmat')
    cmp(L.matrix, run, 'written covmat', extra=6e-8)
    fn = os.path.join(rec.tmp, 'a.corr')
    s.writeCorrelationMatrix(fn)
    rows = np.array([[float(v) for v in l.split()] for l in open(fn) if l.strip()])
    rec.near(rows, R, 'written correlations', rtol=6e-8, atol=1e-12)
    # weights changed, matrix follows
    if n > 20:
        add = rng.uniform(0, 2, n)
        s.reweightAddingLogLikes(add)
        nw = ww * np.exp(-add)
        C = s.getCovMat()
        for i, a in enumerate(run):
            for j, b in enumerate(run):
                rec.near(C.matrix[i, j], gen.ref_cov(x[:, names.index(a)], x[:, names.index(b)], nw), 'new weights', rtol=1e-8, atol=10 * tol[(a, b)])


def scripts(rng, rec):
    """covcomb and covscale run as the user runs them, in a scratch directory."""
    from getdist.covmat import CovMat
    indir = os.path.join(rec.tmp, 'in')
    os.makedirs(indir)
    ms, fns = [], []
    for k in range(int(rng.integers(2, 5))):
        n = int(rng.integers(1, 7))
        names = [str(v) for v in rng.choice(POOL, n, replace=False)]
        mat = matrix(rng, n)
        fn = os.path.join(indir, 'f%d.covmat' % k)
        with open(fn, 'w') as f:
            f.write('# ' + ' '.join(names) + '\n')
            for r in mat:
                f.write(' '.join('%.17e' % v for v in r) + '\n')
        ms.append(M(names, mat))
        fns.append(fn)
    with open(os.path.join(indir, 'notes.txt'), 'w') as f:
        f.write('not a covmat\n')
    before = core.tree_state(indir)
    env = dict(os.environ, PYTHONPATH=core.EXE)
    out = os.path.join(rec.tmp, 'out.covmat')

    def run(script, *args):
        r = subprocess.run([sys.executable, os.path.join(core.EXE, 'getdist', script)] + list(args), cwd=rec.tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        rec.check(r.returncode == 0, script + ' runs', output=r.stdout[-600:])

    run('covcomb.py', out, *fns)
    m = ms[0]
    for q in ms[1:]:
        m = merged(m, q)
    m.rtol = 6e-8
    compare(rec, CovMat(out), m, 'covcomb')
    od = os.path.join(rec.tmp, 'scaled', 'x')
    allp = sorted(set(sum([q.names for q in ms], [])))
    pars = [str(v) for v in rng.choice(allp, min(len(allp), 2), replace=False)]
    f = [float(v) for v in rng.choice([10., 0.5, -3., 1e-4], len(pars), replace=False)]
    run('covscale.py', indir, od, ':'.join(pars), ':'.join(map(repr, f)))
    rec.eq(sorted(os.listdir(od)), sorted(os.path.basename(q) for q in fns), 'all and only the covariance matrices written')
    rec.eq(core.tree_state(indir), before, 'inputs unchanged')
    for q, fn in zip(ms, fns):
        q = q.copy()
        q.rtol = 6e-8
        for par, fac in zip(pars, f):
            for (a, b) in list(q.d):
                q.d[(a, b)] *= (fac if a == par else 1.) * (fac if b == par else 1.)
        compare(rec, CovMat(os.path.join(od, os.path.basename(fn))), q, 'covscale')
    rec.sig(len(fns), len(pars), [len(q.names) for q in ms])


GROUPS = {'ops': (ops, 250, 6000), 'samples': (samples, 150, 3000), 'scripts': (scripts, 8, 80)}
QUICK_BUDGET = 100
THOROUGH_BUDGET = 500
