import contextlib
import io
import os
import sys

import numpy as np
import scipy.linalg

from .. import core

RULE = 'a case is a generated (or shipped) supernova data set with covariance files and a sequence of likelihood calls at several nuisance values and ' \
       'distances; each value is compared with a generalised least squares reference; twins with supernovae or columns in another order, shifted magnitudes ' \
       'or scaled distances must agree; distinct = (size, covariances, options)'
ASSUMPTIONS = ['the determinant of the data covariance is not part of the likelihood (as in CosmoMC)', 'covariance matrices with their diagonal terms are positive definite',
               'file names in the data set description do not contain the directory names data/ or Pantheon/ that the loader strips, other than as the prefix it strips']

sys.path.insert(0, core.EXE)
COVS = ['mag', 'stretch', 'colour', 'mag_stretch', 'mag_colour', 'stretch_colour']


def lib():
    from planck import SN
    return SN


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


class Data:
    pass


def total_cov(d, a, b):
    C = np.zeros((d.n, d.n))
    f = {'mag': 1., 'stretch': a * a, 'colour': b * b, 'mag_stretch': 2 * a, 'mag_colour': -2 * b, 'stretch_colour': -2 * a * b}
    for k, m in d.covs.items():
        C += f[k] * m
    z = d.col['zcmb']
    diag = d.col['dmb'] ** 2 + (5 / np.log(10) * d.pecz * (1 + z) / (z * (1 + z / 2))) ** 2
    if d.vary:
        diag = diag + (a * d.col['dx1']) ** 2 + (b * d.col['dcolor']) ** 2 + 2 * a * d.col['cov_m_s'] - 2 * b * d.col['cov_m_c'] - 2 * a * b * d.col['cov_s_c']
    return C + np.diag(diag)


def reference(d, DA, a, b):
    """minus log likelihood marginalized over magnitude(s)"""
    C = total_cov(d, a, b)
    try:
        R = scipy.linalg.cholesky(C, lower=True)
    except np.linalg.LinAlgError:
        raise core.Skip('covariance not positive definite')
    if np.linalg.cond(C) > 1e9:
        raise core.Skip('covariance nearly singular')
    z = d.col['zcmb']
    y = d.col['mb'] - 5 * np.log10((1 + d.col['zhel']) * (1 + z) * DA)
    if d.vary:
        y = y + a * d.col['x1'] - b * d.col['color']
    T = np.ones((d.n, 1))
    if d.two:
        hi = d.col['3rdvar'] > d.cut
        if hi.any() and not hi.all():
            T = np.array([~hi, hi], dtype=float).T
    Ty, TT = scipy.linalg.solve_triangular(R, y, lower=True), scipy.linalg.solve_triangular(R, T, lower=True)
    m, res, _, _ = np.linalg.lstsq(TT, Ty, rcond=None)
    r = Ty - TT.dot(m)
    F = TT.T.dot(TT)
    return 0.5 * (r.dot(r) + np.linalg.slogdet(F / (2 * np.pi))[1])


def marginal(d, DA, p):
    n = p['marge_steps']
    vals = []
    for i in range(-n, n + 1):
        for j in range(-n, n + 1):
            if i * i + j * j <= n * n:
                vals.append(reference(d, DA, p['alpha_centre'] + i * p['step_width_alpha'], p['beta_centre'] + j * p['step_width_beta']))
    v = np.array(vals)
    return -np.log(np.sum(np.exp(-(v - v.min()))) * p['step_width_alpha'] * p['step_width_beta']) + v.min()


HEAD = 'name zcmb zhel dz mb dmb x1 dx1 color dcolor 3rdvar d3rdvar cov_m_s cov_m_c cov_s_c set'.split()


def generate(rng):
    d = Data()
    d.n = n = int(rng.integers(2, 25))
    d.vary = rng.random() < 0.7
    d.names = ['SN%s%d' % (rng.choice(list('abc')), i) for i in range(n)]
    c = d.col = {}
    c['zcmb'] = np.round(10 ** rng.uniform(-2, 0.2, n), 6)
    c['zhel'] = np.round(c['zcmb'] + 0.001 * rng.normal(size=n), 6)
    c['dz'] = np.zeros(n)
    c['mb'] = np.round(24 + 5 * np.log10(c['zcmb']) + 0.15 * rng.normal(size=n), 6)
    c['dmb'] = np.round(rng.uniform(0.05, 0.2, n), 6)
    c['x1'] = np.round(rng.normal(size=n), 6)
    c['dx1'] = np.round(rng.uniform(0, 0.6, n), 6)
    c['color'] = np.round(0.1 * rng.normal(size=n), 6)
    c['dcolor'] = np.round(rng.uniform(0, 0.05, n), 6)
    c['3rdvar'] = np.round(rng.uniform(7, 12, n), 3)
    if rng.random() < 0.15:
        c['3rdvar'] = np.round(rng.uniform(7, 9.9, n) + (0 if rng.random() < 0.5 else 4), 3)
    if rng.random() < 0.2:
        c['3rdvar'][int(rng.integers(n))] = 10.
    c['d3rdvar'] = np.round(rng.uniform(0, 1, n), 3)
    c['cov_m_s'] = np.round(0.0005 * rng.normal(size=n), 7)
    c['cov_m_c'] = np.round(0.0002 * rng.normal(size=n), 7)
    c['cov_s_c'] = np.round(0.0003 * rng.normal(size=n), 7)
    c['set'] = rng.integers(1, 5, n).astype(float)
    if d.vary:
        k = [x for x in COVS if rng.random() < 0.6]
        if not k or k == ['mag']:
            k = ['mag', 'stretch']
    else:
        k = ['mag']
    # joint positive covariance of (mag, stretch, colour) vectors
    A = rng.normal(size=(3 * n, 3 * n + 3)) * np.repeat([0.05, 0.1, 0.02], n)[:, None] / np.sqrt(3 * n)
    J = A.dot(A.T)
    bl = {'mag': (0, 0), 'stretch': (1, 1), 'colour': (2, 2), 'mag_stretch': (0, 1), 'mag_colour': (0, 2), 'stretch_colour': (1, 2)}
    d.covs = {}
    for x in k:
        i, j = bl[x]
        m = J[i * n:(i + 1) * n, j * n:(j + 1) * n]
        d.covs[x] = np.round((m + m.T) / 2, 9)
    d.pecz = float(rng.choice([0, 0.001, 0.0005])) if rng.random() < 0.7 else None
    d.two = bool(rng.random() < 0.5)
    d.cut = 10. if rng.random() < 0.6 else float(np.round(rng.uniform(8, 11), 1))
    return d


def permuted(d, perm):
    e = Data()
    e.__dict__.update(d.__dict__)
    e.names = [d.names[i] for i in perm]
    e.col = {k: v[perm] for k, v in d.col.items()}
    e.covs = {k: v[np.ix_(perm, perm)] for k, v in d.covs.items()}
    return e


def write(d, path, rng):
    os.makedirs(path)
    head = list(HEAD)
    if not d.two and rng.random() < 0.3:
        head = [h for h in head if h not in ('3rdvar', 'd3rdvar')]
    if rng.random() < 0.3:
        rest = list(rng.permutation(head[1:]))
        head = [str(x) for x in ['name'] + rest] if rng.random() < 0.5 else [str(x) for x in rest + ['name']]
    alias = {'mb': 'mag', 'color': 'colour', 'x1': 'stretch'} if rng.random() < 0.2 else {}
    with open(os.path.join(path, 'lc.txt'), 'w') as f:
        f.write('#' + rng.choice(['', ' ']) + ' '.join(alias.get(h, h) for h in head) + (' extra' if head[-1] != 'name' and rng.random() < 0.2 else '') + '\n')
        for i in range(d.n):
            f.write(' '.join(d.names[i] if h == 'name' else repr(float(d.col[h][i])) for h in head) + '\n')
            if rng.random() < 0.05:
                f.write('\n')
    s = {'name': 'TEST', 'data_file': 'data/lc.txt' if rng.random() < 0.5 else 'lc.txt', 'twoscriptmfit': 'T' if d.two else 'F', 'intrinsicdisp': 0}
    if d.cut != 10 or rng.random() < 0.5:
        s['scriptmcut'] = d.cut
    if d.pecz is not None:
        s['pecz'] = d.pecz
    for k in COVS:
        if k in d.covs:
            s['has_%s_covmat' % k] = 'T'
            s['%s_covmat_file' % k] = 'data/%s.dat' % k
            style = rng.integers(3)
            with open(os.path.join(path, k + '.dat'), 'w') as f:
                if style == 0:
                    f.write('%d\n' % d.n + ''.join('%.9e\n' % x for x in d.covs[k].ravel()))
                elif style == 1:
                    f.write(''.join('%.9e\n' % x for x in d.covs[k].ravel()))
                else:
                    f.write(''.join(' '.join('%.9e' % x for x in r) + '\n' for r in d.covs[k]))
        elif rng.random() < 0.5:
            s['has_%s_covmat' % k] = 'F'
    fn = os.path.join(path, 'sn.dataset')
    with open(fn, 'w') as f:
        for k in rng.permutation(list(s)):
            f.write('%s = %s\n' % (k, s[k]))
    return fn


def close(rec, got, exp, msg, **wit):
    rec.near(float(got), float(exp), msg, rtol=2e-7, atol=2e-6, **wit)


def distances(rng, d):
    z = d.col['zcmb']
    w = rng.uniform(0.2, 0.9)
    return 4000 * z * (1 - 0.5 * w * z / (1 + z)) / (1 + z) ** 2 * np.exp(0.01 * rng.normal(size=d.n))


def calls(rng, rec):
    SN = lib()
    d = generate(rng)
    if d.pecz is None:
        d.pecz = 0.001
        explicit = False
    else:
        explicit = True
    e = Data()
    e.__dict__.update(d.__dict__)
    if not explicit:
        e.pecz = None
    fn = write(e, os.path.join(rec.tmp, 'a'), rng)
    names = ['alpha', 'beta'] if rng.random() < 0.7 else ['alpha_JLA', 'beta_JLA']
    rec.sig((d.n > 8, d.vary, tuple(sorted(d.covs)), d.two, d.pecz))
    kw = {} if names[0] == 'alpha' else {'alpha_beta_names': names}
    with quiet():
        like = SN.SN_likelihood(fn, silent=bool(rng.random() < 0.5), **kw)
    rec.near(like.get_redshifts(), d.col['zcmb'], 'redshifts in file order', rtol=1e-14)
    rec.eq(list(like.names), d.names, 'names in file order')
    pts = []
    for _ in range(3):
        a, b = float(rng.uniform(0.05, 0.25)), float(rng.uniform(2, 4))
        pts.append((a, b))
    pts.append((pts[0][0] * (1 + 3e-6), pts[0][1] * (1 - 4e-6)))
    pts.append((pts[1][0], pts[0][1]))
    DA = [distances(rng, d) for _ in range(2)]
    first = {}
    for t in range(9):
        i, j = int(rng.integers(len(pts))), int(rng.integers(2))
        if t == 0:
            i = 0
        if t == 1:
            i = 3
        a, b = pts[i]
        x = DA[j].copy()
        par = {names[0]: a, names[1]: b, 'other': 1.} if d.vary or rng.random() < 0.5 else {}
        exp = reference(d, DA[j], a, b)
        got = like.loglike(x, par)
        rec.check(np.array_equal(x, DA[j]), 'distances are not changed')
        close(rec, got, exp, 'log likelihood', at=(a, b), covs=sorted(d.covs), two=d.two)
        # the same call gives the same value whatever came before
        if (i, j) in first:
            rec.near(got, first[i, j], 'same value after other calls', rtol=1e-12, atol=1e-10)
        first.setdefault((i, j), got)
        rec.ev('calls')
    a, b = pts[0]
    par = {names[0]: a, names[1]: b}
    base = like.loglike(DA[0], par)
    close(rec, like.loglike(DA[0] * float(np.exp(rng.normal())), par), base, 'scaling all distances does not matter')
    # twins
    perm = rng.permutation(d.n)
    p = permuted(d, perm)
    p.pecz = e.pecz
    p.col = dict(p.col)
    p.col['mb'] = np.round(p.col['mb'] + float(np.round(rng.normal() * 2, 3)), 6)
    with quiet():
        tw = SN.SN_likelihood(write(p, os.path.join(rec.tmp, 'b'), rng), **kw)
    close(rec, tw.loglike(DA[0][perm], par), base, 'order of supernovae and a common shift of magnitudes do not matter')
    # settings changed when loading
    if d.pecz is not None:
        d.pecz = 0.002
        exp = reference(d, DA[1], a, b)
        with quiet():
            o = SN.SN_likelihood(fn, dataset_params={'pecz': '0.002'}, silent=True, **kw)
        close(rec, o.loglike(DA[1], par), exp, 'setting overridden when loading')
    rec.ev('twins')


def marge(rng, rec):
    SN = lib()
    d = generate(rng)
    if d.pecz is None:
        d.pecz = 0.
    fn = write(d, os.path.join(rec.tmp, 'a'), rng)
    par = {}
    full = {'marge_steps': 7, 'step_width_alpha': 0.003, 'step_width_beta': 0.04, 'alpha_centre': 0.14, 'beta_centre': 3.123}
    if rng.random() < 0.85:
        par['marge_steps'] = int(rng.integers(0, 5))
    for k, lo, hi in (('step_width_alpha', 1e-6, 0.02), ('step_width_beta', 1e-5, 0.2), ('alpha_centre', 0.1, 0.2), ('beta_centre', 2, 4)):
        if rng.random() < 0.5:
            par[k] = float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    full.update(par)
    pre = bool(rng.random() < 0.5)
    rec.sig((d.vary, d.two, full['marge_steps'], pre))
    keep = dict(SN._marge_params)
    kw = {'marginalize_params': par} if par else {}
    with quiet():
        like = SN.SN_likelihood(fn, marginalize=True, precompute_covmats=pre, alpha_beta_names=None if rng.random() < 0.3 else ['alpha', 'beta'], **kw)
    DA = [distances(rng, d) for _ in range(2)]
    for j in (0, 1, 0):
        x = DA[j].copy()
        exp = marginal(d, DA[j], full)
        close(rec, like.loglike(x), exp, 'log likelihood marginalized over the grid', params=full, pre=pre)
        rec.check(np.array_equal(x, DA[j]), 'distances are not changed')
        rec.ev('marginalized')
    rec.eq(dict(SN._marge_params), keep, 'default grid unchanged')
    # other instances are independent of it
    with quiet():
        l2 = SN.SN_likelihood(fn)
    exp = reference(d, DA[0], 0.13, 3.)
    close(rec, l2.loglike(DA[0], {'alpha': 0.13, 'beta': 3.}), exp, 'log likelihood of another instance')


def shipped(rng, rec):
    """light curves of the repository, with its covariances for SNLS"""
    SN = lib()
    D = os.path.join(core.REPO, 'data')
    fn = os.path.join(D, 'snls_3rdyear.dataset')
    rows = [l.split() for l in open(os.path.join(D, 'snls_3rdyear_lcparams.txt')) if l.strip()]
    head = [x for x in (rows[0][0][1:],) if x] + rows[0][1:]
    rows = [r for r in rows if '#' not in ' '.join(r)]
    head = HEAD  # the file uses other names of the same columns in the same order
    d = Data()
    d.n, d.vary, d.two, d.cut, d.pecz = len(rows), True, True, 10., 0.0005
    d.col = {h: np.array([float(r[i]) for r in rows]) for i, h in enumerate(head) if h != 'name'}
    f = {'mag': 'v0', 'stretch': 'va', 'colour': 'vb', 'mag_stretch': 'v0a', 'mag_colour': 'v0b', 'stretch_colour': 'vab'}
    d.covs = {}
    flat = os.path.join(rec.tmp, 'f')
    os.makedirs(flat)
    over = {'intrinsicdisp': '0', 'intrinsicdisp0': '0'}
    use = [k for k in COVS if rng.random() < 0.8] + ['stretch']
    s = open(fn).read()
    for k in COVS:
        v = np.array([float(x) for x in open(os.path.join(D, 'snls3_%s_covmatrix.dat' % f[k])).read().split()])
        if len(v) == d.n ** 2 + 1:
            v = v[1:]
        if k in use:
            d.covs[k] = v.reshape(d.n, d.n)
            np.savetxt(os.path.join(flat, 'snls3_%s_covmatrix.dat' % f[k]), d.covs[k], fmt='%.12e')
        else:
            over['has_%s_covmat' % k] = 'F'
    open(os.path.join(flat, 'snls_3rdyear_lcparams.txt'), 'w').write('#' + ' '.join(head) + '\n' + ''.join(' '.join(r) + '\n' for r in rows))
    open(os.path.join(flat, 'snls_3rdyear.dataset'), 'w').write(s)
    with quiet():
        like = SN.SN_likelihood(os.path.join(flat, 'snls_3rdyear.dataset'), dataset_params=over)
    z = d.col['zcmb']
    for _ in range(3):
        a, b = float(rng.uniform(0.1, 0.2)), float(rng.uniform(2.5, 3.5))
        DA = distances(rng, d)
        exp = reference(d, DA, a, b)
        close(rec, like.loglike(DA, {'alpha': a, 'beta': b}), exp, 'log likelihood of SNLS data', at=(a, b), covs=sorted(d.covs))
        rec.ev('shipped')
    rec.sig(tuple(sorted(d.covs)))


GROUPS = {
    'calls': (calls, 1200, 50000),
    'marge': (marge, 300, 12000),
    'shipped': (shipped, 4, 40),
}
QUICK_BUDGET = 60
THOROUGH_BUDGET = 300
