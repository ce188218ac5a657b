import os
import sys

import numpy as np

from .. import core
from .c30 import cls_array, lib as cmb, quiet, theory_spectra

RULE = 'a case is a generated CamSpec data set (spectra, multipole ranges, covariance, foreground templates) with a choice of spectra and multipoles, loaded with and ' \
       'without its cache, and several theory spectra and nuisance parameters; each value is compared with a model that keeps the data in a dictionary by ' \
       '(spectrum, multipole); distinct = (spectra present, used, form of the range, covariance format)'
ASSUMPTIONS = ['the spectra are listed in the order of the CamSpec files (100, 143, 217, 143x217, TE, EE) and start at multipole 0', 'templates reach multipole 3000',
               'differences of two spectra are taken over contiguous multipole ranges', 'weights of the spectra are asked for when all four are used',
               'the cached inverse covariance is kept in single precision']

sys.path.insert(0, core.EXE)
NAMES = ['100x100', '143x143', '217x217', '143x217', 'TE', 'EE']
PIVOT = 3000


def lib():
    cmb()
    sys.path.insert(0, os.path.join(core.EXE, 'planck'))
    import CMB_CamSpec
    return CMB_CamSpec


def parse_range(text):
    out = set()
    for t in text.split():
        a, b = (t.split('-') + [t.split('-')[0]])[:2]
        out |= set(range(int(a), int(b) + 1))
    return out


class Data:
    def __init__(self, rng, d, contiguous=False, full=False):
        self.dir = d
        os.makedirs(d)
        self.lmax = int(rng.integers(14, 40))
        self.ranges = []
        for i in range(6):
            if not full and rng.random() < 0.15:
                self.ranges.append((0, 0))
            else:
                a = int(rng.integers(2, 9))
                self.ranges.append((a, int(rng.integers(a + 3, self.lmax + 1))))
        if not any(b for a, b in self.ranges):
            self.ranges[0] = (2, self.lmax)
        self.keys = [(i, L) for i, (a, b) in enumerate(self.ranges) if b for L in range(a, b + 1)]
        rows = self.lmax + 1 + int(rng.integers(0, 4))
        self.cl = np.exp(rng.normal(size=(rows, 6)) * 0.2) * np.array([5, 4, 6, 5, 1, 2.])
        self.write_cov(rng, 'cov_64.bin' if rng.random() < 0.5 else 'cov.bin')
        np.savetxt(os.path.join(d, 'hat.txt'), self.cl, fmt='%.16e')
        with open(os.path.join(d, 'ranges.txt'), 'w') as f:
            for n, (a, b) in zip(NAMES, self.ranges):
                f.write('%s %d %d\n' % (n, a, b))
            if rng.random() < 0.4:
                f.write('\n  \n')
        self.s = {'cl_hat_file': 'hat.txt', 'data_ranges': 'ranges.txt', 'covmat_cl': ' '.join(NAMES), 'covmat_fiducial': self.covname}
        self.temp = {}
        L = np.arange(PIVOT + 1.)
        for t in ['sz143', 'ksz', 'tszxcib', 'cib217', 'dust100', 'dust143', 'dust217', 'dust143x217']:
            n = PIVOT + 1 if not t.startswith('dust') else self.lmax + 1 + int(rng.integers(0, 9))
            v = np.exp(0.3 * rng.normal(size=n)) * (1 + L[:n] / 900) ** rng.normal()
            v[:2] = 0
            fn = t + '.txt'
            np.savetxt(os.path.join(d, fn), np.array([L[2:n], v[2:]]).T, fmt=['%d', '%.16e'])
            self.s[t + 'file'] = fn
            self.temp[t] = v if t.startswith('dust') else v / v[PIVOT]
        self.file = os.path.join(d, 'camspec.dataset')
        with open(self.file, 'w') as f:
            for k in rng.permutation(list(self.s)):
                f.write('%s = %s\n' % (k, self.s[k]))
        self.used(None, None)

    def write_cov(self, rng, name):
        n = len(self.keys)
        A = rng.normal(size=(n, n + 3))
        sc = np.exp(0.2 * rng.normal(size=n))
        C = (A.dot(A.T) / (n + 3) + np.eye(n)) * np.outer(sc, sc) * 0.1
        C = C.astype(np.float64 if '64.bin' in name else np.float32)
        C = (C + C.T) / 2
        C.tofile(os.path.join(self.dir, name))
        self.covname = name
        self.cov = C.astype(float)

    def used(self, use_cl, use_range):
        self.keep = []
        for k, (i, L) in enumerate(self.keys):
            if use_cl is not None and NAMES[i] not in use_cl:
                continue
            r = use_range.get(NAMES[i]) if isinstance(use_range, dict) else use_range
            if r is not None and L not in r:
                continue
            self.keep.append(k)
        self.sel = [self.keys[k] for k in self.keep]
        self.vec = np.array([self.cl[L, i] for i, L in self.sel])
        self.C = self.cov[np.ix_(self.keep, self.keep)]

    def fg(self, i, L, p):
        t = {k: v[L] if L < len(v) else 0. for k, v in self.temp.items()}
        x = np.log(L / float(PIVOT))
        cib = t['cib217'] * np.exp(p['ncib'] * x + 0.5 * p['cibrun'] * x * x)
        a217 = 1.33 * p['acib217']
        a143 = 1.134 * p['acib143'] if p.get('acib143', -1) >= 0 else 0.094 * p['acib217'] * 1.33
        sz = 0.95 * p['asz143']
        ps = [p['aps100'], p['aps143'], p['aps217'], p['psr'] * (p['aps143'] * p['aps217']) ** 0.5][i] * L * (L + 1) / 9e6
        f = p['aksz'] * t['ksz'] + ps + [p['dust100'] * t['dust100'], p['dust143'] * t['dust143'], p['dust217'] * t['dust217'],
                                         p['dust143x217'] * t['dust143x217']][i]
        if i == 0:
            return f + 2.022 * p['asz143'] * t['sz143']
        if i == 1:
            return f + a143 * cib + sz * t['sz143'] - 2 * p['xi'] * (a143 * sz) ** 0.5 * t['tszxcib']
        if i == 2:
            return f + a217 * cib
        return f + p['cibr'] * (a143 * a217) ** 0.5 * cib - p['xi'] * (a217 * sz) ** 0.5 * t['tszxcib']

    def cal(self, i, p):
        c = [p.get('cal0', 1), 1, p.get('cal2', 1), p.get('cal2', 1) ** 0.5, p.get('calTE', 1), p.get('calEE', 1)][i]
        return c * p.get('calPlanck', 1) ** 2

    def chisq(self, sp, p):
        r = []
        for i, L in self.sel:
            th = sp['T', 'T'][L] + self.fg(i, L, p) if i < 4 else sp['T', 'E'][L] if i == 4 else sp['E', 'E'][L]
            r.append(self.cl[L, i] - th / self.cal(i, p))
        r = np.array(r)
        return r.dot(np.linalg.solve(self.C, r))


def nuisance(rng):
    p = {k: float(rng.uniform(0.1, 3)) for k in ['aps100', 'aps143', 'aps217', 'dust100', 'dust143', 'dust217', 'dust143x217', 'acib217', 'asz143', 'aksz', 'ncib']}
    p['psr'], p['xi'], p['cibr'] = [float(v) for v in rng.uniform(0, 1, 3)]
    p['cibrun'] = float(rng.normal() * 0.3)
    if rng.random() < 0.5:
        p['acib143'] = float(rng.uniform(0, 2)) if rng.random() < 0.7 else -1.
    for k in ['cal0', 'cal2', 'calTE', 'calEE', 'calPlanck']:
        if rng.random() < 0.6:
            p[k] = float(np.exp(0.05 * rng.normal()))
    p['unrelated'] = 4.
    return p


def choose(rng, D):
    """(settings, spectra, multipoles)"""
    over, use, rg = {}, None, None
    if rng.random() < 0.6:
        use = [str(v) for v in rng.choice(NAMES, int(rng.integers(1, 7)), replace=False)]
        over['use_cl'] = ' '.join(use) if rng.random() < 0.7 else list(use)

    def text():
        t = []
        for _ in range(int(rng.integers(1, 4))):
            a = int(rng.integers(1, D.lmax))
            t.append('%d' % a if rng.random() < 0.3 else '%d-%d' % (a, int(rng.integers(a, D.lmax + 5))))
        return ' '.join(t)

    k = rng.integers(0, 5)
    form = 'none'
    if k == 0:
        over['use_range'] = text()
        rg = parse_range(over['use_range'])
        form = 'text'
    elif k == 1:
        t = {n: text() for n in NAMES if rng.random() < 0.5}
        over['use_range'] = dict(t)
        rg = {n: parse_range(v) for n, v in t.items()}
        form = 'dictionary'
    elif k == 2:
        over['use_range'] = np.array(sorted(parse_range(text())))
        rg = set(over['use_range'].tolist())
        form = 'array'
    return over, use, rg, form


def load(lb, D, over):
    over = {k: dict(v) if isinstance(v, dict) else v for k, v in over.items()}
    with quiet():
        return lb.CamSpec_likelihood(D.file, over, silent=bool(len(over) % 2))


def calls(rng, rec):
    lb = lib()
    D = Data(rng, os.path.join(rec.tmp, 'a'))
    ths = []
    for i in range(2):
        sp = theory_spectra(rng, list('TEBP'), D.lmax + 3)
        _, c, _ = cls_array(cmb(), rec, rng, sp, list('TEBP'), int(rng.integers(0, 3)), D.lmax + 3, 'th%d' % i)
        ths.append((sp, c))
    likes = []
    lb.use_cache = bool(rng.random() < 0.7)
    rec.set(ranges=D.ranges, cache=lb.use_cache)
    for _ in range(3):
        over, use, rg, form = choose(rng, D)
        D.used(use, rg)
        if not D.sel:
            continue
        like = load(lb, D, over)
        likes.append((over, use, rg, like))
        rec.eq(len(like.data_vector), len(D.sel), 'number of data points', over=over)
        rec.near(like.data_vector, D.vec, 'data vector', over=over)
        rec.near(like.cov, D.C, 'covariance of the data points in use', rtol=1e-7, over=over)
        rec.sig([b > 0 for a, b in D.ranges], sorted(use) if use else None, form, D.covname)
        rec.ev('data sets loaded')
    for _ in range(5):
        if not likes:
            break
        over, use, rg, like = likes[int(rng.integers(len(likes)))]
        D.used(use, rg)
        sp, c = ths[int(rng.integers(2))]
        p = nuisance(rng)
        q = dict(p)
        exp = D.chisq(sp, p)
        rec.near(float(like.chi_squared(c, q)), exp, 'chi-squared of the CamSpec likelihood', rtol=3e-5, atol=1e-4, over=over, params=p)
        rec.eq(q, p, 'parameters changed by the call')
        if rng.random() < 0.5:
            # again from what the first load left behind
            rec.near(float(load(lb, D, over).chi_squared(c, q)), exp, 'chi-squared when loaded again', rtol=3e-5, atol=1e-4, over=over)
            rec.ev('loaded again')
        if any(i < 4 for i, L in D.sel):
            f = like.get_foregrounds(q)
            for i, L in D.sel:
                if i < 4:
                    rec.near(float(f[i][L]), D.fg(i, L, p), 'foreground spectrum', rtol=1e-9, atol=1e-12, spectrum=NAMES[i], L=L)
        rec.near(like.get_cals(q), [D.cal(i, p) for i in range(6)], 'calibrations', rtol=1e-12)
        rec.ev('calls')
    # new covariance in the same files
    if likes and rng.random() < 0.6:
        D.write_cov(rng, D.covname)
        over, use, rg, _ = likes[0]
        D.used(use, rg)
        p = nuisance(rng)
        sp, c = ths[0]
        rec.near(float(load(lb, D, over).chi_squared(c, p)), D.chisq(sp, p), 'chi-squared after the covariance file has changed', rtol=3e-5, atol=1e-4, over=over)
        rec.ev('covariance replaced')


def coadd(rng, rec):
    lb = lib()
    D = Data(rng, os.path.join(rec.tmp, 'a'), full=True)
    lb.use_cache = False
    plain = rng.random() < 0.4
    for _ in range(20):
        over, use, rg, form = choose(rng, D)
        if plain:
            over.pop('use_range', None)
            rg = None
        D.used(use, rg)
        tt = [k for k, (i, L) in enumerate(D.sel) if i < 4]
        Ls = sorted({D.sel[k][1] for k in tt})
        if tt and len(Ls) == Ls[-1] - Ls[0] + 1:
            break
    else:
        raise core.Skip
    like = load(lb, D, over)
    p = nuisance(rng)
    W = np.linalg.inv(D.C)[np.ix_(tt, tt)]
    A = np.zeros((len(tt), len(Ls)))
    for r, k in enumerate(tt):
        i, L = D.sel[k]
        A[r, L - Ls[0]] = 1 / D.cal(i, p)
    d = np.array([D.vec[k] - D.fg(D.sel[k][0], D.sel[k][1], p) / D.cal(D.sel[k][0], p) for k in tt])
    N = np.linalg.inv(A.T.dot(W).dot(A))
    exp = N.dot(A.T.dot(W).dot(d))
    c, cov = like.coadded_TT(dict(p))
    rec.set(over=over, ranges=D.ranges)
    rec.near(c[Ls[0]:Ls[-1] + 1], exp, 'co-added temperature spectrum', rtol=1e-6, atol=1e-7)
    rec.near(cov, N, 'covariance of the co-added spectrum', rtol=1e-6, atol=1e-9)
    rec.check(not np.any(c[:Ls[0]]) and not np.any(c[Ls[-1] + 1:]), 'co-added spectrum outside the multipoles in use')
    rec.near(like.coadded_TT(dict(p), want_cov=False)[Ls[0]:Ls[-1] + 1], exp, 'co-added spectrum without covariance', rtol=1e-6, atol=1e-7)
    have = sorted({D.sel[k][0] for k in tt})
    if len(have) == 4:
        tot = 0
        for i, (ells, w) in enumerate(like.get_weights(dict(p))):
            v = np.array([1. if D.sel[k][0] == i else 0. for k in tt])
            e = N.dot(A.T.dot(W).dot(v))
            mine = [L for j, L in D.sel if j == i]
            rec.eq([int(x) for x in ells], mine, 'multipoles of the weights')
            rec.near(w, e[np.array(mine) - Ls[0]], 'weights of the spectrum', rtol=1e-6, atol=1e-7, spectrum=NAMES[i])
            tot += e
        rec.ev('weights')
    if rg is None and len(have) > 1:
        i, j = [int(v) for v in rng.choice(have, 2, replace=False)]
        a, b = max(D.ranges[i][0], D.ranges[j][0]), min(D.ranges[i][1], D.ranges[j][1])
        if b >= a:
            ls, df, pc = like.diff(NAMES[i], NAMES[j], dict(p))
            rec.eq([int(x) for x in ls], list(range(a, b + 1)), 'multipoles of the difference')
            B = np.zeros((b - a + 1, len(D.sel)))
            off = np.zeros(b - a + 1)
            for k, (s, L) in enumerate(D.sel):
                if s in (i, j) and a <= L <= b:
                    sg = 1 if s == i else -1
                    B[L - a, k] = sg * D.cal(s, p)
                    off[L - a] -= sg * D.fg(s, L, p)
            rec.near(df, B.dot(D.vec) + off, 'difference of two spectra', rtol=1e-8, atol=1e-9, pair=(NAMES[i], NAMES[j]))
            rec.near(pc, B.dot(D.C).dot(B.T), 'covariance of the difference', rtol=1e-7, atol=1e-9)
            rec.ev('differences')
    rec.sig('coadd', have, form, sorted({i for i, L in D.sel}))
    rec.ev('co-added spectra')


GROUPS = {'calls': (calls, 300, 8000), 'coadd': (coadd, 500, 12000)}
QUICK_BUDGET = 60
THOROUGH_BUDGET = 300
