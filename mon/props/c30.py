import contextlib
import io
import os
import sys

import numpy as np
import scipy.linalg

from .. import core

RULE = 'a case is a generated (or shipped) data set description with its bandpower, noise, fiducial, window and covariance files, several theory spectra and a ' \
       'sequence of likelihood calls; every value is compared with an independent implementation that reads the same files into dictionaries of ' \
       'unordered map pairs; layout twins (columns, maps, spectra, pair names in another order) must agree; distinct = (approximation, maps, bins, options)'
ASSUMPTIONS = ['theory plus noise and data matrices are positive definite where the approximation needs it (generated so)',
               'spectra that windows take as input involve required maps only; each spectrum is listed once per file',
               'unbinned data sets use the exact likelihood, binned ones the Gaussian or Hamimeche-Lewis one (the others are not implemented)']

sys.path.insert(0, core.EXE)


def lib():
    import matplotlib
    matplotlib.use('Agg')
    import CMBlikes
    return CMBlikes


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


# ---------------------------------------------------------------- reference

def header(fname):
    last = None
    for line in open(fname):
        line = line.strip()
        if line and line[0] != '#':
            break
        if line:
            last = line[1:].split()
    return last


def table(fname):
    return np.atleast_2d(np.array([[float(x) for x in line.split()] for line in open(fname) if line.strip() and line.strip()[0] != '#']))


class Model:
    """reads the same files, keeps spectra in dictionaries by unordered pair of map names"""

    def __init__(self, fname, over=None, fields='TEBP', sep='x'):
        self.fields, self.sep = list(fields), sep
        s = {}
        for line in open(fname):
            line = line.split('#')[0].strip()
            if '=' in line:
                a, b = line.split('=', 1)
                s[a.strip()] = b.strip()
        s.update({k: str(v) for k, v in (over or {}).items()})
        self.s, self.dir = s, os.path.dirname(fname)
        names = s.get('map_names', '').split()
        self.named = bool(names)
        self.field = dict(zip(names, s['map_fields'].split())) if names else {f: f for f in self.fields}
        self.names = names or self.fields
        use = s.get('fields_use', '').split()
        self.used = [m for m in self.names if not use or self.field[m] in use]
        if s.get('maps_use'):
            self.used = [m for m in self.names if m in s['maps_use'].split()]
        req = s.get('maps_required' if names else 'fields_required', '').split()
        self.required = [m for m in self.names if m in self.used or m in req]
        self.lmin, self.lmax = int(s['cl_lmin']), int(s['cl_lmax'])
        self.binned = s.get('binned', 'T')[0] in 'Tt1'
        self.approx = s.get('like_approx', 'gaussian')
        if self.binned:
            self.bins = list(range(int(s.get('use_min', 1)), int(s.get('use_max', s['nbins'])) + 1))
        else:
            self.bins = list(range(int(s.get('use_min', self.lmin)), int(s.get('use_max', self.lmax)) + 1))
        self.pairs = [(a, b) for i, a in enumerate(self.used) for b in self.used[:i + 1]]
        self.hat = self.spectra('cl_hat')
        self.noise = {}
        inc = s.get('cl_hat_includes_noise', 'F')[0] in 'Tt1'
        if self.approx != 'gaussian' or inc:
            noise = self.spectra('cl_noise')
            if self.approx == 'gaussian':
                self.hat = {k: {b: v[b] - noise.get(k, {}).get(b, 0) for b in v} for k, v in self.fill(self.hat).items()}
            else:
                self.noise = noise
                if not inc:
                    self.hat = {k: {b: v[b] + noise.get(k, {}).get(b, 0) for b in v} for k, v in self.fill(self.hat).items()}
        if self.approx == 'HL':
            self.fid = self.fill(self.spectra('cl_fiducial'))
            if s.get('cl_fiducial_includes_noise', 'F')[0] not in 'Tt1':
                self.fid = {k: {b: v[b] + self.noise.get(k, {}).get(b, 0) for b in v} for k, v in self.fid.items()}
        if self.binned:
            self.win = self.windows('bin_window')
            self.corr = None
            if 'linear_correction_fiducial_file' in s:
                self.corr = self.windows('linear_correction_bin_window')
                self.corrfid = self.spectra('linear_correction_fiducial')
        if self.approx != 'exact':
            cl = [self.pair(x) for x in s['covmat_cl'].split()]
            full = table(os.path.join(self.dir, s['covmat_fiducial']))
            n = len(cl)
            keep = [(b, i) for b in self.bins for i in range(n) if self.used_pair(cl[i])]
            ix = [(b - 1) * n + i for b, i in keep]
            self.cov = full.reshape(full.shape)[np.ix_(ix, ix)] * float(s.get('covmat_scale', 1))
            self.covkeys = [(cl[i], b) for b, i in keep]

    def pair(self, text):
        if len(text) == 2 and not self.named:
            a, b = text
        else:
            i = text.index(self.sep)
            a, b = text[:i], text[i + len(self.sep):]
        return frozenset((a, b))

    def used_pair(self, p):
        return all(m in self.used for m in p)

    def fill(self, d):
        return {frozenset(p): {b: d.get(frozenset(p), {}).get(b, 0.) for b in self.bins} for p in self.pairs}

    def spectra(self, stem):
        f = os.path.join(self.dir, self.s[stem + '_file'])
        cols = ['L'] + self.s[stem + '_order'].split() if self.s.get(stem + '_order') else header(f)
        dat = table(f)
        res = {}
        for i, c in enumerate(cols):
            if i == 0:
                continue
            try:
                p = self.pair(c)
            except ValueError:
                continue
            if self.used_pair(p):
                res[p] = {int(r[0]): r[i] for r in dat}
        return res

    def windows(self, stem):
        ins = [self.pair(x) for x in self.s[stem + '_in_order'].split()]
        outs = [self.pair(x) for x in self.s.get(stem + '_out_order', self.s[stem + '_in_order']).split()]
        res = []
        for b in self.bins:
            w = table(os.path.join(self.dir, self.s[stem + '_files'] % b))
            for i, (p, q) in enumerate(zip(ins, outs)):
                if self.used_pair(q):
                    res.append((b, p, q, {int(r[0]): r[i + 1] for r in w if self.lmin <= r[0] <= self.lmax}))
        return res

    def theory(self, cls, params, foreground=None):
        """{pair of maps: spectrum over lmin..lmax}; cls is a function (field, field) -> array from 0 or None"""
        ells = np.arange(self.lmin, self.lmax + 1)
        res = {}
        cal = params.get(self.calname()) if self.calname() else None
        ab = float(self.s.get('aberration_coeff', 0))
        for i, a in enumerate(self.required):
            for b in self.required[:i + 1]:
                c = cls(self.field[a], self.field[b])
                c = np.zeros(len(ells)) if c is None else np.array(c[self.lmin:self.lmax + 1], dtype=float)
                cmb = all(self.fields.index(self.field[m]) <= 2 for m in (a, b))
                if ab and cmb:
                    x = c / (ells * (ells + 1.))
                    d = np.empty(len(x))
                    for k in range(len(x)):
                        kk = min(max(k, 1), len(x) - 2)
                        d[k] = (x[kk + 1] - x[kk - 1]) / 2
                    c = c + ab * ells * ells * (ells + 1.) * d
                if foreground:
                    c = c + foreground(a, b, ells, params)
                if cal is not None and cmb:
                    c = c / cal ** 2
                res[frozenset((a, b))] = c
        return res

    def calname(self):
        s = self.s
        if s.get('nuisance_params'):
            return s.get('calibration_paramname')
        if s.get('calibration_param'):
            return open(os.path.join(self.dir, s['calibration_param'])).read().split()[0]

    def bin(self, th):
        res = self.fill({})
        for wins, sign in ((self.win, 1), (self.corr or [], 1)):
            for b, p, q, w in wins:
                x = th.get(p)
                if x is not None:
                    res[q][b] += sum(w[L] * x[L - self.lmin] for L in w)
        if self.corr:
            for q, v in res.items():
                for b in v:
                    v[b] -= self.corrfid.get(q, {}).get(b, 0)
        return res

    def mat(self, d, b):
        n = len(self.used)
        M = np.zeros((n, n))
        for i, a in enumerate(self.used):
            for j, c in enumerate(self.used):
                M[i, j] = d.get(frozenset((a, c)), {}).get(b, 0.)
        return M

    def chisq(self, cls, params=None, foreground=None, positive=True):
        params = params or {}
        th = self.theory(cls, params, foreground)
        band = self.bin(th) if self.binned else {p: {b: x[b - self.lmin] for b in self.bins} for p, x in th.items()}
        chi2 = 0.
        X = {}
        for b in self.bins:
            C = self.mat(band, b) + (self.mat(self.noise, b) if self.noise else 0)
            H = self.mat(self.hat, b)
            if self.approx == 'gaussian':
                D = C - H
            else:
                ev, hv = np.linalg.eigvalsh(C), np.linalg.eigvalsh(H)
                if ev[0] <= ev[-1] * 1e-7 or hv[0] <= hv[-1] * 1e-7:
                    raise core.Skip('matrices not positive definite')
                g = scipy.linalg.eigh(H, C)
                if self.approx == 'exact':
                    chi2 += (2 * b + 1) * float(self.s['fullsky_exact_fksy']) * np.sum(g[0] - 1 - np.log(g[0]))
                    continue
                root = np.real(scipy.linalg.sqrtm(C))
                ir = np.linalg.inv(root)
                w, V = np.linalg.eigh(ir.dot(H).dot(ir))
                gw = np.where(w >= 1, 1, -1) * np.sqrt(2 * np.maximum(w - np.log(w) - 1, 0))
                F = self.mat(self.fid, b)
                lam, E = np.linalg.eigh(F)
                if lam[0] <= 0:
                    raise core.Skip('fiducial not positive definite')
                fr = (E * np.sqrt(lam)).dot(E.T)
                D = fr.dot(V * gw).dot(V.T).dot(fr)
            for i, a in enumerate(self.used):
                for j, c in enumerate(self.used):
                    X[frozenset((a, c)), b] = D[i, j]
        if self.approx != 'exact':
            v = np.array([X[k] for k in self.covkeys])
            chi2 = v.dot(np.linalg.solve(self.cov, v))
        if self.calname() and float(self.s.get('log_calibration_prior', -1)) > 0:
            chi2 += (np.log(params[self.calname()]) / float(self.s['log_calibration_prior'])) ** 2
        return float(chi2), band


# ---------------------------------------------------------------- generation

def theory_spectra(rng, fields, lmax, lens=1., zero=()):
    """positive definite spectra per L: {(f,g): array from L=0}"""
    n = len(fields)
    A = rng.normal(size=(n, n)) * 0.5 + np.eye(n) * 2
    amp = np.exp(rng.uniform(-1.5, 1.5, n))
    L = np.arange(lmax + 1.)
    shape = 1 + 0.5 * np.sin(L / rng.uniform(2, 9) + rng.uniform(0, 6))
    shape2 = np.exp(-L / rng.uniform(10, 60))
    res = {}
    C = A.dot(A.T)
    for i, f in enumerate(fields):
        for j, g in enumerate(fields):
            c = C[i, j] * amp[i] * amp[j] * shape * shape2 ** (0.5 * 1)
            if i == j:
                c = c * 1.3
            c[0:2] = 0
            res[f, g] = c
    return res


def write_table(fname, cols, rows, comment=True, rng=None):
    with open(fname, 'w') as f:
        if comment:
            if rng is not None and rng.random() < 0.3:
                f.write('# produced by a test\n\n')
            f.write('#' + rng.choice(['', ' ', '   ']) + ' '.join(cols) + '\n')
        for r in rows:
            f.write(' '.join(['%d' % r[0]] + ['%.15e' % x for x in r[1:]]) + '\n')


def cls_array(lib, rec, rng, sp, fields, lmin, lmax, name, drop=()):
    """write spectra to a file and load it"""
    pairs = [(f, g) for i, f in enumerate(fields) for g in fields[:i + 1] if frozenset((f, g)) not in drop]
    rng.shuffle(pairs)
    pairs = [tuple(p) if rng.random() < 0.5 else tuple(p)[::-1] for p in pairs]
    fn = os.path.join(rec.tmp, name)
    cols = ['L'] + [f + g for f, g in pairs]
    write_table(fn, cols, [[L] + [sp[f, g][L] for f, g in pairs] for L in range(lmin, lmax + 1)], rng=rng)
    with quiet():
        c = lib.ClsArray(fn, field_names=list(fields))
    return fn, c, pairs


class Gen:
    """a dataset description: logical content, written out in some layout"""

    def __init__(self, rng, approx=None):
        self.rng = rng
        self.approx = approx or rng.choice(['gaussian', 'HL'])
        self.fields = list('TEBP')
        if rng.random() < 0.15:
            self.fields = list(rng.choice(['ETB', 'TEBPW', 'TP']))
        self.sep = rng.choice(['x', 'x', 'x', '::', '_X_'])
        self.named = rng.random() < 0.6
        if self.named:
            n = rng.integers(1, 5)
            self.names = list(rng.permutation(['M95', 'M150', 'Aa', 'B2', 'cross', 'Q7'] if self.sep != 'x' else ['M95', 'M150', 'Aa', 'B2', 'C3', 'Q7'])[:n])
            self.field = {m: str(rng.choice(self.fields[:3])) if rng.random() < 0.8 else str(rng.choice(self.fields)) for m in self.names}
        else:
            self.names = list(self.fields)
            self.field = {f: f for f in self.names}
        k = rng.integers(1, len(self.names) + 1)
        self.names = [str(x) for x in self.names]
        pick = set(str(x) for x in rng.permutation(self.names)[:k])
        self.used = [x for x in self.names if x in pick]
        rest = [m for m in self.names if m not in self.used]
        self.how = 'maps' if self.named and (rest or rng.random() < 0.5) else 'fields'
        self.required = list(self.used)
        if rest and rng.random() < 0.5:
            self.required += [str(x) for x in rng.permutation(rest)[:rng.integers(1, len(rest) + 1)]]
        self.nbins = int(rng.integers(1, 6))
        self.lmin = int(rng.integers(2, 6))
        self.lmax = self.lmin + int(rng.integers(12, 40))
        a, b = sorted(rng.integers(1, self.nbins + 1, 2))
        self.use = (int(a), int(b)) if rng.random() < 0.4 else (1, self.nbins)
        self.allpairs = [(a, b) for i, a in enumerate(self.names) for b in self.names[:i + 1]]
        self.usedpairs = [(a, b) for a, b in self.allpairs if a in self.used and b in self.used]
        # windows: list of (in, out), weights[bin][i][L]
        outs = list(self.usedpairs)
        if self.approx == 'gaussian' and len(outs) > 1 and rng.random() < 0.3:
            outs = [outs[i] for i in sorted(rng.permutation(len(outs))[:rng.integers(1, len(outs))])]
        self.win = [(p, p) for p in outs]
        leak = 0
        if rng.random() < 0.5:
            req = [(a, b) for a, b in self.allpairs if a in self.required and b in self.required]
            for _ in range(rng.integers(1, 4)):
                p, q = req[rng.integers(len(req))], self.usedpairs[rng.integers(len(self.usedpairs))]
                if (p, q) not in self.win:
                    self.win.append((p, q))
                    leak += 1
        # entries giving spectra not used in the likelihood are ignored
        if rng.random() < 0.3:
            others = [p for p in self.allpairs if p not in self.usedpairs]
            if others:
                q = others[rng.integers(len(others))]
                self.win.append((self.win[0][0], q))
        edges = np.linspace(self.lmin - 1, self.lmax + 1, self.nbins + 1)
        self.L = np.arange(max(1, self.lmin - (1 if rng.random() < 0.2 else 0)), self.lmax + 1)
        base = np.array([np.exp(-((self.L - 0.5 * (edges[b] + edges[b + 1])) / (0.6 * (edges[1] - edges[0]))) ** 2 / 2) for b in range(self.nbins)])
        base /= base.sum(axis=1)[:, None]
        if self.L[0] < self.lmin:
            base[:, 0] = 0
        self.w = np.zeros((self.nbins, len(self.win), len(self.L)))
        for i, (p, q) in enumerate(self.win):
            if p == q:
                f = 1. if self.approx == 'HL' else np.exp(0.2 * rng.normal(size=(self.nbins, 1)))
            else:
                f = 0.02 * rng.normal() if self.approx == 'HL' else rng.normal()
            self.w[:, i, :] = base * f
        self.corr = None
        if self.approx == 'gaussian' and rng.random() < 0.3:
            req = [(a, b) for a, b in self.allpairs if a in self.required and b in self.required]
            self.corr = []
            for _ in range(rng.integers(1, 4)):
                e = req[rng.integers(len(req))], self.usedpairs[rng.integers(len(self.usedpairs))]
                if e not in self.corr:
                    self.corr.append(e)
            self.cw = rng.normal(size=(self.nbins, len(self.corr), 1)) * base[:, None, :]
            self.cfid = {q: rng.normal(size=self.nbins) for p, q in self.corr}
        n = len(self.names)
        self.noisemat = np.array([self.spd(n, 0.5) for _ in range(self.nbins)])
        self.fidmat = np.array([self.spd(n, 3.) for _ in range(self.nbins)])
        self.hatmat = np.array([self.spd(n, 3.) for _ in range(self.nbins)])
        self.hat_noise = rng.random() < 0.5
        self.fid_noise = rng.random() < 0.5
        # covariance over a list of spectra: a superset or subset of the used ones
        cov = list(self.allpairs if rng.random() < 0.5 else self.usedpairs)
        if len(cov) > 2 and rng.random() < 0.3:
            cov = [cov[i] for i in sorted(rng.permutation(len(cov))[:rng.integers(1, len(cov))])]
        if not [p for p in cov if p in self.usedpairs]:
            cov.append(self.usedpairs[0])
        self.covpairs = cov
        m = len(cov) * self.nbins
        self.cov = self.spd(m, 0.3 ** 2)
        self.covscale = float(rng.choice([1., 1., 2.5]))
        self.cal = None
        if self.fields[:4] == list('TEBP') and rng.random() < 0.4:
            self.cal = ('calPlanck', -1. if rng.random() < 0.4 else 0.05, rng.choice(['param', 'nuisance']))
        self.ab = float(rng.normal() * 0.01) if rng.random() < 0.3 else 0.

    def spd(self, n, scale):
        A = self.rng.normal(size=(n, n + 2))
        C = A.dot(A.T) / (n + 2) + np.eye(n)
        d = np.exp(0.3 * self.rng.normal(size=n))
        return C * np.outer(d, d) * scale

    def name(self, p, rng):
        a, b = p if rng.random() < 0.5 else p[::-1]
        return a + self.sep + b if self.named or (self.sep != '' and rng.random() < 0.0) else a + b

    def write(self, d, rng, rows_used=None):
        """write in a random layout; the content does not depend on rng"""
        os.makedirs(d)
        s = {}
        names = list(rng.permutation(self.names)) if self.named else self.names
        if self.named:
            s['map_names'] = ' '.join(names)
            s['map_fields'] = ' '.join(self.field[m] for m in names)
        if self.how == 'maps':
            s['maps_use'] = ' '.join(rng.permutation(self.used))
        elif not self.named or True:
            if not self.named:
                s['fields_use'] = ' '.join(rng.permutation(self.used))
        extra = [m for m in self.required if m not in self.used]
        if extra:
            s['maps_required' if self.named else 'fields_required'] = ' '.join(rng.permutation(self.required if rng.random() < 0.5 else extra))
        s.update(like_approx=self.approx, binned='T', nbins=self.nbins, cl_lmin=self.lmin, cl_lmax=self.lmax)
        if self.use != (1, self.nbins) or rng.random() < 0.3:
            s['use_min'], s['use_max'] = self.use

        def spectra(stem, mats, pairs=None):
            pairs = [tuple(p) for p in rng.permutation(np.array(pairs or self.allpairs, dtype=object))]
            cols = [self.name(p, rng) for p in pairs]
            rows = []
            for b in range(self.nbins) if rows_used is None else range(rows_used[0] - 1, rows_used[1]):
                rows.append([b + 1] + [mats[b][self.names.index(p), self.names.index(q)] for p, q in pairs])
            head = rng.random() < 0.5
            extra = rng.random() < 0.3 and head
            if extra:
                cols = ['L_av'] + cols
                rows = [[r[0], r[0] * 10.] + r[1:] for r in rows]
            fn = stem + '.dat'
            write_table(os.path.join(d, fn), ['bin' if rng.random() < 0.5 else 'L'] + cols, rows, comment=head or rng.random() < 0.5, rng=rng)
            s[stem + '_file'] = fn
            if not head:
                s[stem + '_order'] = ' '.join(cols)

        hat = self.hatmat + (self.noisemat if self.hat_noise else 0)
        spectra('cl_hat', hat)
        s['cl_hat_includes_noise'] = 'T' if self.hat_noise else 'F'
        if self.approx == 'HL' or self.hat_noise:
            spectra('cl_noise', self.noisemat)
        if self.approx == 'HL':
            spectra('cl_fiducial', self.fidmat + (self.noisemat if self.fid_noise else 0))
            s['cl_fiducial_includes_noise'] = 'T' if self.fid_noise else 'F'

        def windows(stem, entries, w):
            perm = rng.permutation(len(entries))
            ins = [self.name(entries[i][0], rng) for i in perm]
            outs = [self.name(entries[i][1], rng) for i in perm]
            s[stem + '_in_order'] = ' '.join(ins)
            if any(p != q for p, q in entries) or rng.random() < 0.5:
                s[stem + '_out_order'] = ' '.join(outs)
            s[stem + '_files'] = stem + '_%u.dat'
            for b in range(self.nbins):
                write_table(os.path.join(d, stem + '_%u.dat' % (b + 1)), ['L'] + ins,
                            [[L] + [w[b][i][k] for i in perm] for k, L in enumerate(self.L)], comment=rng.random() < 0.5, rng=rng)

        windows('bin_window', self.win, self.w)
        if self.corr:
            windows('linear_correction_bin_window', self.corr, self.cw)
            M = np.zeros((self.nbins, len(self.names), len(self.names)))
            for (p, q), v in self.cfid.items():
                i, j = self.names.index(p), self.names.index(q)
                M[:, i, j] = M[:, j, i] = v
            spectra('linear_correction_fiducial', M, list(self.cfid))
        perm = rng.permutation(len(self.covpairs))
        s['covmat_cl'] = ' '.join(self.name(self.covpairs[i], rng) for i in perm)
        ix = [b * len(perm) + i for b in range(self.nbins) for i in perm]
        np.savetxt(os.path.join(d, 'cov.dat'), self.cov[np.ix_(ix, ix)], fmt='%.15e')
        s['covmat_fiducial'] = 'cov.dat'
        if self.covscale != 1:
            s['covmat_scale'] = self.covscale
        if self.cal:
            name, prior, how = self.cal
            with open(os.path.join(d, 'cal.paramnames'), 'w') as f:
                f.write('%s   c\n' % name)
                if how == 'nuisance' or len(self.names) % 2:
                    f.write('other   o\n')
            if how == 'nuisance':
                s['nuisance_params'] = 'cal.paramnames'
                s['calibration_paramname'] = name
            else:
                s['calibration_param'] = 'cal.paramnames'
            if prior > 0:
                s['log_calibration_prior'] = prior
        if self.ab:
            s['aberration_coeff'] = self.ab
        keys = list(rng.permutation(list(s)))
        fn = os.path.join(d, 'test.dataset')
        with open(fn, 'w') as f:
            for k in keys:
                f.write('%s = %s\n' % (k, s[k]))
        return fn, s


def getter(sp, drop=()):
    return lambda f, g: None if frozenset((f, g)) in drop else sp.get((f, g))


def load(lib, fn, g, **kw):
    with quiet():
        return lib.DatasetLikelihood(fn, field_names=list(g.fields), map_separator=g.sep, **kw)


def close(rec, got, exp, msg, rtol=2e-7, atol=1e-7, **wit):
    rec.near(float(got), float(exp), msg, rtol=rtol, atol=atol, **wit)


def datasets(rng, rec):
    lb = lib()
    g = Gen(rng)
    fn, s = g.write(os.path.join(rec.tmp, 'a'), rng)
    m = Model(fn, fields=g.fields, sep=g.sep)
    rec.set(settings={k: v for k, v in s.items() if len(str(v)) < 80})
    rec.sig((g.approx, len(g.names), len(g.used), len(g.required), g.nbins, bool(g.corr), bool(g.cal), bool(g.ab), g.hat_noise))
    tl = g.lmax + int(rng.integers(0, 5))
    ths = []
    for i in range(3):
        sp = theory_spectra(rng, g.fields, tl)
        drop = set()
        if rng.random() < 0.3 and g.approx == 'gaussian':
            drop = {frozenset(('T', 'P')), frozenset(('T', 'E'))}
        _, c, _ = cls_array(lb, rec, rng, sp, g.fields, int(rng.integers(0, g.lmin + 1)), tl, 'th%d' % i, drop=drop)
        par = {g.cal[0]: float(np.exp(0.03 * rng.normal())), 'other': 3.} if g.cal else {}
        ths.append((sp, drop, c, par))
    exp = [m.chisq(getter(sp, drop), par) for sp, drop, c, par in ths]
    like = load(lb, fn, g)
    other = load(lb, fn, g)
    keep = [{k: v.copy() for k, v in np.ndenumerate(c.cls_array) if v is not None} for _, _, c, _ in ths]
    for i in list(rng.permutation(3)) + list(rng.integers(0, 3, 3)):
        sp, drop, c, par = ths[i]
        got = like.chi_squared(c, dict(par))
        close(rec, got, exp[i][0], 'chi-squared of the %s likelihood' % g.approx, maps=g.used, order=int(i))
        if rng.random() < 0.4:
            got, band = like.chi_squared(c, dict(par), return_binned_theory=True)
            close(rec, got, exp[i][0], 'chi-squared with binned theory')
            bands(rec, like, m, band, exp[i][1])
        if rng.random() < 0.3:
            bands(rec, like, m, like.get_binned_theory(c, dict(par)), exp[i][1])
        if rng.random() < 0.3:
            close(rec, other.chi_squared(c, dict(par)), exp[i][0], 'chi-squared of another instance')
        rec.ev('calls')
    for k, (_, _, c, _) in zip(keep, ths):
        rec.check(all(np.array_equal(c.cls_array[i], v) for i, v in k.items()), 'theory spectra are not changed by the likelihood')
    # same content in another layout
    fn2, s2 = g.write(os.path.join(rec.tmp, 'b'), rng)
    m2 = Model(fn2, fields=g.fields, sep=g.sep)
    tw = load(lb, fn2, g)
    for i, (sp, drop, c, par) in enumerate(ths):
        close(rec, m2.chisq(getter(sp, drop), par)[0], exp[i][0], 'reference agrees with itself')
        close(rec, tw.chi_squared(c, dict(par)), exp[i][0], 'chi-squared does not depend on the layout of the files', a_=s.get('map_names'), b_=s2.get('map_names'))
        rec.ev('twins')
    # the files need only have the rows in use, and must have all of these up to the last one
    fn3, s3 = g.write(os.path.join(rec.tmp, 'c'), rng, rows_used=g.use)
    tw = load(lb, fn3, g)
    close(rec, tw.chi_squared(ths[0][2], dict(ths[0][3])), exp[0][0], 'chi-squared with files of the used bins only', use=g.use)
    rec.ev('files of the used bins')
    if g.use[1] > 1:
        fn4, s4 = g.write(os.path.join(rec.tmp, 'd'), rng, rows_used=(1, g.use[1] - 1))
        try:
            load(lb, fn4, g)
        except Exception as e:
            rec.check('maximum' in str(e), 'message for files without the last bin', e=str(e)[:100])
        else:
            rec.check(False, 'files without the last bin are refused', use=g.use)
        rec.ev('files without the last bin')
    # data columns by name
    h = header(os.path.join(rec.tmp, 'a', 'cl_hat.dat')) if 'cl_hat_order' not in s else ['L'] + s['cl_hat_order'].split()
    dat = table(os.path.join(rec.tmp, 'a', 'cl_hat.dat'))
    col = h[int(rng.integers(1, len(h)))]
    rec.check(np.allclose(like.get_full_bandpower_column(col), dat[:, h.index(col)], rtol=1e-12), 'bandpower column by name')
    # override of settings when loading
    if g.nbins > 1:
        b = int(rng.integers(1, g.nbins + 1))
        over = {'use_min': str(b), 'use_max': str(int(rng.integers(b, g.nbins + 1)))}
        m3 = Model(fn, over, fields=g.fields, sep=g.sep)
        e = m3.chisq(getter(*ths[0][:2]), ths[0][3])[0]
        l3 = load(lb, fn, g, dataset_params=over)
        close(rec, l3.chi_squared(ths[0][2], dict(ths[0][3])), e, 'chi-squared with the bin range changed when loading', over=over)
        rec.ev('overrides')


def bands(rec, like, m, band, exp):
    """columns are the used spectra in the order of the maps used"""
    rec.check(band.shape[0] == len(m.bins), 'binned theory has the bins used')
    ix = 0
    for i, a in enumerate(m.used):
        for b in m.used[:i + 1]:
            e = [exp[frozenset((a, b))][x] for x in m.bins]
            rec.near(band[:, ix], e, 'binned theory spectrum', rtol=1e-9, atol=1e-9, pair=(a, b))
            ix += 1


def perfect(rng, rec):
    """data equal to the binned theory: zero, and any other theory no better"""
    lb = lib()
    g = Gen(rng)
    g.corr, g.ab = None, 0.
    if g.cal:
        g.cal = (g.cal[0], -1, g.cal[2])
    fn, s = g.write(os.path.join(rec.tmp, 'a'), rng)
    m = Model(fn, fields=g.fields, sep=g.sep)
    sp = theory_spectra(rng, g.fields, g.lmax)
    par = {g.cal[0]: 1.02} if g.cal else {}
    band = m.bin(m.theory(getter(sp), par))
    for i, a in enumerate(g.names):
        for j, b in enumerate(g.names):
            for x in m.bins:
                if frozenset((a, b)) in band:
                    g.hatmat[x - 1, i, j] = band[frozenset((a, b))][x]
    fn, s = g.write(os.path.join(rec.tmp, 'b'), rng)
    m = Model(fn, fields=g.fields, sep=g.sep)
    e = m.chisq(getter(sp), par)[0]
    rec.sig((g.approx, len(g.used), g.nbins))
    like = load(lb, fn, g)
    _, c, _ = cls_array(lb, rec, rng, sp, g.fields, 0, g.lmax, 'th')
    rec.check(abs(e) < 1e-5, 'reference is zero when theory reproduces the data')
    rec.check(abs(like.chi_squared(c, dict(par))) < 1e-5, 'chi-squared is zero when theory reproduces the data', approx=g.approx)
    for _ in range(3):
        sp2 = {k: v * np.exp(0.2 * rng.normal()) if k[0] == k[1] else v for k, v in sp.items()}
        for k in list(sp2):
            sp2[k[::-1]] = sp2[k]
        _, c2, _ = cls_array(lb, rec, rng, sp2, g.fields, 0, g.lmax, 'th2')
        try:
            ref = m.chisq(getter(sp2), par)[0]
        except core.Skip:
            continue
        v = like.chi_squared(c2, dict(par))
        close(rec, v, ref, 'chi-squared of another theory')
        rec.check(v >= -1e-8, 'no theory does better than the one that made the data', value=v)
        rec.ev('minimum')
    rec.check(abs(like.chi_squared(c, dict(par))) < 1e-5, 'chi-squared is still zero after other calls')


def forecast(rng, rec):
    lb = lib()
    import makePerfectForecastDataset as mk
    lmin = int(rng.integers(2, 5))
    lmax = int(rng.integers(lmin + 5, 80))
    fl = list('TEBP')
    sp = theory_spectra(rng, fl, lmax + 3)
    have = [f for f in fl if rng.random() < 0.8] or ['T']
    use_cmb = bool(set(have) & set('TEB')) and rng.random() < 0.85
    lens = 'P' in have and (not use_cmb or rng.random() < 0.5)
    if not use_cmb and not lens:
        use_cmb = bool(set(have) & set('TEB'))
        if not use_cmb:
            have, use_cmb = ['T'], True
    sp = {k: v for k, v in sp.items() if k[0] in have and k[1] in have}
    pairs = [(f, h) for i, f in enumerate(have) for h in have[:i + 1] if f == h or rng.random() < 0.7]
    rng.shuffle(pairs)
    pairs = [tuple(p)[::-1] if set(p) == {'E', 'T'} and p[0] == 'E' else tuple(p) for p in pairs]
    cols = [a + b for a, b in pairs]
    drop = {frozenset(k) for k in sp} - {frozenset(p) for p in pairs}
    src = os.path.join(rec.tmp, 'in.dat')
    head = rng.random() < 0.6
    write_table(src, ['L'] + cols, [[L] + [sp[p][L] for p in pairs] for L in range(lmin, lmax + 3)], comment=head or rng.random() < 0.5, rng=rng)
    kw = {}
    if not head:
        kw['cl_data_cols'] = ' '.join(cols)
    var, efac = None, 2.
    if use_cmb:
        kw['fwhm_arcmin'] = int(rng.integers(1, 200)) if rng.random() < 0.5 else float(rng.uniform(0, 100))
        if rng.random() < 0.5:
            kw['noise_muK_arcmin_T'] = float(rng.uniform(100, 4000))
            var = (kw['noise_muK_arcmin_T'] / 60 / 180 * np.pi) ** 2
            if rng.random() < 0.5:
                kw['noise_muK_arcmin_P'] = float(rng.uniform(100, 4000))
                efac = (kw['noise_muK_arcmin_P'] / kw['noise_muK_arcmin_T']) ** 2
        else:
            var = kw['NoiseVar'] = float(10 ** rng.uniform(-3, 0))
        if 'noise_muK_arcmin_P' not in kw and rng.random() < 0.5:
            efac = kw['ENoiseFac'] = float(rng.uniform(1, 5))
    nl = None
    if lens:
        nl = 10. ** rng.uniform(-2, 0) * (1 + 0.1 * np.arange(lmax + 1))
        kw['lens_recon_noise'] = nl if rng.random() < 0.6 else list(nl)
    poss = [f for f in have if (f == 'P' and lens) or (f != 'P' and use_cmb)]
    fields = list(poss)
    if rng.random() < 0.5:
        fields = [str(x) for x in rng.permutation(poss)[:rng.integers(1, len(poss) + 1)]]
        kw['fields_use'] = ' '.join(fields)
    elif use_cmb and not set(''.join(cols)) >= set(poss):
        fields = poss
    fsky = float(rng.choice([1, 0.7, 0.03]))
    if fsky != 1:
        kw['fsky'] = fsky
    out = os.path.join(rec.tmp, 'o', 'sub')
    root = str(rng.choice(['sim', 'my_sim1', 'a.b']))
    rec.set(args={k: v for k, v in kw.items() if k != 'lens_recon_noise'}, lens=lens, cols=cols)
    rec.sig((tuple(sorted(fields)), use_cmb, lens, head, fsky))
    with quiet():
        mk.make_forecast_cmb_dataset(src, root, output_dir=out, lmin=lmin, lmax=lmax, **kw)
        like = lb.DatasetLikelihood(os.path.join(out, root + '.dataset'))
        th = lb.ClsArray(src, cols=None if head else 'L ' + ' '.join(cols))
    L = np.arange(lmin, lmax + 1)
    N = {}
    if use_cmb:
        b = np.exp(L * (L + 1) * (kw['fwhm_arcmin'] / 60. * np.pi / 180) ** 2 / (8 * np.log(2)))
        N['T'] = L * (L + 1) / (2 * np.pi) * var * b
        N['E'] = N['B'] = N['T'] * efac
    if lens:
        N['P'] = nl[lmin:lmax + 1]
    fields = [f for f in fl if f in fields]

    def ref(spectra):
        tot = 0.
        for k, l in enumerate(L):
            C, H = np.zeros((len(fields),) * 2), np.zeros((len(fields),) * 2)
            for i, f in enumerate(fields):
                for j, h in enumerate(fields):
                    if frozenset((f, h)) not in drop:
                        C[i, j], H[i, j] = spectra[f, h][l], sp[f, h][l]
                C[i, i] += N[f][k]
                H[i, i] += N[f][k]
            if np.linalg.eigvalsh(C)[0] <= 1e-6 * np.trace(C) or np.linalg.eigvalsh(H)[0] <= 1e-6 * np.trace(H):
                raise core.Skip('not positive definite')
            w = scipy.linalg.eigh(H, C)[0]
            tot += (2 * l + 1) * np.sum(w - 1 - np.log(w))
        return tot * fsky
    rec.check(abs(ref(sp)) < 1e-6, 'reference zero')
    n = len(L) * len(fields)
    rec.check(abs(like.chi_squared(th)) < 1e-6, 'forecast data reproduce the model they were made from', value=like.chi_squared(th))
    for _ in range(3):
        sc = {f: np.exp(0.1 * rng.normal()) for f in fl}
        sp2 = {k: v * np.sqrt(sc[k[0]] * sc[k[1]]) * (1 if k[0] == k[1] else 0.95) for k, v in sp.items()}
        th2 = [None] * 1
        with quiet():
            th2 = lb.ClsArray(src, cols=None if head else 'L ' + ' '.join(cols))
        for i, f in enumerate(fl):
            for j, h in enumerate(fl[:i + 1]):
                if th2.cls_array[i, j] is not None:
                    th2.cls_array[i, j] = sp2[f, h][:lmax + 3].copy()
                    th2.cls_array[i, j][:lmin] = 0
        e = ref(sp2)
        got = like.chi_squared(th2)
        close(rec, got, e, 'exact likelihood of another model', rtol=1e-5, atol=1e-6 * n, fields=fields)
        rec.check(got >= -1e-7, 'no model does better than the input one')
        rec.ev('forecasts')
    # a model with spectra of fields that are not in the data
    full = theory_spectra(rng, fl, lmax + 3)
    full = {k: sp2.get(k, v) for k, v in full.items()}
    for k in full:
        if frozenset(k) in drop:
            full[k] = np.zeros(lmax + 4)
    write_table(src + '2', ['L'] + [a + b for i, a in enumerate(fl) for b in fl[:i + 1]],
                [[l] + [full[a, b][l] for i, a in enumerate(fl) for b in fl[:i + 1]] for l in range(lmin, lmax + 3)], rng=rng)
    with quiet():
        th3 = lb.ClsArray(src + '2')
    close(rec, like.chi_squared(th3), ref(full), 'exact likelihood only depends on the fields in the data', rtol=1e-5, atol=1e-6 * n, fields=fields)
    # restricted range of multipoles
    a, z = sorted(int(x) for x in rng.integers(lmin, lmax + 1, 2))
    with quiet():
        l2 = lb.DatasetLikelihood(os.path.join(out, root + '.dataset'), dataset_params={'use_min': str(a), 'use_max': str(z)})
    L0, L = L, np.arange(a, z + 1)
    N = {f: v[a - lmin:z - lmin + 1] for f, v in N.items()}
    close(rec, l2.chi_squared(th2), ref(sp2), 'exact likelihood on a range of multipoles', rtol=1e-5, atol=1e-6 * n, range=(a, z))
    rec.check(abs(like.chi_squared(th)) < 1e-6, 'forecast data reproduce the model after other calls')


def spectra(rng, rec):
    """theory spectra arrays from files"""
    lb = lib()
    fl = list('TEBP') if rng.random() < 0.6 else list(rng.permutation(list('TEBPWX'))[:rng.integers(1, 6)])
    fl = [str(f) for f in fl]
    lmin, lmax = int(rng.integers(0, 4)), int(rng.integers(8, 40))
    sp = theory_spectra(rng, fl, 60)
    allp = [frozenset((f, h)) for i, f in enumerate(fl) for h in fl[:i + 1]]
    first = {p for p in allp if rng.random() < 0.7} or {allp[0]}
    fn, c, pairs = cls_array(lb, rec, rng, sp, fl, lmin, lmax, 'a', drop=set(allp) - first)
    scale = 1.
    given = rng.random() < 0.5
    if rng.random() < 0.5:
        scale = float(np.exp(rng.normal()))
    cols = ['L'] + [a + b for a, b in pairs]
    with quiet():
        c = lb.ClsArray(fn, cols=(cols if rng.random() < 0.5 else ' '.join(cols)) if given else None, field_names=fl, rescale=scale if scale != 1 else None)
    rec.sig((len(fl), len(first), given, scale != 1))

    def verify(want, msg):
        for i, f in enumerate(fl):
            for j, h in enumerate(fl):
                p = frozenset((f, h))
                got = c.get((i, j))
                if p not in want:
                    rec.check(got is None, msg + ': spectrum not given', pair=(f, h))
                else:
                    lo, hi, k, sps = want[p]
                    e = np.zeros(lmax + 1)
                    hi = min(hi, lmax)
                    e[lo:hi + 1] = sps[f, h][lo:hi + 1] * k
                    rec.near(got, e, msg + ': spectrum', rtol=1e-13, atol=1e-300, pair=(f, h))
        rec.eq((int(c.lmin), int(c.lmax)), (lmin, lmax), msg + ': range')
    want = {p: (lmin, lmax, scale, sp) for p in first}
    verify(want, 'loaded')
    sp2 = theory_spectra(rng, fl, 60)
    second = {p for p in allp if rng.random() < 0.7} or {allp[0]}
    lo, hi = int(rng.integers(0, 5)), int(rng.integers(6, 55))
    fn2, c2, pairs2 = cls_array(lb, rec, rng, sp2, fl, lo, hi, 'b', drop=set(allp) - second)
    with quiet():
        c.add_from_file(fn2)
    for p in second:
        want.setdefault(p, (lo, hi, 1., sp2))
    verify(want, 'added from a second file')
    rec.ev('arrays')


REAL = None


def real_sets():
    global REAL
    if REAL is None:
        D = os.path.join(core.REPO, 'data')
        REAL = [os.path.join(D, x) for x in (
            'BKPlanck/BKPlanck_detset_comb_dust.dataset', 'sptsz_2500d_tt/spt_s13_margfg.dataset',
            'planck_lensing_2018/smicadx12_Dec5_ftl_mv2_ndclpp_p_teb_consext8.dataset',
            'planck_lensing_2018/smicadx12_Dec5_ftl_mv2_ndclpp_p_teb_agr2.dataset',
            'planck_lensing_2018/smicadx12_Dec5_ftl_mv2_ndclpttptt_p_teb_consext8.dataset',
            'planck_lensing/smica_g30_ftl_full_pp.dataset', 'planck_lensing/smica_g30_ftl_full_pttptt.dataset')]
    return REAL


def shipped(rng, rec):
    """data sets in the repository"""
    lb = lib()
    fn = real_sets()[rec.idx % len(real_sets())]
    over = {}
    base = Model(fn)
    if base.named:
        k = int(rng.integers(1, 5))
        over['maps_use'] = ' '.join(rng.permutation(base.names)[:k])
    n = len(base.bins)
    if n > 2 and rng.random() < 0.6:
        a = int(rng.integers(base.bins[0], base.bins[-1]))
        over['use_min'] = str(a)
        over['use_max'] = str(int(rng.integers(a, base.bins[-1] + 1)))
    rec.sig((os.path.basename(fn), len(over)))
    rec.set(dataset=os.path.relpath(fn, core.REPO), over=over)
    m = Model(fn, over)
    th = table(os.path.join(core.REPO, 'data', 'base_plikHM_TT_lowTEB.minimum.theory_cl'))
    cols = header(os.path.join(core.REPO, 'data', 'base_plikHM_TT_lowTEB.minimum.theory_cl'))
    with quiet():
        like = lb.DatasetLikelihood(fn, dataset_params=over)
        c = lb.ClsArray(os.path.join(core.REPO, 'data', 'base_plikHM_TT_lowTEB.minimum.theory_cl'))
    lmax = int(th[-1, 0])
    if lmax < m.lmax:
        ext = m.lmax - lmax
    else:
        ext = 0
    sp = {}
    for i, f in enumerate('TEBP'):
        for j, h in enumerate('TEBP'[:i + 1]):
            for col in (f + h, h + f):
                if col in cols:
                    v = np.zeros(lmax + 1)
                    v[int(th[0, 0]):] = th[:, cols.index(col)]
                    v = np.concatenate([v, np.full(ext, v[-1])])
                    sp[f, h] = sp[h, f] = v
                    c.cls_array[i, j] = v.copy()
    cal = m.calname()
    for k in range(2):
        par = {cal: float(np.exp(0.002 * rng.normal()))} if cal else {}
        if k:
            sc = {f: np.exp(0.05 * rng.normal()) for f in 'TEBP'}
            for (i, f) in enumerate('TEBP'):
                for j, h in enumerate('TEBP'[:i + 1]):
                    if (f, h) in sp:
                        sp[f, h] = sp[h, f] = sp[f, h] * np.sqrt(sc[f] * sc[h])
                        c.cls_array[i, j] = sp[f, h].copy()
        e, band = m.chisq(getter(sp), par)
        close(rec, like.chi_squared(c, dict(par)), e, 'chi-squared of a data set of the repository', rtol=1e-6)
        rec.ev('shipped')
    # command line use: prints chi-squared
    if m.used == ['P'] and not over and 'L_av' in (header(os.path.join(m.dir, m.s['cl_hat_file'])) or []):
        import matplotlib.pyplot as plt
        tf = os.path.join(rec.tmp, 'th.dat')
        write_table(tf, ['L', 'TT', 'TE', 'EE', 'PP'], [[l] + [sp[k][l] for k in (('T', 'T'), ('T', 'E'), ('E', 'E'), ('P', 'P'))] for l in range(2, len(sp['P', 'P']))], rng=rng)
        plt.figure()
        try:
            with quiet() as o:
                lb.plotAndChisq(fn, tf)
            x = np.concatenate([np.asarray(l.get_ydata(), dtype=float) for l in plt.gca().lines])
            rec.check(all(np.any(np.isclose(x, v, rtol=1e-9)) for v in table(os.path.join(m.dir, m.s['cl_hat_file']))[:, header(os.path.join(m.dir, m.s['cl_hat_file'])).index('PP')]), 'plot shows the bandpowers')
            rec.check(any(len(l.get_ydata()) > 1000 and np.isclose(l.get_ydata()[500], sp['P', 'P'][500]) for l in plt.gca().lines), 'plot shows the theory')
        finally:
            plt.close('all')
        got = float(o.getvalue().split('Chi-squared:')[1].split()[0])
        close(rec, got, m.chisq(getter(sp), {})[0], 'chi-squared printed', rtol=1e-6)
        rec.ev('command line')


def writing(rng, rec):
    """files written: foregrounds and windows"""
    lb = lib()
    g = Gen(rng, 'gaussian')
    g.corr = None
    fn, s = g.write(os.path.join(rec.tmp, 'a'), rng)
    m = Model(fn, fields=g.fields, sep=g.sep)

    def fg(a, b, ells, par):
        return par['A'] * (1 + len(a)) * (1 + len(b)) * (ells / 10.) ** (0.5 * (ord(a[-1]) % 7) + 0.5 * (ord(b[-1]) % 7))

    class Fore(lb.DatasetLikelihood):
        def add_foregrounds(self, cls, data_params):
            for i in range(cls.shape[0]):
                for j in range(i + 1):
                    a, b = [self.map_names[k] for k in cls[i, j].map_ij]
                    cls[i, j].CL += fg(a, b, np.arange(self.pcl_lmin, self.pcl_lmax + 1.), data_params)
    with quiet():
        like = Fore(fn, field_names=list(g.fields), map_separator=g.sep)
    sp = theory_spectra(rng, g.fields, g.lmax)
    _, c, _ = cls_array(lb, rec, rng, sp, g.fields, 0, g.lmax, 'th')
    rec.sig((len(g.required), g.nbins, bool(g.cal)))
    for A in (0.1, 0.4, 0.1):
        par = {'A': A}
        if g.cal:
            par[g.cal[0]] = 1.03
        e = m.chisq(getter(sp), par, foreground=fg)[0]
        close(rec, like.chi_squared(c, dict(par)), e, 'chi-squared with foregrounds')
        out = os.path.join(rec.tmp, 'fg.txt')
        like.write_likelihood_data(out, dict(par))
        h, dat = header(out), table(out)
        rec.eq([int(x) for x in dat[:, 0]], list(range(g.lmin, g.lmax + 1)), 'written foregrounds: multipoles')
        pairs = [m.pair(x) for x in h[1:]]
        req = [frozenset((a, b)) for i, a in enumerate(m.required) for b in m.required[:i + 1]]
        rec.eq(sorted(map(sorted, pairs)), sorted(map(sorted, req)), 'written foregrounds: every pair of required maps once')
        for i, p in enumerate(pairs):
            a, b = (list(p) * 2)[:2]
            rec.near(dat[:, i + 1], fg(a, b, dat[:, 0], par), 'written foregrounds', rtol=1e-7, atol=0, pair=sorted(p))
        close(rec, like.chi_squared(c, dict(par)), e, 'chi-squared after writing')
        rec.ev('written')
    like.bins.write(os.path.join(rec.tmp, 'w'), 'ab')
    over = {'bin_window_files': os.path.join(rec.tmp, 'wab_window', 'window%u.dat')}
    if g.use == (1, g.nbins):
        with quiet():
            l2 = Fore(fn, field_names=list(g.fields), map_separator=g.sep, dataset_params=over)
        close(rec, l2.chi_squared(c, dict(par)), e, 'chi-squared with windows written and read again', rtol=1e-4, atol=1e-3)
        rec.ev('windows')


GROUPS = {
    'datasets': (datasets, 900, 30000),
    'perfect': (perfect, 400, 14000),
    'forecast': (forecast, 500, 18000),
    'spectra': (spectra, 200, 6000),
    'shipped': (shipped, 14, 140),
    'writing': (writing, 150, 5000),
}
QUICK_BUDGET = 60
THOROUGH_BUDGET = 300
