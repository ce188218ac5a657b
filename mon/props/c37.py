import os
import sys
import types

import numpy as np

from .. import core

RULE = 'a case is a generated DES-format data set (bins, angles, selection, covariance, redshift distributions) with a background, a matter power spectrum and nuisance ' \
       'parameters; points in use, covariance, correlation functions and chi-squared are compared with a model that keeps the data in a dictionary by (type, bins, angle) ' \
       'and does the projection integrals and the sum over all multipoles directly; distinct = (types, bins, types used, Bessel method, form of the power spectrum)'
ASSUMPTIONS = ['camb is not installed: a stand-in supplies the background and power spectra', 'FITS files are not read (astropy is not installed)',
               'redshift distributions vanish at both ends of their range', 'xi+ and xi- are given for the same pairs of bins']
C = 299792458.
TYPES = ['xip', 'xim', 'gammat', 'wtheta']


def lib():
    import matplotlib
    matplotlib.use('Agg')
    try:
        import camb
    except ImportError:
        camb = types.ModuleType('camb')
        camb.model = types.ModuleType('camb.model')
        camb.correlations = types.ModuleType('camb.correlations')
        camb.__path__ = []
        sys.modules.update({'camb': camb, 'camb.model': camb.model, 'camb.correlations': camb.correlations})
    sys.path.insert(0, os.path.join(core.EXE, 'planck'))
    import DES
    return DES


class Background:
    """distances and expansion rate (1/Mpc) of a flat model"""

    def __init__(self, h, om):
        self.h, self.om = h, om
        z = np.linspace(0, 4, 8001)
        from scipy.integrate import cumulative_trapezoid
        self.z, self.chi = z, np.concatenate(([0], cumulative_trapezoid(1 / self.h_of_z(z), z)))

    def h_of_z(self, z):
        return self.h * 1e5 / C * np.sqrt(self.om * (1 + np.asarray(z)) ** 3 + 1 - self.om)

    def comoving_radial_distance(self, z):
        return np.interp(z, self.z, self.chi)


class Power:
    def __init__(self, rng, kmax):
        self.kmax = kmax
        self.A, self.k0, self.n, self.g = 2e4 * rng.uniform(0.5, 2), rng.uniform(0.01, 0.03), rng.uniform(0.9, 1.3), rng.uniform(0.3, 1.)

    def val(self, z, k):
        x = k / self.k0
        return self.A * x / (1 + x * x) ** self.n / (1 + z) ** (2 * self.g) * (1 + 0.3 * k / (1 + k) / (1 + z))

    def P(self, z, k, grid=None):
        z, k = np.asarray(z, float), np.asarray(k, float)
        if grid is False:
            return self.val(z, k)
        return np.squeeze(self.val(np.atleast_1d(z)[:, None], np.atleast_1d(k)[None, :]))


class Pars:
    pass


class Data:
    def __init__(self, rng, d):
        self.dir = d
        os.makedirs(d)
        self.nz, self.nw, self.nt = int(rng.integers(1, 5)), int(rng.integers(1, 6)), int(rng.integers(3, 9))
        self.theta = np.exp(np.sort(rng.uniform(np.log(3), np.log(240), self.nt)))
        self.types = list(TYPES)
        k = rng.random()
        if k < 0.15:
            self.types = ['xip', 'xim']
        elif k < 0.2:
            self.types = ['xip']
        elif k < 0.35:
            self.types = [t for t in (TYPES, ['gammat', 'wtheta'], ['wtheta'], ['wtheta', 'gammat', 'xip', 'xim'], ['xim', 'xip'])[int(rng.integers(0, 5))]]
        lens = [(a, b) for a in range(self.nz) for b in range(a, self.nz) if rng.random() < 0.8] or [(0, 0)]
        pairs = {'xip': lens, 'xim': lens, 'gammat': [(a, b) for a in range(self.nw) for b in range(self.nz) if rng.random() < 0.8] or [(0, 0)],
                 'wtheta': [(a, b) for a in range(self.nw) for b in range(a, self.nw) if a == b or rng.random() < 0.2]}
        self.pairs = pairs
        self.keys, self.val = [], {}
        self.s = {'measurements_format': 'DES', 'kmax': '10', 'intrinsic_alignment_model': 'DES1YR', 'data_types': ' '.join(self.types), 'num_z_bins': self.nz,
                  'num_gal_bins': self.nw, 'num_theta_bins': self.nt, 'theta_bins_file': 'th.dat', 'cov_file': 'cov.dat', 'nz_file': 'nz.dat', 'nz_gal_file': 'ng.dat',
                  'data_selection': 'sel.dat'}
        for t in self.types:
            rows = [(t, a, b, i) for a, b in pairs[t] for i in range(self.nt)]
            if rng.random() < 0.4:
                rng.shuffle(rows)
                rows = [(r[0], int(r[1]), int(r[2]), int(r[3])) for r in rows]
            with open(os.path.join(d, t + '.dat'), 'w') as f:
                f.write('# BIN1 BIN2 ANGBIN VALUE\n')
                for r in rows:
                    self.val[r] = float('%.8e' % (1e-5 * rng.normal()))
                    f.write('%d %d %d %.8e\n' % (r[1] + 1, r[2] + 1, r[3] + 1, self.val[r]))
            self.keys += rows
            self.s['measurements[%s]' % t] = t + '.dat'
        n = len(self.keys)
        L = np.tril(rng.normal(size=(n, n))) * 0.3 / np.sqrt(n)
        np.fill_diagonal(L, rng.uniform(0.5, 2, n))
        self.cov = 1e-10 * L.dot(L.T)
        np.savetxt(os.path.join(d, 'cov.dat'), self.cov, fmt='%.16e')
        np.savetxt(os.path.join(d, 'th.dat'), self.theta, header='theta_arcmin')
        self.range = {}
        lines = []
        for t in self.types:
            for a, b in pairs[t]:
                if rng.random() < 0.9:
                    lo = float(rng.uniform(0, 60)) if rng.random() < 0.8 else 0.
                    hi = 250. if rng.random() < 0.7 else float(rng.uniform(60, 250))
                    self.range[t, a, b] = (lo, hi)
                    lines.append('%s %d %d %r %r' % (t, a + 1, b + 1, lo, hi))
        if rng.random() < 0.3:
            lines = [lines[i] for i in rng.permutation(len(lines))]
        with open(os.path.join(d, 'sel.dat'), 'w') as f:
            f.write('#  type bin1 bin2 theta_min theta_max\n' + '\n'.join(lines) + ('\n' if rng.random() < 0.5 else ''))
        m = int(rng.integers(40, 90))
        zmax = rng.uniform(1., 2.2)
        self.z = (np.arange(m) + 0.5) * zmax / m
        self.n = {}
        for kind, nb in (('z', self.nz), ('g', self.nw)):
            cols = []
            for b in range(nb):
                c, w = rng.uniform(0.3, 0.6) * zmax, rng.uniform(0.04, 0.07) * zmax
                y = np.exp(-(self.z - c) ** 2 / 2 / w ** 2)
                y[np.abs(self.z - c) > 4.5 * w] = 0
                cols.append(np.array([float('%.6e' % v) for v in y / (w * np.sqrt(2 * np.pi))]))
            self.n[kind] = cols
            np.savetxt(os.path.join(d, 'n%s.dat' % kind), np.column_stack([self.z - 0.5 * zmax / m, self.z, self.z + 0.5 * zmax / m] + cols), fmt='%.18e')
        self.file = os.path.join(d, 'x.dataset')
        with open(self.file, 'w') as f:
            for k, v in self.s.items():
                f.write('%s = %s\n' % (k, v))

    def used(self, use):
        """the points in use: positions in the files"""
        out = []
        for i, (t, a, b, k) in enumerate(self.keys):
            if t in use and (t, a, b) in self.range and self.range[t, a, b][0] < self.theta[k] < self.range[t, a, b][1]:
                out.append(i)
        return out

    def theory(self, p, bg, pk, weyl, lmax):
        """correlation functions {(type, bin, bin): at the angles}: Limber integrals over the sampled redshifts, direct sum over multipoles"""
        from scipy.interpolate import make_interp_spline, InterpolatedUnivariateSpline
        from scipy.special import jv
        z = self.z
        chi, H = bg.comoving_radial_distance(z), bg.h_of_z(z)
        edges = np.concatenate(([0], (chi[1:] + chi[:-1]) / 2, [chi[-1]]))
        dchi = np.diff(edges)
        om = p['om']
        D = np.sqrt(pk.val(z, 0.001) / pk.val(0., 0.001))

        def nchi(col, shift):
            y = make_interp_spline(z, col, k=3)(z - shift) * H
            return np.where(z - shift < 0, 0, y)
        qg = [p['b'][i] * nchi(c, p['dl'][i]) for i, c in enumerate(self.n['g'])]
        qs = []
        for i, c in enumerate(self.n['z']):
            n = nchi(c, p['ds'][i])
            eff = np.array([sum(n[k] * dchi[k] * (1 - chi[j] / chi[k]) for k in range(j, len(z))) for j in range(len(z))])
            if weyl is not None:
                qs.append(chi * eff)
            else:
                qs.append(1.5 * om * (bg.h * 1e5 / C) ** 2 * chi * (1 + z) * eff - p['A'] * ((1 + z) / (1 + p['z0'])) ** p['alpha'] * om * 0.0134 / D * n)
        ells = np.concatenate((np.arange(2., 96, 4), np.exp(np.linspace(np.log(100.), np.log(lmax), 50))))
        L = np.arange(2, lmax + 1)

        def cl(pw, x, y):
            c = []
            for l in ells:
                k = (l + 0.5) / chi
                s = np.where((k < 1e-4) | (k >= pw.kmax), 0, dchi / chi ** 2 * pw.val(z, k) * x * y)
                c.append(s.sum())
            return InterpolatedUnivariateSpline(ells, c, k=3)(L)
        arc = self.theta / 60 * np.pi / 180
        J = {nu: np.array([L / (2 * np.pi) * jv(nu, L * t) for t in arc]) for nu in (0, 2, 4)}
        out, size = {}, {}
        for t in self.types:
            for a, b in self.pairs[t]:
                if t in ('xip', 'xim'):
                    c, f = cl(weyl or pk, qs[a], qs[b]), (1 + p['m'][a]) * (1 + p['m'][b])
                elif t == 'gammat':
                    c, f = cl(pk, qg[a], qs[b]), 1 + p['m'][b]
                else:
                    c, f = cl(pk, qg[a], qg[b]), 1.
                j = J[{'xip': 0, 'xim': 4, 'gammat': 2, 'wtheta': 0}[t]]
                out[t, a, b] = f * j.dot(c)
                size[t, a, b] = f * np.abs(j).dot(np.abs(c))
        return out, size


def des(rng, rec):
    lb = lib()
    D = Data(rng, os.path.join(rec.tmp, 'd'))
    lmax = int(rng.integers(1500, 4000))
    lb._binned_bessels = binned = bool(rng.random() < 0.8)
    over, use = {}, list(D.types)
    if rng.random() < 0.5:
        use = [str(t) for t in rng.choice(D.types, int(rng.integers(1, len(D.types) + 1)), replace=False)]
        if 'xim' in use and 'xip' not in D.types:
            raise core.Skip
        over = {'used_data_types': ' '.join(use)}
    ix = D.used(use)
    if not ix:
        raise core.Skip
    weylcase = bool(rng.random() < 0.2 and 'gammat' not in use)
    like = lb.DES_like(D.file, dict(over), lmax=lmax, use_Weyl=weylcase)
    rec.set(types=D.types, use=use, binned=binned, nz=D.nz, nw=D.nw, lmax=lmax)
    rec.eq(like.intrinsic_alignment_model, 'DES1YR', 'alignment model of the data set')
    rec.near(like.data_vector, [D.val[D.keys[i]] for i in ix], 'data points in use', rtol=1e-10)
    rec.near(like.covmat, D.cov[np.ix_(ix, ix)], 'covariance of the points in use', rtol=1e-10)
    rec.near(like.thetas, [D.theta[D.keys[i][3]] for i in ix], 'angles of the points in use', rtol=1e-10)
    rec.near(like.make_thetas(None), [D.theta[D.keys[i][3]] for i in ix], 'angles of the points', rtol=1e-10)
    for i, (t, a, b, k) in enumerate(D.keys):
        rec.near(float(like.errors[D.types.index(t)][a, b][k]), np.sqrt(D.cov[i, i]), 'error bar', rtol=1e-10)
        rec.near(float(like.data_arrays[D.types.index(t)][a, b][k]), D.val[t, a, b, k], 'measurement', rtol=1e-10)
    for call in range(2):
        h, om = float(rng.uniform(0.6, 0.8)), float(rng.uniform(0.2, 0.4))
        bg, pk = Background(h, om), Power(rng, float(rng.choice([500., 3.])))
        weyl = Power(rng, 500.) if weylcase else None
        pars = Pars()
        pars.H0, pars.omegab, pars.omeganu = 100 * h, 0.05, 0.002
        pars.omegac = om - 0.052
        p = {'om': om, 'b': [float(v) for v in rng.uniform(1, 2, 5)], 'm': [float(v) for v in rng.normal(size=4) * 0.05], 'ds': [float(v) for v in rng.normal(size=4) * 0.02],
             'dl': [float(v) for v in rng.normal(size=5) * 0.02], 'A': 0. if weylcase else float(rng.normal()), 'alpha': float(rng.normal()), 'z0': 0.62}
        if rng.random() < 0.5:
            dic = {'DES_AIA': p['A'], 'DES_alphaIA': p['alpha'], 'unrelated': 3.}
            for i in range(5):
                dic['DES_b%d' % (i + 1)], dic['DES_DzL%d' % (i + 1)] = p['b'][i], p['dl'][i]
            for i in range(4):
                dic['DES_m%d' % (i + 1)], dic['DES_DzS%d' % (i + 1)] = p['m'][i], p['ds'][i]
            th = like.get_theory_for_params(dic, camb_pars=pars, camb_results=(bg, pk, weyl))
        else:
            p['z0'] = float(rng.uniform(0.4, 0.8))
            th = like.get_theory(pars, bg, pk, weyl, bin_bias=p['b'], shear_calibration_parameters=p['m'], intrinsic_alignment_A=p['A'], intrinsic_alignment_alpha=p['alpha'],
                                 intrinsic_alignment_z0=p['z0'], wl_photoz_errors=p['ds'], lens_photoz_errors=p['dl'])
        exp, size = D.theory(p, bg, pk, weyl, lmax)
        rec.set(params=p)
        for t in use:
            for a, b in D.pairs[t]:
                got, e = np.asarray(th[D.types.index(t)][a, b], float), exp[t, a, b]
                tol = (0.004 if binned else 0.02) * np.abs(e).max() + (2e-3 if binned else 5e-3) * size[t, a, b]
                rec.check(got.shape == e.shape and np.all(np.abs(got - e) <= tol), 'correlation function', type_=t, bins=(a, b), got=got, expected=e)
                rec.ev('correlation functions')
        r = np.array([D.val[D.keys[i]] - th[D.types.index(D.keys[i][0])][D.keys[i][1], D.keys[i][2]][D.keys[i][3]] for i in ix])
        chi2 = r.dot(np.linalg.solve(D.cov[np.ix_(ix, ix)], r))
        rec.near(float(like.chi_squared(th)), chi2, 'chi-squared', rtol=1e-7)
        v, c2 = like.chi_squared(th, return_theory_vector=True)
        rec.near(float(c2), chi2, 'chi-squared with theory vector', rtol=1e-7)
        rec.near(v, like.data_vector - r, 'theory vector', rtol=1e-7, atol=1e-17)
        rec.ev('likelihoods')
    if not weylcase and 'gammat' in use:
        try:
            like.get_theory(pars, bg, pk, pk)
            rec.check(False, 'Weyl potential accepted with galaxy-lensing correlations')
        except ValueError:
            rec.ev('refused')
    rec.sig(D.types, D.nz, D.nw, sorted(use), binned, weylcase)


GROUPS = {'des': (des, 160, 4000)}
QUICK_BUDGET = 60
THOROUGH_BUDGET = 300
