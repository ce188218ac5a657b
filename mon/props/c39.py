"""Plots of theory spectra stored for the samples of a chain"""
import os
import sys

import numpy as np

from .. import core

RULE = 'a case is a directory of stored spectra and their parameters (with files of other runs), loaded and drawn as coloured lines or as a density image; the spectra loaded, every ' \
       'line (points, colour) and the image (position and colour of each isolated spectrum, nothing far from all of them) are compared with the files; distinct = (kind of plot, options, number of spectra)'
ASSUMPTIONS = ['images are judged at spectra separated from the others by more than the smoothing width', 'files of one run are read in any order']
sys.path.insert(0, core.EXE)


def write(rng, d, root, n, lmax, levels, cols):
    """{file stem: (parameters, spectra)}"""
    out = {}
    for i in range(n):
        stem = '%s_%d_%d' % (root, int(rng.integers(1, 5)), i if rng.random() < 0.7 else 100 + 7 * i)
        if stem in out:
            continue
        par = {'tau': float('%.7E' % rng.normal()), 'cal': float('%.7E' % np.exp(0.1 * rng.normal()))}
        with open(os.path.join(d, stem + '.pars'), 'w') as h:
            h.write(' -log(Like) =  %.3f\n chi-sq    =  %.3f\n\n' % (3, 6))
            h.write('%5i %15.7E   %-22s %s\n%5i %15.7E   %-22s %s\n' % (1, par['tau'], 'tau', r'\tau', 2, par['cal'], 'cal', 'c_a'))
        L = np.arange(2, lmax + 1)
        c = np.column_stack([L] + [levels[i] * (1 + 0.02 * np.sin(L / 40. + k)) * (k + 1) for k in range(cols)])
        np.savetxt(os.path.join(d, stem + '.theory_cl'), c, fmt='%.10e')
        out[stem] = (par, np.array([[float('%.10e' % v) for v in r] for r in c]))
    return out


def dump(rng, rec):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import chainDumpPlot as c
    d = os.path.join(rec.tmp, 'd')
    os.makedirs(d)
    n, cols = int(rng.integers(2, 9)), int(rng.integers(1, 4))
    sign = float(rng.choice([1, 1, 0, -1]))
    scale = 10 ** rng.uniform(-3, 4)
    levels = scale * np.sort(rng.choice(np.linspace(0.15, 1, 12), n, replace=False))
    levels = levels * (sign if sign else 1) if sign else levels - levels.mean()
    rng.shuffle(levels)
    if n > 2 and rng.random() < 0.5:
        levels[1] = levels[0]
    lmax = int(rng.integers(60, 260))
    density = bool(rng.random() < 0.5)
    exp = write(rng, d, 'run', n, lmax, levels, cols)
    write(rng, d, 'run_lens', 2, lmax, levels, cols)
    write(rng, d, 'other', 2, lmax, levels, cols)
    ix = int(rng.integers(1, cols + 1))
    kw = {} if ix == 1 and rng.random() < 0.5 else {'cl_ix': ix}
    cal, resc = None, 1.
    if rng.random() < 0.4:
        cal = kw['calParam'] = 'cal'
    if rng.random() < 0.4:
        resc = kw['rescale'] = float(np.exp(rng.normal()))
    few = None
    if rng.random() < 0.2 and len(exp) > 2:
        few = kw['max_files'] = 2
    old = os.getcwd()
    try:
        if rng.random() < 0.3:
            os.chdir(d)
            pat = 'run'
        else:
            pat = os.path.join(d, 'run')
        rec.set(files=sorted(exp), options=kw, pattern=pat)
        ls, pars, cls = c.loadFiles(pat, **kw)
        try:
            c.loadFiles(pat + 'none')
            rec.check(False, 'no error where there are no files')
        except Exception:
            rec.ev('refused')
    finally:
        os.chdir(old)
    rec.eq([len(pars), len(cls)], [few or len(exp)] * 2, 'number of spectra')
    rec.near(ls, np.arange(2, lmax + 1), 'multipoles')
    pool = dict(exp)
    got = []
    for p, cl in zip(pars, cls):
        tau = p.parWithName('tau').best_fit
        k = next((s for s in pool if abs(pool[s][0]['tau'] - tau) <= 1e-6 * abs(tau)), None)
        rec.check(k is not None, 'parameters of another run, or of one sample twice', tau=tau)
        par, t = pool.pop(k)
        rec.near(cl, t[:, ix] / (par['cal'] ** 2 if cal else 1) * resc, 'spectrum of the sample', rtol=1e-8, sample=k)
        got.append((par, np.asarray(cl, float)))
        rec.ev('spectra')
    lpow = 2 if rng.random() < 0.6 else int(rng.choice([0, 1, 3, 4]))
    opt = {} if lpow == 2 and rng.random() < 0.5 else {'lpow': lpow}
    delta = None
    if rng.random() < 0.3:
        delta = opt['delta_to'] = 0.3 * got[0][1] if not density else np.full(len(ls), 0.1 * scale)
    other = rng.random() < 0.2
    if other:
        opt['last_colors'] = c.getColorMap([-9., 9.])
    labels = {'tau': 'T_x'} if rng.random() < 0.3 else {}
    c.label_dict.clear()
    c.label_dict.update(labels)
    sc = (ls * (ls + 1.)) ** (lpow / 2. - 1)
    ys = [(cl - (0 if delta is None else delta)) * sc for _, cl in got]
    vals = [p['tau'] for p, _ in got]
    plt.close('all')
    try:
        fig = plt.figure()
        ax = plt.gca()
        rec.set(density=density, lpow=lpow, delta=delta is not None, other=bool(other), values=vals)
        if density:
            Lm = int(rng.integers(30, min(lmax, 60) + 1))
            sm, norm = c.rainbowDensityPlot(ls, pars, cls, 'tau', Lmax=Lm, **opt)
        else:
            sm, norm = c.rainbowLinePlot(ls, pars, cls, 'tau', alpha=0.7 if rng.random() < 0.5 else 1, **opt)
        lo, hi = (-9., 9.) if other else (min(vals), max(vals))
        rec.near([norm.vmin, norm.vmax], [lo, hi], 'range of the colours', rtol=1e-6)
        cmap = plt.get_cmap('jet')
        col = [cmap(0.05 + 0.85 * (v - lo) / (hi - lo)) for v in vals]
        if density:
            rec.eq(len(ax.images), 1, 'images drawn')
            im = ax.images[0]
            A = np.asarray(im.get_array(), float)
            x0, x1, y0, y1 = im.get_extent()
            if im.origin == 'upper':
                A = A[::-1]
            rec.near([x0, x1], [2, Lm], 'multipoles of the image')
            nb = A.shape[0]
            px = (y1 - y0) / nb
            Y = np.array([y[:Lm - 1] for y in ys])
            rec.check(y0 <= Y.min() + px and y1 >= Y.max() - px, 'spectra outside the image', extent=(y0, y1), spectra=(Y.min(), Y.max()))
            cen = y0 + (np.arange(nb) + 0.5) * px
            flat = np.abs(np.diff(Y, axis=1)).max() < 0.7 * px
            for L in [int(v) for v in rng.integers(8, Lm - 10, 6)]:
                y = Y[:, L]
                a = A[:, L, 3]
                if not flat:
                    continue
                far = np.array([np.min(np.abs(y - v)) > 12 * px for v in cen])
                rec.check(np.all(a[far] < 1e-6), 'image shows spectra where there are none', L=L + 2)
                for k in range(len(y)):
                    here = [m for m in range(len(y)) if np.abs(Y[m] - Y[k]).max() < 1e-6 * px]
                    if min([abs(y[k] - y[m]) for m in range(len(y)) if m not in here] + [1e99]) < 14 * px:
                        continue
                    mean = np.mean([vals[m] for m in here])
                    want = cmap(0.05 + 0.85 * (mean - lo) / (hi - lo))
                    j = [i for i in range(nb) if abs(cen[i] - y[k]) < 2.1 * px]
                    rec.check(j and a[j].max() > 0.75, 'image does not show a spectrum', L=L + 2, value=float(y[k]))
                    rec.near(A[j[len(j) // 2], L, :3], want[:3], 'colour of a spectrum in the image', atol=0.03, L=L + 2)
                    rec.ev('points of images')
        else:
            lines = ax.get_lines()
            rec.eq(len(lines), len(ys), 'lines drawn')
            for l, y, v, e in zip(lines, ys, vals, col):
                rec.near(l.get_xdata(), ls, 'multipoles of the line')
                rec.near(l.get_ydata(), y, 'points of the line', rtol=1e-8, atol=1e-12 * np.abs(y).max())
                rec.near(matplotlib.colors.to_rgba(l.get_color())[:3], e[:3], 'colour of the line', atol=0.03, value=v)
                rec.ev('lines')
        texts = [a_.get_ylabel() for a_ in fig.axes]
        rec.check('$' + (labels.get('tau') or r'\tau') + '$' in texts, 'label of the colours', texts=texts)
    finally:
        plt.close('all')
        c.label_dict.clear()
    rec.sig(density, n, lpow, delta is not None, bool(other), sign)


GROUPS = {'dump': (dump, 120, 3000)}
QUICK_BUDGET = 60
THOROUGH_BUDGET = 300
