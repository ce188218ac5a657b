import contextlib
import io
import os
import warnings

import numpy as np

from .. import gen

RULE = 'a case draws generated sample sets with a generated plot kind and options while every contour, line and scatter reaching matplotlib is recorded, then compares what ' \
       'each panel shows with densities, levels, rows and labels asked from separately built copies of the same samples; ' \
       'distinct = (plot kind, sets, parameters, options)'
ASSUMPTIONS = ['axis limits without explicit limits may be cut at the prior bounds of the first sample set only',
               'appearance (fonts, spacing, tick positions inside the axis) is not part of the property, apart from colors that identify sets in the legend']
QUICK_BUDGET = 200

ST = {'fine_bins': 256, 'fine_bins_2D': 64, 'num_bins_2D': 24, 'ignore_rows': 0}
POOL = ['x', 'y', 'z1', 'omegabh2', 'H0', 'tau']
TEX = {'x': 'x', 'y': r'y_{\rm a}', 'z1': 'z_1', 'omegabh2': r'\Omega_b h^2', 'H0': 'H_0', 'tau': r'\tau'}


class Set:
    def __init__(self, obj, fresh, names, label, arrays):
        self.obj, self.fresh, self.names, self.label, self.arrays = obj, fresh, names, label, arrays


def make_sets(rng, rec, k, files=None, missing=True, wide=0.3):
    p = int(rng.integers(3, 6))
    names = [str(v) for v in rng.choice(POOL, p, replace=False)]
    bounds = {}
    for nm in names:
        if rng.random() < 0.25:
            bounds[nm] = [(-0.5, None), (None, 0.8), (-0.7, 0.9), (-9., None), (None, 11.), (-8., 9.)][int(rng.integers(0, 6))]
    scale = {nm: 10. ** rng.uniform(-2, 2) if rng.random() < 0.6 else 1. for nm in names}
    files = bool(rng.random() < 0.25) if files is None else files
    out = []
    for i in range(k):
        nm = list(names)
        if i and missing and rng.random() < 0.2:
            nm.remove(str(rng.choice(nm)))
        if i and rng.random() < 0.3:
            nm = [str(v) for v in rng.permutation(nm)]
        n = int(rng.integers(200, 700))
        x = rng.normal(size=(n, len(nm))) * rng.uniform(0.4, 1.2) + rng.normal(size=len(nm)) * 0.4
        if len(nm) > 1:
            x[:, 1] += 0.7 * x[:, 0]
        for j, v in enumerate(nm):
            if v in bounds:
                lo, hi = bounds[v]
                if lo is not None:
                    x[:, j] = lo + np.abs(x[:, j] - lo)
                if hi is not None:
                    x[:, j] = hi - np.abs(hi - x[:, j])
                if lo is not None:
                    x[:, j] = np.clip(x[:, j], lo, hi)
            x[:, j] *= scale[v]
        w = rng.integers(1, 40 if rng.random() < wide else 5, n).astype(float) if rng.random() < max(wide, 0.5) else np.ones(n)
        ll = rng.exponential(2, n)
        ranges = {v: [None if b is None else b * scale[v] for b in bounds[v]] for v in nm if v in bounds}
        label = 'set %d' % i if rng.random() < 0.5 else 'S_%d lab' % i
        kw = dict(names=nm, labels=[TEX[v] for v in nm], ranges=ranges, settings=ST)

        def build():
            s = gen.mc(x.copy(), w.copy(), ll.copy(), **kw)
            s.label = label
            return s

        if files:
            from getdist.mcsamples import loadMCSamples
            root = os.path.join(rec.tmp, 'root%d' % i)
            h = n // 2
            gen.write_chain(root + '_1.txt', w[:h], ll[:h], x[:h], fmt='%.17g')
            gen.write_chain(root + '_2.txt', w[h:], ll[h:], x[h:], fmt='%.17g')
            with open(root + '.paramnames', 'w') as f:
                f.writelines('%s\t%s\n' % (v, TEX[v]) for v in nm)
            with open(root + '.ranges', 'w') as f:
                for v, (lo, hi) in ranges.items():
                    f.write('%s %s %s\n' % (v, 'N' if lo is None else repr(float(lo)), 'N' if hi is None else repr(float(hi))))
            fresh = loadMCSamples(root, no_cache=True, settings=ST)
            rec.near(np.sort(fresh.samples, axis=0), np.sort(x, axis=0), 'samples loaded', rtol=1e-12)
            out.append(Set('root%d' % i, fresh, nm, 'root%d' % i, (fresh.weights.copy(), fresh.loglikes.copy(), fresh.samples.copy())))
        else:
            out.append(Set(build(), build(), nm, label, (w, ll, x)))
    rec.set(params=names, sets=[s.names for s in out], files=files, bounds=bounds)
    return names, out


class Hook:
    """records everything that reaches matplotlib as contours or scatter"""

    def __enter__(self):
        import matplotlib.axes as ma
        self.cls = ma.Axes
        self.orig = {n: getattr(ma.Axes, n) for n in ('contour', 'contourf', 'scatter')}
        self.events = []
        hook = self

        def wrap(name, func):
            def f(ax, *args, **kwargs):
                r = func(ax, *args, **kwargs)
                if name == 'scatter':
                    off = np.asarray(r.get_offsets(), float)
                    hook.events.append(dict(kind=name, ax=ax, xy=off.copy(), array=None if r.get_array() is None else np.array(r.get_array(), float),
                                            colors=np.array(r.get_facecolors()), cmap=r.get_cmap().name))
                else:
                    hook.events.append(dict(kind=name, ax=ax, x=np.array(args[0]), y=np.array(args[1]), Z=np.array(args[2]), levels=np.array(r.levels, float),
                                            colors=[tuple(c[0]) for c in r.tcolors], alpha=r.alpha))
                return r

            return f

        for n, func in self.orig.items():
            setattr(ma.Axes, n, wrap(n, func))
        self.stack = contextlib.ExitStack()
        self.stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
        self.stack.enter_context(warnings.catch_warnings())
        warnings.simplefilter('ignore')
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        for n, func in self.orig.items():
            setattr(self.cls, n, func)
        self.stack.close()
        plt.close('all')

    def of(self, ax, *kinds):
        return [e for e in self.events if e['ax'] is ax and e['kind'] in kinds]


def plotter(rng, rec, single=False):
    import matplotlib
    matplotlib.use('Agg')
    from getdist import plots
    kw = dict(chain_dir=rec.tmp, analysis_settings=ST)
    g = plots.get_single_plotter(width_inch=4, **kw) if single else plots.get_subplot_plotter(subplot_size=2, **kw)
    g.settings.progress = False
    if rng.random() < 0.2:
        g.settings.plot_args = {'alpha': 0.7}
    return g


def rgb(c):
    import matplotlib.colors as mc
    return tuple(np.round(mc.to_rgb(c), 6))


def dens_lines(ax):
    return [l for l in ax.lines if len(l.get_xdata()) > 2]


def markers_of(ax):
    v = [float(l.get_xdata()[0]) for l in ax.lines if len(l.get_xdata()) == 2 and l.get_xdata()[0] == l.get_xdata()[1] and list(l.get_ydata()) == [0, 1]]
    h = [float(l.get_ydata()[0]) for l in ax.lines if len(l.get_xdata()) == 2 and l.get_ydata()[0] == l.get_ydata()[1] and list(l.get_xdata()) == [0, 1]]
    return v, h


def check_1d(rec, ax, sets, par, normalized=False, likes=False, xlim=None, label=True, what=''):
    """the lines in a panel are the densities of the parameter, in order. Returns their colors by set"""
    lines = dens_lines(ax)
    have = [s for s in sets if par in s.names]
    rec.eq(len(lines), len(have) * (2 if likes else 1), what + 'number of density lines', par=par)
    colors = {}
    lo, hi = [], []
    for i, s in enumerate(have):
        d = s.fresh.get1DDensityGridData(par, meanlikes=likes)
        P = d.P
        if normalized:
            P = P / (np.sum((P[1:] + P[:-1]) * np.diff(d.x)) / 2)
        step = 2 if likes else 1
        if i * step >= len(lines):
            break
        l = lines[i * step]
        if rec.eq(len(l.get_xdata()), len(d.x), what + 'density grid', par=par) is False:
            continue
        if len(l.get_xdata()) != len(d.x):
            continue
        rec.near(l.get_xdata(), d.x, what + 'positions of the density line', rtol=1e-9, atol=1e-12 * np.abs(d.x).max())
        rec.near(l.get_ydata(), P, what + 'values of the density line', rtol=1e-3 if normalized else 1e-7, atol=1e-7 * P.max())
        if likes and i * step + 1 < len(lines):
            rec.near(lines[i * step + 1].get_ydata(), d.likes, what + 'mean likelihood line', rtol=1e-7, atol=1e-7)
        colors[id(s)] = rgb(l.get_color())
        b = d.bounds()
        inside(rec, s, par, b)
        lo.append(b[0]), hi.append(b[1])
    if have:
        check_lims(rec, ax.get_xlim(), lo, hi, have[0], par, xlim, what)
        y0, y1 = ax.get_ylim()
        top = max(np.max(l.get_ydata()) for l in lines) if lines else 0
        rec.check(y0 <= 0 and y1 >= top, what + 'whole density in the vertical range', ylim=[y0, y1], top=top)
        if label:
            rec.eq(ax.get_xlabel(), '$' + TEX[par] + '$', what + 'label of the parameter')
    return colors


def inside(rec, s, par, b):
    """the range of a density holds nearly all of the samples"""
    w, _, x = s.arrays
    v = x[:, s.names.index(par)]
    t = 1e-6 * (b[1] - b[0])
    rec.check(np.sum(w[(v >= b[0] - t) & (v <= b[1] + t)]) >= 0.99 * np.sum(w), 'range of the density holds the samples', par=par, bounds=b)


def check_lims(rec, lim, lo, hi, first, par, given=None, what=''):
    if given is not None:
        rec.near(lim, given, what + 'limits that were asked for', rtol=1e-9)
        return
    lo, hi = min(lo), max(hi)
    b0, b1 = first.fresh.getLower(par), first.fresh.getUpper(par)
    e0 = lo if b0 is None else max(lo, b0)
    e1 = hi if b1 is None else min(hi, b1)
    w = hi - lo
    rec.check(lim[0] <= e0 + 1e-6 * w and lim[1] >= e1 - 1e-6 * w, what + 'axis covers the densities', par=par, limits=lim, need=[e0, e1])
    rec.check(lim[0] >= lo - 0.1 * w and lim[1] <= hi + 0.1 * w, what + 'axis no wider than needed', par=par, limits=lim, need=[lo, hi])


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-7 * max(1e-300, np.abs(b).max()))


def check_2d(rec, hook, ax, sets, px, py, filled=False, ncont=2, shaded=False, likes=False, levels=None, what=''):
    """the contours in a panel are the contours of those two parameters, in order, and nothing else is drawn. Returns colors by set"""
    ev = hook.of(ax, 'contour', 'contourf')
    have = [s for s in sets if px in s.names and py in s.names]
    used = set()
    colors, order = {}, []
    fl = filled if isinstance(filled, (list, tuple)) else [filled] * len(sets)
    for s in have:
        d = s.fresh.get2DDensityGridData(px, py, num_plot_contours=ncont, meanlikes=likes)
        f = fl[[i for i, t in enumerate(sets) if t is s][0]]
        lev = sorted(d.contours if levels is None else levels)
        mine = []
        for i, e in enumerate(ev):
            if len(e['levels']) <= 10 and same(e['Z'], d.P) and i not in used:
                mine.append(i)
        rec.check(len(mine) >= 1, what + 'contours of the set are drawn', px=px, py=py, set=s.label, events=[(e['kind'], e['Z'].shape, e['levels']) for e in ev])
        if not mine:
            continue
        mine = [i for i in mine if i < mine[0] + (2 if f else 1)]
        used.update(mine)
        order.append(mine[0])
        e = ev[mine[0]]
        rec.near(e['x'], d.x, what + 'horizontal grid of contours', rtol=1e-9, atol=1e-12 * np.abs(d.x).max())
        rec.near(e['y'], d.y, what + 'vertical grid of contours', rtol=1e-9, atol=1e-12 * np.abs(d.y).max())
        rec.eq(e['kind'], 'contourf' if f else 'contour', what + 'filled or not')
        got = [v for v in e['levels'] if v <= d.P.max()]
        if rec.eq(len(got), len(lev), what + 'number of contours', levels=got, want=lev) is not False and len(got) == len(lev):
            rec.near(got, lev, what + 'contour levels', rtol=1e-6)
        colors[id(s)] = rgb(e['colors'][-1])
    rec.check(order == sorted(order), what + 'sets drawn in order', order=order)
    if shaded and have and have[0] is sets[0]:
        d = have[0].fresh.get2DDensityGridData(px, py, num_plot_contours=ncont, meanlikes=likes)
        sh = [i for i, e in enumerate(ev) if len(e['levels']) > 10]
        rec.check(len(sh) >= 1, what + 'shading drawn')
        for i in sh:
            used.add(i)
            rec.check(same(ev[i]['Z'], d.likes if likes else d.P), what + 'shading of the first set')
    rec.eq(sorted(used), list(range(len(ev))), what + 'nothing else is drawn', px=px, py=py, sets=[s.label for s in sets])
    return colors


def legend_of(g):
    legs = list(g.fig.legends) + [ax.get_legend() for ax in g.fig.axes if ax.get_legend() is not None]
    if not legs:
        return None
    leg = legs[-1]
    texts = [t.get_text() for t in leg.get_texts()]
    cols = []
    hs = getattr(leg, 'legend_handles', None) or leg.legendHandles
    import matplotlib.lines
    for i, h in enumerate(hs):
        if h is None:
            continue
        cols.append(rgb(h.get_color() if isinstance(h, matplotlib.lines.Line2D) else h.get_facecolor()))
    return list(zip(texts, cols))


def check_legend(rec, g, sets, colors, labels, order=None, what=''):
    leg = legend_of(g)
    exp = [(lab, s) for lab, s in zip(labels, sets)]
    if order is not None:
        exp = [exp[i] for i in order]
    if not exp:
        rec.check(leg is None, what + 'no legend for one set')
        return
    if leg is None:
        rec.check(False, what + 'legend is drawn')
        return
    exp = [(lab, s) for lab, s in exp if id(s) in colors]
    leg = [(t, c) for t, c in leg if t in [e[0] for e in exp]] if len(leg) != len(exp) else leg
    rec.eq([t for t, c in leg], [lab for lab, s in exp], what + 'legend entries')
    for (t, c), (lab, s) in zip(leg, exp):
        rec.eq(c, colors[id(s)], what + 'legend entry has the color of its set', entry=lab)


def unchanged(rec, sets, par):
    """drawing does not change the samples"""
    for s in sets:
        if not isinstance(s.obj, str) and par in s.names:
            rec.near(s.obj.get1DDensity(par).P, s.fresh.get1DDensity(par).P, 'densities of the samples not changed by plotting', rtol=1e-9)
            w, ll, x = s.arrays
            rec.check(np.array_equal(s.obj.samples, x) and np.array_equal(s.obj.weights, w), 'samples not changed by plotting')


COLS = ['red', 'blue', 'green', 'orange', 'purple', '#123456', 'c']


def style(rng, k):
    """random color options and the colors expected for each set (None where default)"""
    kw, cols = {}, None
    r = rng.random()
    if r < 0.4:
        cols = [str(c) for c in rng.choice(COLS, k, replace=False)]
        kw['colors'] = list(cols)
    elif r < 0.6:
        cols = [str(c) for c in rng.choice(COLS, k, replace=False)]
        kw['line_args'] = [{'color': c} for c in cols]
    if rng.random() < 0.3:
        kw['ls'] = [str(v) for v in rng.choice(['-', '--', ':'], k)]
    if rng.random() < 0.2:
        kw['lws'] = [float(v) for v in rng.integers(1, 4, k)]
    return kw, cols


def expect_cols(rec, colors, sets, cols):
    if cols is not None:
        for s, c in zip(sets, cols):
            if id(s) in colors:
                rec.eq(colors[id(s)], rgb(c), 'color that was asked for', set=s.label)
    else:
        v = list(colors.values())
        rec.eq(len(set(v)), len(v), 'sets are drawn in different colors')


def oned(rng, rec):
    k = int(rng.integers(1, 4))
    names, sets = make_sets(rng, rec, k)
    roots = [s.obj for s in sets]
    kind = str(rng.choice(['plot_1d', 'plots_1d', 'plots_1d', 'per_param']))
    kw, cols = style(rng, k)
    norm = bool(rng.random() < 0.3)
    use_setting = bool(norm and rng.random() < 0.4)
    likes = bool(rng.random() < 0.15)
    opts = dict(kw)
    with Hook():
        g = plotter(rng, rec, single=kind == 'plot_1d')
        g.settings.plot_meanlikes = likes
        if use_setting:
            g.settings.norm_1d_density = True
        elif norm:
            opts['normalized'] = True
        rec.set(kind=kind, options={a: str(b) for a, b in opts.items()}, norm=norm, likes=likes)
        title = int(rng.choice([0, 0, 1, 2]))
        lab = ['L%d' % i for i in range(k)] if rng.random() < 0.5 else None
        if kind == 'plot_1d':
            par = [n for n in names if all(n in s.names for s in sets)]
            bd = [n for n in par if sets[0].fresh.getLower(n) is not None or sets[0].fresh.getUpper(n) is not None]
            par = str(rng.choice(bd if bd and rng.random() < 0.6 else par))
            lims = None
            if rng.random() < 0.5:
                d = sets[0].fresh.get1DDensity(par)
                lims = [float(d.x[3]), float(d.x[-4])]
                if rng.random() < 0.5:
                    lims = [float(2 * d.x[0] - d.x[-1]), float(2 * d.x[-1] - d.x[0])]
                opts['lims'] = lims
            marker = float(np.median(sets[0].fresh[par])) if rng.random() < 0.4 else None
            if rng.random() < 0.5:
                g.plot_1d(roots if k > 1 or rng.random() < 0.5 else roots[0], par, marker=marker, title_limit=title, **opts)
                ax = g.subplots[0, 0]
            else:
                g.make_figure(2, nx=2)
                g.plot_1d(roots, par, marker=marker, title_limit=title, ax=(0, 1), **opts)
                ax = g.subplots[0, 1]
                rec.check(g.subplots[0, 0] is None or not dens_lines(g.subplots[0, 0]), 'only the chosen panel is drawn in')
            c = check_1d(rec, ax, sets, par, normalized=norm, likes=likes, xlim=lims)
            expect_cols(rec, c, sets, cols)
            if marker is not None:
                rec.near(markers_of(ax)[0], [marker], 'marker', rtol=1e-12)
            if title:
                check_title(rec, ax, sets[0], par, title)
            if lab:
                g.add_legend(lab)
                check_legend(rec, g, sets, c, lab)
            unchanged(rec, sets, par)
        elif kind == 'plots_1d':
            m = int(rng.integers(1, len(names) + 1))
            pars = [str(v) for v in rng.choice(names, m, replace=False)]
            given = pars if rng.random() < 0.8 else None
            if given is None:
                pars = list(sets[0].names)
            marks, mk = {}, None
            if rng.random() < 0.5:
                marks = {p: float(np.median(sets[0].fresh[p])) if rng.random() < 0.7 else 0. for p in pars if rng.random() < 0.6}
                mk = marks if rng.random() < 0.5 else [marks.get(p) for p in pars]
            xl = None
            if rng.random() < 0.2:
                xl = [[float(v) for v in sets[0].fresh.get1DDensity(p).x[[3, -4]]] for p in pars]
            order = [int(v) for v in rng.permutation(k)] if rng.random() < 0.3 and k > 1 else None
            nx = int(rng.integers(1, 4)) if rng.random() < 0.5 else None
            share = [None, True, False][int(rng.integers(0, 3))]
            col, row = g.plots_1d(roots, given, legend_labels=lab, label_order=order, nx=nx, markers=mk, xlims=xl, title_limit=title, share_y=share, **opts)
            rec.check(col * row >= len(pars), 'panels for every parameter')
            axes = [a for a in g.subplots.reshape(-1) if a is not None]
            rec.eq(len(axes), len(pars), 'one panel per parameter')
            c = {}
            for i, (p, ax) in enumerate(zip(pars, axes)):
                ci = check_1d(rec, ax, sets, p, normalized=norm, likes=likes, xlim=xl and xl[i])
                for s in ci:
                    rec.check(s not in c or c[s] == ci[s], 'a set has the same color in every panel')
                c.update(ci)
                rec.check(g.get_axes_for_params(p) is ax, 'panel found by its parameter')
                rec.near(markers_of(ax)[0], [marks[p]] if p in marks else [], 'markers', rtol=1e-12) if len(markers_of(ax)[0]) == (p in marks) else rec.check(False, 'number of markers')
                if title:
                    check_title(rec, ax, sets[0], p, title)
            expect_cols(rec, c, sets, cols)
            check_legend(rec, g, sets, c, lab or ([s.label for s in sets] if k > 1 else []), order)
            unchanged(rec, sets, pars[0])
        else:
            pars = [p for p in names if all(p in s.names for s in sets)]
            pars = [str(v) for v in rng.choice(pars, int(rng.integers(1, len(pars) + 1)), replace=False)]
            per = [[int(v) for v in rng.choice(k, int(rng.integers(1, k + 1)), replace=False)] for _ in pars]
            g.plots_1d([[roots[i] for i in q] for q in per], pars, roots_per_param=True, legend_labels=['q'], **{a: b for a, b in opts.items() if a == 'normalized'})
            axes = [a for a in g.subplots.reshape(-1) if a is not None]
            rec.eq(len(axes), len(pars), 'one panel per parameter')
            for p, ax, q in zip(pars, axes, per):
                check_1d(rec, ax, [sets[i] for i in q], p, normalized=norm, likes=likes)
    rec.sig(kind, k, norm, likes, sorted(opts), title, [s.names for s in sets])


def check_title(rec, ax, s, par, limit):
    cap = s.fresh.getInlineLatex(par, limit=limit)
    t = ax.get_title()
    if '---' in cap:
        rec.eq(t, '', 'no title without a limit')
    else:
        rec.eq(t, '$' + cap + '$', 'limit in the title')


def twod(rng, rec):
    k = int(rng.integers(1, 4))
    names, sets = make_sets(rng, rec, k)
    roots = [s.obj for s in sets]
    kind = str(rng.choice(['plot_2d', 'plots_2d', 'pairs', 'triplets', 'mixture']))
    filled = bool(rng.random() < 0.5)
    shaded = bool(not filled and rng.random() < 0.2)
    kw, cols = style(rng, k)
    kw.pop('ls', None) if filled else None
    if filled and rng.random() < 0.2 and kind == 'plot_2d':
        filled = [bool(rng.random() < 0.5) for _ in range(k)]
    nc = int(rng.choice([1, 2, 2, 2, 3]))
    with Hook() as hook:
        g = plotter(rng, rec, single=kind == 'plot_2d')
        if g.settings.plot_args:
            g.settings.plot_args = None
        likes = g.settings.shade_meanlikes = bool(rng.random() < 0.3)
        g.settings.num_plot_contours = nc
        rec.set(kind=kind, shade_meanlikes=likes, filled=filled, shaded=shaded, nc=nc, options={a: str(b) for a, b in kw.items()})
        lab = ['L%d' % i for i in range(k)] if rng.random() < 0.5 else None
        order = [int(v) for v in rng.permutation(k)] if rng.random() < 0.3 and k > 1 else None
        if kind == 'plot_2d':
            pars = [str(v) for v in rng.choice(names, 2, replace=False)]
            lims = None
            if rng.random() < 0.4:
                d = sets[0].fresh.get2DDensity(*pars)
                lims = [float(d.x[2]), float(d.x[-3]), float(d.y[2]), float(d.y[-3])]
                if rng.random() < 0.5:
                    lims = [float(2 * d.x[0] - d.x[-1]), float(2 * d.x[-1] - d.x[0]), float(2 * d.y[0] - d.y[-1]), float(2 * d.y[-1] - d.y[0])]
                kw['lims'] = lims
            r = rng.random()
            if any(p not in s.names for s in sets for p in pars):
                r = 0.9
            if r < 0.4:
                g.plot_2d(roots, pars[0], pars[1], filled=filled, shaded=shaded, **kw)
            elif r < 0.7:
                g.plot_2d(roots, pars, filled=filled, shaded=shaded, **kw)
            else:
                g.plot_2d(roots, param_pair=pars, filled=filled, shaded=shaded, **kw)
            ax = g.subplots[0, 0]
            c = check_2d(rec, hook, ax, sets, pars[0], pars[1], filled=filled, ncont=nc, shaded=shaded, likes=likes)
            check_2lims(rec, ax, sets, pars, lims)
            expect_cols(rec, c, sets, cols)
            rec.eq((ax.get_xlabel(), ax.get_ylabel()), tuple('$' + TEX[p] + '$' for p in pars), 'axis labels')
            if lab:
                g.add_legend(lab)
                check_legend(rec, g, sets, c, lab)
            if rng.random() < 0.4:
                v = [float(np.median(sets[0].fresh[p])) for p in pars]
                g.add_x_marker(v[0])
                g.add_y_marker(v[1])
                mv, mh = markers_of(ax)
                rec.near(mv + mh, v, 'markers', rtol=1e-12)
        elif kind in ('plots_2d', 'pairs'):
            if kind == 'plots_2d':
                p1 = str(rng.choice(names))
                p2 = [str(v) for v in rng.choice(names, int(rng.integers(1, len(names) + 1)), replace=False)]
                all2 = bool(rng.random() < 0.2)
                pairs = [(p1, q) for q in (sets[0].names if all2 else p2) if q != p1]
                if not pairs:
                    return
                g.plots_2d(roots, p1, None if all2 else p2, legend_labels=lab, label_order=order, filled=filled, shaded=shaded, **kw)
            else:
                pairs = [tuple(str(v) for v in rng.choice(names, 2, replace=False)) for _ in range(int(rng.integers(1, 4)))]
                g.plots_2d(roots, param_pairs=[list(p) for p in pairs], legend_labels=lab, label_order=order, filled=filled, shaded=shaded, nx=int(rng.integers(1, 3)), **kw)
            axes = [a for a in g.subplots.reshape(-1) if a is not None]
            rec.eq(len(axes), len(pairs), 'one panel per pair')
            c = {}
            for (px, py), ax in zip(pairs, axes):
                ci = check_2d(rec, hook, ax, sets, px, py, filled=filled, ncont=nc, shaded=shaded, likes=likes)
                check_2lims(rec, ax, sets, (px, py))
                rec.eq((ax.get_xlabel(), ax.get_ylabel()), tuple('$' + TEX[p] + '$' for p in (px, py)), 'axis labels')
                for s in ci:
                    rec.check(s not in c or c[s] == ci[s], 'a set has the same color in every panel')
                c.update(ci)
                if len(set(pairs)) == len(pairs):
                    rec.check(g.get_axes_for_params(px, py) is ax, 'panel found by its parameters')
                    if (py, px) not in pairs:
                        rec.check(g.get_axes_for_params(py, px) is None, 'panel of the parameters in the other order')
                        rec.check(g.get_axes_for_params(py, px, ordered=False) is ax, 'panel found in either order')
            expect_cols(rec, c, sets, cols)
            if sum(len([s for s in sets if px not in s.names or py not in s.names]) for px, py in pairs) < 2:
                check_legend(rec, g, sets, c, lab or ([s.label for s in sets] if k > 1 else []), order)
        elif kind == 'triplets':
            trip = []
            for _ in range(int(rng.integers(1, 4))):
                s = sets[int(rng.integers(0, k))]
                trip.append((s, *[str(v) for v in rng.choice(s.names, 2, replace=False)]))
            g.plots_2d_triplets([[s.obj, a, b] for s, a, b in trip], filled=filled)
            axes = [a for a in g.subplots.reshape(-1) if a is not None]
            rec.eq(len(axes), len(trip), 'one panel per triplet')
            for (s, px, py), ax in zip(trip, axes):
                check_2d(rec, hook, ax, [s], px, py, filled=filled, ncont=nc)
                check_2lims(rec, ax, [s], (px, py))
        else:
            mixture(rng, rec, g, hook, filled, nc)
    rec.sig(kind, k, filled, shaded, nc, sorted(kw), [s.names for s in sets])


def check_2lims(rec, ax, sets, pars, lims=None):
    have = [s for s in sets if all(p in s.names for p in pars)]
    if not have:
        return
    for j, (p, lim) in enumerate(zip(pars, (ax.get_xlim(), ax.get_ylim()))):
        d = [s.fresh.get2DDensityGridData(pars[0], pars[1], num_plot_contours=2) for s in have]
        g = [v.bounds()[j] for v in d]
        check_lims(rec, lim, [v[0] for v in g], [v[1] for v in g], sets[0], p, None if lims is None else lims[2 * j:2 * j + 2])


def mixture(rng, rec, g, hook, filled, nc):
    """analytic densities in the same plots"""
    from getdist.gaussian_mixtures import GaussianND
    mean = rng.normal(size=3)
    A = rng.normal(size=(3, 3))
    cov = A.dot(A.T) + np.eye(3) * 0.2
    m = GaussianND(mean, cov, names=['x', 'y', 'z1'], labels=[TEX[p] for p in ('x', 'y', 'z1')])
    px, py = [str(v) for v in rng.choice(['x', 'y', 'z1'], 2, replace=False)]
    ix = [['x', 'y', 'z1'].index(p) for p in (px, py)]
    which = str(rng.choice(['plot', 'cov', 'oned', 'proj']))
    rec.set(which=which, px=px, py=py)
    mu, C = mean[ix], cov[np.ix_(ix, ix)]
    if which == 'oned':
        norm = bool(rng.random() < 0.5)
        g.plot_1d([m], px, normalized=norm)
        l = dens_lines(g.subplots[0, 0])[0]
        x = np.array(l.get_xdata())
        P = np.exp(-(x - mu[0]) ** 2 / 2 / C[0, 0])
        if norm:
            P /= np.sqrt(2 * np.pi * C[0, 0])
        rec.near(l.get_ydata(), P, 'analytic density line', rtol=2e-3, atol=2e-3 * P.max())
        rec.eq(g.subplots[0, 0].get_xlabel(), '$' + TEX[px] + '$', 'label')
        return
    if which == 'plot':
        g.plot_2d([m], px, py, filled=filled)
    elif which == 'cov':
        g.add_2d_covariance(mu, C, filled=filled)
    else:
        g.add_2d_mixture_projection(m, px, py, filled=filled)
    ev = hook.of(g.subplots[0, 0], 'contour', 'contourf')
    rec.check(len(ev) >= 1, 'analytic contours drawn')
    e = ev[0]
    X, Y = np.meshgrid(e['x'] - mu[0], e['y'] - mu[1])
    i = np.linalg.inv(C)
    P = np.exp(-0.5 * (i[0, 0] * X ** 2 + 2 * i[0, 1] * X * Y + i[1, 1] * Y ** 2))
    rec.near(e['Z'] / e['Z'].max(), P / P.max(), 'analytic density', rtol=1e-6, atol=1e-6)
    lev = sorted(v / e['Z'].max() for v in e['levels'] if v <= e['Z'].max())
    want = [0.01, 0.05, 0.32][-nc:] if which != 'cov' else [0.05, 0.32]
    rec.eq(len(lev), len(want), 'number of analytic contours')
    rec.near(lev, want, 'analytic contour levels', rtol=0.06)


def triangle(rng, rec):
    k = int(rng.integers(1, 4))
    names, sets = make_sets(rng, rec, k)
    m = int(rng.integers(1, min(4, len(names)) + 1)) if rng.random() < 0.3 else int(rng.integers(2, min(3, len(names)) + 1))
    pars = [str(v) for v in rng.choice(names, m, replace=False)]
    filled = bool(rng.random() < 0.5)
    three = bool(rng.random() < 0.2 and m > 1)
    upper, ukw = None, {}
    if not three and rng.random() < 0.5 and m > 1:
        _, more = make_sets(rng, rec, 1, files=False, missing=False)
        # same parameters as the lower sets
        w, ll, x = more[0].arrays
        up = Set(None, None, names, 'upper', None)
        n = len(w)
        src = sets[0].fresh
        x = np.column_stack([src[p][:min(n, len(src[p]))] * rng.uniform(0.7, 0.9) + 0.1 * src[p].mean() for p in names])
        w = np.ones(len(x))
        ll = rng.exponential(2, len(x))
        rg = {p: [src.getLower(p), src.getUpper(p)] for p in names if src.getLower(p) is not None or src.getUpper(p) is not None}
        for j, p in enumerate(names):
            lo, hi = rg.get(p, [None, None])
            x[:, j] = np.clip(x[:, j], -np.inf if lo is None else lo, np.inf if hi is None else hi)
        up.obj, up.fresh = [gen.mc(x.copy(), w, ll, names=names, labels=[TEX[p] for p in names], ranges=rg, settings=ST) for _ in range(2)]
        up.obj.label = up.fresh.label = 'upper'
        up.arrays = (w, ll, x)
        upper = [up] + ([sets[0]] if rng.random() < 0.4 else [])
    shaded = bool(not filled and not three and rng.random() < 0.15)
    cc = [str(c) for c in rng.choice(COLS, k, replace=False)] if rng.random() < 0.5 else None
    lims = {}
    if rng.random() < 0.3:
        for p in pars:
            if rng.random() < 0.5:
                lims[p] = tuple(float(v) for v in sets[0].fresh.get1DDensity(p).x[[3, -4]])
    marks, mk = {}, None
    if rng.random() < 0.5:
        marks = {p: float(np.median(sets[0].fresh[p])) if rng.random() < 0.7 else 0. for p in pars if rng.random() < 0.6}
        mk = marks if rng.random() < 0.5 else [marks.get(p) for p in pars]
    show = bool(rng.random() < 0.7)
    lab = ['L%d' % i for i in range(k + (1 if upper else 0))] if rng.random() < 0.5 else None
    order = [int(v) for v in rng.permutation(k)] if rng.random() < 0.2 and k > 1 and not upper else None
    title = int(rng.choice([0, 0, 0, 1]))
    nolab = bool(rng.random() < 0.7)
    rec.set(pars=pars, filled=filled, three=three, upper=bool(upper), colors=cc, limits=lims, markers=marks, shaded=shaded)
    with Hook() as hook:
        g = plotter(rng, rec)
        g.settings.plot_args = None
        g.settings.no_triangle_axis_labels = nolab
        kw = {}
        if three:
            kw['plot_3d_with_param'] = str(rng.choice(names))
        if upper:
            kw['upper_roots'] = [s.obj for s in upper]
            if rng.random() < 0.4:
                ukw = {'contour_colors': ['black', 'yellow'][:len(upper)]}
                kw['upper_kwargs'] = ukw
            if not show:
                kw['upper_kwargs'] = ukw = dict(ukw, show_1d=False if rng.random() < 0.5 else [False] * len(upper))
            kw['upper_label_right'] = bool(rng.random() < 0.3)
        g.triangle_plot([s.obj for s in sets], pars, filled=filled, shaded=shaded, contour_colors=cc and list(cc), param_limits=lims, markers=mk, legend_labels=lab,
                        label_order=order, title_limit=title, **kw)
        S = g.subplots
        rec.eq(S.shape, (m, m), 'shape of the triangle')
        roots1d = sets + ([upper[0]] if upper and show else [])
        c1, c2 = {}, {}
        for i, p in enumerate(pars):
            ax = S[i, i]
            ci = check_1d(rec, ax, roots1d, p, xlim=lims.get(p), label=i == m - 1, what='diagonal: ')
            for s in ci:
                rec.check(s not in c1 or c1[s] == ci[s], 'a set has the same color on the diagonal')
            c1.update(ci)
            v, h = markers_of(ax)
            rec.eq([round(float(t), 12) for t in v], [round(marks[p], 12)] if p in marks else [], 'markers on the diagonal')
            if title:
                check_title(rec, ax, sets[0], p, title)
            rec.check(g.get_axes_for_params(p) is ax, 'diagonal found by its parameter')
            for i2 in range(i + 1, m):
                q = pars[i2]
                ax = S[i2, i]
                rec.check(g.get_axes_for_params(p, q) is ax, 'panel found by its parameters')
                if three:
                    check_scatter(rec, hook, ax, sets[0], [p, q, kw['plot_3d_with_param']])
                    ci = check_2d(rec, hook, ax, sets[1:], p, q, filled=filled)
                else:
                    ci = check_2d(rec, hook, ax, sets, p, q, filled=filled, shaded=shaded, what='lower: ')
                for s in ci:
                    rec.check(s not in c2 or c2[s] == ci[s], 'a set has the same color in every panel')
                c2.update(ci)
                rec.near(ax.get_xlim(), S[i, i].get_xlim(), 'column shares its axis with the diagonal', rtol=1e-9)
                rec.near(ax.get_ylim(), S[i2, i2].get_xlim(), 'row shares its axis with the diagonal', rtol=1e-9)
                if i2 == m - 1:
                    rec.eq(ax.get_xlabel(), '$' + TEX[p] + '$', 'label at the bottom')
                if i == 0:
                    rec.eq(ax.get_ylabel(), '$' + TEX[q] + '$', 'label at the left')
                v, h = markers_of(ax)
                rec.eq(([round(float(t), 12) for t in v], [round(float(t), 12) for t in h]),
                       ([round(marks[p], 12)] if p in marks else [], [round(marks[q], 12)] if q in marks else []), 'markers in the panel')
                if upper:
                    ax = S[i, i2]
                    ci = check_2d(rec, hook, ax, upper, q, p, filled=filled, shaded=shaded, what='upper: ')
                    for s in ci:
                        if s == id(upper[0]):
                            rec.check(s not in c2 or c2[s] == ci[s], 'a set has the same color in every panel')
                            c2[s] = ci[s]
                    rec.near(ax.get_xlim(), S[i2, i2].get_xlim(), 'upper column shares its axis', rtol=1e-9)
                    rec.near(ax.get_ylim(), S[i, i].get_xlim(), 'upper row shares its axis', rtol=1e-9)
                    v, h = markers_of(ax)
                    rec.eq(([round(float(t), 12) for t in v], [round(float(t), 12) for t in h]),
                           ([round(marks[q], 12)] if q in marks else [], [round(marks[p], 12)] if p in marks else []), 'markers in the upper panel')
                else:
                    rec.check(S[i, i2] is None, 'upper half is empty')
        expect_cols(rec, {s: v for s, v in c1.items() if not upper or s != id(upper[0])}, sets, cc)
        expect_cols(rec, {s: v for s, v in c2.items() if not upper or s != id(upper[0])}, sets, cc)
        if not upper:
            for s in c2:
                rec.eq(c2[s], c1.get(s, c2[s]), 'same color on the diagonal and below')
        # the legend is for all the contours
        lroots = sets + ([upper[0]] if upper else [])
        labels = lab or ([s.label for s in lroots] if len(lroots) > 1 else [])
        nmiss = len([s for s in sets if any(p not in s.names for p in pars)])
        if nmiss < 1 and (m > 1):
            check_legend(rec, g, lroots, c1 if three else c2, labels, order)
        # a later change of one axis is followed by the panels sharing it
        if m > 1 and rng.random() < 0.6:
            i = int(rng.integers(0, m))
            lo, hi = S[i, i].get_xlim()
            new = (lo + 0.1 * (hi - lo), hi - 0.2 * (hi - lo))
            cand = [('x', S[j, i]) for j in range(i, m)] + [('y', S[i, j]) for j in range(i)]
            if upper:
                cand += [('x', S[j, i]) for j in range(i)] + [('y', S[i, j]) for j in range(i + 1, m)]
            a, ax = cand[int(rng.integers(0, len(cand)))]
            rec.set(changed=(a, [int(v) for v in np.argwhere(S == ax)[0]]))
            (ax.set_xlim if a == 'x' else ax.set_ylim)(new)
            for a, ax in cand:
                rec.near(ax.get_xlim() if a == 'x' else ax.get_ylim(), new, 'panels sharing a parameter keep the same limits', rtol=1e-9, panel=(a, [int(v) for v in np.argwhere(S == ax)[0]]))
        unchanged(rec, sets, pars[0])
    rec.sig(k, m, filled, three, bool(upper), shaded, sorted(lims), sorted(marks), title, cc is None)


def rectangle(rng, rec):
    k = int(rng.integers(1, 4))
    names, sets = make_sets(rng, rec, k, missing=False)
    nx = int(rng.integers(1, 3))
    ny = int(rng.integers(1, 3))
    xp = [str(v) for v in rng.choice(names, nx, replace=False)]
    rest = [n for n in names if n not in xp]
    yp = [str(v) for v in rng.choice(rest, min(ny, len(rest)), replace=False)]
    ny = len(yp)
    filled = bool(rng.random() < 0.5)
    how = str(rng.choice(['roots', 'roots', 'yroots', 'plot_roots']))
    pick = lambda: [int(v) for v in sorted(rng.choice(k, int(rng.integers(1, k + 1)), replace=False))]
    if how == 'roots':
        per = [[list(range(k))] * ny] * nx
    elif how == 'yroots':
        row = [pick() for _ in yp]
        per = [row] * nx
    else:
        per = [[pick() for _ in yp] for _ in xp]
    lims = {}
    if rng.random() < 0.3:
        p = str(rng.choice(xp + yp))
        lims[p] = tuple(float(v) for v in sets[0].fresh.get1DDensity(p).x[[3, -4]])
    lab = ['L%d' % i for i in range(k)] if rng.random() < 0.4 and how == 'roots' else None
    xm = {p: float(np.median(sets[0].fresh[p])) for p in xp if rng.random() < 0.4}
    ym = {p: float(np.median(sets[0].fresh[p])) for p in yp if rng.random() < 0.4}
    cc = [str(c) for c in rng.choice(COLS, k, replace=False)] if rng.random() < 0.4 and how == 'roots' else None
    texts = [['t%d%d' % (a, b) for b in range(ny)] for a in range(nx)] if rng.random() < 0.3 else None
    rec.set(x=xp, y=yp, how=how, per=per, filled=filled, limits=lims)
    with Hook() as hook:
        g = plotter(rng, rec)
        g.settings.plot_args = None
        kw = {'colors': list(cc)} if cc else {}
        ob = [s.obj for s in sets]
        if how == 'roots':
            kw['roots'] = ob
        elif how == 'yroots':
            kw['yroots'] = [[ob[i] for i in q] for q in per[0]]
        else:
            kw['plot_roots'] = [[[ob[i] for i in q] for q in r] for r in per]
        ret = g.rectangle_plot(xp, yp, filled=filled, param_limits=lims, xmarkers=xm if rng.random() < 0.5 else [xm.get(p) for p in xp], ymarkers=ym if rng.random() < 0.5 else [ym.get(p) for p in yp], legend_labels=lab, plot_texts=texts, **kw)
        c = {}
        for a, px in enumerate(xp):
            for b, py in enumerate(yp):
                ax = g.subplots[b, a]
                rec.check(ret[a][b] is ax, 'axes returned')
                ci = check_2d(rec, hook, ax, [sets[i] for i in per[a][b]], px, py, filled=filled)
                if how == 'roots':
                    c.update(ci)
                rec.eq(ax.get_xlabel(), '$' + TEX[px] + '$' if b == ny - 1 else '', 'x label at the bottom only')
                rec.eq(ax.get_ylabel(), '$' + TEX[py] + '$' if a == 0 else '', 'y label at the left only')
                rec.near(ax.get_xlim(), g.subplots[0, a].get_xlim(), 'column shares its axis', rtol=1e-12)
                rec.near(ax.get_ylim(), g.subplots[b, 0].get_ylim(), 'row shares its axis', rtol=1e-12)
                v, h = markers_of(ax)
                rec.eq((v, h), ([xm[px]] if px in xm else [], [ym[py]] if py in ym else []), 'markers')
                if texts:
                    rec.eq([t.get_text() for t in ax.texts], [texts[a][b]], 'text of the panel')
        for ps, lim, ax_of, tr in ((xp, 0, lambda i: g.subplots[0, i], False), (yp, 1, lambda i: g.subplots[i, 0], True)):
            for i, p in enumerate(ps):
                lo, hi = [], []
                for j, q in enumerate(yp if lim == 0 else xp):
                    for s in (per[i][j] if lim == 0 else per[j][i]):
                        d = sets[s].fresh.get2DDensityGridData(*((p, q) if lim == 0 else (q, p)), num_plot_contours=2)
                        gr = d.bounds()[lim]
                        lo.append(gr[0]), hi.append(gr[1])
                check_lims(rec, ax_of(i).get_xlim() if lim == 0 else ax_of(i).get_ylim(), lo, hi, sets[0], p, lims.get(p))
        if how == 'roots':
            expect_cols(rec, c, sets, cc)
            check_legend(rec, g, sets, c, lab or ([s.label for s in sets] if k > 1 else []))
    rec.sig(k, nx, ny, how, filled, sorted(lims), bool(xm), bool(ym))


def check_scatter(rec, hook, ax, s, pars, color=None, alpha_samples=False, thin=None):
    """points are rows of the samples, colored by the third parameter"""
    ev = hook.of(ax, 'scatter')
    rec.eq(len(ev), 1, 'one scatter')
    if not ev:
        return
    e = ev[0]
    w, ll, x = s.arrays
    cols = [s.names.index(p) for p in pars]
    table = {}
    for i, r in enumerate(x[:, cols[:2]]):
        table.setdefault(tuple(r), []).append(i)
    rows = []
    ok = True
    for p in e['xy']:
        t = table.get(tuple(p))
        if t is None:
            ok = False
            break
        rows.append(t[0])
    rec.check(ok, 'points are samples of the set', pars=pars)
    if not ok:
        return
    rec.check(len(rows) > 0, 'some points are drawn')
    if color is not None:
        rec.check(all(rgb(c[:3]) == rgb(color) for c in e['colors']), 'points have the color asked for')
    elif not alpha_samples:
        rec.check(e['array'] is not None and np.array_equal(e['array'], x[rows, cols[2]]), 'points are colored by the third parameter of the same sample', pars=pars)
    else:
        z = x[rows, cols[2]]
        import matplotlib
        cm = matplotlib.colormaps[hook.g.settings.colormap_scatter]
        rec.near(e['colors'][:, :3], cm((z - z.min()) / (z.max() - z.min()))[:, :3], 'points are colored by the third parameter of the same sample', atol=0.02)
    if alpha_samples:
        tot = {}
        for r, a in zip(rows, e['colors'][:, 3]):
            tot[r] = tot.get(r, 0) + a
        r = sorted(tot)
        f = np.array([tot[i] for i in r]) / w[r]
        rec.near(f, np.full(len(f), f[0]), 'opacity of the points proportional to their weight', rtol=1e-6)
        keep = np.nonzero(w > w.max() / 300)[0]
        rec.check(set(keep) <= set(r), 'every sample of significant weight is drawn')
    else:
        rec.check(len(set(rows)) == len(rows), 'a sample is drawn at most once')
        if np.all(w == w[0]):
            rec.eq(len(rows), len(w) if thin is None else -(-len(w) // thin), 'all equally weighted samples are drawn')
        elif thin is None:
            top = np.nonzero(w == w.max())[0]
            rec.check(set(top) <= set(rows), 'samples of maximum weight are drawn')
    # axes include the points
    x0, x1 = ax.get_xlim()
    return rows


def scatter(rng, rec):
    k = int(rng.integers(1, 4))
    alpha_s = bool(rng.random() < 0.3)
    names, sets = make_sets(rng, rec, k, missing=False, wide=0.7 if alpha_s else 0.3)
    roots = [s.obj for s in sets]
    kind = str(rng.choice(['plot_3d', 'plot_3d', 'plots_3d', 'plots_3d_z', 'plot_2d_scatter', 'plot_4d', 'for_plots', 'thin']))
    filled = bool(rng.random() < 0.4)
    pars = [str(v) for v in rng.choice(names, 3, replace=False)]
    rec.set(kind=kind, pars=pars, filled=filled, alpha_samples=alpha_s)
    with Hook() as hook:
        g = hook.g = plotter(rng, rec, single=kind in ('plot_3d', 'plot_2d_scatter', 'plot_4d', 'for_plots', 'thin'))
        g.settings.plot_args = None
        lims = None
        kw = {}
        if kind in ('plot_3d', 'plot_2d_scatter', 'for_plots') and rng.random() < 0.25:
            d = sets[0].fresh.get2DDensity(pars[0], pars[1])
            lims = kw['lims'] = [float(d.x[2]), float(d.x[-3]), float(d.y[2]), float(d.y[-3])]
        if kind == 'plot_3d':
            cb = bool(rng.random() < 0.6)
            g.plot_3d(roots if k > 1 else roots[0], pars, color_bar=cb, filled=filled, alpha_samples=alpha_s, **kw)
            panels = [(g.subplots[0, 0], pars)]
            if cb:
                rec.eq(g.last_colorbar.ax.get_ylabel(), '$' + TEX[pars[2]] + '$', 'label of the color bar')
                z = sets[0].arrays[2][:, sets[0].names.index(pars[2])]
                t = 1e-9 * np.ptp(z)
                rec.check(g.last_colorbar.vmin >= z.min() - t and g.last_colorbar.vmax <= z.max() + t, 'range of the color bar', vmin=g.last_colorbar.vmin, vmax=g.last_colorbar.vmax, z=[z.min(), z.max()])
        elif kind == 'thin':
            thin = int(rng.integers(2, 6))
            g.make_figure(1)
            g.add_3d_scatter(roots[0], pars, extra_thin=thin, color_bar=False, alpha_samples=False)
            check_scatter(rec, hook, g.subplots[0, 0], sets[0], pars, thin=thin)
            panels = []
        elif kind == 'for_plots':
            other = [[str(v) for v in rng.permutation(names)[:2]] for _ in sets[1:]]
            g.plot_3d(roots, params_for_plots=[pars] + other, filled=filled, **kw)
            panels = []
            ax = g.subplots[0, 0]
            check_scatter(rec, hook, ax, sets[0], pars)
            ev = hook.of(ax, 'contourf' if filled else 'contour')
            rec.eq(len(ev), k - 1, 'contours of the other sets')
            for e, s, o in zip(ev, sets[1:], other):
                d = s.fresh.get2DDensityGridData(o[0], o[1], num_plot_contours=2)
                rec.check(same(e['Z'], d.P), 'contours of the parameters for that set', o=o)
            rec.eq((ax.get_xlabel(), ax.get_ylabel()), tuple('$' + TEX[p] + '$' for p in pars[:2]), 'axis labels')
        elif kind == 'plots_3d':
            tr = [[str(v) for v in rng.choice(names, 3, replace=False)] for _ in range(int(rng.integers(1, 4)))]
            g.plots_3d(roots, tr, filled=filled, alpha_samples=alpha_s)
            axes = [a for a in g.subplots.reshape(-1) if a is not None]
            rec.eq(len(axes), len(tr), 'one panel per set of parameters')
            panels = list(zip(axes, tr))
        elif kind == 'plots_3d_z':
            zs = [str(v) for v in rng.permutation(names)[:int(rng.integers(1, len(names)))]] + [pars[2]]
            zs = list(dict.fromkeys(zs))
            g.plots_3d_z(roots, pars[0], pars[1], zs, filled=filled)
            alpha_s = False
            tr = [[pars[0], pars[1], z] for z in zs if z not in pars[:2]]
            axes = [a for a in g.subplots.reshape(-1) if a is not None] if tr else []
            rec.eq(len(axes), len(tr), 'one panel per color parameter')
            panels = list(zip(axes, tr))
        elif kind == 'plot_2d_scatter':
            col = str(rng.choice(COLS))
            g.plot_2d_scatter(roots, pars[0], pars[1], color=col, filled=filled, alpha_samples=alpha_s, **kw)
            ax = g.subplots[0, 0]
            check_scatter(rec, hook, ax, sets[0], pars[:2], color=col, alpha_samples=alpha_s)
            check_2d(rec, hook, ax, sets[1:], pars[0], pars[1], filled=filled)
            check_slims(rec, ax, sets, pars, lims)
            panels = []
        else:
            fourd(rng, rec, g, sets, names)
            panels = []
        for ax, p in panels:
            check_scatter(rec, hook, ax, sets[0], p, alpha_samples=alpha_s)
            check_2d(rec, hook, ax, sets[1:], p[0], p[1], filled=filled)
            check_slims(rec, ax, sets, p, lims)
            rec.eq((ax.get_xlabel(), ax.get_ylabel()), tuple('$' + TEX[q] + '$' for q in p[:2]), 'axis labels')
    rec.sig(kind, k, filled, alpha_s, lims is None)


def check_slims(rec, ax, sets, pars, lims):
    for j, lim in enumerate((ax.get_xlim(), ax.get_ylim())):
        if lims is not None:
            rec.near(lim, lims[2 * j:2 * j + 2], 'limits asked for', rtol=1e-9)
            continue
        v = sets[0].arrays[2][:, sets[0].names.index(pars[j])]
        if np.all(sets[0].arrays[0] == sets[0].arrays[0][0]):
            rec.check(lim[0] <= v.min() + 1e-9 * np.ptp(v) and lim[1] >= v.max() - 1e-9 * np.ptp(v), 'axis covers the points', par=pars[j], lim=lim, need=[v.min(), v.max()])
        for s in sets[1:]:
            d = s.fresh.get2DDensityGridData(pars[0], pars[1], num_plot_contours=2)
            gr = d.bounds()[j]
            b0, b1 = sets[0].fresh.getLower(pars[j]), sets[0].fresh.getUpper(pars[j])
            w = gr[-1] - gr[0]
            rec.check(lim[0] <= max(gr[0], -np.inf if b0 is None else b0) + 1e-6 * w and lim[1] >= min(gr[-1], np.inf if b1 is None else b1) - 1e-6 * w, 'axis covers the contours')


def fourd(rng, rec, g, sets, names):
    pars = [str(v) for v in rng.choice(names, 4)] if len(names) < 4 else [str(v) for v in rng.choice(names, 4, replace=False)]
    lims = {}
    if rng.random() < 0.4:
        p = pars[int(rng.integers(0, 4))]
        lims[p] = tuple(float(v) for v in np.percentile(sets[0].fresh[p], [20, 80]))
    k = len(sets)
    g.plot_4d([s.obj for s in sets], pars, color_bar=False, lims=lims, compare_colors=[COLS[i] for i in range(k - 1)], max_scatter_points=100000)
    ax = g.subplots[0, 0]
    cs = [c for c in ax.collections if hasattr(c, '_offsets3d')]
    rec.eq(len(cs), k, 'one set of points per sample set')
    for c, s in zip(cs, sets):
        w, ll, x = s.arrays
        keep = np.ones(len(w), bool)
        for p, (lo, hi) in lims.items():
            v = x[:, s.names.index(p)]
            keep &= (v > lo) & (v < hi)
        pts = np.column_stack([np.asarray(v) for v in c._offsets3d])
        tab = set(tuple(r) for r in x[keep][:, [s.names.index(p) for p in pars[:3]]])
        rec.check(all(tuple(r) in tab for r in pts), 'points are samples inside the limits')
        if np.all(w == w[0]):
            rec.eq(len(pts), int(keep.sum()), 'all samples inside the limits are drawn')
    rec.eq((ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()), tuple('$' + TEX[p] + '$' for p in pars[:3]), 'axis labels')
    for p, lim in zip(pars, (ax.get_xlim(), ax.get_ylim(), ax.get_zlim())):
        if p in lims and pars.index(p) == list(pars).index(p):
            rec.near(lim, lims[p], 'limits asked for', rtol=1e-9)


def snapshot(g, hook, n0):
    out = []
    for ax in g.subplots.reshape(-1):
        if ax is None:
            out.append(None)
            continue
        d = dict(lines=[(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), rgb(l.get_color()), l.get_linestyle(), round(float(l.get_linewidth()), 6), l.get_alpha()) for l in ax.lines],
                 cont=[(e['kind'], e['Z'], e['levels'], tuple(map(rgb, e['colors'])), e['alpha']) for e in hook.events[n0:] if e['ax'] is ax and e['kind'] != 'scatter'],
                 xlim=ax.get_xlim(), ylim=ax.get_ylim(), labels=(ax.get_xlabel(), ax.get_ylabel(), ax.get_title()))
        out.append(d)
    return out, legend_of(g)


def equal(a, b):
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(equal(a[q], b[q]) for q in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(a, float):
        return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-6, atol=1e-9)
    return a == b


def history(rng, rec):
    """what a plotter draws does not depend on what it drew before"""
    from getdist import plots
    k = int(rng.integers(1, 4))
    names, sets = make_sets(rng, rec, k, files=bool(rng.random() < 0.5), missing=False)
    steps = int(rng.integers(2, 5))
    ops = []
    for _ in range(steps):
        kind = str(rng.choice(['plot_1d', 'plots_1d', 'plot_2d', 'plots_2d', 'triangle', 'rectangle']))
        pars = [str(v) for v in rng.choice(names, 2, replace=False)]
        sub = [int(v) for v in sorted(rng.choice(k, int(rng.integers(1, k + 1)), replace=False))]
        st, _ = style(rng, len(sub))
        ops.append((kind, pars, sub, st, dict(norm=bool(rng.random() < 0.4), filled=bool(rng.random() < 0.5), nc=int(rng.choice([1, 2, 2, 3])), likes=bool(rng.random() < 0.2), shade=bool(rng.random() < 0.4), shaded=bool(rng.random() < 0.5))))
    rec.set(ops=[str(o) for o in ops])
    pa = [None, None, {'alpha': 0.5}, [{'lw': 3}, {'alpha': 0.4}]][int(rng.integers(0, 4))]

    def draw(g, op, objs):
        kind, pars, sub, st, o = op
        r = [objs[i] for i in sub]
        st = {a: (list(b) if isinstance(b, list) else b) for a, b in st.items()}
        g.settings.num_plot_contours = o['nc']
        g.settings.plot_meanlikes = o['likes']
        g.settings.shade_meanlikes = o['shade']
        sh = o['shaded'] and not o['filled']
        if kind in ('plot_1d', 'plot_2d'):
            g.new_plot()
        before = repr(st)
        if kind == 'plot_1d':
            g.plot_1d(r, pars[0], normalized=o['norm'], **st)
        elif kind == 'plots_1d':
            g.plots_1d(r, pars, normalized=o['norm'], **st)
        elif kind == 'plot_2d':
            g.plot_2d(r, pars, filled=o['filled'], shaded=sh, **st)
        elif kind == 'plots_2d':
            g.plots_2d(r, param_pairs=[pars], filled=o['filled'], shaded=sh, **st)
        elif kind == 'triangle':
            g.triangle_plot(r, pars, filled=o['filled'], shaded=sh, contour_colors=st.get('colors'))
        else:
            g.rectangle_plot([pars[0]], [pars[1]], roots=r, filled=o['filled'], **st)
        rec.eq(repr(st), before, 'arguments are not changed')

    def make():
        g = plots.get_subplot_plotter(subplot_size=2, chain_dir=rec.tmp, analysis_settings=ST)
        g.settings.progress = False
        import copy
        g.settings.plot_args = copy.deepcopy(pa)
        return g

    import matplotlib
    matplotlib.use('Agg')
    with Hook() as hook:
        g = make()
        for i, op in enumerate(ops):
            n0 = len(hook.events)
            draw(g, op, [s.obj for s in sets])
            got = snapshot(g, hook, n0)
            n1 = len(hook.events)
            f = make()
            draw(f, op, [s.fresh for s in sets] if not isinstance(sets[0].obj, str) else [s.obj for s in sets])
            exp = snapshot(f, hook, n1)
            rec.check(equal(got[0], exp[0]), 'plot does not depend on earlier plots', step=i, op=str(op))
            rec.check(equal(got[1], exp[1]), 'legend does not depend on earlier plots', step=i, op=str(op), got=got[1], want=exp[1])
            # refresh the independent copies so their caches are also new
            for s in sets:
                s.fresh = refresh(s, rec)
        rec.eq(g.settings.plot_args, pa, 'settings are not changed by plotting')
    rec.sig(k, [o[0] for o in ops], pa is None, isinstance(sets[0].obj, str))


def refresh(s, rec):
    if isinstance(s.obj, str):
        return s.fresh
    w, ll, x = s.arrays
    f = s.fresh
    rg = {p: [f.getLower(p), f.getUpper(p)] for p in s.names if f.getLower(p) is not None or f.getUpper(p) is not None}
    n = gen.mc(x.copy(), w.copy(), ll.copy(), names=s.names, labels=[TEX[p] for p in s.names], ranges=rg, settings=ST)
    n.label = s.label
    return n


def sizes(rng, rec):
    """figure sizes, arrangement of panels and exported files are as asked for"""
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    from getdist import plots
    kw = dict(chain_dir=rec.tmp, analysis_settings=ST)
    size = float(rng.choice([1.5, 2, 3.2]))
    width = float(rng.choice([4, 6.5, 9])) if rng.random() < 0.5 else None
    ratio = float(rng.choice([0.6, 1.2])) if rng.random() < 0.5 else None
    rec.set(size=size, width=width, ratio=ratio)
    if rng.random() < 0.3:
        g = plots.get_single_plotter(width_inch=width, ratio=ratio, **kw)
        w = width or 6.
        rec.near(g.fig.get_size_inches(), [w, w * (ratio or 0.75)], 'size of a single plot', rtol=1e-9)
        rec.eq(g.subplots.shape, (1, 1), 'panels of a single plot')
        plt.close(g.fig)
    g = plots.get_subplot_plotter(subplot_size=size, width_inch=width, subplot_size_ratio=ratio, **kw)
    n = int(rng.integers(1, 13))
    nx = int(rng.integers(1, 5)) if rng.random() < 0.4 else None
    ny = int(rng.integers(1, 5)) if rng.random() < 0.3 else None
    if nx and ny and nx * ny < n:
        n = nx * ny
    xs, ys = float(rng.choice([1, 1, 1.5])), float(rng.choice([1, 1, 0.8]))
    col, row = g.make_figure(n, nx=nx, ny=ny, xstretch=xs, ystretch=ys)
    rec.set(n=n, nx=nx, ny=ny, stretch=(xs, ys), got=(col, row))
    rec.eq(g.subplots.shape, (row, col), 'array of panels')
    rec.check((not nx or col == nx) and (not ny or row == ny), 'number of columns and rows given')
    rec.check(col * row >= n, 'a panel for every plot')
    if not (nx and ny):
        rec.check(col * row - n < max(col, row), 'no empty row or column')
    if width:
        rec.near(g.fig.get_size_inches(), [width, width * row * ys * (ratio or 1) / (col * xs)], 'figure of the width given', rtol=1e-9)
    else:
        rec.near(g.fig.get_size_inches(), [size * col * xs, size * row * ys * (ratio or 1)], 'panels of the size given', rtol=1e-9)
    # export
    i = int(rng.integers(0, row)) * col + int(rng.integers(0, col))
    ax = g.fig.add_subplot(row, col, i + 1)
    ax.plot([0, 1], [1, 0])
    sub = str(rng.choice(['plots', 'a.b', 'v1.0' + os.sep + 'new']))
    ext = str(rng.choice(['', '.pdf', '.png', '.svg']))
    tag = str(rng.choice(['final', 'x2'])) if rng.random() < 0.4 else None
    mark = 'PRELIM' if rng.random() < 0.2 else None
    if rng.random() < 0.5:
        a = dict(fname='fig_1' + ext, adir=os.path.join(rec.tmp, sub))
    else:
        a = dict(fname=os.path.join(rec.tmp, sub, 'fig_1' + ext))
        if rng.random() < 0.5:
            a['fname'] = os.path.relpath(a['fname'])
        if rng.random() < 0.5:
            a['adir'] = os.path.join(rec.tmp, 'unused')
    g.export(tag=tag, watermark=mark, **a)
    exp = os.path.join(rec.tmp, sub, 'fig_1' + ('_' + tag if tag else '') + (ext or '.pdf'))
    got = [os.path.join(d, f) for d, _, fs in os.walk(rec.tmp) for f in fs if 'fig_1' in f]
    rec.eq(got, [exp], 'exported file', tag=tag)
    with open(exp, 'rb') as f:
        head = f.read(400)
    rec.check({'.pdf': b'%PDF', '.png': b'PNG', '.svg': b'<svg'}[ext or '.pdf'] in head, 'type of the exported file')
    rec.eq([x.get_text() for x in g.fig.texts], [mark] if mark else [], 'watermark')
    plt.close(g.fig)
    rec.sig('sizes', n, nx, ny, width is None, ratio is None, ext, tag is None)


def analyser(rng, rec):
    """densities and rows that a plotter holds are those of the samples as they are now, whatever was asked before"""
    from getdist import plots
    import matplotlib
    matplotlib.use('Agg')
    k = int(rng.integers(1, 3))
    names, sets = make_sets(rng, rec, k, files=False, missing=False)
    ops = []
    with Hook():
        g = plots.get_subplot_plotter(subplot_size=2, chain_dir=rec.tmp, analysis_settings=ST)
        g.settings.progress = False
        a = g.sample_analyser
        state = [dict(st={}, w=s.arrays[0].copy(), ll=s.arrays[1].copy(), x=s.arrays[2].copy(), extra=[]) for s in sets]

        def now(i):
            s, t = sets[i], state[i]
            f = sets[i].fresh
            rg = {p: [f.getLower(p), f.getUpper(p)] for p in s.names if f.getLower(p) is not None or f.getUpper(p) is not None}
            return gen.mc(t['x'].copy(), t['w'].copy(), t['ll'].copy(), names=s.names, labels=[TEX[p] for p in s.names], ranges=rg, settings=dict(ST, **t['st']))

        for _ in range(int(rng.integers(6, 16))):
            i = int(rng.integers(0, k))
            s, t = sets[i], state[i]
            op = str(rng.choice(['1d', '1d', '1d', '2d', '2d', '2d', '2d', 'filter', 'reweight', 'settings', 'plot', 'change', 'single']))
            ops.append(op)
            rec.set(ops=ops, now=i)
            if op == 'filter':
                keep = rng.random(len(t['w'])) < 0.8
                s.obj.filter(keep)
                t['w'], t['ll'], t['x'] = t['w'][keep], t['ll'][keep], t['x'][keep]
            elif op == 'reweight':
                v = rng.exponential(0.3, len(t['w']))
                s.obj.reweightAddingLogLikes(v)
                t['ll'] = t['ll'] + v
                t['w'] = t['w'] * np.exp(-(v - v.min()))
                # only relative weights are defined
                t['w'] *= np.sum(s.obj.weights) / np.sum(t['w'])
            elif op == 'settings':
                st = dict([('smooth_scale_1D', 0.3), ('smooth_scale_1D', 0.5), ('smooth_scale_2D', 0.4), ('contours', '0.5 0.9 0.97')][int(rng.integers(0, 4))] for _ in range(2))
                t['st'].update(st)
                s.obj.updateSettings(settings=dict(ST, **t['st']))
            elif op == 'change':
                # values changed in place, as after adding to or scaling a parameter
                j = int(rng.integers(0, len(s.names)))
                f = s.fresh
                if f.getLower(s.names[j]) is not None or f.getUpper(s.names[j]) is not None:
                    continue
                v = rng.normal(size=len(t['w'])) * 0.3 * np.std(t['x'][:, j])
                s.obj.samples[:, j] += v
                t['x'][:, j] += v
                s.obj._weightsChanged() if rng.random() < 0.5 else s.obj.setSamples(s.obj.samples, s.obj.weights, s.obj.loglikes)
            elif op == 'plot':
                p, q = [str(v) for v in rng.choice(s.names, 2, replace=False)]
                g.settings.shade_meanlikes = bool(rng.random() < 0.5)
                g.plot_2d([s.obj], [p, q])
                g.triangle_plot([s.obj], [p, q], filled=True)
            elif op == 'single':
                # unit weight rows: only rows of the samples
                r = a.load_single_samples(s.obj)
                have = set(map(tuple, t['x']))
                rec.check(all(tuple(v) in have for v in np.asarray(r)[:, :t['x'].shape[1]]), 'single samples are rows of the samples as they are now')
            elif op == '1d':
                p = str(rng.choice(s.names)) if rng.random() < 0.4 else s.names[0]
                likes = bool(rng.random() < 0.4)
                d = a.get_density(s.obj, p if rng.random() < 0.5 else s.obj.paramNames.parWithName(p), likes=likes)
                e = now(i).get1DDensityGridData(p, meanlikes=likes)
                if rec.eq(len(d.x), len(e.x), 'grid of the density held by a plotter') is False or len(d.x) != len(e.x):
                    continue
                rec.near(d.x, e.x, 'positions of the density held by a plotter', rtol=1e-7, atol=1e-9 * np.abs(e.x).max())
                rec.near(d.P, e.P, 'density held by a plotter', rtol=1e-6, atol=1e-7)
                if likes:
                    rec.near(d.likes, e.likes, 'mean likelihoods held by a plotter', rtol=1e-5, atol=1e-6)
            else:
                p, q = s.names[:2] if rng.random() < 0.7 else [str(v) for v in rng.choice(s.names, 2, replace=False)]
                likes = bool(rng.random() < 0.5)
                conts = int(rng.choice([1, 2, 2, 2, 3]))
                par = s.obj.paramNames.parWithName
                d = a.get_density_grid(s.obj, par(p), par(q), conts=conts, likes=likes)
                e = now(i).get2DDensityGridData(p, q, num_plot_contours=conts, meanlikes=likes)
                if d.P.shape != e.P.shape:
                    rec.check(False, 'grid of the density held by a plotter', got=d.P.shape, want=e.P.shape)
                    continue
                rec.near(d.P, e.P, '2D density held by a plotter', rtol=1e-5, atol=1e-6)
                rec.eq(len(d.contours), len(e.contours), 'number of contours held by a plotter')
                if len(d.contours) == len(e.contours):
                    rec.near(d.contours, e.contours, 'contours held by a plotter', rtol=1e-4, atol=1e-6)
                if likes:
                    rec.near(d.likes, e.likes, '2D mean likelihoods held by a plotter', rtol=1e-4, atol=1e-5)
    rec.sig(k, ops)


def annotate(rng, rec):
    """bands, markers, lines and renamed parameters are drawn where they were asked for"""
    from getdist import plots
    from matplotlib.patches import Polygon, Rectangle
    k = int(rng.integers(1, 3))
    names, sets = make_sets(rng, rec, k, files=False, missing=False)
    kind = str(rng.choice(['bands', 'curve', 'renames', 'renames']))
    rec.set(kind=kind)
    with Hook():
        g = plotter(rng, rec, single=kind != 'renames')
        g.settings.plot_args = None
        if kind == 'bands':
            p, q = [str(v) for v in rng.choice(names, 2, replace=False)]
            g.plot_2d([s.obj for s in sets], [p, q])
            ax = g.subplots[0, 0]
            lim = (ax.get_xlim(), ax.get_ylim())
            for axis in ('x', 'y', 'x'):
                n0 = len(ax.patches)
                v = float(np.mean(sets[0].fresh[p if axis == 'x' else q]))
                sg = float(np.std(sets[0].fresh[p if axis == 'x' else q])) * 0.3
                a1, a2 = [(0.15, 0.1), (0.4, 0.2), (0, 0.3), (0.3, 0), (0, 0)][int(rng.integers(0, 5))]
                kw = dict(alpha1=a1, alpha2=a2) if rng.random() < 0.8 else {}
                a1, a2 = kw.get('alpha1', 0.15), kw.get('alpha2', 0.1)
                (g.add_x_bands if axis == 'x' else g.add_y_bands)(v, sg, color='red', **kw)
                got = []
                for t in ax.patches[n0:]:
                    e = t.get_path().vertices if isinstance(t, Polygon) else np.array([[t.get_x(), t.get_y()], [t.get_x() + t.get_width(), t.get_y() + t.get_height()]])
                    e = e[:, 0 if axis == 'x' else 1]
                    got.append((e.min(), e.max(), t.get_alpha()))
                    rec.eq(rgb(t.get_facecolor()), rgb('red'), 'color of the band')
                want = ([(v - 2 * sg, v + 2 * sg, a2)] if a2 else []) + ([(v - sg, v + sg, a1)] if a1 else [])
                rec.eq(len(got), len(want), 'number of bands')
                if len(got) == len(want) and want:
                    rec.near(np.array(sorted(got), float), np.array(sorted(want), float), 'position and strength of the bands', rtol=1e-9, atol=1e-12, axis=axis)
            rec.near(lim, (ax.get_xlim(), ax.get_ylim()), 'bands do not change the limits', rtol=0.6)
        elif kind == 'curve':
            g.make_figure(1)
            ax = g.get_axes()
            x = np.sort(rng.normal(size=12))
            y = rng.normal(size=12)
            err = rng.uniform(0.1, 0.5, 12)
            nb = int(rng.integers(1, 4))
            al = [(0.25, 0.15, 0.1), (0.5, 0.3, 0.2)][int(rng.integers(0, 2))]
            cen = float(rng.choice([0, 1.5])) if rng.random() < 0.8 else None
            kw = {} if al[0] == 0.25 and rng.random() < 0.5 else {'alphas': al}
            n0, l0 = len(ax.collections), len(ax.lines)
            g.add_bands(x, y, err, color='green', nbands=nb, lw_center=cen, linecolor='b', **kw)
            col = ax.collections[n0:]
            fills = {}
            for c in col:
                v = c.get_paths()[0].vertices
                fills[round(float(c.get_alpha() if c.get_alpha() is not None else 1), 6)] = v
            rec.eq(sorted(fills), sorted(round(a, 6) for a in al[:nb]), 'strengths of the bands')
            for i in range(nb):
                v = fills.get(round(al[i], 6))
                if v is None:
                    continue
                for xx, yy, ee in zip(x, y, err):
                    s = v[np.abs(v[:, 0] - xx) < 1e-12][:, 1]
                    rec.near([s.min(), s.max()], [yy - (i + 1) * ee, yy + (i + 1) * ee], 'edges of the band', rtol=1e-9, atol=1e-12)
            lines = [l for l in ax.lines[l0:] if len(l.get_xdata()) == 12 and np.allclose(l.get_ydata(), y)]
            rec.eq(len(lines), 1 if cen else 0, 'central line')
        else:
            # the second set calls the parameters by other names
            p = [str(v) for v in rng.choice(names, 2, replace=False)]
            alt = {v: v + '_other' for v in p}
            f = sets[0].fresh
            w, ll, x = sets[0].arrays
            x2 = x * 0.9
            nm2 = [alt.get(v, v) for v in sets[0].names]
            own = bool(rng.random() < 0.4)
            # the first set may know other aliases of the parameters
            ren = {p[0]: ['known'], p[1]: 'known2'} if rng.random() < 0.5 else {}
            first = bool(not own and ren and rng.random() < 0.5)
            if first:
                # the first set knows what the second calls them
                ren = {p[0]: ['known', alt[p[0]]], p[1]: ['known2', alt[p[1]]]}
            st = {'ignore_rows': 0}
            mk = lambda: gen.mc(x.copy(), w.copy(), ll.copy(), names=sets[0].names, labels=[TEX[v] for v in sets[0].names], renames=ren, settings=ST)
            r2 = {alt[v]: [v] for v in p} if own else {}
            mk2 = lambda: gen.mc(x2.copy(), w.copy(), ll.copy(), names=nm2, labels=[TEX[v] for v in sets[0].names], renames=r2, settings=ST)
            s1, s2 = mk(), mk2()
            d = {} if own else dict(param_renames={v: alt[v] if rng.random() < 0.5 else ['nothing_' + v, alt[v]] for v in p})
            if first:
                d = {} if rng.random() < 0.4 else dict(param_renames={p[0]: 'unused', p[1]: ['unused2']})
            pl = None
            if rng.random() < 0.4:
                pl = os.path.join(rec.tmp, 'list.paramnames')
                keep = p[:1] if rng.random() < 0.5 else p
                with open(pl, 'w') as fh:
                    fh.writelines('%s\tq\n' % (alt[v] if not own and not first and isinstance(d['param_renames'].get(v), str) and rng.random() < 0.6 else v) for v in keep)
            else:
                keep = p
            given = list(p)
            if ren and not first and rng.random() < 0.5:
                given = ['known', p[1]]
                if not own:
                    d['param_renames'] = dict(d['param_renames'], known=alt[p[0]])
            rec.set(own=own, ren=ren, given=given, options=str(d), keep=keep)
            g.plots_1d([s1, s2], given, param_list=pl, **d)
            axes = [a for a in g.subplots.reshape(-1) if a is not None]
            rec.eq(len(axes), len(keep), 'one panel per parameter of the list')
            for v, ax in zip(keep, axes):
                l = dens_lines(ax)
                rec.eq(len(l), 2, 'both sets are drawn, whatever they call the parameter', par=v)
                if len(l) == 2:
                    rec.near(l[0].get_ydata(), mk().get1DDensityGridData(v).P, 'density of the first set', rtol=1e-7, atol=1e-7)
                    rec.near(l[1].get_ydata(), mk2().get1DDensityGridData(alt[v]).P, 'density of the second set under its own name', rtol=1e-7, atol=1e-7)
    rec.sig(kind, k, names)


GROUPS = {'analyser': (analyser, 40, 600), 'annotate': (annotate, 50, 800), 'oned': (oned, 60, 900), 'twod': (twod, 60, 900), 'triangle': (triangle, 50, 800), 'rectangle': (rectangle, 40, 600), 'scatter': (scatter, 50, 800), 'history': (history, 40, 600), 'sizes': (sizes, 60, 900)}
