import re

import numpy as np

from .. import core

RULE = 'a case is one axis (range, length, font, rotation, limit on the number of ticks, pruned or not) or one finished plot with all its axes; ticks and the labels ' \
       'drawn are compared with the range of the axis, with each other and with the number each label states; distinct = (kind of axis, limit, pruned, number of ticks, magnitude)'
ASSUMPTIONS = ['linear axes from a lower to a higher value', 'range at least a ten-thousandth of the largest value on it',
               'labels are compared at the figures drawn; their extent is that of the Agg renderer']
STEPS = [1, 2, 5, 2.5, 3, 4, 6, 8, 1.5, 7, 9, 10]


def value(text):
    """the number a label states (None if it is not one)"""
    t = text.replace('$', '').replace('\u2212', '-').replace('\\mathdefault', '').replace(' ', '')
    t = re.sub(r'\\times', 'x', t).replace('{', '').replace('}', '')
    if not t:
        return 1.
    m = re.fullmatch(r'(-?[0-9.]*)x?10\^(-?[0-9]+)', t)
    if m:
        return float((m.group(1) + '1' if m.group(1) in ('', '-') else m.group(1)) + 'e' + m.group(2))
    try:
        return float(t)
    except ValueError:
        return None


def ticks_ok(rec, l, v0, v1, nmax=None, **wit):
    w = v1 - v0
    eps = 1e-6 * w
    rec.check(len(l) > 0, 'axis without ticks', range_=(v0, v1), **wit)
    rec.check(all(v0 - eps <= t <= v1 + eps for t in l), 'tick outside the axis', ticks=list(l), range_=(v0, v1), **wit)
    if len(l) > 1:
        d = np.diff(l)
        rec.check(np.all(d > 0), 'ticks out of order or repeated', ticks=list(l), **wit)
        rec.check(np.allclose(d, d[0], rtol=1e-5, atol=1e-9 * max(abs(v0), abs(v1))), 'ticks not evenly spaced', ticks=list(l), **wit)
        if len(l) > 2:
            m = d.mean() / 10 ** np.floor(np.log10(d.mean()) + 1e-7)
            rec.check(min(abs(m - s) for s in STEPS) < 1e-3, 'step between the ticks is not a round number', ticks=list(l), step=m, **wit)
            sc = 10 ** np.floor(np.log10(d.mean()) + 1e-7) / 10
            rec.check(all(abs(t / sc - np.round(t / sc)) < 0.01 for t in l), 'ticks are not at round numbers', ticks=list(l), **wit)
    if nmax:
        rec.check(len(l) <= nmax, 'more ticks than asked for', ticks=list(l), limit=nmax, **wit)


def limits(rng):
    w = 10 ** rng.uniform(-7, 7)
    c = rng.choice([0, 1, -1]) * 10 ** rng.uniform(-3, 3) * w
    v0, v1 = c - w * rng.random(), c + w * rng.random()
    k = rng.random()
    if k < 0.3:
        sc = 10 ** np.floor(np.log10(v1 - v0)) / rng.choice([1, 2, 4, 10])
        v0, v1 = np.floor(v0 / sc) * sc, np.ceil(v1 / sc) * sc
    elif k < 0.4:
        v0 = 0.
        v1 = w
    if not v1 > v0 or v1 - v0 < 1e-4 * max(abs(v0), abs(v1)):
        raise core.Skip
    return float(v0), float(v1)


def locator(rng, rec):
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from getdist.matplotlib_ext import BoundedMaxNLocator
    fig = Figure(figsize=(rng.uniform(1.5, 8), rng.uniform(1.5, 6)), dpi=100)
    FigureCanvasAgg(fig)
    ax = fig.add_axes([0.2, 0.2, 0.7, 0.7])
    nb = 'auto' if rng.random() < 0.5 else int(rng.integers(2, 10))
    prune = bool(rng.random() < 0.5)
    isx = bool(rng.random() < 0.6)
    axis = ax.xaxis if isx else ax.yaxis
    axis.set_major_locator(BoundedMaxNLocator(nbins=nb, prune=prune))
    rot, size = 0., 10.
    if rng.random() < 0.5:
        rot, size = float(rng.choice([0, 45, 90])), float(rng.uniform(5, 14))
        ax.tick_params(axis='x' if isx else 'y', labelrotation=rot, labelsize=size)
    # several ranges on the same axis, as in zooming
    for _ in range(8):
        v0, v1 = limits(rng)
        (ax.set_xlim if isx else ax.set_ylim)(v0, v1)
        l = np.asarray(axis.get_majorticklocs(), float)
        rec.set(range_=(v0, v1), nbins=nb, prune=prune, x=isx, rotation=rot, size=size, figure=fig.get_size_inches().tolist())
        ticks_ok(rec, l, v0, v1, None if nb == 'auto' else nb)
        rec.eq(list(np.asarray(axis.get_majorticklocs(), float)), list(l), 'ticks when asked for again')
        rec.sig(isx, nb, prune, len(l), int(np.log10(v1 - v0)), rot)
        rec.ev('axes')


def sci(rng, rec):
    from getdist.matplotlib_ext import SciFuncFormatter
    f = SciFuncFormatter()
    for _ in range(40):
        nd = int(rng.integers(1, 8))
        x = float('%.*e' % (nd - 1, rng.normal() * 10. ** rng.uniform(-20, 20))) if rng.random() < 0.8 else float(rng.choice([1, -1])) * 10. ** int(rng.integers(-12, 13))
        if rng.random() < 0.05:
            x = 0.
        v = value(f(x, 0))
        rec.check(v is not None and abs(v - x) <= 1e-9 * abs(x), 'label does not state the value of its tick', x=x, label=f(x, 0))
        rec.ev('labels')
    rec.sig('sci', int(np.log10(abs(x)) if x else 0))


def plot(rng, rec):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from getdist import MCSamples, plots
    n = int(rng.integers(2, 4))
    x = np.empty((300, n))
    for i in range(n):
        w = 10 ** rng.uniform(-6, 6)
        x[:, i] = rng.choice([0, 1, -1]) * 10 ** rng.uniform(-2, 2.5) * w + w * rng.normal(size=300)
    names = list('abc')[:n]
    s = MCSamples(samples=x, names=names, labels=names, settings={'ignore_rows': 0}, ranges={'a': (float(x[:, 0].min()), None)} if rng.random() < 0.3 else None)
    size = float(rng.uniform(3, 8))
    kind = str(rng.choice(['1d', '2d', 'triangle', 'many']))
    try:
        if kind in ('1d', '2d') and rng.random() < 0.5:
            g = plots.get_single_plotter(width_inch=size)
        else:
            g = plots.get_subplot_plotter(width_inch=size + (2 if kind != '1d' else 0))
        nmax = None
        if rng.random() < 0.3:
            nmax = g.settings.axis_tick_max_labels = int(rng.integers(2, 6))
        if rng.random() < 0.2:
            g.settings.axis_tick_x_rotation = 45
        if kind == '1d':
            g.plot_1d(s, names[0])
        elif kind == '2d':
            g.plot_2d(s, names[0], names[1], filled=bool(rng.random() < 0.5))
        elif kind == 'triangle':
            g.triangle_plot(s, names)
        else:
            g.plots_1d(s, names, nx=n)
        rot = g.settings.axis_tick_x_rotation
        g.fig.canvas.draw()
        r = g.fig.canvas.get_renderer()
        rec.set(kind=kind, size=size, nmax=nmax, rotation=rot, x=[(float(x[:, i].min()), float(x[:, i].max())) for i in range(n)])
        seen = {}
        for ax in g.fig.axes:
            for axis, dim in ((ax.xaxis, 0), (ax.yaxis, 1)):
                lim = (ax.get_xlim, ax.get_ylim)[dim]()
                loc = np.asarray(axis.get_majorticklocs(), float)
                lab = [(l, p) for l, p in zip(axis.get_ticklabels(), loc) if l.get_text() and l.get_visible() and ax.axison]
                off = axis.get_offset_text().get_text()
                if len(loc) and type(axis.get_major_locator()).__name__ != 'FixedLocator':
                    ticks_ok(rec, loc, min(lim), max(lim), nmax or 7, axis='xy'[dim])
                if not lab:
                    continue
                fac = value(off) if off else 1.
                rec.check(fac is not None, 'text at the end of the axis is not a factor', text=off)
                tol = 0.02 * abs(loc[1] - loc[0]) if len(loc) > 1 else 0.02 * abs(lim[1] - lim[0])
                for l, p in lab:
                    v = value(l.get_text())
                    rec.check(v is not None and abs(v * fac - p) <= tol, 'label does not state the value of its tick', label=l.get_text(), tick=float(p), factor=off)
                    rec.ev('labels')
                if not (dim == 0 and rot):
                    bb = [l.get_window_extent(r) for l, p in lab]
                    lo, hi = [(b.x0, b.y0)[dim] for b in bb], [(b.x1, b.y1)[dim] for b in bb]
                    em = lab[0][0].get_size() * g.fig.dpi / 72.
                    rec.check(all(hi[i] < lo[i + 1] + 0.4 * em for i in range(len(bb) - 1)), 'labels of the axis overlap', labels=[l.get_text() for l, p in lab], axis='xy'[dim],
                              extents=list(zip(lo, hi)))
                rec.ev('axes of plots')
                rec.sig(kind, dim, len(lab), bool(off), rot)
    finally:
        plt.close('all')


GROUPS = {'locator': (locator, 700, 20000), 'sci': (sci, 100, 1000), 'plot': (plot, 120, 3000)}
QUICK_BUDGET = 60
THOROUGH_BUDGET = 300
