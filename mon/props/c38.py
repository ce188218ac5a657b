"""Plots over a grid: which runs each figure compares, of which parameters, under which name"""
import inspect
import os

import numpy as np

from .. import core, gridgen, guard
from .c26 import argv, matches, query
from .c33 import Grid, PARS

RULE = 'a case is a scratch grid with chains for some of its runs and one run of makePlots with generated selections and comparisons; the calls drawing figures and the files exported ' \
       'are recorded and compared with the runs, parameters and names a model of the options gives; in some cases the figures are really drawn; distinct = (mode, options, number of figures)'
ASSUMPTIONS = ['the plotter draws what it is asked to (C24)', 'runs have distinct sets of parameters and data', 'options for labels and plot data files are not used']


class Recorder:
    """records what the plotter is asked for; passes it on when real"""

    def __init__(self, real):
        self.real = real
        self.events = []

    def __enter__(self):
        from getdist import plots
        self.cls = plots.GetDistPlotter
        self.old = {}
        for name in ('plots_1d', 'plots_2d', 'triangle_plot', 'export'):
            self.old[name] = getattr(self.cls, name)
            setattr(self.cls, name, self.wrap(name, self.old[name]))
        return self

    def wrap(self, name, func):
        sig = inspect.signature(func)

        def call(*args, **kwargs):
            b = sig.bind(*args, **kwargs).arguments
            self.events.append((name, {k: v for k, v in b.items() if k != 'self'}))
            if self.real:
                return func(*args, **kwargs)
        return call

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.cls, k, v)


def items(x):
    return [x] if isinstance(x, str) else [str(v) for v in x]


def plots_(rng, rec, real=False):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    mode = str(rng.choice(['each', 'data', 'alldata', 'importance', 'paramtag', 'replacing']))
    variants = []

    def tweak(d):
        # data combinations differing in one of their members
        ds = d['groups'][0]['datasets']
        if mode == 'replacing' and rng.random() < 0.8 and ds:
            import copy
            first = ds[0]
            pool = [n for n in gridgen.DATA if n not in first['names']]
            new = []
            ys = [str(v) for v in rng.choice(pool, min(2, len(pool)), replace=False)]
            if rng.random() < 0.4:
                ys[-1] = first['names'][0] + 'HM'  # a name that contains the other
            for y in ys:
                c = copy.deepcopy(first)
                c['names'] = [y] + list(first['names'])[1:] if rng.random() < 0.5 else list(first['names'])[1:] + [y]
                new.append(c)
                variants.append(y)
            d['groups'][0]['datasets'] = [first] + new
            variants.insert(0, first['names'][0])
    g = Grid(rng, rec, maxruns=4 if real else 14, tweak=tweak)
    q = query(rng, g.runs) if rng.random() < 0.3 else {}
    args = []
    what = str(rng.choice(['1d', '2d', 'tri']))
    D2 = ys = tri = nx = lst = ncol = None
    filled = False
    if what == '2d':
        D2 = PARS[0]
        args += ['--D2_param', D2]
        if rng.random() < 0.7:
            ys = PARS[1:2]
            args += ['--D2_y_params'] + ys
    elif what == 'tri':
        tri = PARS[:2]
        args += ['--tri_params'] + tri
    elif rng.random() < 0.3:
        lst = os.path.join(rec.tmp, 'list.paramnames')
        with open(lst, 'w') as h:
            h.write('tau\tx\nomegabh2\ty\n')
        args += ['--param_list', lst]
    if what != '1d' and rng.random() < 0.5:
        filled = True
        args.append('--filled')
    if rng.random() < 0.3:
        nx = int(rng.integers(1, 4))
        args += ['--nx', nx]
    if rng.random() < 0.2:
        ncol = int(rng.integers(1, 4))
        args += ['--legend_ncol', ncol]
    if rng.random() < 0.2:
        args += ['--size_inch', 2]
    outs = ['pdf']
    if real or rng.random() < 0.5:
        outs = ['png'] if real else [str(v) for v in rng.choice(['pdf', 'png', 'eps'], int(rng.integers(1, 4)), replace=False)]
        args += ['--outputs'] + outs
    tag = None
    if rng.random() < 0.3:
        tag = 'mine'
        args += ['--outtag', tag]
    conv = 0
    if rng.random() < 0.2:
        conv = round(float(np.exp(rng.uniform(-6, 0))), 4) + 1e-6
        args += ['--converge', conv]
    allhave = bool(rng.random() < 0.3)
    if allhave:
        args.append('--allhave')
    ref = None
    some = [g.runs[int(i)] for i in rng.choice(len(g.runs), min(int(rng.integers(1, 4)), len(g.runs)), replace=False)]
    if mode == 'data':
        ref = list(dict.fromkeys(r.datatag if rng.random() < 0.5 else '_'.join(r.names[::-1]) for r in some))
        if len(set('_'.join(sorted(c.replace('_post', '').split('_'))) for c in ref)) < len(ref):
            raise core.Skip
        args += ['--compare_data'] + ref
    elif mode == 'alldata':
        args.append('--compare_alldata')
    elif mode == 'importance':
        tags = sorted(set(r.imptag for r in g.runs if r.imptag))
        ref = [str(v) for v in rng.choice(tags, min(len(tags), int(rng.integers(1, 3))), replace=False)] if tags and rng.random() < 0.5 else []
        args += ['--compare_importance'] + ref
    elif mode == 'paramtag':
        ref = list(dict.fromkeys(r.paramtag for r in some))
        args += ['--compare_paramtag'] + ref
    elif mode == 'replacing':
        pool = sorted(set(n for r in g.runs for n in r.full.names))
        ref = [str(v) for v in rng.choice(pool, min(len(pool), int(rng.integers(2, 4))), replace=False)]
        if variants and rng.random() < 0.85:
            ref = variants[:1] + [str(v) for v in rng.permutation(variants[1:])][:int(rng.integers(1, 3))]
        if len(ref) < 2:
            raise core.Skip
        args += ['--compare_replacing'] + ref
        q = {k: v for k, v in q.items() if k != 'datatag'}
        if rng.random() < 0.3:
            q['data'] = [str(rng.choice(pool))]
    args += argv(rng, q)
    seldata = q.get('data')
    if mode == 'replacing':
        q = dict(q, data=(q.get('data') or []) + ref)
    good = lambda r: g.info[r.name]['chains'] and (not conv or g.info[r.name].get('R') is not None and float(g.info[r.name]['R']) <= conv)
    sel = [r for r in g.runs if matches(q, r) and good(r)]
    norm = lambda t: sorted(t.replace('_post', '').split('_'))
    exp = []
    for t in sorted(set(r.paramtag for r in sel)):
        these = [r for r in sel if r.paramtag == t]
        if mode in ('data', 'alldata'):
            cmp = these if mode == 'alldata' else [r for c in ref for r in these if r.datatag == c or sorted(r.names) == norm(c)]
            if cmp and not (mode == 'data' and allhave and len(cmp) != len(ref)):
                exp.append(([r.name for r in cmp], t))
        else:
            for r in these:
                if mode == 'each':
                    exp.append(([r.name], r.name))
                elif mode == 'importance' and r.parent is None:
                    exp.append(([r.name] + [c.name for c in r.children if c in g.runs and good(c) and (not ref or c.imptag in ref)], r.name))
                elif mode == 'paramtag' and t not in ref:
                    cmp = [x for p in ref for x in g.runs if x.paramtag == p and sorted(x.names) == sorted(r.names) and good(x)]
                    if cmp:
                        exp.append(([r.name] + [x.name for x in cmp], r.name + '-vs-' + '-'.join(ref)))
                elif mode == 'replacing' and ref[0] in r.names:
                    cmp = []
                    for c in [r.names] + [[y if n == ref[0] else n for n in r.names] for y in ref[1:]]:
                        cmp += [x for x in these if sorted(x.names) == sorted(c)]
                    if len(cmp) > 1 and not (allhave and len(cmp) != len(ref)):
                        exp.append(([x.name for x in cmp], r.name + '-vs-' + '-'.join(ref[1:])))
    # parameters asked for are in all the runs
    out = os.path.join(rec.tmp, str(rng.choice(['figs', 'new/figs', 'figs.d'])))
    rec.set(args=[str(a) for a in args], mode=mode)
    cwd = os.path.join(rec.tmp, 'cwd', 'deep')
    os.makedirs(cwd)
    rel = rng.random() < 0.3
    try:
        with Recorder(real) as R:
            res = guard.script('makePlots.py', [g.path, os.path.relpath(out, cwd) if rel else out] + args, cwd, rec.tmp)
    finally:
        plt.close('all')
    rec.check(res.error is None, 'plotting fails', error=res.error)
    rec.eq(res.escaped, [], 'plotting changes files elsewhere')
    figs, last = [], None
    for name, a in R.events:
        if name == 'export':
            rec.check(last is not None, 'figure exported before anything is drawn')
            f = os.path.normpath(os.path.join(cwd, os.path.join(a['adir'], a['fname']) if a.get('adir') else a['fname']))
            last[2].append(f)
        else:
            last = [name, a, []]
            figs.append(last)
    names = [e for _, e in exp]
    order = lambda r: r[:1] + sorted(r[1:]) if mode == 'importance' else r  # importance runs are in no particular order
    rec.eq([order(items(a['roots'])) for _, a, _ in figs], [order(r) for r, _ in exp], 'runs compared in the figures')
    files = []
    for (name, a, fs), (roots, stem) in zip(figs, exp):
        rec.eq(name, {'1d': 'plots_1d', '2d': 'plots_2d', 'tri': 'triangle_plot'}[what], 'kind of figure')
        rec.eq(sorted(os.path.splitext(f)[1][1:] for f in fs), sorted(outs), 'file types')
        for f in fs:
            rec.eq(os.path.dirname(f), out, 'directory of the figures')
            b = os.path.splitext(os.path.basename(f))[0]
            rec.check(b.startswith(stem), 'name of the figure', file=b, stem=stem)
            extra = b[len(stem):].split('_')
            rec.check((tag is None or tag in extra) and (what != 'tri' or 'tri' in extra) and (what != '2d' or (D2 in extra and '2D' in extra)), 'tags in the name of the figure', file=b,
                      stem=stem)
            files.append(f)
        if what == '2d':
            rec.eq(a.get('param1'), D2, 'x parameter')
            rec.eq(a.get('params2'), ys, 'y parameters')
            rec.eq(bool(a.get('filled')), filled, 'filled contours')
        elif what == 'tri':
            rec.eq(a.get('params'), tri, 'parameters of the triangle plot')
            rec.eq(bool(a.get('filled') or a.get('kwargs', {}).get('filled_compare')), filled, 'filled contours')
        else:
            pl = a.get('param_list')
            if isinstance(pl, str):
                with open(os.path.join(cwd, pl)) as h:
                    pl = [x.split()[0] for x in h if x.strip()]
            rec.eq(None if pl is None else [p.name for p in pl.names] if hasattr(pl, 'names') else list(pl), None if lst is None else ['tau', 'omegabh2'], 'parameters listed')
        if what != 'tri':
            rec.eq(a.get('nx'), nx, 'figures on each row')
            rec.eq(a.get('legend_ncol'), ncol or (2 if len(roots) > 2 else 1), 'columns of the legend')
        rec.ev('figures')
    if len(set(names)) == len(names):
        rec.eq(len(set(files)), len(files), 'figures written over one another')
    if real:
        rec.eq(sorted(os.listdir(out)), sorted(os.path.basename(f) for f in set(files)), 'files of figures')
        rec.ev('figures drawn', len(figs))
    rec.sig(mode, what, len(exp), len(ref or []), allhave, bool(conv), real)


def drawn(rng, rec):
    plots_(rng, rec, real=True)


GROUPS = {'options': (plots_, 250, 6000), 'drawn': (drawn, 24, 300)}
QUICK_BUDGET = 60
THOROUGH_BUDGET = 300
