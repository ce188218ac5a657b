import contextlib
import fnmatch
import io
import os
import subprocess
import sys

import numpy as np

from .. import core, gen

RULE = 'a case is one generated chain root with an analysis .ini file, run through the getdist command; every file left behind is compared with the ' \
       'library analysis of the same files and (means, errors, covariances, rows, weights) with an independent reduction of the rows that should survive; ' \
       'plot scripts are executed against a recording plotter; distinct = (burn-in source, selection, options, layout)'
ASSUMPTIONS = ['files are compared at the figures of their format', 'no single sample holds more than a fifth of the total weight (split tests are then undefined)', 'PDF production by a separately launched interpreter (--make_plots) is not observed']

POOL = ['omegabh2', 'omegach2', 'theta', 'tau', 'logA', 'ns', 'mnu', 'w', 'A', 'AL', 'alpha1', 'alpha10', 'x_y', 'H0', 'sigma8']


def same_text(rec, got, exp, msg, rtol=2e-6):
    a, b = got.split(), exp.split()
    ok = len(a) == len(b)
    bad = None
    if ok:
        for x, y in zip(a, b):
            if x == y:
                continue
            try:
                fx, fy = float(x), float(y)
            except ValueError:
                ok, bad = False, (x, y)
                break
            if not (abs(fx - fy) <= rtol * max(abs(fx), abs(fy)) + 1e-30 or (fx != fx and fy != fy)):
                ok, bad = False, (x, y)
                break
    rec.check(ok, msg, differs=bad, got=got[:400], expected=exp[:400])


def unsigned(text):
    """the overall sign of each eigenvector is not defined"""
    a, b = text.split('e-vectors', 1)
    b, c = b.split('Principle components', 1)
    return a + 'e-vectors' + b.replace('-', ' ') + 'Principle components' + c


@contextlib.contextmanager
def workdir(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


class Recorder:
    """stands in for the plotter in generated plot scripts, recording what is asked for"""
    log = []

    def __init__(self, *a, **k):
        Recorder.log.append(('__init__', a, k))
        self.settings = SettingsStub()

    def __getattr__(self, name):
        def f(*a, **k):
            Recorder.log.append((name, a, k))
        return f


class SettingsStub:
    def __getattr__(self, name):
        return lambda *a, **k: None


def run_plot_script(rec, fn):
    import getdist.plots as gp
    names = ['GetDistPlotter', 'get_subplot_plotter', 'get_single_plotter', 'get_plotter', 'getSubplotPlotter', 'getSinglePlotter', 'getPlotter']
    saved = {n: getattr(gp, n) for n in names if hasattr(gp, n)}
    Recorder.log = []
    try:
        for n in saved:
            setattr(gp, n, Recorder)
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        exec(compile(src, fn, 'exec'), {'__name__': '__main__'})
    finally:
        for n, v in saved.items():
            setattr(gp, n, v)
    return Recorder.log


def case(rng, rec):
    from getdist import MCSamples, IniFile, chains
    from getdist.command_line import getdist_command
    from getdist.covmat import CovMat
    from getdist.types import MargeStats
    chains.print_load_details = bool(rng.random() < 0.3)
    top = rec.tmp
    cdir = os.path.join(top, 'chains')
    os.makedirs(cdir)
    p = int(rng.integers(2, 6))
    names = [str(v) for v in rng.choice(POOL, p, replace=False)]
    nder = int(rng.integers(0, p - 1)) if p > 2 else 0
    fixed = int(rng.integers(0, p)) if rng.random() < 0.4 and p > 2 else -1
    root = str(rng.choice(['test', 'base_plik', 'a.b', 'run_1_x', 'Z']))
    sep = str(rng.choice(['_', '_', '.']))
    nch = int(rng.integers(1, 5))
    ischain = bool(rng.random() < 0.88)
    loc, sc = rng.normal(size=p) * 3, 10. ** rng.uniform(-3, 3, p)
    positive = rng.random(p) < 0.5
    rows = {}
    intw = bool(rng.random() < 0.6)
    for c in range(1, nch + 1):
        n = int(rng.choice([40, 60, 80, 120, 200]))
        w, ll, z = gen.mcmc_chain(rng, n, p)
        z[:n // 4] += 4  # burn in is far from the rest
        x = np.where(positive, np.exp(0.3 * z), z + loc) * sc
        if fixed >= 0:
            x[:, fixed] = 0.25
        if not intw:
            w = w * rng.uniform(0.3, 2, n)
        ll = ll + rng.choice([0, 50.])
        rows[c] = np.column_stack([w, ll, x])
        if nch == 1 and rng.random() < 0.5:
            fn = root + '.txt'
        else:
            fn = '%s%s%d.txt' % (root, sep, c)
        np.savetxt(os.path.join(cdir, fn), rows[c] if ischain else x, fmt='%.10e')
    single = os.path.exists(os.path.join(cdir, root + '.txt'))
    # decoys that are not part of the chain
    for d in [root + '_1.txt.bak', root + 'x_1.txt', 'x' + root + '_1.txt', root + '_1_2.txt']:
        np.savetxt(os.path.join(cdir, d), rng.normal(size=(10, p + 2)) ** 2 * 100)
    pn = os.path.join(cdir, root + '.paramnames')
    pnopt = rng.random() < 0.15
    if pnopt:
        pn = os.path.join(top, 'other.paramnames')
    with open(pn, 'w') as f:
        for i, a in enumerate(names):
            f.write('%s%s\t%s\n' % (a, '*' if i >= p - nder else '', 'L_%d' % i))
    if rng.random() < 0.5 and not pnopt:
        with open(os.path.join(cdir, root + '.ranges'), 'w') as f:
            for i, a in enumerate(names):
                f.write('%s %s N\n' % (a, '0' if positive[i] else 'N'))
    # settings
    o = {}
    burn = str(rng.choice(['none', '0', 'frac', 'rows', 'args', 'args rows']))
    ig = {'none': 0, '0': 0, 'frac': float(rng.choice([0.25, 0.5, 0.1])), 'rows': int(rng.choice([1, 3, 10, 25])), 'args': 0.5, 'args rows': int(rng.choice([5, 12]))}[burn]
    args = []
    if burn in ('0', 'frac', 'rows'):
        o['ignore_rows'] = ig
    elif burn.startswith('args'):
        o['ignore_rows'] = float(rng.choice([0.3, 7, 0]))
        args = ['--ignore_rows', str(ig)]
    props = str(rng.choice(['', '', '', 'burn_removed', 'ignore_rows', 'label']))
    if props:
        with open(os.path.join(cdir, root + '.properties.ini'), 'w') as f:
            f.write({'burn_removed': 'burn_removed = T', 'ignore_rows': 'ignore_rows = 8', 'label': 'label = a label'}[props] + '\n')
        if props == 'burn_removed':
            ig = 0
        elif props == 'ignore_rows':
            ig = 8
    sel = dict(rows)
    choice = 'all'
    if not single and nch > 1:
        choice = str(rng.choice(['all', 'all', 'exclude', 'first', 'last']))
        if choice == 'exclude':
            ex = sorted(int(v) for v in rng.choice(np.arange(1, nch + 1), int(rng.integers(1, nch)), replace=False))
            o['exclude_chain'] = ' '.join(map(str, ex))
            sel = {k: v for k, v in rows.items() if k not in ex}
            if rng.random() < 0.5 and [k for k in sel if k <= nch - 1]:
                o['chain_num'] = nch - 1
                sel = {k: v for k, v in sel.items() if k <= nch - 1}
        elif choice == 'first':
            o['first_chain'] = 2
            sel = {k: v for k, v in rows.items() if k >= 2}
        elif choice == 'last':
            o['chain_num'] = nch - 1
            sel = {k: v for k, v in rows.items() if k <= nch - 1}
    if rng.random() < 0.4:
        o['contours'] = str(rng.choice(['0.68 0.95', '0.5', '0.3 0.6 0.9 0.99']))
    if not ischain:
        o['samples_are_chains'] = 'F'
    cool, thin, thin_cool = 1., 0, 1.
    if ischain:
        k = rng.integers(0, 4)
        if k == 0:
            cool = o['cool'] = float(rng.choice([2., 0.5, 1.5]))
        elif k == 1 and intw:
            thin = o['thin_factor'] = int(rng.choice([2, 3, 7]))
            if rng.random() < 0.5:
                thin_cool = o['thin_cool'] = float(rng.choice([2., 0.7]))
    no_tests = bool(rng.random() < 0.3)
    if no_tests:
        o['no_tests'] = 'T'
    elif rng.random() < 0.3:
        o['converge_test_limit'] = float(rng.choice([0.9, 0.5]))
    i = int(rng.integers(0, p))
    if rng.random() < 0.3 and i != fixed:
        x = np.concatenate([v[:, 2 + i] for v in sel.values()])
        lims = [float(x.min() - sc[i]), float(x.max() + sc[i])]
        o['limits[%s]' % names[i]] = '%r %r' % tuple(lims) if rng.random() < 0.7 else 'N %r' % lims[1]
    mi = int(rng.integers(0, p))
    marker = None
    if rng.random() < 0.3 and mi != fixed:
        marker = o['marker[%s]' % names[mi]] = 1.25
    varying = [a for i, a in enumerate(names) if i != fixed]
    pca = None
    if rng.random() < 0.35 and len(varying) > 1:
        pca = [names[i] for i in rng.permutation(p)[:int(rng.integers(2, p + 1))]]
        if len([a for a in pca if a in varying]) > 1:
            o['PCA_params'] = ' '.join(pca)
            if rng.random() < 0.6:
                o['PCA_func'] = ''.join('L' if positive[names.index(a)] and rng.random() < 0.7 else 'N' for a in pca)
            if rng.random() < 0.4 or len([a for a in pca if a in varying]) == 2:
                # (the dominant of two components is not defined: they are equal up to rounding)
                o['PCA_normparam'] = str(rng.choice([a for a in pca if a in varying]))
        else:
            pca = None
    if pnopt:
        o['parameter_names'] = os.path.relpath(pn, top)
    outdir, outroot = './', root
    if rng.random() < 0.6:
        outdir = o['out_dir'] = str(rng.choice(['out', 'chains', 'out/']))
    if rng.random() < 0.3:
        outroot = o['out_root'] = str(rng.choice(['result', 'result', 'v1.2_x']))
    # plots
    no_plots = bool(rng.random() < 0.4)
    plots = {}
    if no_plots:
        o['no_plots'] = 'T'
    else:
        plots['.py'] = None
        if rng.random() < 0.5:
            pp = [str(v) for v in rng.choice(names, int(rng.integers(1, p + 1)), replace=False)]
            o['plot_params'] = ' '.join(pp)
            plots['.py'] = [a for a in pp if a in varying] or None
            if rng.random() < 0.4:
                # a pattern, in the order of the names
                pat = str(rng.choice([names[0][:1] + '*', '*' + names[-1][-1:], '?' * len(names[0]), '*']))
                o['plot_params'] = pat
                plots['.py'] = [a for a in varying if fnmatch.fnmatchcase(a, pat)] or None
        k = str(rng.choice(['none', 'against', 'custom', 'corr']))
        if k == 'against':
            a = o['plot_2D_param'] = str(rng.choice(varying))
            plots['_2D.py'] = sorted([b, a] for b in varying if b != a)
        elif k == 'custom' and len(varying) > 1:
            prs = [[str(v) for v in rng.choice(varying, 2, replace=False)] for _ in range(int(rng.integers(1, 4)))]
            bad = rng.random() < 0.4
            if bad:
                # not a pair: left out, the others are drawn
                prs.insert(int(rng.integers(0, len(prs))), [str(rng.choice(varying))] + (['missing'] if rng.random() < 0.5 else []))
            o['plot_2D_num'] = len(prs)
            for i, q in enumerate(prs):
                o['plot%d' % (i + 1)] = ' '.join(q)
            plots['_2D.py'] = sorted(map(list, set(tuple(q) for q in prs if len(q) == 2 and q[1] != 'missing')))
        elif k == 'corr':
            o['plot_2D_param'] = 'corr'
            plots['_2D.py'] = 'corr'
        if rng.random() < 0.4:
            o['triangle_plot'] = 'T'
            tri = varying
            if rng.random() < 0.6:
                tri = [str(v) for v in rng.choice(names, int(rng.integers(1, p + 1)), replace=False)]
                o['triangle_params'] = ' '.join(tri)
            tri = [a for a in tri if a in varying]
            if len(tri) > 1:
                plots['_tri.py'] = tri
        if rng.random() < 0.3 and len(varying) > 2:
            o['num_3D_plots'] = 1
            t = [str(v) for v in rng.choice(varying, 3, replace=False)]
            o['3D_plot1'] = ' '.join(t)
            plots['_3D.py'] = [t]
    plots_only = not no_plots and rng.random() < 0.15
    if plots_only:
        o['plots_only'] = 'T'
        no_tests = True
    how = str(rng.choice(['file_root', 'argument', 'argument .txt']))
    croot = 'chains/' + root
    if how == 'file_root':
        o['file_root'] = croot
        cargs = []
    else:
        cargs = [croot + ('.txt' if how.endswith('txt') else '')]
    inifn = os.path.join(top, 'dist.ini')
    with open(inifn, 'w') as f:
        for k in sorted(o):
            f.write('%s = %s\n' % (k, o[k]))
    rec.set(options=o, args=args, root=root, chains=nch, props=props, separator=sep, single=single)
    # reference rows
    keep = np.vstack([v[ig if ig >= 1 else int(len(v) * ig):] for v in sel.values()])
    w, ll, X = keep[:, 0].copy(), keep[:, 1].copy(), keep[:, 2:]
    if not ischain:
        w = np.ones(len(w))
    if cool != 1:
        w = w * np.exp(-(cool - 1) * (ll - ll.min()))
        ll = ll * cool
    if w.max() > 0.2 * w.sum():
        raise core.Skip('one sample dominates')
    before = core.tree_state(top)
    buf = io.StringIO()
    try:
        with workdir(top), contextlib.redirect_stdout(buf):
            text = getdist_command(['dist.ini'] + cargs + args)
    finally:
        chains.print_load_details = False
    after = core.tree_state(top)
    # library on the same files and settings
    with workdir(top), contextlib.redirect_stdout(io.StringIO()):
        lib = MCSamples(croot, ini=IniFile(inifn), settings={'ignore_rows': args[1]} if args else None, files_are_chains=ischain, paramNamesFile=pn if pnopt else None)
        files = [f for s in (['_', '.']) for f in chains.chainFiles(croot, separator=s)]
        files = [f for f in dict.fromkeys(files) if single or int(f[:-4].split(sep)[-1]) in sel]
        lib.readChains(files)
        if cool != 1:
            lib.cool(cool)
        lib.updateBaseStatistics()
    rec.eq(lib.numrows, len(w), 'rows in the library analysis')
    rec.near(lib.norm / lib.max_mult, w.sum() / w.max(), 'total weight in the library analysis', rtol=1e-9)
    # files written
    pre = os.path.normpath(os.path.join(outdir, outroot))
    expect = ['.covmat', '.corr'] + list(plots)
    if not plots_only:
        expect += ['.margestats'] + (['.likestats'] if ischain else [])
        if pca:
            expect += ['.PCA']
    if not no_tests:
        expect += ['.converge']
    if thin:
        expect += ['_thin.txt']
    if '_2D.py' in plots and plots['_2D.py'] == 'corr':
        lp = lib.getCorrelatedVariable2DPlots()
        if not lp:
            expect.remove('_2D.py')
            del plots['_2D.py']
        else:
            plots['_2D.py'] = sorted([list(q) for q in lp])
    new = sorted(k for k in after if k not in before and not os.path.isdir(os.path.join(top, k)))
    rec.eq(new, sorted(pre + e for e in expect), 'files written')
    rec.eq({k: v for k, v in after.items() if k in before and k != '.' and k != 'chains'}, {k: v for k, v in before.items() if k != '.' and k != 'chains'}, 'other files untouched')

    def out(e):
        return os.path.join(top, pre + e)

    def read(e):
        with open(out(e), encoding='utf-8') as f:
            return f.read()

    iv = [i for i in range(p) if i != fixed]
    sd = {i: np.sqrt(gen.ref_cov(X[:, i], X[:, i], w)) for i in iv}
    # covariance of the non-derived parameters
    run = [i for i in iv if i < p - nder]
    C = CovMat(out('.covmat'))
    rec.eq(C.paramNames, [names[i] for i in run], 'covariance parameters')
    for a, i in enumerate(run):
        for b, j in enumerate(run):
            rec.near(C.matrix[a, b], gen.ref_cov(X[:, i], X[:, j], w), 'covariance', rtol=1e-6, atol=1e-7 * sd[i] * sd[j])
    R = np.loadtxt(out('.corr'), ndmin=2)
    rec.eq(R.shape, (len(iv), len(iv)), 'correlations of all parameters')
    for a, i in enumerate(iv):
        for b, j in enumerate(iv):
            rec.near(R[a, b], gen.ref_cov(X[:, i], X[:, j], w) / sd[i] / sd[j], 'correlation', atol=2e-7)
    if not no_tests:
        same_text(rec, read('.converge'), lib.getConvergeTests(float(o.get('converge_test_limit', lib.converge_test_limit))), 'convergence file')
        rec.ev('convergence files')
    summary = lib.getNumSampleSummaryText().strip()
    got = text.split('using ', 1)
    rec.check(len(got) == 2, 'summary of the samples')
    if len(got) == 2:
        same_text(rec, ' '.join(('using ' + got[1]).split()[:len(summary.split())]), summary, 'summary of the samples')
        rec.eq(int(got[1].split()[0]), len(w), 'rows reported')
    if thin:
        T = np.loadtxt(out('_thin.txt'), ndmin=2)
        ix = lib.thin_indices(thin)
        rec.eq(len(T), len(ix), 'thinned rows')
        S, L = lib.samples[ix], lib.loglikes[ix]
        rec.near(T[:, 2:], S, 'thinned rows', rtol=2e-7, atol=0)
        rec.near(T[:, 1], L * thin_cool, 'thinned likelihoods', rtol=2e-7, atol=1e-12)
        if thin_cool == 1:
            rec.check(np.all(T[:, 0] == 1), 'unit weights of thinned rows')
        else:
            e = -(thin_cool - 1) * L
            rec.near(np.log(T[:, 0] / T[0, 0]), e - e[0], 'weights of cooled rows', rtol=1e-5, atol=1e-5)
        rec.ev('thinned files')
    if not plots_only:
        m = MargeStats(out('.margestats'))
        rec.eq(m.list(), [names[i] for i in iv], 'parameters of the statistics')
        for q, i in zip(m.names, iv):
            rec.near([q.mean, q.err], [gen.ref_mean(X[:, i], w), sd[i]], 'means and errors', rtol=1e-6, atol=1e-7 * sd[i])
        rec.eq([float(v) for v in m.limits], [float(v) for v in (str(o['contours']).split() if 'contours' in o else lib.contours)], 'limits of the statistics')
        same_text(rec, read('.margestats'), str(lib.getMargeStats()), 'marginalized statistics')
        if ischain:
            same_text(rec, read('.likestats'), str(lib.getLikeStats()), 'likelihood statistics')
            rec.near(lib.getLikeStats().logLike_sample, ll.min(), 'best likelihood', rtol=1e-9)
        if pca:
            same_text(rec, unsigned(read('.PCA')), unsigned(lib.PCA(pca, o.get('PCA_func') or ['N'] * len(pca), o.get('PCA_normparam'))), 'principal components')
            rec.ev('PCA files')
    # plot scripts
    for e, what in plots.items():
        with workdir(top):
            log = run_plot_script(rec, out(e))
            init = [l for l in log if l[0] == '__init__']
            calls = [l for l in log if l[0] in ('plots_1d', 'plots_2d', 'triangle_plot', 'plots_3d')]
            rec.eq([len(init), len(calls), len([1 for l in log if l[0] == 'export'])], [1, 1, 1], 'calls in the plot script', log=[l[0] for l in log])
            cd = init[0][2].get('chain_dir', init[0][1][0] if init[0][1] else None)
            name, a, k = calls[0]
            roots = k.get('roots', a[0] if a else None)
            roots = [roots] if isinstance(roots, str) else list(roots)
            rec.eq([os.path.normpath(os.path.join(cd or '.', r)) for r in roots], [os.path.normpath(croot)], 'chain of the plot script')
            par = list(a[1:2])
            if e == '.py':
                g = k.get('params', par[0] if par else None)
                rec.eq(list(g) if g else None, what, 'parameters of the 1D plots')
                rec.eq(k.get('markers') or {}, {names[mi]: 1.25} if marker else {}, 'markers')
            elif e == '_2D.py':
                g = k.get('param_pairs')
                rec.eq(sorted([list(map(str, q)) for q in g]), what, 'parameters of the 2D plots')
            elif e == '_tri.py':
                g = k.get('params', par[0] if par else None)
                rec.eq(list(g), what, 'parameters of the triangle plot')
            else:
                g = k.get('param_sets', par[0] if par else None)
                rec.eq([list(q) for q in g], what, 'parameters of the 3D plots')
            ex = [l for l in log if l[0] == 'export'][0]
            fn = ex[2].get('fname', ex[1][0] if ex[1] else None)
            rec.eq(os.path.splitext(os.path.normpath(fn))[0], (pre + e)[:-3], 'file exported')
        rec.ev('plot scripts executed')
    rec.sig(burn, ig, props, choice, nch, single, sep, cool, thin, thin_cool, no_tests, plots_only, sorted(plots), bool(pca), outdir, outroot == root, how, ischain, pnopt)


def default(rng, rec):
    """getdist ROOT, wildcards, the template file, and the installed scripts in their own process"""
    from getdist import loadMCSamples, IniFile
    from getdist.command_line import getdist_command
    from getdist.types import MargeStats
    top = rec.tmp
    cdir = os.path.join(top, 'chains')
    os.makedirs(cdir)
    p = 2
    roots = [str(v) for v in rng.choice(['r1', 'r2', 'other', 'r1_x'], int(rng.integers(1, 4)), replace=False)]
    data = {}
    for r in roots:
        for c in range(1, int(rng.integers(2, 4))):
            w, ll, x = gen.mcmc_chain(rng, 100, p)
            gen.write_chain(os.path.join(cdir, '%s_%d.txt' % (r, c)), w, ll, x)
            data.setdefault(r, []).append((w[30:], ll[30:], x[30:]))
        with open(os.path.join(cdir, r + '.paramnames'), 'w') as f:
            f.write('x\tX\ny\tY\n')
    wild = len(roots) > 1 or rng.random() < 0.3
    arg = 'chains/' + ('*' if wild else roots[0])
    sub = rng.random() < 0.3
    rec.set(roots=roots, arg=arg, subprocess=bool(sub))
    before = core.tree_state(top)
    if sub:
        r = subprocess.run([sys.executable, os.path.join(core.EXE, 'GetDist.py'), arg], cwd=top, env=dict(os.environ, PYTHONPATH=core.EXE), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        rec.check(r.returncode == 0, 'runs', output=r.stdout[-500:])
    else:
        with workdir(top), contextlib.redirect_stdout(io.StringIO()):
            getdist_command([arg])
    after = core.tree_state(top)
    rec.eq({k: v for k, v in after.items() if k in before and k != '.'}, {k: v for k, v in before.items() if k != '.'}, 'input files untouched')
    new = [k for k in after if k not in before]
    allowed = [r + e for r in roots for e in ('.covmat', '.corr', '.converge', '.margestats', '.likestats', '.py')]
    rec.check(set(new) <= set(allowed), 'only own output files', new=new)
    for r in roots:
        rec.check(all(r + e in new for e in ('.covmat', '.corr', '.converge', '.margestats', '.likestats')), 'output of every chain', root=r, new=new)
        m = MargeStats(os.path.join(top, r + '.margestats'))
        w, x = np.concatenate([d[0] for d in data[r]]), np.vstack([d[2] for d in data[r]])
        for i, q in enumerate(m.names):
            rec.near([q.mean, q.err], [gen.ref_mean(x[:, i], w), np.sqrt(gen.ref_cov(x[:, i], x[:, i], w))], 'means and errors', rtol=1e-6, atol=1e-8)
        s = loadMCSamples(os.path.join(cdir, r), no_cache=True)
        with open(os.path.join(top, r + '.margestats')) as f:
            same_text(rec, f.read(), str(s.getMargeStats()), 'statistics')
    # template
    with workdir(top), contextlib.redirect_stdout(io.StringIO()):
        getdist_command(['--make_param_file', 'new.ini'])
    ini = IniFile(os.path.join(top, 'new.ini'))
    from getdist import default_getdist_settings
    d = IniFile(default_getdist_settings)
    for k, v in d.params.items():
        rec.eq(ini.params.get(k), v, 'default settings in the template', key=k)
    rec.sig(len(roots), wild, sub, [len(data[r]) for r in roots])


def errors(rng, rec):
    """A request that cannot be satisfied leaves no output claiming to be a result"""
    from getdist.command_line import getdist_command
    top = rec.tmp
    cdir = os.path.join(top, 'chains')
    os.makedirs(cdir)
    w, ll, x = gen.mcmc_chain(rng, 60, 2)
    gen.write_chain(os.path.join(cdir, 'rootx_1.txt'), w, ll, x)
    with open(os.path.join(cdir, 'rootx.paramnames'), 'w') as f:
        f.write('x\tX\ny\tY\n')
    kind = str(rng.choice(['no chain', 'prefix', 'no ini', 'no root', 'excluded']))
    ini = {'no root': 'ignore_rows = 0\nfile_root =\n', 'excluded': 'exclude_chain = 1\n'}.get(kind, 'ignore_rows = 0\n')
    with open(os.path.join(top, 'a.ini'), 'w') as f:
        f.write(ini)
    args = {'no chain': ['a.ini', 'chains/nosuch'], 'prefix': ['a.ini', 'chains/root'], 'no ini': ['b.ini', 'chains/rootx'], 'no root': ['a.ini'], 'excluded': ['a.ini', 'chains/rootx']}[kind]
    before = core.tree_state(top)
    raised = None
    with workdir(top), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            getdist_command(args)
        except SystemExit:
            raised = 'exit'
        except Exception as e:
            raised = type(e).__name__
    rec.check(raised is not None, 'reported as an error', kind=kind)
    rec.eq({k: v for k, v in core.tree_state(top).items() if k != '.'}, {k: v for k, v in before.items() if k != '.'}, 'nothing written', kind=kind)
    rec.sig(kind, raised)


GROUPS = {'case': (case, 300, 1500), 'default': (default, 15, 200), 'errors': (errors, 10, 50)}
QUICK_BUDGET = 120
THOROUGH_BUDGET = 600
