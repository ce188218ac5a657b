"""Reports made from the results of runs: tables over grids, comparisons, latex constraints, best-fit and chain extracts"""
import os
import re
import stat

import numpy as np

from .. import core, gridgen, guard
from .c26 import argv, make_grid, matches, model_runs, query, quiet

RULE = 'a case is a scratch grid with chains, analysis results and best fits for some of its runs and one run of a real reporting tool with generated options, or one best-fit, ' \
       'statistics or chain file and an extraction tool; which runs are reported, which they are compared with and every number quoted are compared with the files; ' \
       'distinct = (tool, options, number of runs)'
ASSUMPTIONS = ['cells of a table for one result are as C19 establishes', 'parameters asked for are in the results', 'all or none of compared results have best fits']

PARS = ['omegabh2', 'tau', 'H0', 'sigma8']
LABS = [r'\Omega_b h^2', r'\tau', 'H_0', r'\sigma_8']


class Grid:
    def __init__(self, rng, rec, minima=None, maxruns=14, tweak=None):
        from getdist.mcsamples import loadMCSamples
        d = gridgen.gen_def(rng, filters=False)
        if not d['groups']:
            raise core.Skip
        # a base model is usual
        if rng.random() < 0.7 and not any(p == [] for g in d['groups'] for p in g['params']):
            d['groups'][0]['params'] = d['groups'][0]['params'][:2] + [[]]
        if tweak:
            tweak(d)
        self.path, self.b, m = make_grid(rng, rec, d, 'grid')
        self.runs = model_runs(self.b, d)
        if not self.runs or len(set(r.normed() for r in self.runs)) < len(self.runs):
            raise core.Skip
        self.info = {}
        few = set(rng.permutation(len(self.runs))[:maxruns])
        for i, r in enumerate(self.runs):
            f = self.info[r.name] = {}
            f['root'] = os.path.join(self.path, r.full.paramtag, r.full.datatag, r.name)
            f['dist'] = os.path.join(self.path, r.full.paramtag, r.full.datatag, 'dist', r.name)
            f['chains'] = 0
            if i in few and rng.random() < 0.85:
                n = f['chains'] = int(rng.integers(1, 4))
                os.makedirs(os.path.dirname(f['root']), exist_ok=True)
                k = int(rng.integers(2, 5))
                mean = rng.normal(size=4) * np.array([0.02, 0.1, 70, 1])
                for c in range(1, n + 1):
                    with open(f['root'] + '_%d.txt' % c, 'w') as h:
                        for _ in range(60):
                            h.write('  '.join('%.6e' % v for v in [float(rng.integers(1, 4)), rng.uniform(1, 9)] + list(mean[:k] + rng.normal(size=k) * [0.001, 0.02, 2, 0.3][:k])) + '\n')
                with open(f['root'] + '.paramnames', 'w') as h:
                    for j in range(k):
                        h.write('%s%s\t%s\n' % (PARS[j], '*' if j > 2 else '', LABS[j]))
                if rng.random() < 0.85:
                    os.makedirs(os.path.dirname(f['dist']), exist_ok=True)
                    with quiet():
                        s = loadMCSamples(f['root'], settings={'ignore_rows': 0, 'fine_bins': 256}, no_cache=True)
                        s.getMargeStats().saveAsText(f['dist'] + '.margestats')
                        s.getLikeStats().saveAsText(f['dist'] + '.likestats')
                        s.getConvergeTests(writeDataToFile=True, filename=f['dist'] + '.converge')
                    f['marge'] = True
                    with open(f['dist'] + '.likestats') as h:
                        f['meanlike'] = float(re.search(r'mean\(-Ln\(like\)\) = *(\S+)', h.read()).group(1))
                    with open(f['dist'] + '.converge') as h:
                        e = re.findall(r'var\(mean\)/mean\(var\) for eig[^\n]*\n((?: *\d+ +-?[0-9.]+\n)+)', h.read())
                        f['R'] = e[0].split()[-1] if e else None
            if minima if minima is not None else rng.random() < 0.6:
                f['like'] = round(float(rng.uniform(1, 9000)), 3)
                f['chisq'] = [(str(kind), 'd_%s' % nm if rng.random() < 0.5 else nm, round(float(rng.uniform(0, 99)), 3)) for kind, nm in
                              [('CMB', 'planck'), ('CMB', 'lowl'), ('BAO', 'sdss'), ('Hubble', 'H0'), ('SN', 'jla')] if rng.random() < 0.6]
                os.makedirs(os.path.dirname(f['root']), exist_ok=True)
                with open(f['root'] + '.minimum', 'w') as h:
                    h.write(' -log(Like) =  %.3f\n chi-sq    =  %.3f\n\n' % (f['like'], 2 * f['like']))
                    for j in range(3):
                        h.write('%5i %15.7E   %-22s %s\n' % (j + 1, rng.normal(), PARS[j], LABS[j]))
                    h.write('\n\n%5i %15.7E   %-22s %s\n\n -log(Like)     chi-sq   data\n' % (4, rng.normal(), PARS[3], LABS[3]))
                    for kind, nm, c in f['chisq']:
                        h.write('%11.4f%11.3f   %s: %s\n' % (c / 2, c, kind, nm))
        for r in self.runs:
            self.info[r.name]['has_dist'] = os.path.isdir(os.path.dirname(self.info[r.name]['dist']))
        self.labels = os.path.join(rec.tmp, 'labels.paramnames')
        with open(self.labels, 'w') as h:
            h.write('tau\t\\tau_{\\rm mine}\nother\tx\nomegabh2\t\\Omega_b\n')
        self.bin = os.path.join(rec.tmp, 'bin')
        os.makedirs(self.bin)
        tex = os.path.join(self.bin, 'pdflatex')
        with open(tex, 'w') as h:
            h.write('#!/bin/sh\nb="${1%.tex}"\n[ -f "$1" ] || exit 1\nfor e in pdf aux log toc out; do echo x > "$b.$e"; done\n')
        os.chmod(tex, os.stat(tex).st_mode | stat.S_IXUSR)

    def stats(self, r, bestfit):
        from getdist import types
        f = self.info[r.name]
        m = types.MargeStats(f['dist'] + '.margestats', self.labels)
        if bestfit and 'like' in f:
            m.addBestFit(types.BestFit(f['root'] + '.minimum', self.labels))
        return m


def esc(s):
    return s.replace('_', '{\\textunderscore}')


def tables(rng, rec):
    from getdist import types, paramnames
    compare = rng.random() < 0.3
    g = Grid(rng, rec, minima=bool(rng.random() < 0.5) if compare else None)
    q = query(rng, g.runs) if rng.random() < 0.4 else {}
    args = argv(rng, q)
    opt = {k: bool(rng.random() < p) for k, p in [('bestfitonly', .15), ('nobestfit', .25), ('no_delta_chisq', .2), ('all_limits', .15), ('separate_tex', .2)]}
    if compare:
        opt['bestfitonly'] = False
    if opt['bestfitonly']:
        opt['separate_tex'] = False  # goes with the analysis results
    change = None
    withr = [r for r in g.runs if g.info[r.name].get('marge')]
    if not compare and withr and not opt['bestfitonly']:
        change = [None, None, 'datatag', 'paramtag', 'adding', 'replacing'][int(rng.integers(6))]
    if change == 'paramtag':
        opt['no_delta_chisq'] = False
    args += ['--' + k for k in opt if opt[k]]
    limit = int(rng.integers(1, 4))
    ncol = int(rng.integers(1, 5))
    if rng.random() < 0.7:
        args += ['--limit', limit]
    else:
        limit = 2
    if rng.random() < 0.5:
        args += ['--columns', ncol]
    else:
        ncol = 3
    plist = None
    if rng.random() < 0.3:
        plist = os.path.join(rec.tmp, 'list.paramnames')
        with open(plist, 'w') as h:
            h.write('tau\tx\nomegabh2\ty\n')
        args += ['--paramList', plist]
    conv = round(float(np.exp(rng.uniform(-6, 0))), 4) + 1e-6 if rng.random() < 0.25 else 0
    if conv:
        args += ['--converge', conv]
    dtag = None
    if rng.random() < 0.25 and change is None and not compare:
        dtag = g.runs[int(rng.integers(len(g.runs)))].paramtag
        args += ['--delta_chisq_paramtag', dtag]
    only = change in ('adding', 'replacing') and rng.random() < 0.4
    if only:
        args.append('--changes_only')
    ref = None
    if change:
        r0 = withr[int(rng.integers(len(withr)))]
        if change == 'datatag':
            ref = r0.datatag
            args += ['--changes_from_datatag', ref]
        elif change == 'paramtag':
            dtag = ref = r0.paramtag
            args += ['--changes_from_paramtag', ref]
        elif change == 'adding':
            ref = [str(rng.choice(r0.names))]
            args += ['--changes_adding_data'] + ref
        else:
            ref = [str(v) for v in rng.choice(gridgen.DATA[:7], 3, replace=False)]
            if rng.random() < 0.5:
                ref[1] = r0.names[0]
                ref = list(dict.fromkeys(ref))
            if len(ref) < 2:
                raise core.Skip
            args += ['--changes_replacing'] + ref
            if 'data' in q:
                q = dict(q, data=q['data'] + ref)
    sel = [r for r in g.runs if matches(q, r) and (opt['bestfitonly'] or g.info[r.name]['chains'])]
    cmp = None
    if compare:
        cmp = [str(v) for v in dict.fromkeys([(r.datatag if rng.random() < 0.5 else '_'.join(r.names[::-1])) for r in
                                              [g.runs[int(i)] for i in rng.choice(len(g.runs), min(2, len(g.runs)), replace=False)]])]
        if len(set('_'.join(sorted(c.replace('_post', '').split('_'))) for c in cmp)) < len(cmp):
            raise core.Skip
        args += ['--compare'] + cmp
    sub = str(rng.choice(['', 'sub/', 'sub/deep/']))
    name = sub + str(rng.choice(['tab', 'tab.tex'] if not opt['all_limits'] else ['tab']))
    if rng.random() < 0.5:
        name = os.path.join(rec.tmp, name)
    rec.set(args=[str(a) for a in args], out=name)
    path = os.environ['PATH']
    os.environ['PATH'] = g.bin + os.pathsep + path
    try:
        res = guard.script('makeTables.py', [g.path, name, '--paramNameFile', g.labels] + args, rec.tmp, rec.tmp, processes=True)
    finally:
        os.environ['PATH'] = path
    rec.check(res.error is None, 'making tables fails', error=res.error)
    rec.eq(res.escaped, [], 'making tables changes files elsewhere')
    rec.check('ERROR' not in res.out, 'a table could not be made', output=res.out[-400:])
    tags = sorted(set(r.paramtag for r in sel))
    pl = paramnames.ParamNames(plist) if plist else None
    for lim in [1, 2, 3] if opt['all_limits'] else [limit]:
        out = os.path.join(rec.tmp, name)
        out = (out[:-4] if out.endswith('.tex') else out) + ('_limit%d' % lim if opt['all_limits'] else '')
        rec.check(os.path.exists(out + '.tex'), 'no table is written', limit=lim)
        rec.eq([os.path.exists(out + e) for e in ('.pdf', '.aux', '.log', '.toc', '.out')], [True, False, False, False, False], 'files of the typeset table', limit=lim)
        with open(out + '.tex') as h:
            text = h.read()
        body = [x for x in text.split('\n') if x.strip()]
        rec.check(body[0].startswith('\\documentclass') and body[-1] == '\\end{document}', 'document is not complete')
        got = body[body.index('\\tableofcontents') + 1:-1]
        exp = []
        shifts = 0
        dbase = {}  # runs best fits are compared with
        for r in sel:
            if dtag is None and not r.params and not opt['no_delta_chisq'] or dtag is not None and r.paramtag == dtag:
                dbase[r.normed().replace('_'.join([r.base] + sorted(r.params)) + '_', '', 1)] = r
        for t in tags:
            these = [r for r in sel if r.paramtag == t]
            section = '\\newpage\\section{ ' + ('Baseline model' if not these[0].params else esc('+'.join(these[0].params))) + '}'
            if compare:
                found = []
                for c in cmp:
                    n = sorted(c.replace('_post', '').split('_'))
                    found += [r for r in these if r.datatag == c or sorted(r.names) == n]
                if len(found) != len(cmp):
                    continue
                exp.append(section)
                found = [r for r in found if g.info[r.name].get('marge')]
                if not found:
                    continue
                exp += types.ResultTable(1, [g.stats(r, not opt['nobestfit']) for r in found], limit=lim, titles=[r.datatag for r in found], paramList=pl).lines
                continue
            exp.append(section)
            these = [r for r in these if (g.info[r.name]['has_dist'] or opt['bestfitonly']) and
                     (not conv or g.info[r.name].get('R') is not None and float(g.info[r.name]['R']) <= conv)]
            for r in these:
                f = g.info[r.name]
                data = '_'.join(sorted(r.names))
                against = None  # run for parameter shifts
                base = dbase.get(data)
                if change == 'datatag':
                    m = [x for x in these if x.datatag == ref or '_'.join(sorted(x.names)) == ref]
                    against = m[-1] if m else None
                elif change == 'paramtag':
                    against = base
                elif change == 'adding':
                    if set(ref) & set(r.names):
                        rest = sorted(set(r.names) - set(ref))
                        m = [x for x in these if sorted(x.names) == rest]
                        against = m[-1] if m else None
                    base = against
                elif change == 'replacing':
                    for x in ref[1:]:
                        if x in r.names:
                            want = sorted(ref[0] if y == x else y for y in r.names)
                            m = [y for y in these if ref[0] in y.names and sorted(y.names) == want]
                            against = m[-1] if m else None
                            break
                    base = against
                if only and against is None:
                    continue
                if base is not None and base.name == r.name:
                    base = None
                if against is not None and against.name == r.name:
                    against = None
                exp.append('\\subsection{ ' + esc(r.name) + '}')
                cap = []
                # best fits of the comparison are only known where results are loaded
                fb = g.info[base.name] if base else None
                if 'like' in f:
                    cap.append(' Best-fit $\\chi^2_{\\rm eff} = %.2f$' % (2 * f['like']))
                    if fb and 'like' in fb:
                        cap.append('$\\Delta \\chi^2_{\\rm eff} = %.2f$' % (2 * (f['like'] - fb['like'])))
                if opt['bestfitonly']:
                    if 'like' in f:
                        exp += types.ResultTable(ncol, [types.BestFit(f['root'] + '.minimum', g.labels)], limit=lim, paramList=pl).lines
                elif f.get('marge'):
                    cap.append('$\\bar{\\chi}^2_{\\rm eff} = %.2f$' % (2 * f['meanlike']))
                    if fb and 'meanlike' in fb:
                        cap.append('$\\Delta\\bar{\\chi}^2_{\\rm eff} = %.2f$' % (2 * (f['meanlike'] - fb['meanlike'])))
                    if f['R'] is not None:
                        cap.append('$R-1 =' + f['R'] + '$')
                    rr = g.stats(against, False) if against is not None and g.info[against.name].get('marge') else None
                    shifts += rr is not None
                    exp += types.ResultTable(ncol, [g.stats(r, not opt['nobestfit'])], limit=lim, paramList=pl, refResults=rr).lines
                if '; '.join(cap).strip():
                    exp.append('; '.join(cap))
                if 'like' in f:
                    exp.append('$\\chi^2_{\\rm eff}$:')
                    for kind in sorted(set(k for k, _, _ in f['chisq'])):
                        exp.append(kind + ' - ')
                        for k, nm, c in f['chisq']:
                            if k == kind:
                                line = '  ' + esc(nm) + ': %.2f ' % c
                                old = [x for x in (fb or {}).get('chisq', []) if x[:2] == (k, nm)]
                                if old:
                                    line += '($\\Delta$ %.2f) ' % (c - old[0][2])
                                exp.append(line)
        exp = [x for e in exp for x in e.split('\n') if x.strip()]
        same(rec, got, exp, 'table does not give the results of the runs', limit=lim)
        if opt['separate_tex'] and not compare:
            for r in g.runs:
                listed = '\\subsection{ ' + esc(r.name) + '}' in exp
                rec.eq(os.path.exists(g.info[r.name]['dist'] + '.tex'), listed, 'separate table', run=r.name)
        rec.sig('tables', compare, change, sorted(k for k in opt if opt[k]), bool(conv), len(exp) > 4, shifts > 0, len(sel))
    rec.ev('runs tabulated', len(sel))


def same(rec, got, exp, msg, **wit):
    """same lines, with numbers in captions allowed to differ in the last figure (floating point)"""
    rec.eq(len(got), len(exp), msg + ' (number of lines)', first=next(([a, b] for a, b in zip(got, exp) if a != b), None), **wit)
    for a, b in zip(got, exp):
        if a != b:
            num = r'-?\d+\.\d\d(?!\d)'
            ok = re.sub(num, '#', a) == re.sub(num, '#', b) and all(abs(float(x) - float(y)) < 0.0101 for x, y in zip(re.findall(num, a), re.findall(num, b))) and 'chi' in a or \
                '($\\Delta$' in a and re.sub(num, '#', a) == re.sub(num, '#', b) and all(abs(float(x) - float(y)) < 0.0101 for x, y in zip(re.findall(num, a), re.findall(num, b)))
            rec.check(ok, msg, line=a, should_be=b, **wit)
    rec.ev('lines compared', len(exp))


def comparison(rng, rec):
    """one parameter over data sets"""
    from getdist import types
    g = Grid(rng, rec)
    par = str(rng.choice(PARS[:3]))
    q = query(rng, g.runs) if rng.random() < 0.3 else {}
    args = ['--params', par]
    limit = int(rng.integers(1, 4))
    args += ['--limit', limit]
    nobf = bool(rng.random() < 0.5)
    if nobf:
        args.append('--nobestfits')
    cmp = None
    if rng.random() < 0.5:
        rs = [g.runs[int(i)] for i in rng.choice(len(g.runs), min(3, len(g.runs)), replace=False)]
        cmp = list(dict.fromkeys('_'.join(sorted(r.names)) for r in rs))
        args += ['--compare'] + [str(rng.permutation(c.split('_')).tolist()).strip('[]').replace("'", '').replace(', ', '_') for c in cmp]
    math = bool(rng.random() < 0.5)
    if math:
        args.append('--mathColumns')
    out = os.path.join(str(rng.choice(['', 'newdir', 'new/dir'])), 'comp.tex')
    args += ['--latex_filename', out] + argv(rng, q)
    rec.set(args=[str(a) for a in args])
    with open(os.path.join(rec.tmp, 'clik_latex.paramnames'), 'w') as h:
        for p, l in zip(PARS, LABS):
            h.write(p + '\t' + l + '\n')
    res = guard.script('makeParamCompare.py', [g.path] + args, rec.tmp, rec.tmp)
    rec.check(res.error is None, 'comparison fails', error=res.error)
    rec.eq(res.escaped, [], 'comparison changes files elsewhere')
    with open(os.path.join(rec.tmp, out)) as h:
        got = [x for x in h.read().split('\n') if x.strip()]
    rows = {}
    for r in g.runs:
        if matches(q, r) and g.info[r.name].get('marge') and (cmp is None or '_'.join(sorted(r.names)) in cmp):
            m = types.MargeStats(g.info[r.name]['dist'] + '.margestats')
            if not nobf and 'like' in g.info[r.name]:
                m.addBestFit(types.BestFit(g.info[r.name]['root'] + '.minimum'))
            v = m.texValues(types.TableFormatter(), par, limit=limit)
            if v is not None:
                rows.setdefault(r.paramtag, {})['_'.join(sorted(r.names))] = v
    w = lambda t: '$' + t + '$' if math else t
    exp = []
    for t, data in rows.items():
        cols = [w(LABS[PARS.index(par)])]
        for x in (cmp if cmp is not None else data):
            if x in data:
                v = data[x]
                if len(v) > 1:
                    cols.append(w(v[1]))
                cols.append(v[0] if v[0] == '---' else w(v[0]))
        exp.append(' & '.join(cols) + '\\cr')
    rec.eq(sorted(got), sorted(exp), 'comparison does not give the constraints of the runs')
    rec.sig('comparison', limit, nobf, cmp is None, len(exp))


def latex(rng, rec):
    """constraints of one run in latex"""
    from getdist import types
    g = Grid(rng, rec, maxruns=3)
    with_ = [r for r in g.runs if g.info[r.name].get('marge')]
    if not with_:
        raise core.Skip
    r = with_[int(rng.integers(len(with_)))]
    root = g.info[r.name]['dist']
    m = types.MargeStats(root + '.margestats', g.labels)
    names = m.list()
    sel = [str(v) for v in rng.permutation(names)[:int(rng.integers(1, len(names) + 1))]] if rng.random() < 0.5 else None
    limit = int(rng.integers(1, 4))
    args = [root + ('.margestats' if rng.random() < 0.5 else ''), '--limit', limit, '--paramNameFile', g.labels] + (['--params'] + sel if sel else [])
    how = str(rng.choice(['plain', 'tabular', 'snippets']))
    d = os.path.join(rec.tmp, 'snip', 'x')
    if how == 'tabular':
        args.append('--tabular')
    elif how == 'snippets':
        args += ['--tex_snippet_dir', d]
    rec.set(args=[str(a) for a in args])
    res = guard.script('makeLatex.py', args, rec.tmp, rec.tmp)
    rec.check(res.error is None, 'latex output fails', error=res.error)
    rec.eq(res.escaped, [], 'latex output changes files elsewhere')
    exp = []
    own = {}
    with open(root + '.margestats') as h:
        lines = h.read().split('\n')
    for line in lines[3:]:
        p = line.split()
        if len(p) > 3:
            own[p[0].replace('*', '')] = [float(p[1]), float(p[2])] + p[3:12]
    for p in sel or names:
        v = m.texValues(types.NoLineTableFormatter(), p, limit=limit)[0]
        exp.append((p, m.parWithName(p).label, v))
        # central value (or limit) in the text is that of the file
        nums = [float(x) for x in re.findall(r'-?\d+\.?\d*', re.sub(r'\\cdot 10\^\{.*?\}', '', v))]
        mean, sd = own[p][:2]
        if '\\times' not in v and 'cdot' not in v and nums and not v.startswith(('<', '>')) and v != '---':
            rec.near(nums[0], mean, 'quoted mean', rtol=0.5, atol=abs(sd), par=p, text=v)
    if how == 'snippets':
        base = os.path.splitext(os.path.basename(args[0]))[0]
        rec.eq(sorted(os.listdir(d)), sorted('%s-%s_sig%d.tex' % (base, p, limit) for p, _, _ in exp), 'files written')
        for p, _, v in exp:
            with open(os.path.join(d, '%s-%s_sig%d.tex' % (base, p, limit))) as h:
                rec.eq(h.read(), v, 'text of a parameter', par=p)
    else:
        got = [' '.join(x.split()) for x in res.out.splitlines() if x.strip()]
        if how == 'plain':
            want = [l + ' ' + v for _, l, v in exp]
        else:
            want = ['$ %s $ & $ %s $\\\\' % (l, v) if v != '---' else '$ %s $ & %s \\\\' % (l, v) for _, l, v in exp]
        norm = lambda s: re.sub(r'\s+', '', s)
        rec.eq([norm(x) for x in got], [norm(x) for x in want], 'constraints written')
    rec.sig('latex', how, limit, sel is None, len(exp))


def extracts(rng, rec):
    """values taken from best-fit and chain files"""
    names = [str(v) for v in rng.permutation(['omegabh2', 'omegach2', 'theta', 'tau', 'ns', 'logA'])]
    fixed = ['nnu', 'nrun', 'w', 'deltazrei', 'r'] if rng.random() < 0.7 else ['nnu', 'r', 'mnu']
    derived = [str(v) for v in rng.permutation(['H0', 'A', 'yheused', 'omeganuh2', 'sigma8'])]
    vals = {n: float('%.7E' % (rng.normal() * 10. ** rng.integers(-3, 3))) for n in names + fixed + derived}
    root = os.path.join(rec.tmp, 'dir', 'base_x')
    os.makedirs(os.path.dirname(root))
    with open(root + '.minimum', 'w') as h:
        h.write(' -log(Like) =  %.3f\n chi-sq    =  %.3f\n\n' % (5, 10))
        k = 0
        for block in (names, fixed, derived):
            for n in block:
                k += 1
                h.write('%5i %15.7E   %-22s %s\n' % (k, vals[n], n, 'l' + n))
            h.write('\n')
        h.write(' -log(Like)     chi-sq   data\n     1.0    2.0   CMB: x\n')
    with open(root + '.paramnames', 'w') as h:
        for n in names:
            h.write('%s\tl%s\n' % (n, n))
        for n in derived:
            h.write('%s*\tl%s\n' % (n, n))
    res = guard.script('extractBestFitParams.py', [root + '.minimum'], rec.tmp, rec.tmp)
    rec.check(res.error is None, 'extracting best-fit parameters fails', error=res.error)
    got = dict(re.match(r'param\[(.*)\]=(.*)$', line).groups() for line in res.out.splitlines() if line.strip())
    rec.eq(sorted(got), sorted(names), 'parameters extracted')
    for n in names:
        rec.near(float(got[n]), vals[n], 'extracted best fit', rtol=1e-12, par=n)
    nonlin = str(rng.choice(['T', 'F', '']))
    with open(root + '.inputparams', 'w') as h:
        h.write('action = 0\n' + ('use_nonlinear_lensing = %s\n' % nonlin if nonlin else ''))
    out = os.path.join(rec.tmp, 'camb.ini')
    res = guard.script('extractBestFitCAMB.py', [root, out], rec.tmp, rec.tmp)
    rec.check(res.error is None, 'extracting CAMB parameters fails', error=res.error)
    with open(out) as h:
        ini = dict([x.strip() for x in line.split('=', 1)] for line in h if '=' in line and not line.startswith('#'))
    std = 3.046 / 3
    want = {'ombh2': 'omegabh2', 'omch2': 'omegach2', 'omnuh2': 'omeganuh2', 'hubble': 'H0', 'w': 'w', 'helium_fraction': 'yheused', 'scalar_spectral_index(1)': 'ns',
            'scalar_nrun(1)': 'nrun', 'initial_ratio(1)': 'r', 're_optical_depth': 'tau', 're_delta_redshift': 'deltazrei'}
    for c, n in want.items():
        if n in vals:
            rec.near(float(ini[c]), vals[n], 'CAMB parameter', rtol=1e-12, par=c)
        else:
            rec.check(c not in ini, 'CAMB parameter not in the best fit', par=c)
    rec.near(float(ini['scalar_amp(1)']), vals['A'] * 1e-9, 'CAMB amplitude', rtol=1e-12)
    rec.near(float(ini['massless_neutrinos']), vals['nnu'] - std, 'CAMB massless neutrinos', rtol=1e-10, atol=1e-10)
    rec.eq(int(ini['massive_neutrinos']), 1, 'CAMB massive neutrinos')
    rec.near(float(ini['nu_mass_degeneracies']), std, 'CAMB degeneracies', rtol=1e-12)
    rec.near(float(ini['tensor_spectral_index(1)']), -vals['r'] / 8, 'CAMB tensor tilt', rtol=1e-12)
    rec.eq(ini.get('do_nonlinear'), '3' if nonlin != 'F' else None, 'CAMB non-linear setting')
    rec.eq(ini.get('re_use_optical_depth'), 'T', 'CAMB optical depth setting')
    # one parameter of one chain
    n = int(rng.integers(1, 4))
    rows = int(rng.integers(1, 40))
    pn = names + derived
    data = {}
    for i in range(1, n + 1):
        data[i] = np.round(rng.normal(size=(rows, 2 + len(pn))), 4)
        np.savetxt(root + '_%d.txt' % i, data[i], fmt='%14.6e')
    p = int(rng.integers(len(pn)))
    i = int(rng.integers(1, n + 1))
    res = guard.script('chainPeek.py', [root, pn[p]] + ([i] if i > 1 or rng.random() < 0.5 else []), rec.tmp, rec.tmp)
    rec.check(res.error is None, 'looking at a chain fails', error=res.error)
    got = [float(x) for x in res.out.replace('[', ' ').replace(']', ' ').split()]
    rec.eq(len(got), rows, 'number of samples shown', par=pn[p])
    rec.near(got, data[i][:, 2 + p], 'samples shown', rtol=1e-4, atol=1e-7, par=pn[p], chain=i)
    rec.sig('extracts', names[0], len(fixed), nonlin, n, rows > 5)


GROUPS = dict(tables=(tables, 60, 1500), comparison=(comparison, 30, 800), latex=(latex, 30, 800), extracts=(extracts, 20, 500))
QUICK_BUDGET = 60
THOROUGH_BUDGET = 300
