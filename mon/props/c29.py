import fnmatch
import os
import re
import time
import zipfile

import numpy as np

from .. import core, gridgen, guard
from .c26 import argv, make_grid, matches, model_runs, query

RULE = 'a case is a scratch grid with chain, analysis and stray files for full and importance runs, and one run of a real tool (copy, zip, link, extract, rename, clean up) with ' \
       'generated selections and options; the complete scratch tree is compared before and after with what the options ask for, and any access outside it is refused and ' \
       'reported; distinct = (tool, options, selection, number of files)'
ASSUMPTIONS = ['files are named after their run as the programs writing them do', 'chains already marked as having burn in removed are not copied with burn in removed again',
               'symbolic links are only made where there is no other file']

EXT = ['.paramnames', '.ranges', '.inputparams', '.minimum', '.likelihoods', '.log', '.chk', '_1.chk', '_2.chk', '_1.data', '.py', '.minimum.inifile']
DIST = ['.margestats', '.likestats', '.converge', '.covmat', '.corr', '.py', '_2D.py', '.pdf', '_2D.pdf', '_tri.pdf', '.py_mcsamples', '.m']
PN = ['omegabh2', 'tau', 'ns', 'H0', 'sigma8', 'omegam', 'A', 'yheused']
LAB = ['\\Omega_b h^2', '\\tau', 'n_s', 'H_0', '\\sigma_8', '\\Omega_m', 'A', 'Y_P used']


def tree(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                out[os.path.relpath(p, top)] = 'link ' + os.path.realpath(p)
            else:
                with open(p, 'rb') as h:
                    out[os.path.relpath(p, top)] = h.read()
        for f in ds:
            p = os.path.join(d, f)
            out[os.path.relpath(p, top) + '/'] = 'link' if os.path.islink(p) else 'dir'
    return out


class Grid:
    def __init__(self, rng, rec, burn=False):
        d = gridgen.gen_def(rng)
        if not d['groups']:
            raise core.Skip
        self.path, self.b, m = make_grid(rng, rec, d, 'grid')
        self.runs = model_runs(self.b, d)
        self.top = rec.tmp
        self.owner = {}  # relative path -> (run, suffix, 'chain' or 'dist')
        self.nchains = {}
        self.worst = {}
        now = time.time()
        self.old = set()
        for r in self.runs:
            if rng.random() < 0.15:
                continue
            cdir = os.path.join(self.path, r.full.paramtag, r.full.datatag)
            n = int(rng.integers(0, 4)) if rng.random() < 0.9 else int(rng.integers(4, 11))
            self.nchains[r.name] = n
            par = [i for i in range(len(PN)) if rng.random() < 0.7] or [0]
            nd = int(rng.integers(0, len(par)))
            for i in range(1, n + 1):
                rows = int(rng.choice([0, 1, 2, 7, 10, 33]))
                self.put(cdir, r, '_%d.txt' % i, ''.join('  1.0  %d  %.6e\n' % (k, rng.normal()) for k in range(rows)), 'chain')
            if rng.random() < 0.2:
                self.put(cdir, r, '_%d.txt' % (n + 2), ' 1.0 3.0 2.0\n', 'chain')
            for e in EXT:
                if rng.random() < 0.6:
                    if e == '.paramnames':
                        txt = ''.join('%s%s\t%s\n' % (PN[i], '*' if k >= len(par) - nd else '', LAB[i]) for k, i in enumerate(par))
                    elif e == '.minimum':
                        txt = self.minimum(rng, par, nd)
                    else:
                        txt = 'some %s %d\r\nline = é\n' % (e, int(rng.integers(1e6))) if rng.random() < 0.8 else str(rng.choice(['', '\n']))
                    self.put(cdir, r, e, txt, 'chain')
            if rng.random() < 0.3:
                self.put(cdir, r, '.properties.ini', 'someprop = 12\n' + ('burn_removed = F\n' if rng.random() < 0.5 else ''), 'chain')
            if rng.random() < 0.8:
                for e in DIST:
                    if rng.random() < 0.6:
                        txt = '%s %d\n' % (e, int(rng.integers(1e6))) if rng.random() < 0.85 else ''
                        if e == '.converge':
                            R = sorted(round(float(v), 5) for v in rng.uniform(0.001, 0.2, 3))
                            self.worst[r.name] = R[-1]
                            txt = ' var(mean)/mean(var) for eigenvalues\n' + ''.join(' %d  %.5f\n' % (i + 1, v) for i, v in enumerate(R)) + '\nrest\n'
                        self.put(os.path.join(cdir, 'dist'), r, e, txt, 'dist')
            for sub in (cdir, os.path.join(cdir, 'dist')):
                os.makedirs(sub, exist_ok=True)
                for stray in ['README', r.name + 'x.txt', 'x' + r.name + '.txt', r.name[:-1] + '.txt', r.name, r.name + '_post_old_1.txt', r.name + '_post_old.chk']:
                    if r.parent is None and rng.random() < 0.15:
                        with open(os.path.join(sub, stray), 'w') as f:
                            f.write('stray')
        for f in list(self.owner):
            p = os.path.join(self.path, f)
            if rng.random() < 0.4:
                age = float(rng.uniform(5, 20))
                self.old.add(f)
            else:
                age = float(rng.uniform(0, 1))
            os.utime(p, (now - age * 86400, now - age * 86400))
        if rng.random() < 0.6:
            os.makedirs(os.path.join(self.path, 'config', '__pycache__'), exist_ok=True)
            with open(os.path.join(self.path, 'config', '__pycache__', 'x.pyc'), 'w') as f:
                f.write('cached')
        # other things in the scratch directory which no tool has any business with
        os.makedirs(os.path.join(self.top, 'elsewhere'))
        with open(os.path.join(self.top, 'elsewhere', 'base_TT.txt'), 'w') as f:
            f.write('elsewhere')

    def put(self, d, r, suffix, txt, kind):
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, r.name + suffix)
        with open(p, 'w', newline='') as f:
            f.write(txt)
        self.owner[os.path.relpath(p, self.path)] = (r, suffix, kind)

    def minimum(self, rng, par, nd):
        lines = [' -log(Like) =   %.3f' % rng.uniform(1, 99), '']
        if rng.random() < 0.5:
            lines.insert(1, '  chi-sq    =   %.3f' % rng.uniform(1, 99))
        else:
            lines.insert(1, '')
        lines = [lines[0], lines[1], '']
        for k, i in enumerate(par):
            if k == len(par) - nd:
                lines.append('')
                lines.append('   90   0.1000000E+00   fixedpar             fixed')
                lines.append('')
            lines.append(' %4d   %.7E   %-20s %s' % (k + 1, rng.normal(), PN[i], LAB[i]))
        lines += ['', ' -log(Like)     chi-sq   data', '      1.234      2.468   CMB: H0 = v1', '      3.000      6.000   tau']
        return '\n'.join(lines) + '\n'

    def select(self, rng, converge=False, better=True):
        q = query(rng, self.runs) if rng.random() < 0.7 else {}
        a = argv(rng, q)
        sel = [r for r in self.runs if matches(q, r)]
        if converge and rng.random() < 0.25:
            c = round(float(rng.uniform(0.02, 0.18)), 3) + 0.000001
            a += ['--converge', '%.6f' % c]
            if better:
                sel = [r for r in sel if self.worst.get(r.name, 9) <= c]
            else:
                sel = [r for r in sel if self.worst.get(r.name, 0) > c]
            q = dict(q, converge=c)
        return q, a, sel


def begin(rec, g, tool, args):
    rec.set(tool=tool, args=[str(a) for a in args])
    before = tree(g.top)
    res = guard.script(tool, args, g.top, g.top)
    rec.eq(res.escaped, [], 'tool changes files outside the grid and its target')
    rec.check(res.error is None, 'tool fails', error=res.error)
    return before, tree(g.top), res


def unchanged(rec, before, after, except_=(), msg='tool changes files it should not touch'):
    for f in sorted(set(before) | set(after)):
        if f.startswith('cache') or '__pycache__' in f:
            continue
        if any(f == e or f.startswith(e.rstrip('/') + '/') for e in except_):
            continue
        rec.check(before.get(f) == after.get(f), msg, file=f, was=before.get(f), now=after.get(f))


def copy(rng, rec):
    g = Grid(rng, rec)
    q, a, sel = g.select(rng, converge=True)
    mode = str(rng.choice(['dir', 'dir', 'zip', 'link', 'zipflag']))
    target = os.path.join(g.top, {'zip': 'out.zip', 'zipflag': 'outzipped'}.get(mode, str(rng.choice(['out', 'sub/out', 'my.zips/out']))))
    if mode == 'zipflag':
        a.append('--zip')
    if mode == 'link':
        a.append('--sym_link')
    pre = rng.random() < 0.3
    if pre and mode != 'link':
        if 'zip' in mode:
            with zipfile.ZipFile(target, 'w') as z:
                z.writestr('old.txt', 'old content')
        else:
            os.makedirs(target)
            with open(os.path.join(target, 'old.txt'), 'w') as f:
                f.write('old')
    else:
        pre = False
    opt = {k: bool(rng.random() < 0.5) for k in ['chains', 'dist']}
    opt.update({k: bool(rng.random() < 0.25) for k in ['no_config', 'dryrun', 'verbose']})
    a += ['--' + k for k, v in opt.items() if v]
    frac = 0.
    if mode != 'link' and rng.random() < 0.5:
        frac = float(rng.choice([0.1, 0.3, 0.5, 0.9]))
        a += ['--remove_burn_fraction', str(frac)]
    exts, skips = ['.*'], ['.data', '.chk', '.chk_tmp', '.log', '.corr', '.py', '.m', '.py_mcsamples', '.pysamples']
    if rng.random() < 0.4:
        exts = [['.paramnames', '.minimum', '.margestats'], ['.p*'], ['_?.chk', '.ranges'], ['.pdf', '_2D.pdf']][int(rng.integers(4))]
        a += ['--file_extensions'] + exts
    if rng.random() < 0.2:
        skips = ['.minimum', '.mar*']
        a += ['--skip_extensions'] + skips
    age = rng.random() < 0.25
    if age:
        a += ['--max_age_days', '3']
    before, after, res = begin(rec, g, 'copyGridFiles.py', [g.path, target] + a)
    rt = os.path.relpath(target, g.top)
    if opt['dryrun']:
        unchanged(rec, before, after, msg='dry run changes files')
        rec.sig('dry', mode, pre)
        return
    unchanged(rec, before, after, except_=[rt, os.path.dirname(rt)] if os.path.dirname(rt) else [rt])
    exp = {}
    wanted = {r.name for r in sel}
    props = {}
    src = {}
    chains = {}
    for f, (r, suf, kind) in g.owner.items():
        chains.setdefault((r.name, suf), f)
    for r in sel:
        rel = os.path.join(r.full.paramtag, r.full.datatag)
        first = chains.get((r.name, '_1.txt'))
        has = opt['chains'] and first and before['grid/' + first] and not (age and first in g.old)
        if has:
            i = 1
            while (r.name, '_%d.txt' % i) in chains:
                f = chains[(r.name, '_%d.txt' % i)]
                c = before['grid/' + f]
                if frac and r.parent is None:
                    lines = c.splitlines(keepends=True)
                    c = b''.join(lines[int(len(lines) * frac):])
                exp[f] = c
                src[f] = f
                i += 1
            if frac and r.parent is None:
                props[os.path.join(rel, r.name + '.properties.ini')] = before.get('grid/' + os.path.join(rel, r.name + '.properties.ini'), b'')
    for f, (r, suf, kind) in g.owner.items():
        if r.name not in wanted or kind == 'dist' and not opt['dist'] or f in props or age and f in g.old:
            continue
        if any(fnmatch.fnmatchcase(suf, e) for e in exts) and not any(fnmatch.fnmatchcase(suf, e) for e in skips):
            exp[f] = before['grid/' + f]
            src[f] = f
    if not opt['no_config']:
        for f in before:
            if f.startswith('grid/config/') and '__pycache__' not in f and not f.endswith('/'):
                exp[f[5:]] = before[f]
    if 'zip' in mode:
        with zipfile.ZipFile(target) as z:
            names = z.namelist()
            rec.eq(len(set(names)), len(names), 'file in the zip twice', names=[n for n in names if names.count(n) > 1][:4])
            got = {n: z.read(n) for n in names if not n.endswith('/')}
            rec.check(z.testzip() is None, 'zip file is damaged')
    else:
        got = {f[len(rt) + 1:]: v for f, v in after.items() if f.startswith(rt + '/') and not f.endswith('/')}
        if pre:
            rec.eq(got.pop('old.txt', None), b'old', 'file already in the target changed')
    for f in sorted(set(got) | set(exp) | set(props)):
        if f in props:
            rec.check(f in got, 'no record that burn in was removed', file=f)
            lines = dict([[x.strip() for x in line.split('=', 1)] for line in got[f].decode().splitlines() if '=' in line])
            rec.check(lines.get('burn_removed') == 'T' and (b'someprop' not in props[f] or lines.get('someprop') == '12'), 'properties of the copied chain', file=f, got=lines)
            continue
        rec.check(f in got, 'selected file not copied', file=f)
        rec.check(f in exp, 'file copied that was not selected', file=f)
        if mode == 'link' and f in src or mode == 'link':
            rec.eq(got[f], 'link ' + os.path.realpath(os.path.join(g.path, f)), 'link to another file', file=f)
        else:
            rec.check(got[f] == exp[f], 'copied file has other content', file=f, got=got[f], expected=exp[f])
    rec.ev('files compared', len(exp))
    if mode in ('link', 'dir') and rng.random() < 0.5:
        # again over what the first copy left
        _, again, res = begin(rec, g, 'copyGridFiles.py', [g.path, target] + a)
        unchanged(rec, after, again, msg='a second copy changes the result of the first')
        rec.ev('copies made twice')
    rec.sig('copy', mode, sorted(k for k in opt if opt[k]), frac, exts, bool(age), len(sel) > 0, min(len(exp), 12))


def cleanup(rng, rec):
    g = Grid(rng, rec)
    q, a, sel = g.select(rng, converge=True, better=False)
    exts = [['*'], ['*'], ['txt'], ['chk', 'log'], ['p*'], ['converge', 'covmat']][int(rng.integers(6))]
    if exts != ['*'] or rng.random() < 0.5:
        a += ['--ext'] + exts
    opt = {'dist': rng.random() < 0.3, 'empty': rng.random() < 0.25, 'confirm': rng.random() < 0.75}
    a += ['--' + k for k, v in opt.items() if v]
    num = None
    if rng.random() < 0.3:
        num = str(rng.choice(['1', '2']))
        a += ['--chainnum', num]
    pats = ['_%s.%s' % (num, e) for e in exts] if num else ['.' + e for e in exts] + ['_*.' + e for e in exts]
    names = {r.name for r in sel}
    before, after, res = begin(rec, g, 'cleanup.py', [g.path] + a)
    gone = set()
    for f, (r, suf, kind) in g.owner.items():
        if r.name in names and (kind == 'dist' or not opt['dist']) and any(fnmatch.fnmatchcase(suf, p) for p in pats) and (not opt['empty'] or not before['grid/' + f]):
            gone.add('grid/' + f)
    if not opt['confirm']:
        unchanged(rec, before, after, msg='files changed without confirmation')
    else:
        for f in sorted(before):
            if '__pycache__' in f or f.startswith('cache'):
                continue
            if f in gone:
                rec.check(f not in after, 'file of a selected run not deleted', file=f)
            else:
                rec.check(after.get(f) == before[f], 'file deleted that was not selected', file=f)
        rec.check(not [f for f in after if f not in before], 'clean up makes files', files=[f for f in after if f not in before][:4])
    listed = set(os.path.relpath(line.split('  (')[0].strip(), g.top) for line in res.out.splitlines() if line.startswith(os.sep))
    rec.eq(sorted(listed), sorted(gone), 'files listed are not those selected')
    rec.ev('files compared', len(before))
    rec.sig('clean', exts, sorted(k for k in opt if opt[k]), num, 'converge' in q, len(gone) > 0, min(len(gone), 12))


def parse_names(b):
    out = []
    for line in b.decode().splitlines():
        if line.strip():
            n, _, lab = line.strip().partition('\t')
            out.append((n.strip().rstrip('*'), n.strip().endswith('*'), lab.strip()))
    return out


def parse_min(b):
    return [line.split(None, 3) for line in b.decode().splitlines()]


def rename(rng, rec):
    g = Grid(rng, rec)
    q, a, sel = g.select(rng)
    mapper, labels = {}, {}
    if rng.random() < 0.5:
        n = int(rng.integers(1, 4))
        olds = [str(v) for v in rng.choice(PN, n, replace=False)]
        k = int(rng.integers(4))
        news = [['x' + o for o in olds], ['averyverylongnameindeed%d' % i for i in range(n)], [str(v) for v in np.roll(olds, 1)], ['z%d' % i for i in range(n)]][k]
        fn = os.path.join(g.top, 'map.txt')
        with open(fn, 'w') as f:
            for o, nw in zip(olds, news):
                lab = 'new label of %s' % nw if rng.random() < 0.5 else 'L_' + nw
                mapper[o] = (nw, lab)
                f.write('%s  %s   %s\n' % (o, nw, lab) + ('\n' if rng.random() < 0.2 else ''))
        a += ['--map_file', fn]
    if not mapper or rng.random() < 0.4:
        n = int(rng.integers(1, 3))
        olds = [str(v) for v in rng.choice(PN, n, replace=False)]
        news = ['other' + str(i) for i in range(n)] if rng.random() < 0.7 else ['much_longer_parameter_name_%d' % i for i in range(n)]
        a.append('--old_new')
        for o, nw in zip(olds, news):
            mapper[o] = (nw, None)
            a += [o, nw]
    if rng.random() < 0.4:
        fn = os.path.join(g.top, 'labels.paramnames')
        with open(fn, 'w') as f:
            for n in PN[:4] + [v[0] for v in mapper.values()][:1]:
                if n not in labels:
                    labels[n] = 'better %s' % n
                    f.write('%s\tbetter %s\n' % (n, n))
        a += ['--labelNames', fn]
    confirm = bool(rng.random() < 0.75)
    if confirm:
        a.append('--confirm')
    names = {r.name for r in sel}
    before, after, res = begin(rec, g, 'renameParam.py', [g.path] + a)
    if not confirm:
        unchanged(rec, before, after, msg='files changed without confirmation')
        rec.sig('rename dry')
        return

    def conv(n, lab):
        if n in mapper:
            nw, l2 = mapper[n]
            n, lab = nw, lab if l2 is None else l2
        return n, labels.get(n, lab)

    edited = set()
    for f, (r, suf, kind) in g.owner.items():
        if r.name not in names or kind != 'chain':
            continue
        if suf == '.paramnames':
            edited.add('grid/' + f)
            exp = [(conv(n, lab)[0], der, conv(n, lab)[1]) for n, der, lab in parse_names(before['grid/' + f])]
            rec.eq(parse_names(after.get('grid/' + f, b'')), exp, 'names of parameters after renaming', file=f)
        elif suf == '.minimum' and before.get('grid/' + f[:-8] + '.paramnames') is not None:
            edited.add('grid/' + f)
            exp = []
            like = False
            for i, it in enumerate(parse_min(before['grid/' + f])):
                like = like or i > 2 and it[:1] == ['-log(Like)']
                if i >= 3 and not like and len(it) >= 3:
                    n, lab = conv(it[2], it[3] if len(it) > 3 else '')
                    it = it[:2] + [n] + ([lab] if lab else [])
                exp.append([x.strip() for x in it])
            got = [[x.strip() for x in it] for it in parse_min(after.get('grid/' + f, b''))]
            rec.eq(got, exp, 'best fit file after renaming', file=f)
    unchanged(rec, before, after, except_=edited)
    rec.sig('rename', len(mapper), bool(labels), len(edited) > 0, min(len(edited), 9))


def extract(rng, rec):
    g = Grid(rng, rec)
    q, a, sel = g.select(rng, converge=True)
    target = os.path.join(g.top, 'extracted')
    exts = [str(v) for v in rng.choice(['margestats', '.likestats', 'pdf', '_2D.pdf', '.p*', 'covmat', '_tri.pdf'], int(rng.integers(1, 3)), replace=False)]
    norm = bool(rng.random() < 0.5)
    sub = None
    opts = []
    if norm:
        opts.append('--normalize_names')
        if rng.random() < 0.4:
            # several tags, each with its own replacement
            sub = {str(o): 'replaced%d' % i for i, o in enumerate(rng.choice(gridgen.DATA[:6], int(rng.integers(1, 4)), replace=False))}
            opts += ['--tag_replacements'] + [v for kv in sub.items() for v in kv]
    before, after, res = begin(rec, g, 'extractDistFiles.py', [g.path, target] + exts + opts + a)
    unchanged(rec, before, after, except_=['extracted'])
    pats = [e if '.' in e else '.' + e for e in exts]
    exp = {}
    names = {r.name for r in sel}
    for f, (r, suf, kind) in g.owner.items():
        if kind == 'dist' and r.name in names:
            for p in pats:
                # a pattern applies to what follows the name of the run
                if fnmatch.fnmatchcase(r.name + suf, r.name + p):
                    nm = '_'.join([r.base] + sorted(r.params) + sorted((sub or {}).get(n, n) for n in r.names)) if norm else r.name
                    exp[nm + suf] = before['grid/' + f]
    got = {f[10:]: v for f, v in after.items() if f.startswith('extracted/') and not f.endswith('/')}
    rec.eq(sorted(got), sorted(exp), 'files extracted are not those selected')
    rec.check(got == exp, 'extracted file has other content', files=[f for f in got if got[f] != exp[f]][:3])
    rec.sig('extract', sorted(exts), norm, bool(sub), min(len(exp), 9))


GROUPS = dict(copy=(copy, 250, 10000), cleanup=(cleanup, 250, 10000), rename=(rename, 150, 5000), extract=(extract, 100, 4000))
QUICK_BUDGET = 60
THOROUGH_BUDGET = 300
