import copy
import hashlib
import os
import sys

import numpy as np

from .. import core, gridgen
from .c26 import quiet

RULE = 'a case is a generated grid definition with conflicting options at every level (shared default files, data files, data options, parameter options, group and global ' \
       'options, proposal matrices) in a scratch tree; every input file the grid writes is resolved by an independent reader and compared key by key with the ' \
       'definition; distinct = (levels present, file kind, covariance source, options overridden)'
ASSUMPTIONS = ['option keys used at several levels do not include file_root, redo_outroot or action, which the grid sets itself',
               'data and parameter names contain no underscores']


def text(v):
    if isinstance(v, (bool, np.bool_)):
        return 'T' if v else 'F'
    return str(v)


def read_ini(fn, seen=()):
    """resolved content of an input file: settings in a file win over its default files, earlier default files win over later ones"""
    own, defaults = {}, []
    for line in open(fn):
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        if line.startswith('DEFAULT('):
            defaults.append(line[8:line.rindex(')')])
        elif line.startswith('INCLUDE('):
            raise ValueError('include')
        else:
            k, v = line.split('=', 1)
            if k.strip() in own:
                raise ValueError('repeated key ' + k)
            own[k.strip()] = v.strip()
    for f in defaults:
        f = f if os.path.isabs(f) else os.path.join(os.path.dirname(fn), f)
        for k, v in read_ini(f).items():
            own.setdefault(k, v)
    return own


KEYS = ['acc', 'lmax', 'num_massive_neutrinos', 'opt1', 'opt2', 'opt3', 'use_x', 'compute_tensors', 'accuracy_level', 'MPI_Max_R_ProposeUpdate', 'lmin_store_all_cmb',
        'param[mnu]', 'param[nnu]', 'start_at_bestfit', 'propose_matrix']


def opts(rng, tag, n=None, keys=KEYS[:9]):
    out = {}
    for k in rng.choice(keys, min(len(keys), n or int(rng.integers(1, 4))), replace=False):
        k = str(k)
        out[k] = [True, False, int(rng.integers(100)), round(float(rng.uniform(0, 9)), 3), tag + '_' + k, '%s value with = sign %d' % (tag, int(rng.integers(9)))][int(rng.integers(6))]
    return out


def write_ini(fn, d):
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, 'w') as f:
        f.write('# comment\n\n' + ''.join('%s = %s\n' % (k, text(v)) for k, v in d.items()))


def state(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, top)] = (hashlib.md5(h.read()).hexdigest(), os.stat(p).st_mtime_ns)
    return out


def generate(rng, rec):
    from paramgrid import batchjob, gridconfig
    d = gridgen.gen_def(rng, filters=rng.random() < 0.4)
    if not d['groups']:
        raise core.Skip
    base = batchjob.getCodeRootPath()
    inidir = os.path.join(rec.tmp, 'inis')
    covdir = os.path.join(rec.tmp, 'covs')
    os.makedirs(covdir)
    d['ini_dir'] = os.path.relpath(inidir, base) + '/'
    levels = []

    def have(name, p=0.5):
        if rng.random() < p:
            levels.append(name)
            return True
        return False

    # shared files
    names = sorted(set(n for g in d['groups'] for ds in g['datasets'] for n in ds['names']) | set(gridgen.IMPS))
    files = {}
    for n in names:
        files[n + '.ini'] = opts(rng, n, keys=KEYS)
    d['defaults'] = ['common.ini'] + (['common2.ini'] if have('defaults2', 0.3) else [])
    d['importanceDefaults'] = ['importance_sampling.ini']
    for f in d['defaults'] + d['importanceDefaults']:
        files[f] = opts(rng, f[:-4], 6, KEYS)
    if have('override', 0.3):
        d['override_defaults'] = ['over.ini']
        files['over.ini'] = opts(rng, 'over', 2, KEYS)
    for f, v in files.items():
        write_ini(os.path.join(inidir, f), v)
    # options
    if have('params', 0.7):
        d['params'] = {p: '%.2f 0 %d 0.1 0.%d' % (rng.uniform(0, 1), rng.integers(1, 9), rng.integers(1, 9)) for p in gridgen.PARAMS}
    if have('param_extra', 0.6):
        d['param_extra_opts'] = {p: opts(rng, 'px' + p) for p in gridgen.pick(rng, gridgen.PARAMS[:6], 3)}
    if have('extra', 0.5):
        d['extra_opts'] = opts(rng, 'extra')
    if have('bestfit', 0.15):
        d['start_at_bestfit'] = True
    d['cov_dir'] = covdir
    if have('covmap', 0.5):
        d['covNameMappings'] = {str(n): str(v) for n, v in zip(rng.choice(gridgen.DATA[:7], 2, replace=False), ['mapped', rng.choice(['', 'two'])])}
    if have('covwithout', 0.4):
        d['covWithoutNameOrder'] = gridgen.pick(rng, gridgen.DATA[:7], 2)
    if have('covrename', 0.3):
        d['covrenames'] = [[str(rng.choice(gridgen.DATA[:7])), 'zzz']]
    if have('newcov', 0.2):
        d['newCovmats'] = bool(rng.random() < 0.5)
    if have('covset', 0.3):
        d['covmat'] = 'setting.covmat' if rng.random() < 0.5 else os.path.relpath(os.path.join(covdir, 'setting.covmat'), base)
        if rng.random() < 0.7:
            open(os.path.join(covdir, 'setting.covmat'), 'w').close()
    for g in d['groups']:
        if have('group_extra', 0.4):
            g['extra_opts'] = opts(rng, g['name'])
        if have('group_param_extra', 0.4):
            g['param_extra_opts'] = {p: opts(rng, g['name'] + p) for p in gridgen.pick(rng, gridgen.PARAMS[:6], 2)}
        for ds in g['datasets']:
            if have('dataopts', 0.4):
                ds['how'] = 'dataSet'
                ds['inis'] = list(ds['inis'])
                ds['inis'].insert(int(rng.integers(0, len(ds['inis']) + 1)), opts(rng, 'data', keys=KEYS[:10]))
                if rng.random() < 0.4:
                    ds['inis'].append(opts(rng, 'datb', keys=KEYS[:10]))
            if have('datacov', 0.3):
                ds['how'] = 'dataSet'
                ds['covmat'] = 'data.covmat' if rng.random() < 0.5 else os.path.relpath(os.path.join(covdir, 'data.covmat'), base)
                if rng.random() < 0.7:
                    open(os.path.join(covdir, 'data.covmat'), 'w').close()
        for i in g['imps']:
            if have('impopts', 0.4):
                i['inis'] = i['inis'] + [opts(rng, 'imp', keys=KEYS[:9])]
    full = gridgen.expand(d)
    cands = {}
    for r in full:
        c = []
        mp = d.get('covNameMappings')

        def normed(subs, r=r):
            return '_'.join(['base'] + sorted(r.params)) + '_' + '_'.join(x for x in sorted((subs or {}).get(n, n) for n in r.names) if x)

        c.append((1, r.name))
        c.append((2, normed(mp)))
        if mp:
            c.append((3, '_'.join(mp.get(x, x) for x in r.name.split('_'))))
        tail = []
        for aname in [r.name, normed(mp)]:
            for old, new in d.get('covrenames', []):
                if old in aname:
                    tail.append((6, aname.replace(old, new, 1)))
        rem = dict(mp or {})
        for n in d.get('covWithoutNameOrder', []):
            if n in r.names:
                rem[n] = ''
                tail.append((7, normed({n: ''})))
                tail.append((7, normed(rem)))
        for k, nm in c + tail:
            if rng.random() < 0.12 and '__' not in nm and not nm.endswith('_'):
                open(os.path.join(covdir, nm + '.covmat'), 'w').close()
        cands[r.name] = (c, tail)

    def find_cov(r):
        c, tail = cands[r.name]
        ex = lambda n: os.path.exists(os.path.join(covdir, n))
        if ex(r.name + '.covmat'):
            return 1, r.name + '.covmat'
        for k, nm in c:
            if ex(nm + '.covmat'):
                return k, nm + '.covmat'
        for k, nm in ((4, r.ds.get('covmat')), (5, d.get('covmat'))):
            if nm and ex(os.path.basename(nm)):
                return k, os.path.basename(nm)
        for k, nm in tail:
            if ex(nm + '.covmat'):
                return k, nm + '.covmat'
        return 0, None

    m = gridgen.load_settings(d, os.path.join(rec.tmp, 'conf'), 'vmon_c27')
    grid = os.path.join(rec.tmp, 'grid')
    if rng.random() < 0.5:  # some chains are already there
        for r in full:
            if rng.random() < 0.5:
                gridgen.write_run(rng, os.path.join(grid, r.paramtag, r.datatag, r.name), extra=['.inputparams', '_1.chk'])
    before = state(rec.tmp)
    data = lambda: {k: copy.deepcopy(v) for k, v in vars(m).items() if isinstance(v, (dict, list, str, bool)) and not k.startswith('__') and k not in ('groups', 'importanceRuns',
                                                                                                                                                     'importance_filters')}
    vars0 = data()
    def0 = copy.deepcopy((gridconfig.default_params, gridconfig.default_param_extra_opts))
    if rng.random() < 0.5:
        with quiet():
            b = gridconfig.makeGrid(grid, settings=m)
    else:
        sys.path.insert(0, os.path.join(rec.tmp, 'conf'))
        try:
            with quiet():
                b = gridconfig.makeGrid(grid, settingName='vmon_c27', interactive=True)
                b = batchjob.readobject(grid)
        finally:
            sys.path.remove(os.path.join(rec.tmp, 'conf'))
    grid = os.path.abspath(grid)
    rec.set(levels=levels)
    wit = dict(definition=d)
    rec.eq(data(), vars0, 'making the grid changes its settings', **wit)
    rec.check((gridconfig.default_params, gridconfig.default_param_extra_opts) == def0, 'making a grid changes the defaults for other grids')
    after = state(rec.tmp)
    for f in before:
        if '__pycache__' not in f:
            rec.eq(after.get(f), before[f], 'making a grid changes existing files', file=f)
    params = d.get('params', gridconfig.default_params)
    pextra = d.get('param_extra_opts', gridconfig.default_param_extra_opts)
    common = os.path.join(inidir, '')

    def layer(*ds):
        """earlier wins"""
        out = {}
        for x in ds:
            for k, v in x.items():
                out.setdefault(k, text(v))
        return out

    expected_files = set()
    by = {r.name: r for r in full}
    parent_resolved = {}
    for x in b.items(wantImportance=True):
        if not x.isImportanceJob:
            r = by[x.name]
            own = {}
            for p in r.params:
                own['param[' + p + ']'] = params[p]
                own.update(pextra.get(p, {}))
                own.update(r.g.get('param_extra_opts', {}).get(p, {}))
            own.update(d.get('extra_opts', {}))
            own.update(r.g.get('extra_opts', {}))
            own['file_root'] = os.path.join(grid, r.paramtag, r.datatag, r.name)
            k, cov = find_cov(r)
            if cov:
                own['propose_matrix'] = os.path.normpath(os.path.join(covdir, cov))
                if d.get('newCovmats', True) or k >= 6:
                    own['MPI_Max_R_ProposeUpdate'] = 20
            else:
                own['MPI_Max_R_ProposeUpdate'] = 20
            own['start_at_bestfit'] = d.get('start_at_bestfit', False)
            for i in r.ds['inis']:
                if isinstance(i, dict):
                    own.update(i)
            dfs = [files[f] for f in d.get('override_defaults', [])] + [files[i] for i in r.ds['inis'] if not isinstance(i, dict)] + [files[f] for f in d['defaults']]
            for variant in ([''] if d.get('start_at_bestfit') else ['', '_minimize']):
                o = dict(own, action=0)
                if variant:
                    o.update(action=2, lmin_store_all_cmb=2500)
                    if 'omegak' in r.params:
                        o['accuracy_level'] = 1.2
                    if 'meffsterile' in r.params:
                        o['sterile_mphys_max'] = 10000
                exp = layer(o, *dfs)
                fn = os.path.join(grid, 'iniFiles', x.name + variant + '.ini')
                expected_files.add(os.path.relpath(fn, rec.tmp))
                compare(rec, fn, exp, wit)
                rec.eq(os.path.abspath(x.iniFile(variant)), fn, 'file of the run is not where it is written', **wit)
                if not variant:
                    parent_resolved[x.name] = exp
            rec.check(os.path.isdir(os.path.join(grid, r.paramtag, r.datatag)), 'no directory made for the chains of a run', run=x.name, **wit)
            rec.sig('run', sorted(set(levels)), k, variant)
        elif not getattr(x, 'importanceFilter', None):
            imps = [c for r in full for c in gridgen.tree(r) if c.name == x.name]
            cases = []
            for i in imps:
                inis = [f if isinstance(f, dict) or f.endswith('.ini') else f + '.ini' for f in i.imp['inis']]
                own = {}
                for f in inis:
                    if isinstance(f, dict):
                        own.update(f)
                cases.append((i, own, [files[f] for f in inis if not isinstance(f, dict)]))
            if len(cases) > 1:
                for f in ['', '_minimize']:
                    expected_files.add(os.path.relpath(os.path.join(grid, 'postIniFiles', x.name + f + '.ini'), rec.tmp))
                continue
            i, own, dfs = cases[0]
            root = os.path.join(grid, i.full.paramtag, i.full.datatag, x.name)
            fn = os.path.join(grid, 'postIniFiles', x.name + '.ini')
            expected_files.add(os.path.relpath(fn, rec.tmp))
            par = parent_resolved[x.parent.name]
            exp = layer(dict(own, redo_outroot=root, action=1), *(dfs + [files[f] for f in d['importanceDefaults']] + [par]))
            compare(rec, fn, exp, wit)
            rec.eq(exp['file_root'], os.path.join(grid, i.full.paramtag, i.full.datatag, i.full.name), 'model')
            want_min = i.imp['minimize'] if i.imp['kind'] == 'setting' else True
            fn2 = os.path.join(grid, 'postIniFiles', x.name + '_minimize.ini')
            rec.eq(os.path.exists(fn2), want_min, 'minimization file of importance run there iff wanted', run=x.name, **wit)
            if want_min:
                expected_files.add(os.path.relpath(fn2, rec.tmp))
                o = dict(own, file_root=root, action=2, lmin_store_all_cmb=2500)
                if 'omegak' in i.params:
                    o['accuracy_level'] = 1.2
                if 'meffsterile' in i.params:
                    o['sterile_mphys_max'] = 10000
                compare(rec, fn2, layer(o, *(dfs + [par])), wit)
            rec.sig('imp', sorted(set(levels)), want_min, len(dfs))
    made = set(f for f in after if (f.startswith('grid/iniFiles') or f.startswith('grid/postIniFiles')))
    rec.check(made <= expected_files and not [f for f in expected_files - made if not f.endswith('_minimize.ini')],
              'files written that belong to no run, or missing', extra=sorted(made - expected_files)[:4], missing=sorted(expected_files - made)[:4], **wit)
    for f in set(after) - set(before) - made:
        rec.check(f.startswith('grid/config/') or '__pycache__' in f, 'making a grid writes other files', file=f)
    conf = os.path.join(grid, 'config', 'vmon_c27.py')
    rec.check(os.path.exists(conf) and open(conf).read() == open(os.path.join(rec.tmp, 'conf', 'vmon_c27.py')).read(), 'copy of the settings in the grid differs')
    rec.eq(read_ini(os.path.join(grid, 'config', 'config.ini')).get('setting_file'), 'vmon_c27.py', 'grid does not record its settings file')
    # reading the grid again changes nothing
    snap = {f: v for f, v in state(rec.tmp).items() if '__pycache__' not in f and not f.endswith('.pyobj')}
    for _ in range(2):
        with quiet():
            if rng.random() < 0.5:
                batchjob.resetGrid(grid)
            batchjob.readobject(grid)
    rec.eq({f: v for f, v in state(rec.tmp).items() if '__pycache__' not in f and not f.endswith('.pyobj')}, snap, 'reading a grid changes files')
    # making it again gives the same files
    if rng.random() < 0.5:
        with quiet():
            gridconfig.makeGrid(grid, settings=m)
        again = state(rec.tmp)
        for f in snap:
            if f.startswith('grid/iniFiles') or f.startswith('grid/postIniFiles') or f.startswith('grid/config/'):
                rec.eq(again[f][0], snap[f][0], 'making the same grid again gives other files', file=f, **wit)
            else:
                rec.eq(again.get(f), snap[f], 'making a grid again changes other files', file=f, **wit)


def compare(rec, fn, exp, wit):
    rec.check(os.path.exists(fn), 'input file of a run not written', file=os.path.basename(fn), **wit)
    got = read_ini(fn)
    norm = lambda k, v: os.path.normpath(v) if k in ('file_root', 'redo_outroot', 'propose_matrix') else v
    for k in sorted(set(got) | set(exp)):
        rec.check(k in got and k in exp and norm(k, got[k]) == norm(k, exp[k]), 'input file does not resolve to the settings of the run', key=k, got=got.get(k), expected=exp.get(k),
                  file=os.path.basename(fn), **wit)
    rec.ev('files')
    from getdist import IniFile
    ini = IniFile(fn)
    for k in exp:
        rec.check(k in ini.params and norm(k, ini.params[k]) == norm(k, exp[k]), 'input file read back gives other settings', key=k, got=ini.params.get(k), expected=exp[k], **wit)


GROUPS = dict(generate=(generate, 700, 24000))
QUICK_BUDGET = 60
THOROUGH_BUDGET = 300
