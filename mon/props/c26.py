import contextlib
import fnmatch
import io
import os
import subprocess
import sys

import numpy as np

from .. import core, gen, gridgen

RULE = 'a case is a generated grid definition (groups, parameter and data combinations, importance runs with conditions, filters, skipped names, sub-grids); the runs of ' \
       'the real grid are compared with those of an independent cross-product model and then looked up and filtered by generated queries; ' \
       'distinct = (definition size, kinds of importance runs, query options, number of matches)'
ASSUMPTIONS = ['data and parameter names contain no underscores, as grid names join them with underscores',
               'no two full runs of one grid have the same parameters and data',
               'data tags are not queried together with skipped data, nor parameter tags together with skipped parameters']


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as s:
        yield s


def in_memory(rng, rec, d, tag):
    from paramgrid import batchjob
    m = gridgen.load_settings(d, os.path.join(rec.tmp, 'conf' + tag), 'vmon_settings_' + tag)
    b = batchjob.batchJob(os.path.join(rec.tmp, 'grid' + tag) + os.sep, m.ini_dir)
    b.skip = list(d['skip'])
    with quiet():
        b.makeItems(m)
    return b, m


def add_skip(rng, d):
    names = [r.name for r in gridgen.expand(d)]
    if rng.random() < 0.4:
        d['skip'] = [str(v) for v in rng.choice(names, min(len(names), int(rng.integers(1, 3))), replace=False)] + ['base_nothing']
        if rng.random() < 0.5:
            imps = [x.name for r in gridgen.expand(d) for x in gridgen.tree(r)]
            if imps:
                d['skip'].append(str(rng.choice(imps)))


def compare_expansion(rec, b, d, wit):
    full = gridgen.expand(d)
    got = list(b.items(wantImportance=False))
    rec.eq(sorted(x.name for x in got), sorted(r.name for r in full), 'grid does not have one run for each requested combination', **wit)
    byname = {r.name: r for r in full}
    wanted, alts = {}, {}
    for r in full:
        for x in gridgen.tree(r):
            wanted.setdefault(x.name, x)
            alts.setdefault(x.name, []).append(x)
    keys = {r.key: r for r in full}
    allgot = list(b.items(wantImportance=True))
    names = [x.name for x in allgot]
    rec.eq(len(set(names)), len(names), 'run names not unique', names=sorted(names)[:20], **wit)
    rec.eq(len(set(x.chainRoot for x in allgot)), len(allgot), 'chain file roots not unique', **wit)
    gotkeys = {}
    for x in allgot:
        r = byname.get(x.name) or wanted.get(x.name)
        rec.check(r is not None, 'grid has a run that was not requested', run=x.name, **wit)
        rec.check(not x.isImportanceJob or x.name not in d['skip'], 'skipped importance run listed', run=x.name, **wit)
        rec.eq(bool(x.isImportanceJob), r.parent is not None, 'importance flag wrong', run=x.name, **wit)
        rec.eq((list(x.param_set), list(x.data_set.names), x.group), (r.params, r.names, r.group), 'run has other parameters, data or group', run=x.name, **wit)
        rec.eq((x.paramtag, x.datatag, x.name), (r.paramtag, r.datatag, r.name), 'run has other tags', **wit)
        rec.eq(x.normed_name, r.normed(), 'normalized name is not the sorted tags', run=x.name, **wit)
        f = r.full
        top = os.path.join(b.batchPath, f.paramtag, f.datatag)
        rec.eq(os.path.normpath(x.chainPath), os.path.normpath(top), 'chain path not made of parameter and data tags', run=x.name, **wit)
        rec.eq(x.chainRoot, os.path.join(os.path.normpath(top), x.name), 'chain root not in the directory of the run', **wit)
        rec.eq(x.distRoot, os.path.join(os.path.normpath(top), 'dist', x.name), 'analysis output root not in the directory of the run', **wit)
        rec.eq(os.path.join(b.batchPath, x.relativePath, ''), os.path.join(os.path.normpath(top), ''), 'relative path differs from chain path', **wit)
        if r.parent is not None:
            rec.eq(x.parent.name, r.parent.name, 'importance run has another parent', run=x.name, **wit)
            rec.eq(x.importanceTag, r.imptag, 'importance tag wrong', run=x.name, **wit)
            rec.eq(bool(getattr(x, 'importanceFilter', None)), 'kind' not in r.imp, 'importance filter mislabelled', run=x.name, **wit)
        if r.parent is None or r.parent.parent is None:
            rec.check(dict(x.dist_settings) in [y.dist for y in alts.get(x.name, [r])], 'analysis settings of the run differ from its data set and importance definition', got=x.dist_settings, run=x.name, **wit)
        rec.check(r.key not in gotkeys, 'two runs with the same content', run1=x.name, run2=gotkeys.get(r.key), **wit)
        gotkeys[r.key] = x.name
        rec.ev('runs')
    for x in wanted.values():
        if x.name in d['skip'] or any(p.name in d['skip'] for p in ancestors(x)) or any(s.key == x.key for s in wanted.values() if s.name in d['skip']):
            continue
        rec.check(x.key in gotkeys, 'requested importance run missing', run=x.name, **wit)
    for x in wanted.values():
        if x.key in keys:
            rec.check(gotkeys.get(x.key) == keys[x.key].name, 'importance run listed although there is a full run', run=x.name, **wit)
    return full, allgot


def ancestors(x):
    while x.parent is not None:
        x = x.parent
        yield x


def expansion(rng, rec):
    d = gridgen.gen_def(rng, big=rng.random() < 0.3)
    if not d['groups']:
        raise core.Skip
    add_skip(rng, d)
    import copy
    before = copy.deepcopy(d)
    b, m = in_memory(rng, rec, d, 'a%d' % rec.idx)
    wit = dict(definition=before)
    full, got = compare_expansion(rec, b, d, wit)
    # expanding again from the same settings gives the same grid
    from paramgrid import batchjob
    b2 = batchjob.batchJob(b.batchPath, m.ini_dir)
    b2.skip = list(d['skip'])
    with quiet():
        b2.makeItems(m)
    rec.eq([x.name for x in b2.items(wantImportance=True)], [x.name for x in got], 'expanding the same settings twice gives other runs', **wit)
    for x, y in zip(b2.items(wantImportance=True), got):
        rec.eq([str(p) for p in x.data_set.params if not isinstance(p, batchjob.importanceSetting)],
               [str(p) for p in y.data_set.params if not isinstance(p, batchjob.importanceSetting)], 'expanding twice changes the data settings', run=x.name, **wit)
        rec.eq(x.data_set.names, y.data_set.names, 'expanding twice changes data names', run=x.name, **wit)
    # runs defined one by one, which may have another base name
    if rng.random() < 0.4:
        extra = []
        for _ in range(int(rng.integers(1, 3))):
            p, dn = gridgen.pick(rng, gridgen.PARAMS[:6], int(rng.integers(0, 3))), gridgen.pick(rng, gridgen.DATA[:7], int(rng.integers(1, 4)))
            if all((sorted(p), sorted(dn)) != (sorted(q), sorted(e)) for q, e in extra):
                extra.append((p, dn))
        m.jobItems = [batchjob.jobItem(b.batchPath, p, batchjob.dataSet(dn), base='other') for p, dn in extra]
        b3 = batchjob.batchJob(b.batchPath, m.ini_dir)
        b3.skip = list(d['skip'])
        with quiet():
            b3.makeItems(m)
        mine = [x for x in b3.items(wantImportance=True) if x.name.startswith('other_')]
        rest = [x.name for x in b3.items(wantImportance=True) if not x.name.startswith('other_')]
        rec.eq(sorted(rest), sorted(x.name for x in got), 'separately defined runs change the other runs', **wit)
        dd = dict(d, groups=[dict(name=None, params=[p], datasets=[dict(names=dn)], imps=[]) for p, dn in extra], skip=[])
        exp = {}
        for r in gridgen.expand(dd):
            for x in [r] + list(gridgen.tree(r)):
                exp.setdefault(x.key, []).append('other' + x.name[4:])
        for x in mine:
            k = ('base', tuple(sorted(x.param_set)), tuple(sorted(x.data_set.names)))
            rec.check(x.name in exp.get(k, []), 'run that was not requested', run=x.name, extra=extra, **wit)
            rec.check(b3.resolveRoot(x.name) is x and b3.resolveName(list(x.param_set), x.datatag, base='other', returnJobItem=True) is x,
                      'separately defined run not found', run=x.name, extra=extra, **wit)
        rec.eq(len(mine), len(exp), 'separately defined runs not each there once', runs=[x.name for x in mine], extra=extra, **wit)
        rec.sig('own', len(mine), len(extra))
    rec.sig('exp', len(full), len(got) - len(full), bool(d['filters']), bool(d['skip']), sorted(i['kind'] for g in d['groups'] for i in g['imps']))


def resolve(rng, rec):
    d = gridgen.gen_def(rng)
    if not d['groups']:
        raise core.Skip
    add_skip(rng, d)
    b, m = in_memory(rng, rec, d, 'b%d' % rec.idx)
    runs = list(b.items(wantImportance=True))
    wit = dict(definition=d)
    found = 0
    for x in runs:
        if rng.random() < 0.5 and len(runs) > 12:
            continue
        rec.check(b.resolveRoot(x.name) is x, 'run not found by its name', run=x.name, **wit)
        rec.check(b.resolveRoot(x.normed_name) is x, 'run not found by its normalized name', run=x.normed_name, **wit)
        rec.check(b.normed_name_item(x.normed_name, wantImportance=True) is x, 'run not found by normalized name', run=x.normed_name, **wit)
        rec.eq(bool(b.has_normed_name(x.normed_name)), not x.isImportanceJob, 'normalized name of full runs', run=x.name, **wit)
        rec.eq(bool(b.hasName(x.name)), not x.isImportanceJob, 'hasName of full runs', run=x.name, **wit)
        for _ in range(2):
            p = [str(v) for v in rng.permutation(np.array(x.param_set, dtype=object))] if x.param_set else []
            dn = [str(v) for v in rng.permutation(np.array(x.data_set.names, dtype=object))]
            ptag = '_'.join(p) if rng.random() < 0.5 else p
            if x.isImportanceJob and rng.random() < 0.5:
                k = int(rng.integers(1, len(dn))) if len(dn) > 1 else 0
                dtag = '_'.join(dn[:k]) + '_post_' + '_'.join(dn[k:]) if k else dn[0]
            else:
                dtag = '_'.join(dn)
            got = b.resolveName(ptag, dtag, returnJobItem=True)
            rec.check(got is x, 'run not found by an ordering of its tags', paramtag=ptag, datatag=dtag, got=got.name, run=x.name, **wit)
            rec.eq(b.resolveName(ptag, dtag), x.name, 'resolveName gives another name', **wit)
            rec.ev('runs')
            found += 1
        if x.isImportanceJob:
            rec.check(b.resolveName(list(x.param_set), x.datatag, wantImportance=False, raiseError=False) is None, 'importance run found when not wanted', run=x.name, **wit)
        for tags, exp in [([x.datatag], True), (['other', x.normed_data], True), (['other'], False), ([x.datatag.replace('_post', '')], True), ([x.datatag + '_zzz'], False)]:
            rec.eq(bool(x.matchesDatatag(tags)), exp, 'matchesDatatag', tags=tags, run=x.name, **wit)
        ds = x.data_set
        n0 = ds.names[0]
        rec.eq(ds.tagReplacing(n0, 'new'), '_'.join(['new'] + ds.names[1:]), 'tagReplacing', **wit)
        rec.eq(ds.tagReplacing(n0, ''), '_'.join(ds.names[1:]), 'tagReplacing with nothing', **wit)
        subs = {n0: 'zzz', ds.names[-1]: ''}
        rec.eq(ds.makeNormedDatatag(subs), '_'.join(sorted([subs.get(n, n) for n in ds.names if subs.get(n, n)])), 'normalized data tag with substitutions', **wit)
        rec.eq(x.makeNormedName(subs)[0], '_'.join(['base'] + sorted(x.param_set) + [v for v in sorted([subs.get(n, n) for n in ds.names if subs.get(n, n)])] or ['']),
               'normalized name with substitutions', **wit) if len(ds.names) > 1 else None
    # names which are not in the grid are not found
    have = set(x.normed_name for x in runs)
    for _ in range(8):
        p = gridgen.pick(rng, gridgen.PARAMS[:6], int(rng.integers(0, 4)))
        dn = gridgen.pick(rng, gridgen.DATA, int(rng.integers(1, 4)))
        norm = '_'.join(['base'] + sorted(p) + sorted(dn))
        got = b.resolveName(p, '_'.join(dn), raiseError=False)
        rec.eq(got is not None, norm in have, 'combination found iff in the grid', params=p, data=dn, result=got, **wit)
        if norm not in have:
            try:
                b.resolveName(p, '_'.join(dn))
                rec.check(False, 'resolving a run that is not in the grid does not raise', params=p, data=dn, **wit)
            except core.Violation:
                raise
            except Exception:
                pass
            rec.check(b.resolveRoot('_'.join(['base'] + p + dn)) is None, 'resolveRoot finds a run that is not in the grid', params=p, data=dn, **wit)
    rec.sig('res', len(runs), found)


def query(rng, runs):
    q = {}
    r = runs[int(rng.integers(len(runs)))]
    opts = [str(v) for v in rng.choice(['name', 'param', 'paramtag', 'data', 'datatag', 'musthave_data', 'skip_data', 'skip_param', 'group', 'skip_group', 'importance',
                                        'importancetag', 'noimportance', 'importance_all'], int(rng.integers(0, 4)), replace=False)]
    for o in opts:
        if o in ('datatag',) and {'skip_data', 'data'} & set(q) or o in ('skip_data', 'data') and 'datatag' in q:
            continue
        if o == 'paramtag' and {'skip_param', 'param'} & set(q) or o in ('skip_param', 'param') and 'paramtag' in q:
            continue
        k = int(rng.integers(1, 3))
        if o == 'name':
            q[o] = [str(rng.choice([r.name, r.paramtag + '_*', '*' + r.datatag, 'base_' + '*', '*_post_*', 'nothing', '*' + r.names[0] + '*', r.name[:-1] + '?', r.name[:-1]]))
                    for _ in range(k)]
        elif o == 'param':
            q[o] = gridgen.pick(rng, gridgen.PARAMS[:6], k)
        elif o == 'paramtag':
            q[o] = [r.paramtag] + (['base'] if k > 1 else [])
        elif o in ('data', 'musthave_data', 'skip_data'):
            q[o] = [str(v) for v in rng.choice(r.names if rng.random() < 0.6 else gridgen.DATA, 1)] + (gridgen.pick(rng, gridgen.DATA, 1) if k > 1 else [])
        elif o == 'datatag':
            q[o] = [r.datatag] + ([runs[0].datatag] if k > 1 else [])
        elif o == 'skip_param':
            q[o] = gridgen.pick(rng, gridgen.PARAMS[:6], k)
        elif o in ('group', 'skip_group'):
            q[o] = ['group%d' % v for v in rng.choice(4, k, replace=False)]
        elif o == 'importance':
            q[o] = gridgen.pick(rng, gridgen.IMPS, k)
        elif o == 'importancetag':
            q[o] = ([r.imptag] if r.imptag else gridgen.pick(rng, gridgen.IMPS, 1)) + (gridgen.pick(rng, gridgen.IMPS, 1) if k > 1 else [])
        elif o == 'noimportance':
            q[o] = True
        elif o == 'importance_all' and 'importance' not in q:
            q['importance'] = []
    return q


def matches(q, r):
    if r.parent is None:
        if q.get('importance') is not None:
            return False
    else:
        if q.get('noimportance'):
            return False
        if q.get('importancetag') and r.imptag not in q['importancetag']:
            return False
        if q.get('importance') and not set(q['importance']) & set(r.imp['names']):
            return False
    if 'name' in q and not any(fnmatch.fnmatchcase(r.name, p) for p in q['name']):
        return False
    if 'param' in q and not set(q['param']) & set(r.params):
        return False
    if 'paramtag' in q and r.paramtag not in q['paramtag']:
        return False
    if 'skip_param' in q and set(q['skip_param']) & set(r.params):
        return False
    if 'data' in q and not set(q['data']) & set(r.names):
        return False
    if 'skip_data' in q and set(q['skip_data']) & set(r.names):
        return False
    if 'musthave_data' in q and set(q['musthave_data']) - set(r.names):
        return False
    if 'datatag' in q and r.datatag not in q['datatag']:
        return False
    if 'group' in q and r.group not in q['group']:
        return False
    return not ('skip_group' in q and r.group in q['skip_group'])


def argv(rng, q):
    out = []
    for k in rng.permutation(np.array(sorted(q), dtype=object)) if q else []:
        out.append('--' + str(k))
        if q[k] is not True:
            out += q[k]
    return out


def make_grid(rng, rec, d, name, settings='vmon_set', top=None):
    """the real entry point: settings file -> grid directory"""
    from paramgrid import gridconfig
    d.setdefault('ini_dir', 'batch3/')
    d['params'] = {p: '0 0 1 0.1 0.1' for p in gridgen.PARAMS}
    m = gridgen.load_settings(d, os.path.join(rec.tmp, 'conf_' + name), settings)
    path = os.path.join(top or rec.tmp, name)
    with quiet():
        b = gridconfig.makeGrid(path, settings=m)
    return path, b, m


def model_runs(b, d):
    """model of the runs in the grid: those the expansion check establishes"""
    by = {}
    for r in gridgen.expand(d):
        by[r.name] = r
        for x in gridgen.tree(r):
            by.setdefault(x.name, x)
    return [by[x.name] for x in b.items(wantImportance=True)]


def filters(rng, rec):
    from paramgrid import batchjob_args
    d = gridgen.gen_def(rng, big=rng.random() < 0.3)
    if not d['groups']:
        raise core.Skip
    add_skip(rng, d)
    path, b, m = make_grid(rng, rec, d, 'g')
    runs = model_runs(b, d)
    if not runs:
        raise core.Skip
    exist = set()
    for x in b.items(wantImportance=True):
        if rng.random() < 0.5:
            gridgen.write_run(rng, x.chainRoot, rows=2)
            exist.add(x.name)
    for i in range(12):
        q = query(rng, runs)
        a = argv(rng, q)
        opts = batchjob_args.batchArgs('x', importance=True, notExist=True, converge=True)
        with quiet():
            batch, args = opts.parseForBatch([path] + a)
        exp = [r for r in runs if matches(q, r)]
        for chain_exist in (False, True):
            e = [r.name for r in exp if not chain_exist or r.name in exist]
            got = [x.name for x in opts.filteredBatchItems(chainExist=chain_exist)]
            rec.eq(sorted(got), sorted(e), 'filter does not give exactly the matching runs', query=q, exists=chain_exist, definition=d)
            tags = opts.sortedParamtagDict(chainExist=chain_exist)
            rec.eq([t for t, _ in tags], sorted(set(r.paramtag for r in exp if r.name in e)), 'parameter tags of matching runs', query=q, definition=d)
            for t, items in tags:
                rec.eq(sorted(x.name for x in items), sorted(r.name for r in exp if r.name in e and r.paramtag == t), 'runs by parameter tag', query=q, tag=t, definition=d)
        if exp:
            pool = list(opts.filteredBatchItems())
            tag = exp[int(rng.integers(len(exp)))]
            perm = '_'.join(str(v) for v in rng.permutation(np.array(tag.names, dtype=object)))
            got = opts.filterForDataCompare(pool, [perm])
            rec.eq(sorted(x.name for x in got), sorted(r.name for r in exp if sorted(r.names) == sorted(tag.names)), 'runs with the data to compare', tag=perm, definition=d)
        rec.ev('runs')
        rec.sig('flt', sorted(q), min(len(exp), 8), len(exp) == len(runs))
    if rng.random() < 0.25:
        q = query(rng, runs)
        normed = rng.random() < 0.4
        mode = int(rng.integers(3))
        out = subprocess.run([sys.executable, os.path.join(core.EXE, 'listGrid.py'), path] + argv(rng, q) + ['--normed'] * normed + [[], ['--exists'], ['--notexist']][mode],
                             capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=core.EXE), cwd=rec.tmp)
        rec.eq(out.returncode, 0, 'listGrid fails', err=out.stderr[-800:])
        exp = [r for r in runs if matches(q, r) and (mode == 0 or (r.name in exist) == (mode == 1))]
        rec.eq(sorted(line.split()[0] for line in out.stdout.splitlines() if line.startswith('base')), sorted(r.normed() if normed else r.name for r in exp),
               'listGrid does not list exactly the matching runs', query=q, mode=mode, definition=d)
        rec.sig('list', sorted(q), mode, normed)


def reread(rng, rec):
    """histories of making, re-reading and joining grids which share the name of their settings file"""
    from paramgrid import batchjob
    grids = []
    n = int(rng.integers(1, 4))
    shared = rng.random() < 0.6  # name of the settings file
    for i in range(n):
        d = gridgen.gen_def(rng)
        if not d['groups']:
            raise core.Skip
        add_skip(rng, d)
        path, b, m = make_grid(rng, rec, d, 'grid%d' % i, settings='vmon_set' if shared else 'vmon_set%d' % i)
        exist = set()
        for x in b.items(wantImportance=True):
            if rng.random() < 0.6:
                gridgen.write_run(rng, x.chainRoot, rows=1)
                exist.add(x.name)
        grids.append((path, d, exist, [x.name for x in b.items(wantImportance=True)]))
    ro = set()
    for _ in range(int(rng.integers(2, 6))):
        i = int(rng.integers(n))
        path, d, exist, names = grids[i]
        op = str(rng.choice(['read', 'reset', 'scriptread']))
        if op == 'reset':
            batchjob.resetGrid(path)
            ro.add(i)
        with quiet():
            if op == 'scriptread':
                old = sys.argv
                sys.argv = ['x', path]
                try:
                    b = batchjob.readobject()
                finally:
                    sys.argv = old
            else:
                b = batchjob.readobject(path + os.sep if rng.random() < 0.3 else path)
        got = [x.name for x in b.items(wantImportance=True)]
        if i in ro:  # configured from existing chains
            full = set(r.name for r in gridgen.expand(d)) & exist
            exp = [x for x in names if x.split('_post_')[0] in full]
            byparent = {}
            for r in gridgen.expand(d):
                for x in gridgen.tree(r):
                    byparent[x.name] = r.name
            exp = [x for x in names if byparent.get(x, x) in exist]
        else:
            exp = names
        rec.eq(sorted(got), sorted(exp), 'grid read back has other runs', op=op, grid=i, readonly=i in ro, definition=d)
        for x in b.items(wantImportance=True):
            rec.check(os.path.abspath(x.chainRoot).startswith(os.path.abspath(path) + os.sep), 'run of another grid', root=x.chainRoot)
        rec.ev('runs')
        rec.sig('read', op, i in ro, n)
    plain = os.path.join(rec.tmp, 'notagrid')
    gridgen.write_run(rng, os.path.join(plain, 'x', 'base_x'), rows=1)
    with quiet():
        rec.check(batchjob.readobject(plain) is None, 'grid read from a directory that is not a grid')
    if n > 1 and not shared:
        a, c = grids[0], grids[1]
        with quiet():
            parts = [x for p in (a[0], c[0]) for x in batchjob.readobject(p).items(wantImportance=True)]
        out = subprocess.run([sys.executable, os.path.join(core.EXE, 'addGridBatch.py'), a[0], c[0]], capture_output=True, text=True,
                             env=dict(os.environ, PYTHONPATH=core.EXE), cwd=rec.tmp)
        rec.eq(out.returncode, 0, 'addGridBatch fails', err=out.stderr[-600:])
        with quiet():
            b = batchjob.readobject(a[0])
        sub = [x.name for x in b.items()]
        own = [x.name for x in b.items(wantSubItems=False)]
        rec.eq(sorted(sub), sorted(own + [x.name for x in batchjob.readobject(c[0]).items()]), 'joined grid does not have the runs of both')
        drop = lambda x: x.isImportanceJob and (x.name.replace('_post', '') in sub or drop(x.parent))
        rec.eq(sorted(x.name for x in b.items(wantImportance=True)), sorted(x.name for x in parts if not drop(x)), 'joined grid does not have the importance runs of both')
        for s in set(sub):
            rec.check(b.resolveRoot(s) is not None and b.resolveRoot(s).name == s, 'run of joined grid not found', run=s)
        rec.check(all(x.name.replace('_post', '') not in sub for x in b.items(wantSubItems=False, wantImportance=True) if x.isImportanceJob),
                  'importance run kept although the joined grid has a full run')
        rec.sig('join', len(sub))


def datasets(rng, rec):
    """the operations settings files build data combinations and runs with, as a history on objects that must not share state"""
    from paramgrid import batchjob
    import copy
    names = ['planck', 'TT', 'BAO', 'H0.7', 'WP', 'lens', 'SN', 'theta']

    def std(p):
        p = [p] if isinstance(p, (dict, str)) else p
        return [v + '.ini' if isinstance(v, str) and '.ini' not in v else v for v in p]

    def params_for(ns):
        k = int(rng.integers(0, 5))
        if k == 0:
            return {'opt%d' % int(rng.integers(4)): int(rng.integers(9))}
        if k == 1:
            return ns[0]
        if k == 2:
            return [n + '.ini' for n in ns]
        if k == 3:
            return [n for n in ns] + [{'opt%d' % int(rng.integers(4)): int(rng.integers(9))}]
        return [ns[0] + '_v2.3']

    objs = []  # (object, model)
    hist = []
    for step in range(int(rng.integers(3, 10))):
        op = str(rng.choice(['new', 'new', 'copy', 'add', 'addEnd', 'addNone', 'extend'])) if objs else 'new'
        i = int(rng.integers(len(objs))) if objs else 0
        left = [n for n in names if not objs or op == 'new' or n not in objs[i][1]['names']]
        if op in ('add', 'addEnd', 'extend') and len(left) < 2:
            continue
        if op == 'new':
            ns = pick_names(rng, names, int(rng.integers(1, 4)))
            dist = {'a': int(rng.integers(9))} if rng.random() < 0.4 else {}
            arg = ns[0] if len(ns) == 1 and rng.random() < 0.5 else list(ns)
            p = None if rng.random() < 0.4 else params_for(ns)
            p0, d0, a0 = copy.deepcopy(p), dict(dist), copy.copy(arg)
            o = batchjob.dataSet(arg, p, dist_settings=dist if dist or rng.random() < 0.5 else None) if p is not None or dist else batchjob.dataSet(arg)
            rec.eq((p, dist, arg), (p0, d0, a0), 'making a data combination changes what it is made from')
            objs.append((o, dict(names=list(ns), params=[n + '.ini' for n in ns] if p is None else std(copy.deepcopy(p)), dist=dict(dist), tag='_'.join(ns), imp=None)))
        elif op == 'copy':
            objs.append((objs[i][0].copy(), copy.deepcopy(objs[i][1])))
        elif op == 'extend':
            ns = pick_names(rng, left, int(rng.integers(1, 3)))
            p = params_for(ns)
            p0, n0 = copy.deepcopy(p), list(ns)
            o, m = objs[i]
            q = o.extendForImportance(ns, p)
            rec.eq((p, ns), (p0, n0), 'extending a data combination changes what is added')
            objs.append((q, dict(names=m['names'] + ns, params=copy.deepcopy(m['params']) + std(p0), dist=dict(m['dist']),
                                 tag=m['tag'] + ('_' if '_post_' in m['tag'] else '_post_') + '_'.join(ns), imp=(list(ns), std(p0)))))
        else:
            o, m = objs[i]
            n = None if op == 'addNone' else pick_names(rng, left, 1)[0]
            p = None if op == 'add' and rng.random() < 0.4 else params_for([n or 'extra'])
            dist = {'b': int(rng.integers(9))} if rng.random() < 0.3 else None
            p0 = copy.deepcopy(p)
            front = op != 'addEnd' and rng.random() < 0.8
            if op == 'addEnd':
                r = o.addEnd(n, p, dist_settings=dist) if dist else o.addEnd(n, p)
            else:
                r = o.add(n, p, overrideExisting=front, dist_settings=dist)
            rec.check(r is o, 'adding data does not return the combination')
            rec.eq(p, p0, 'adding data changes what is added')
            pp = std([n] if p0 is None else p0)
            m['params'] = pp + m['params'] if front else m['params'] + pp
            if dist:
                m['dist'].update(dist)
            if n:
                m['names'] = m['names'] + [n]
                m['tag'] = '_'.join(m['names'])
        hist.append((op, i, objs[-1][1]['names'] if op in ('new', 'extend') else objs[i][1]['names']))
        rec.set(history=hist)
        for o, m in objs:  # every combination, also those not touched by the last operation
            rec.eq((list(o.names), o.params, o.tag, o.dist_settings), (m['names'], m['params'], m['tag'], m['dist']), 'names, settings or tag of a data combination')
            if m['imp']:
                rec.eq((list(o.importanceNames), o.importanceParams), m['imp'], 'importance settings of a data combination')
            rec.ev('combinations')
    for o, m in objs:
        some = pick_names(rng, names, int(rng.integers(1, 4)))
        rec.eq((bool(o.hasName(some)), bool(o.hasAll(some)), bool(o.hasName(some[0])), bool(o.hasAll(some[0]))),
               (any(n in m['names'] for n in some), all(n in m['names'] for n in some), some[0] in m['names'], some[0] in m['names']), 'names in a data combination', asked=some, names=m['names'])
        dic = {n: [None, '', 'NEW', 'Z' + n][int(rng.integers(4))] for n in some}
        want = [dic.get(n, n) for n in m['names'] if dic.get(n, n)]
        rec.eq(list(o.namesReplacing(dic)), want, 'names after replacement', dic=dic, names=m['names'])
        rec.eq(list(o.namesReplacing(None)), m['names'], 'names without replacement')
        rec.eq(o.makeNormedDatatag(dic), '_'.join(sorted(want)), 'normalized data tag', dic=dic)
        rec.eq(o.tagReplacing(some[0], dic[some[0]] or ''), '_'.join((dic[some[0]] or '') if n == some[0] else n for n in m['names'] if n != some[0] or dic[some[0]]), 'tag after replacement')
        rec.eq(list(o.names), m['names'], 'queries change the names')
    # runs made from shared combinations
    plain = [(o, m) for o, m in objs if not m['imp'] and '_post_' not in m['tag']]
    o, m = plain[int(rng.integers(len(plain)))]
    jobs = []
    path = os.path.join(rec.tmp, 'x') + os.sep
    sets = [[], ['mnu'], ['r', 'nnu']][:int(rng.integers(2, 4))]
    for ps in sets:
        jobs.append(batchjob.jobItem(path, ps, o))
    jobs[0].dist_settings['only'] = 1
    rec.check(all('only' not in j.dist_settings for j in jobs[1:]) and 'only' not in o.dist_settings, 'analysis settings of one run appear in another')
    j = jobs[-1]
    levels = [j]
    left = [n for n in names if n not in m['names']]
    with quiet():
        tags = []
        while left and len(levels) < 4:
            ns = left[:int(rng.integers(1, 3))]
            left = left[len(ns):]
            up = levels[-1]
            up.makeImportance([[ns, [n + '.ini' for n in ns]], [m['names'][:1], ['dup.ini']]])
            rec.eq(len(up.importanceJobs()), 1, 'importance runs made (one asked for, one repeats data of the run)')
            x = up.importanceJobs()[0]
            tags.append('_'.join(ns))
            rec.eq((x.name, x.importanceTag, x.isImportanceJob, x.parent is up), (j.name + '_post_' + '_'.join(tags), tags[-1], True, True), 'importance run')
            rec.eq(x.chainRoot, j.chainPath + x.name, 'chain root of an importance run')
            x.dist_settings['z%d' % len(levels)] = 3
            rec.check('z%d' % len(levels) not in up.dist_settings, 'analysis settings of an importance run appear in its parent')
            levels.append(x)
    rec.eq([x.name for x in j.importanceJobsRecursive()], [x.name for x in levels[1:]], 'importance runs at all levels')
    if len(levels) > 1:
        k = int(rng.integers(1, len(levels)))
        j.removeImportance(levels[k])
        rec.eq([x.name for x in j.importanceJobsRecursive()], [x.name for x in levels[1:k]], 'importance runs after removing one', removed=levels[k].name)
    rec.sig('data', len(objs), len(levels), sorted(set(h[0] for h in hist)))


def pick_names(rng, names, k):
    return [str(v) for v in rng.choice(names, k, replace=False)]


GROUPS = dict(datasets=(datasets, 400, 8000), expansion=(expansion, 600, 20000), resolve=(resolve, 300, 8000), filters=(filters, 80, 2000), reread=(reread, 80, 1500))
QUICK_BUDGET = 40
THOROUGH_BUDGET = 300
