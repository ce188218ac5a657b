"""Generated grid definitions: one plain description, written as a settings file for the real code and expanded by an independent model."""
import itertools
import os

import numpy as np

DATA = ['planck', 'TT', 'lowTEB', 'lensing', 'BAO', 'H070p6', 'JSNpantheonCombinedSupernovaLikelihood', 'theta', 'WP', 'CMB']
PARAMS = ['mnu', 'nnu', 'r', 'omegak', 'w', 'wa', 'Alens', 'yhe', 'meffsterile', 'nrun']
IMPS = ['BAO', 'lensing', 'H070p6', 'JSNpantheonCombinedSupernovaLikelihood', 'zre6p5', 'theta', 'WMAP']
FILT = ['zcut', 'hcut']


def pick(rng, seq, k):
    return [str(v) for v in rng.choice(seq, k, replace=False)]


def gen_cond(rng):
    k = int(rng.integers(0, 6))
    if k < 2:
        return None
    if k < 4:
        return ['param' if k == 2 else 'notparam', str(rng.choice(PARAMS[:5]))]
    return ['data' if k == 4 else 'notdata', str(rng.choice(DATA[:5]))]


def cond_text(c):
    return {'param': 'jobItem.hasParam(%r)', 'notparam': 'not jobItem.hasParam(%r)', 'data': 'jobItem.data_set.hasName(%r)',
            'notdata': 'not jobItem.data_set.hasName(%r)'}[c[0]] % c[1]


def cond_ok(c, params, names):
    if c is None:
        return True
    return {'param': c[1] in params, 'notparam': c[1] not in params, 'data': c[1] in names, 'notdata': c[1] not in names}[c[0]]


def gen_importance(rng, inis=True):
    names = pick(rng, IMPS, 1 if rng.random() < 0.7 else 2)
    kind = str(rng.choice(['list', 'list', 'listcond', 'setting']))
    return dict(kind=kind, names=names, inis=[n + ('.ini' if rng.random() < 0.7 else '') for n in names] if inis else [],
                cond=gen_cond(rng) if kind != 'list' else None, minimize=bool(rng.random() < 0.7),
                dist={'imp_opt': int(rng.integers(9))} if kind == 'setting' and rng.random() < 0.4 else {})


def gen_def(rng, filters=True, big=False):
    """a grid definition with no two full runs of the same content"""
    groups = []
    seen = set()
    for g in range(int(rng.integers(1, 4))):
        params = []
        for _ in range(int(rng.integers(1, 4 + 2 * big))):
            p = pick(rng, PARAMS[:6], int(rng.choice([0, 1, 1, 2, 2, 3])))
            if sorted(p) not in [sorted(q) for q in params]:
                params.append(p)
        datasets = []
        for _ in range(int(rng.integers(1, 4 + 2 * big))):
            names = pick(rng, DATA[:7], int(rng.integers(1, 4)))
            keys = [(tuple(sorted(p)), tuple(sorted(names))) for p in params]
            if any(k in seen for k in keys):
                continue
            seen.update(keys)
            datasets.append(dict(names=names, inis=[n + '.ini' for n in names], how=str(rng.choice(['dataSet', 'list', 'default', 'add', 'addfront'])),
                                 dist={'max_split_tests': int(rng.integers(2, 9))} if rng.random() < 0.3 else {}))
        if not datasets:
            continue
        groups.append(dict(name='group%d' % g, params=params, datasets=datasets, imps=[gen_importance(rng) for _ in range(int(rng.integers(0, 3)))],
                           ctor=bool(rng.random() < 0.3)))
    d = dict(groups=groups, imps=[gen_importance(rng) for _ in range(int(rng.integers(0, 2)))],
             filters=[dict(names=[f], cond=gen_cond(rng)) for f in pick(rng, FILT, int(rng.integers(0, 3)))] if filters and rng.random() < 0.5 else [], skip=[])
    return d


class Run:
    def __init__(self, params, names, group, base='base', parent=None, imp=None, dist=None):
        self.params, self.names, self.group, self.base, self.parent, self.imp = params, names, group, base, parent, imp
        self.children = []
        self.paramtag = '_'.join([base] + params)
        self.dist = dict(dist or {})
        if parent is None:
            self.datatag = '_'.join(names)
            self.imptag = None
        else:
            self.imptag = '_'.join(imp['names'])
            self.datatag = parent.datatag + ('_' if parent.parent else '_post_') + self.imptag
        self.name = self.paramtag + '_' + self.datatag
        self.key = (base, tuple(sorted(params)), tuple(sorted(names)))
        self.full = self if parent is None else parent.full

    def normed(self):
        return '_'.join([self.base] + sorted(self.params) + sorted(self.names))


def expand(d):
    """all wanted runs before repeats are dropped: list of full runs with their trees of importance runs"""
    full = []

    def add(run, imps):
        for i in imps:
            if not cond_ok(i.get('cond'), run.params, run.names) or set(i['names']) & set(run.names):
                continue
            run.children.append(Run(run.params, run.names + i['names'], run.group, parent=run, imp=i, dist=dict(run.dist, **i.get('dist', {}))))

    for g in d['groups']:
        for ds in g['datasets']:
            for p in g['params']:
                r = Run(list(p), list(ds['names']), g['name'], dist=ds.get('dist'))
                r.ds, r.g = ds, g
                if r.name in d['skip']:
                    continue
                add(r, g['imps'])
                add(r, d['imps'])
                full.append(r)
    for r in full:
        kids = list(r.children)
        for k in kids:
            add(k, d['filters'])
        add(r, d['filters'])
    return full


def tree(r):
    for c in r.children:
        yield c
        for x in tree(c):
            yield x


def settings_text(d, extra=''):
    out = ['from paramgrid import batchjob', '', "ini_dir = %r" % d.get('ini_dir', 'batch3/'), "defaults = %r" % d.get('defaults', ['common.ini']),
           "importanceDefaults = %r" % d.get('importanceDefaults', ['importance_sampling.ini']), 'groups = []']
    n = itertools.count()

    def imp_expr(i):
        if i.get('filter'):
            pass
        k = i['kind']
        if k == 'list':
            return '[%r, %r]' % (i['names'], i['inis'])
        cls = 'want%d' % next(n)
        body = cond_text(i['cond']) if i['cond'] else 'True'
        if k == 'listcond':
            out.extend(['', 'class %s(object):' % cls, '    def wantImportance(self, jobItem):', '        return ' + body])
            return '[%r, %r, %s()]' % (i['names'], i['inis'], cls)
        out.extend(['', 'class %s(batchjob.importanceSetting):' % cls, '    def wantImportance(self, jobItem):', '        return ' + body])
        return '%s(%r, %r, dist_settings=%r, minimize=%r)' % (cls, i['names'], i['inis'], i['dist'], i['minimize'])

    for g in d['groups']:
        data = []
        for ds in g['datasets']:
            kw = (', covmat=%r' % ds['covmat'] if ds.get('covmat') else '') + (', dist_settings=%r' % ds['dist'] if ds.get('dist') else '')
            how = ds['how']
            if kw and how in ('list', 'default'):
                how = 'dataSet'
            if how == 'list':
                data.append('[%r, %r]' % (ds['names'], ds['inis']))
            elif how == 'default' and ds['inis'] == [x + '.ini' for x in ds['names']]:
                data.append('batchjob.dataSet(%r)' % (ds['names'] if len(ds['names']) > 1 else ds['names'][0]))
            elif how == 'add' and len(ds['names']) > 1 and len(ds['inis']) == len(ds['names']):
                data.append('batchjob.dataSet(%r, %r%s).copy().addEnd(%r, %r)' % (ds['names'][:-1], ds['inis'][:-1], kw, ds['names'][-1], ds['inis'][-1]))
            elif how == 'addfront' and len(ds['names']) > 1 and len(ds['inis']) == len(ds['names']):
                data.append('batchjob.dataSet(%r, %r%s).copy().add(%r, %r)' % (ds['names'][:-1], ds['inis'][1:], kw, ds['names'][-1], ds['inis'][0]))
            else:
                data.append('batchjob.dataSet(%r, %r%s)' % (ds['names'], ds['inis'], kw))
        imps = '[%s]' % ', '.join([imp_expr(i) for i in g['imps']])
        if g['ctor']:
            out.append('g = batchjob.jobGroup(%r, params=%r, importanceRuns=%s, datasets=[%s])' % (g['name'], g['params'], imps, ', '.join(data)))
        else:
            out += ['g = batchjob.jobGroup(%r)' % g['name'], 'g.params = %r' % g['params'], 'g.datasets = [%s]' % ', '.join(data), 'g.importanceRuns = %s' % imps]
        for k in ['extra_opts', 'param_extra_opts']:
            if k in g:
                out.append('g.%s = %r' % (k, g[k]))
        out.append('groups.append(g)')
    if d['imps']:
        exprs = [imp_expr(i) for i in d['imps']]
        out.append('importanceRuns = [%s]' % ', '.join(exprs))
    if d['filters']:
        exprs = []
        for i in d['filters']:
            cls = 'filt%d' % next(n)
            out.extend(['', 'class %s(batchjob.importanceFilter):' % cls, '    def wantImportance(self, jobItem):',
                        '        return ' + (cond_text(i['cond']) if i['cond'] else 'True'),
                        '    def filter(self, batch, jobItem):', "        open(jobItem.chainRoot + '.filtered', 'a').write('filtered ' + jobItem.parent.name + '\\n')"])
            exprs.append('%s(%r)' % (cls, i['names']))
        out.append('importance_filters = [%s]' % ', '.join(exprs))
    if d['skip']:
        out.append('skip = %r' % d['skip'])
    for k in ['params', 'param_extra_opts', 'extra_opts', 'override_defaults', 'start_at_bestfit', 'cov_dir', 'covNameMappings', 'covWithoutNameOrder', 'covrenames',
              'covmat', 'newCovmats', 'getdist_options', 'cov_dir_fallback']:
        if k in d:
            out.append('%s = %r' % (k, d[k]))
    return '\n'.join(out) + '\n' + extra


def load_settings(d, directory, name):
    """write the settings file and import it"""
    import importlib.util
    import sys
    os.makedirs(directory, exist_ok=True)
    fn = os.path.join(directory, name + '.py')
    with open(fn, 'w') as f:
        f.write(settings_text(d))
    spec = importlib.util.spec_from_file_location(name, fn)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def write_run(rng, root, n=1, rows=12, extra=()):
    os.makedirs(os.path.dirname(root), exist_ok=True)
    for i in range(1, n + 1):
        with open(root + '_%d.txt' % i, 'w') as f:
            for _ in range(rows):
                f.write('  '.join('%.6e' % v for v in [float(rng.integers(1, 4)), rng.uniform(1, 9)] + list(rng.normal(size=2))) + '\n')
    with open(root + '.paramnames', 'w') as f:
        f.write('p\tp\nq\tq\n')
    for e in extra:
        with open(root + e, 'w') as f:
            f.write('content of %s%s %d\n' % (os.path.basename(root), e, int(rng.integers(1e6))))


def numpy_free(x):
    return float(x) if isinstance(x, np.floating) else x
