import contextlib
import copy
import io
import os

import numpy as np

from .. import core, gen

RULE = 'a case is one generated run description (parameters written in every supported form, priors, renames, post-processing) used to read chains, either ' \
       'from files (three layouts) or from in-memory collections; names, labels, aliases, derived flags, bounds, fixed values, burn-in, sampler and sample values ' \
       'are compared with what was generated; distinct = (forms of parameters, priors, post-processing, layout)'
ASSUMPTIONS = ['prior distributions are those of scipy.stats with support known in closed form', 'samplers named in descriptions are mcmc or polychord']

NAMES = ['omega_b', 'H0', 'ns', 'tau', 'logA', 'w', 'a', 'b', 'mnu', 'x_1', 'A_planck', 'calPlanck', 'c', 'sigma8', 'S8', 'Omega_m', 'rdrag', 'age', 'theta_MC_100', 'As']
LABELS = [r'\Omega_b h^2', r'\tau', 'x', r'n_{\rm s}', r'\log(10^{10} A_s)', 'H_0', r'\sigma_8', "y'", 'a b', 'q: r', '10', '# z']


def num(rng, v):
    """a number written in one of the ways YAML descriptions use"""
    return float(v)


def prior(rng):
    """returns (description of the prior, lower, upper, a function drawing samples)"""
    k = str(rng.choice(['list', 'tuple', 'dict', 'minonly', 'maxonly', 'norm', 'uniform loc', 'halfnorm', 'gamma', 'beta', 'norm default', 'truncnorm', 'expon', 'dist min max', 'halfcauchy loc', 'zero min', 'zero max', 'trunc zero']))
    lo = float(np.round(rng.normal() * 3, 3))
    w = float(np.round(rng.uniform(0.5, 4), 3))
    hi = lo + w
    u = lambda n: lo + w * rng.random(n)
    if k == 'list':
        return k, [lo, hi], lo, hi, u
    if k == 'tuple':
        return k, (lo, hi), lo, hi, u
    if k == 'dict':
        return k, {'min': lo, 'max': hi}, lo, hi, u
    if k == 'dist min max':
        return k, {'dist': 'uniform', 'min': lo, 'max': hi}, lo, hi, u
    if k == 'zero min':
        # one side at zero, the other not limited
        return k, {'min': 0, 'max': None} if rng.random() < 0.5 else {'min': 0}, 0., 'any', lambda n: rng.random(n)
    if k == 'zero max':
        return k, {'min': None, 'max': 0.} if rng.random() < 0.5 else {'max': 0}, 'any', 0., lambda n: -rng.random(n)
    if k == 'trunc zero':
        return k, {'dist': 'truncnorm', 'a': 0, 'b': 2., 'loc': lo, 'scale': w}, lo, lo + 2 * w, lambda n: lo + w * rng.uniform(0, 2, n)
    if k == 'minonly':
        return k, {'min': lo, 'max': np.inf}, lo, None, lambda n: lo + rng.exponential(size=n)
    if k == 'maxonly':
        return k, {'min': -np.inf, 'max': hi}, None, hi, lambda n: hi - rng.exponential(size=n)
    if k == 'norm':
        return k, {'dist': 'norm', 'loc': lo, 'scale': w}, None, None, lambda n: rng.normal(size=n) * w + lo
    if k == 'norm default':
        return k, {'dist': 'norm'}, None, None, lambda n: rng.normal(size=n)
    if k == 'uniform loc':
        d = {'loc': lo, 'scale': w}
        if rng.random() < 0.5:
            d['dist'] = 'uniform'
        return k, d, lo, hi, u
    if k == 'halfnorm':
        return k, {'dist': 'halfnorm', 'loc': lo, 'scale': w}, lo, None, lambda n: lo + w * np.abs(rng.normal(size=n))
    if k == 'halfcauchy loc':
        return k, {'dist': 'halfcauchy', 'loc': lo}, lo, None, lambda n: lo + np.abs(rng.normal(size=n))
    if k == 'gamma':
        return k, {'dist': 'gamma', 'a': 2., 'scale': w}, 0., None, lambda n: rng.gamma(2, w, n)
    if k == 'expon':
        return k, {'dist': 'expon', 'loc': lo, 'scale': w}, lo, None, lambda n: lo + rng.exponential(w, n)
    if k == 'beta':
        return k, {'dist': 'beta', 'a': 2., 'b': 3.}, 0., 1., lambda n: rng.beta(2, 3, n)
    if k == 'truncnorm':
        return k, {'dist': 'truncnorm', 'a': -1., 'b': 2., 'loc': lo, 'scale': w}, lo - w, lo + 2 * w, lambda n: lo + w * rng.uniform(-1, 2, n)
    raise ValueError(k)


def describe(rng, files):
    """A random description and what it means: list of (name, kind, label, aliases, lower, upper, draw)."""
    names = [str(v) for v in rng.permutation(NAMES)]
    info, exp, forms = {}, [], []
    alias = 0
    for i in range(int(rng.integers(2, 8))):
        a = names.pop()
        kind = 'sampled' if i == 0 else str(rng.choice(['sampled', 'sampled', 'derived', 'fixed', 'dynamic', 'input']))
        label = str(rng.choice(LABELS)) if rng.random() < 0.7 else None
        ren = []
        if rng.random() < 0.3:
            ren = ['alias%d' % (alias + j) for j in range(int(rng.integers(1, 3)))]
            alias += len(ren)
        d = {}
        if label is not None:
            d['latex'] = label
        if ren:
            d['renames'] = ren if len(ren) > 1 or rng.random() < 0.5 else ren[0]
        e = dict(name=a, kind=kind, label=label if label is not None else a, ren=ren, lo=None, hi=None, draw=None)
        form = kind
        if kind == 'sampled':
            form, pr, e['lo'], e['hi'], e['draw'] = prior(rng)
            if files and form == 'tuple':
                pr = list(pr)
            d['prior'] = pr
            if rng.random() < 0.5:
                d['ref'] = {'dist': 'norm', 'loc': 0., 'scale': 0.1}
            if rng.random() < 0.5:
                d['proposal'] = 0.01
        elif kind == 'derived':
            f = str(rng.choice(['none', 'empty', 'label', 'true', 'func', 'min', 'max', 'minmax']))
            if f in ('min', 'minmax'):
                e['lo'] = d['min'] = -7.5
            if f in ('max', 'minmax'):
                e['hi'] = d['max'] = 9.25
            if f == 'true':
                d['derived'] = True
            if f == 'func':
                d['derived'] = 'lambda x: 2*x'
            if f == 'none':
                d = None
                e['label'], e['ren'] = a, []
            if f == 'empty':
                d = {}
                e['label'], e['ren'] = a, []
            form = 'derived ' + f
            e['draw'] = lambda n: np.clip(rng.normal(size=n), -7, 9)
        elif kind == 'dynamic':
            # given by a function of the others, saved as derived
            f = str(rng.choice(['short', 'value', 'callable' if not files else 'value']))
            if f == 'short':
                d = 'lambda x: x**2'
                e['label'], e['ren'] = a, []
            else:
                d['value'] = 'lambda x: x**2' if f == 'value' else (lambda x: x ** 2)
                if rng.random() < 0.4:
                    e['lo'] = d['min'] = 0
                    e['hi'] = d['max'] = 60.5
                    f += ' minmax'
            form = 'dynamic ' + f
            e['draw'] = lambda n: rng.exponential(size=n)
        elif kind == 'input':
            # function input, not saved
            d['value'] = 'lambda x: x**2' if files or rng.random() < 0.5 else (lambda x: x ** 2)
            d['derived'] = False
            form = 'input ' + type(d['value']).__name__
        elif kind == 'fixed':
            v = float(np.round(rng.normal(), 4)) if rng.random() < 0.8 else int(rng.integers(-2, 5))
            f = str(rng.choice(['short', 'value']))
            if f == 'short':
                d = v
            else:
                d['value'] = v
            e['lo'] = e['hi'] = float(v)
            form = 'fixed ' + f
        info[a] = d
        exp.append(e)
        forms.append(form)
    return info, exp, forms, names


def make(rng, files):
    params, exp, forms, names = describe(rng, files)
    likes = [str(v) for v in rng.choice(['one', 'plik_TT', 'bao.sdss', 'H0_riess', 'sn', 'sn_two', 'one.more'], int(rng.integers(1, 4)), replace=False)]
    if rng.random() < 0.3:
        likes = ['sn', 'sn_two'] if rng.random() < 0.5 else ['one', 'plik_TT', 'one.more']
    info = {'params': params, 'likelihood': {l: ({'speed': 1} if rng.random() < 0.5 else None) for l in likes}}
    priors = []
    if rng.random() < 0.3:
        priors = ['pr_a', 'pr_b'][:int(rng.integers(1, 3))]
        info['prior'] = {q: 'lambda x: 0.' for q in priors}
    sampler = str(rng.choice(['mcmc', 'mcmc', 'polychord', 'none']))
    if sampler != 'none':
        info['sampler'] = {sampler: {'seed': 1} if rng.random() < 0.5 else None}
    label = None
    if rng.random() < 0.3:
        label = info['label'] = 'My $\\Lambda$CDM'
    if rng.random() < 0.5:
        info['theory'] = {'camb': {'extra_args': {'x': 1}}}
    skip = 0
    pforms = []
    if rng.random() < 0.1:
        info['post'] = None
    elif rng.random() < 0.5:
        post = info['post'] = {}
        if rng.random() < 0.5:
            skip = float(rng.choice([0.3, 0.1, 10]))
            post['skip'] = skip
            pforms.append('skip')
        if rng.random() < 0.15:
            post['add'] = None
        elif rng.random() < 0.7:
            add = post['add'] = {}
            if rng.random() < 0.6:
                add['params'] = {}
                # a new derived parameter
                a = names.pop()
                f = str(rng.choice(['none', 'latex', 'func', 'minmax']))
                add['params'][a] = {'none': None, 'latex': {'latex': 'new one'}, 'func': {'derived': 'lambda x: x', 'latex': 'new one'}, 'minmax': {'min': 0, 'max': 3}}[f]
                exp.append(dict(name=a, kind='derived', label='new one' if f in ('latex', 'func') else a, ren=[], lo=0. if f == 'minmax' else None, hi=3. if f == 'minmax' else None,
                                draw=lambda n: rng.uniform(0.1, 2.9, n)))
                pforms.append('new ' + f)
                # a changed prior, or label
                s = [e for e in exp if e['kind'] == 'sampled' and isinstance(params.get(e['name']), dict)]
                if s and rng.random() < 0.5:
                    e = s[int(rng.integers(0, len(s)))]
                    if rng.random() < 0.6:
                        x = e['draw'](200)
                        e['lo'], e['hi'] = float(np.round(x.min() - 1, 3)), float(np.round(x.max() + 1, 3))
                        add['params'][e['name']] = {'prior': [e['lo'], e['hi']] if rng.random() < 0.5 else {'min': e['lo'], 'max': e['hi']}}
                        lo, hi = e['lo'], e['hi']
                        e['draw'] = lambda n, lo=lo, hi=hi: rng.uniform(lo, hi, n)
                        pforms.append('prior')
                    else:
                        add['params'][e['name']] = {'latex': 'changed'}
                        e['label'] = 'changed'
                        pforms.append('label')
            if rng.random() < 0.5:
                add['likelihood'] = {'newlike': None} if rng.random() < 0.6 else 'newlike' if rng.random() < 0.5 else ['newlike']
                likes.append('newlike')
                pforms.append('like')
            if rng.random() < 0.2:
                add['prior'] = {'newprior': 'lambda x: 1'} if rng.random() < 0.6 else 'newprior' if rng.random() < 0.5 else ['newprior']
                priors.append('newprior')
        if rng.random() < 0.5:
            rem = post['remove'] = {}
            if likes[0] in info['likelihood'] and len(likes) > 1 and rng.random() < 0.5:
                l = likes.pop(0)
                rem['likelihood'] = [l] if rng.random() < 0.4 else l if rng.random() < 0.5 else {l: None}
                pforms.append('remove like')
            d = [e for e in exp if e['kind'] == 'derived' and e['name'] in params]
            if d and rng.random() < 0.5:
                e = d[0]
                exp.remove(e)
                rem['params'] = [e['name']] if rng.random() < 0.4 else e['name'] if rng.random() < 0.5 else {e['name']: None}
                pforms.append('remove param')
            if priors and priors[0] in info.get('prior', {}) and rng.random() < 0.4:
                q = priors.pop(0)
                rem['prior'] = [q] if rng.random() < 0.5 else q
    for q in ['minuslogprior', 'minuslogprior__0'] + ['minuslogprior__' + q for q in priors] + ['chi2'] + ['chi2__' + l for l in likes]:
        exp.append(dict(name=q, kind='derived', label=None, ren=[], lo=None, hi=None, draw=lambda n: rng.exponential(size=n) * 3))
    return info, exp, forms, pforms, sampler, label, skip


def check_samples(rec, s, exp, X, cols, label, sampler):
    """the samples have exactly the parameters described; X by name in exp"""
    by = {e['name']: e for e in exp}
    got = s.paramNames.list()
    rec.eq(sorted(got), sorted(cols), 'parameters')
    for a in got:
        e = by[a]
        p = s.paramNames.parWithName(a)
        rec.eq(bool(p.isDerived), e['kind'] != 'sampled', 'derived flag', param=a)
        if e['label'] is not None:
            rec.eq(p.label, e['label'], 'label', param=a)
        else:
            rec.check(p.label and p.label != a, 'label of the added parameter', param=a, got=p.label)
        if e['lo'] != 'any':
            rec.near(s.ranges.getLower(a) if s.ranges.getLower(a) is not None else -1e300, e['lo'] if e['lo'] is not None else -1e300, 'lower prior bound of the parameter', rtol=1e-9, atol=1e-9)
        if e['hi'] != 'any':
            rec.near(s.ranges.getUpper(a) if s.ranges.getUpper(a) is not None else 1e300, e['hi'] if e['hi'] is not None else 1e300, 'upper prior bound of the parameter', rtol=1e-9, atol=1e-9)
        rec.eq(sorted(s.paramNames.getRenames().get(a, [])) if hasattr(s.paramNames, 'getRenames') else sorted(p.renames), sorted(e['ren']), 'aliases', param=a)
        for r in e['ren']:
            q = s.paramNames.parWithName(r)
            rec.check(q is not None and q.name == a, 'parameter found by alias', param=a, alias=r)
    fixed = {e['name']: e['lo'] for e in exp if e['kind'] == 'fixed'}
    gf = s.ranges.fixedValueDict()
    rec.eq(sorted(gf), sorted(fixed), 'fixed parameters')
    for a in fixed:
        rec.near(gf[a], fixed[a], 'fixed value', rtol=1e-12)
    rec.eq(s.label, label, 'label of the samples')
    rec.eq(s.sampler, {'polychord': 'nested'}.get(sampler, 'mcmc'), 'sampler')


def norm(x):
    """comparable form of a description, keeping the type of containers"""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [norm(v) for v in x])
    if callable(x):
        return id(x)
    return x


def fromfiles(rng, rec):
    import yaml
    from getdist import loadMCSamples, MCSamples
    info, exp, forms, pforms, sampler, label, skip = make(rng, True)
    rec.set(info=info)
    cols = [e['name'] for e in exp if e['kind'] == 'sampled'] + [e['name'] for e in exp if e['kind'] in ('derived', 'dynamic')]
    by = {e['name']: e for e in exp}
    layout = str(rng.choice(['updated', 'updated', 'full', 'dir', 'dir full']))
    top = rec.tmp
    root = os.path.join(top, 'run') if 'dir' not in layout else os.path.join(top, 'run') + '/'
    if 'dir' in layout:
        os.makedirs(root)
    fn = root + {'updated': '.updated.yaml', 'full': '__full.yaml', 'dir': 'updated.yaml', 'dir full': 'full.yaml'}[layout]
    with open(fn, 'w', encoding=str(rng.choice(['utf-8', 'utf-8-sig']))) as f:
        text = yaml.dump(info, sort_keys=False, default_flow_style=bool(rng.random() < 0.3))
        if rng.random() < 0.5:
            # numbers as people write them: 1e-2 is a number
            text = text.replace(': 0.01\n', ': 1e-2\n').replace(': 9.25\n', ': 925e-2\n')
        f.write(text)
    if layout != 'full' and 'full' not in layout and rng.random() < 0.3:
        # an out of date full file next to the updated one is not used
        with open(root + ('__full.yaml' if 'dir' not in layout else 'full.yaml'), 'w') as f:
            f.write('params: {zzz: {prior: [0, 1]}}\nlikelihood: {q: null}\n')
    nch = int(rng.integers(1, 4))
    n = int(rng.choice([20, 40, 100]))
    data = []
    for c in range(1, nch + 1):
        w, _ = gen.weights(rng, n, 'int')
        x = np.column_stack([by[a]['draw'](n) for a in cols])
        ll = gen.loglikes(rng, n)
        hdr = '# ' + ' '.join(['weight', 'minuslogpost'] + cols)
        name = root + ('.%d.txt' % c if 'dir' not in layout else '%d.txt' % c)
        gen.write_chain(name, w, ll, x, header=hdr, fmt='%.14e')
        data.append((w, ll, x))
    ig = float(rng.choice([0, 0.3, 0.5, 5])) if sampler != 'polychord' else 0
    rec.set(layout=layout, ignore_rows=ig, chains=nch)
    before = core.tree_state(top)
    s = loadMCSamples(root, no_cache=True, settings={'ignore_rows': ig})
    rec.eq(core.tree_state(top), before, 'files unchanged')
    rem = 0 if skip else int(ig) if ig >= 1 else int(n * ig)
    check_samples(rec, s, exp, None, cols, label, sampler)
    rec.eq(s.numrows, nch * (n - rem), 'rows after burn in (unless already removed)')
    k = np.lexsort(np.vstack([d[2][rem:] for d in data]).T)
    allx = np.vstack([d[2][rem:] for d in data])[k]
    allw = np.concatenate([d[0][rem:] for d in data])[k]
    alll = np.concatenate([d[1][rem:] for d in data])[k]
    gx = np.column_stack([s[a] for a in cols])
    k = np.lexsort(gx.T)
    rec.near(gx[k], allx, 'values of each parameter', rtol=1e-12, atol=1e-12)
    rec.near(np.asarray(s.weights)[k], allw, 'weights')
    rec.near(s.loglikes[k], alll, 'likelihoods', rtol=1e-12)
    # same description used again, by other ways in
    from getdist.paramnames import ParamNames
    from getdist.parampriors import ParamBounds
    pn = ParamNames(fn)
    rec.eq(pn.list(), cols, 'parameter names of the description')
    rec.eq([q.isDerived for q in pn.names], [by[a]['kind'] != 'sampled' for a in cols], 'derived parameters of the description')
    b = ParamBounds(fn)
    for a in cols:
        for v, g in ((by[a]['lo'], b.getLower(a)), (by[a]['hi'], b.getUpper(a))):
            if v != 'any':
                rec.near(1e300 if g is None else g, 1e300 if v is None else v, 'bounds of the description', rtol=1e-9, atol=1e-9, param=a)
    rec.eq(b.fixedValueDict(), s.ranges.fixedValueDict(), 'fixed values of the description')
    rec.check(norm(pn.info_dict) == norm(yaml_ref(fn)), 'description unchanged by reading', got=pn.info_dict)
    # again after saving as text files
    r2 = os.path.join(top, 'saved')
    s.saveAsText(r2)
    t = loadMCSamples(r2, no_cache=True, settings={'ignore_rows': ig})
    rec.eq(t.numrows, s.numrows, 'rows of the saved samples')
    rec.sig(layout, forms, pforms, sampler, nch, ig, label is not None)
    for f in forms:
        rec.ev('form: ' + f)


def yaml_ref(fn):
    from getdist.yaml_tools import yaml_load_file
    return yaml_load_file(fn)


class Collection:
    def __init__(self, data):
        self.data = data

    def __getitem__(self, k):
        return self.data[k]

    def __len__(self):
        return len(self.data)


def collections(rng, rec):
    import pandas as pd
    from getdist.mcsamples import MCSamplesFromCobaya
    info, exp, forms, pforms, sampler, label, skip = make(rng, False)
    rec.set(info=info)
    by = {e['name']: e for e in exp}
    cols = [e['name'] for e in exp if e['kind'] in ('sampled', 'derived', 'dynamic')]
    cols = [str(v) for v in rng.permutation(cols)] if rng.random() < 0.5 else cols
    n = int(rng.choice([20, 50]))
    nch = int(rng.integers(1, 4))
    colls = []
    for c in range(nch):
        d = {'weight': rng.integers(1, 5, n).astype(float), 'minuslogpost': gen.loglikes(rng, n)}
        for a in cols:
            d[a] = by[a]['draw'](n)
        colls.append(Collection(pd.DataFrame(d)))
    saved = norm(info)
    frames = [c.data.copy() for c in colls]
    ig = float(rng.choice([0, 0.5, 5])) if sampler != 'polychord' else 0
    arg = colls[0] if nch == 1 and rng.random() < 0.5 else colls
    with contextlib.redirect_stdout(io.StringIO()):
        s = MCSamplesFromCobaya(info, arg, name_tag='tag', ignore_rows=ig)
        rec.check(norm(info) == saved, 'description unchanged', now=info)
        s2 = MCSamplesFromCobaya(info, arg, name_tag='tag', ignore_rows=ig)
    rec.check(norm(info) == saved, 'description unchanged', now=info)
    rec.check(all(a.equals(c.data) for a, c in zip(frames, colls)), 'collections unchanged')
    for t in (s, s2):
        check_samples(rec, t, exp, None, cols, label, sampler)
        rem = int(ig) if ig >= 1 else int(n * ig)
        rec.eq(t.numrows, nch * (n - rem), 'rows')
        for a in cols:
            rec.check(np.array_equal(t[a], np.concatenate([c.data[a].values[rem:] for c in colls])), 'values of each parameter', param=a)
        rec.check(np.array_equal(t.loglikes, np.concatenate([c.data['minuslogpost'].values[rem:] for c in colls])), 'likelihoods')
        rec.check(np.array_equal(t.weights, np.concatenate([c.data['weight'].values[rem:] for c in colls])), 'weights')
        rec.eq(t.getName(), 'tag', 'name tag')
    # inconsistent information is refused
    bad = copy.deepcopy(info)
    bad['params'] = dict(bad['params'], another={'prior': [0, 1]})
    rec.raises(Exception, lambda: MCSamplesFromCobaya(bad, colls), 'parameters that are not in the samples')
    if nch > 1:
        c2 = Collection(colls[1].data.rename(columns={cols[0]: 'other'}))
        rec.raises(Exception, lambda: MCSamplesFromCobaya(info, [colls[0], c2]), 'chains of different parameters')
        # columns in another order: refused, or each value still under its own name
        c3 = Collection(colls[1].data[['weight', 'minuslogpost'] + cols[1:] + cols[:1]])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                t = MCSamplesFromCobaya(info, [colls[0], c3])
        except Exception:
            rec.ev('other order refused')
        else:
            for a in cols:
                rec.check(np.array_equal(t[a], np.concatenate([colls[0].data[a].values, colls[1].data[a].values])), 'values with columns in another order', param=a)
    rec.sig(forms, pforms, sampler, nch, ig, label is not None)
    for f in forms:
        rec.ev('form: ' + f)


GROUPS = {'fromfiles': (fromfiles, 150, 3000), 'collections': (collections, 150, 3000)}
QUICK_BUDGET = 100
THOROUGH_BUDGET = 500
