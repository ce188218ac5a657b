import os
import pickle

import numpy as np

from .. import gen
from ..core import tree_state

RULE = 'a case builds a sample object (1..4 chains, random metadata), writes it with one of the public save calls and loads it ' \
       'back; distinct = (container, weights, metadata present, save call, load settings)'

TXT = 2e-8  # '%.8e'


def meta(rng, p):
    nm = gen.names(rng, p, dots=rng.random() < 0.3)
    der = [bool(i >= max(1, p // 2) and rng.random() < 0.7) for i in range(p)]
    lab = gen.labels(rng, p)
    for i in range(p):
        k = rng.integers(0, 12)
        if k == 0:
            lab[i] = 'a b  c'
        elif k == 1:
            lab[i] = 'été_σ'
        elif k == 2:
            lab[i] = ''
    return nm, der, lab


def rng_ranges(rng, nm, x):
    r = {}
    for j, n in enumerate(nm):
        k = rng.integers(0, 5)
        lo, hi = x[:, j].min() - abs(rng.normal()), x[:, j].max() + abs(rng.normal())
        if k == 1:
            r[n] = [lo, None]
        elif k == 2:
            r[n] = [None, hi]
        elif k == 3:
            r[n] = [lo, hi]
    if rng.random() < 0.3:
        r['fixedpar'] = [0.06125, 0.06125]
    return r


def build(rng, rec):
    p = int(rng.integers(1, 6))
    nch = int(rng.integers(1, 5))
    sizes = [int(rng.integers(8, 30)) for _ in range(nch)]
    n = sum(sizes)
    x = gen.params(rng, n, p, ties=False)
    x[:, 0] += np.arange(n) * 1e-3 * np.std(x[:, 0])
    w, wk = gen.weights(rng, n)
    ll = gen.loglikes(rng, n) if rng.random() < 0.8 else None
    nm, der, lab = meta(rng, p)
    ranges = rng_ranges(rng, nm, x)
    single = nch == 1
    off = np.cumsum([0] + sizes)
    sp = (lambda a: a) if single else (lambda a: None if a is None else [a[i:j] for i, j in zip(off[:-1], off[1:])])
    kw = {}
    if rng.random() < 0.5:
        kw['label'] = str(rng.choice(['my label', r'$\Lambda$CDM', 'x=3', 'été']))
    sampler = str(rng.choice(['mcmc', 'mcmc', 'nested', 'uncorrelated', '']))
    if sampler:
        kw['sampler'] = sampler
    burn = float(rng.choice([0, 0, 0.25, 3])) if sampler != 'nested' else 0.
    s = gen.mc(sp(x), sp(w), sp(ll), [a + ('*' if d else '') for a, d in zip(nm, der)], ranges=ranges, labels=lab,
               settings={'ignore_rows': burn}, **kw)
    rec.set(p=p, sizes=sizes, wk=wk, sampler=sampler, burn=burn, nm=nm, lab=lab, der=der, ranges=ranges, has_ll=ll is not None)
    fixed = {'fixedpar': 0.06125} if 'fixedpar' in ranges else {}
    if rng.random() < 0.25 and p > 2 and not burn:
        pass
    return s, dict(nm=nm, der=der, lab=lab, ranges=ranges, label=kw.get('label'), sampler=sampler or 'mcmc', burn=burn,
                   single=single, ll=ll, fixed=fixed)


def state(s):
    return dict(x=np.array(s.samples), w=np.array(s.weights), ll=None if s.loglikes is None else np.array(s.loglikes),
                nm=s.paramNames.list(), lab=s.paramNames.labels(), der=[q.isDerived for q in s.paramNames.names],
                off=None if s.chain_offsets is None else list(s.chain_offsets))


def cmp_meta(rec, new, m, ranges_tol):
    rec.eq(new.paramNames.list(), m['nm'], 'names survive')
    rec.eq(new.paramNames.labels(), m['lab'], 'labels survive')
    rec.eq([q.isDerived for q in new.paramNames.names], m['der'], 'derived flags survive')
    for nme in m['nm'] + list(m['fixed']):
        lo, hi = m['ranges'].get(nme, (None, None))
        for got, exp in ((new.ranges.getLower(nme), lo), (new.ranges.getUpper(nme), hi)):
            rec.check((got is None) == (exp is None), 'bound presence survives', name=nme, got=got, exp=exp)
            if exp is not None:
                rec.near(got, exp, 'bounds survive', rtol=ranges_tol, atol=0)
    rec.eq(new.ranges.fixedValueDict(), m['fixed'], 'fixed values survive')
    rec.eq(new.label, m['label'], 'sample label survives')
    rec.eq(new.sampler, m['sampler'], 'sampler type survives')


def rows(rec, new, x, w, ll, tol, msg):
    rec.near(new.samples, x, msg + ': parameters', rtol=tol, atol=0)
    rec.near(new.weights, w, msg + ': weights', rtol=tol, atol=0)
    if ll is None:
        rec.check(new.loglikes is None or not np.any(new.loglikes), msg + ': loglikes')
    else:
        rec.near(new.loglikes, ll, msg + ': loglikes', rtol=tol, atol=0)


def text(rng, rec):
    import getdist
    from getdist import MCSamples, loadMCSamples
    s, m = build(rng, rec)
    if rng.random() < 0.3:
        for _ in range(int(rng.integers(1, 3))):
            op = rng.integers(0, 3)
            if op == 0:
                keep = np.flatnonzero(rng.random(s.numrows) < 0.8)
                if len(keep) > 6:
                    s.filter(keep)
            elif op == 1 and 'zz_new' not in m['nm']:
                s.addDerived(np.arange(s.numrows) * 0.5 + 1, name='zz_new', label='Z')
                m['nm'] = m['nm'] + ['zz_new']
                m['lab'] = m['lab'] + ['Z']
                m['der'] = m['der'] + [True]
            elif op == 2:
                s.reweightAddingLogLikes(rng.random(s.numrows))
        s.updateBaseStatistics()
    before = state(s)
    lls = before['ll']
    how = str(rng.choice(['single', 'single_txt', 'chains', 'indexed', 'dirs']))
    if m['single'] and how == 'chains':
        how = 'single'
    d = rec.tmp if how != 'dirs' else os.path.join(rec.tmp, 'new', 'dir')
    name = str(rng.choice(['root', 'base_a', 'r.1', 'x y']))
    root = os.path.join(d, name)
    if rng.random() < 0.3 and how != 'dirs':
        os.chdir(rec.tmp)
        root = name
    rec.set(how=how, root=root)
    chains = None
    if how == 'single_txt':
        s.saveAsText(root + '.txt')
    elif how == 'chains':
        chains = s.getSeparateChains()
        s.saveChainsAsText(root, make_dirs=bool(rng.integers(2)))
    elif how == 'indexed':
        s.saveAsText(root, chain_index=0)
    elif how == 'dirs':
        s.saveAsText(root, make_dirs=True)
    else:
        s.saveAsText(root)
    rec.check(all(np.array_equal(before[k], state(s)[k]) for k in ('x', 'w', 'nm', 'lab')), 'saving leaves the samples unchanged')
    files = sorted(os.listdir(os.path.dirname(root) or '.'))
    if how == 'chains':
        exp = ['%s_%d.txt' % (name, i + 1) for i in range(len(chains))]
    elif how == 'indexed':
        exp = [name + '_1.txt']
    else:
        exp = [name + '.txt']
    rec.check(set(f for f in files if f.endswith('.txt')) == set(exp), 'expected chain files written', files=files, exp=exp)
    rec.check(set(files) <= set(exp + [name + e for e in ('.paramnames', '.ranges', '.properties.ini')]),
              'only its own files written', files=files)
    # an independent reading of the text files
    raw = []
    for f in exp:
        rowsf = [[float(v) for v in line.split()] for line in open(os.path.join(os.path.dirname(root) or '.', f))]
        raw.append(np.array(rowsf).reshape(len(rowsf), len(before['nm']) + 2))
    allraw = np.vstack(raw)
    full = np.column_stack([before['w'], np.zeros(len(before['w'])) if lls is None else lls, before['x']])
    rec.near(allraw, full, 'files hold every row', rtol=TXT, atol=0)
    if chains is not None:
        rec.eq([len(r) for r in raw], list(np.diff(before['off'])), 'one file per chain with its own rows')
    # reload
    load_burn = float(rng.choice([0, 0.3, 2])) if m['burn'] else 0.
    if m['sampler'] == 'nested':
        load_burn = 0.
    via = str(rng.choice(['loadMCSamples', 'cached', 'loadMCSamples2']))
    getdist.cache_dir = os.path.join(rec.tmp, 'cache')
    st = {'ignore_rows': load_burn}
    new = loadMCSamples(root, settings=st, no_cache=via != 'cached')
    if via == 'cached':
        new = loadMCSamples(root, settings=st)
    order = None
    if how == 'chains':
        # chains may be read in any order
        key = {tuple(np.round(r[0], 12)): i for i, r in enumerate(raw) if len(r)}
        order = []
        for c in new.getSeparateChains():
            t = tuple(np.round(np.concatenate([[c.weights[0], c.loglikes[0]], c.samples[0]]), 12))
            rec.check(t in key, 'each loaded chain is one of those written', t=t)
            order.append(key[t])
        rec.check(sorted(order) == sorted(key.values()), 'every chain loaded once', order=order)
        full = np.vstack([full[before['off'][i]:before['off'][i + 1]] for i in order])
        rec.eq([c.numrows for c in new.getSeparateChains()], [int(np.diff(before['off'])[i]) for i in order],
               'rows per chain survive')
    rows(rec, new, full[:, 2:], full[:, 0], None if lls is None else full[:, 1], TXT, 'reload')
    cmp_meta(rec, new, m, 1e-7)
    rec.sig(how, via, m['sampler'], m['burn'], load_burn, len(m['nm']), lls is None, m['label'] is None)
    # a second round trip is exact at text precision
    root2 = os.path.join(rec.tmp, 'again')
    new.saveAsText(root2)
    twice = loadMCSamples(root2, settings=st, no_cache=True)
    rows(rec, twice, new.samples, new.weights, new.loglikes, 1e-15, 'second round trip')
    rec.eq(twice.paramNames.labels(), new.paramNames.labels(), 'second round trip labels')
    rec.eq(str(twice.ranges), str(new.ranges), 'second round trip ranges')
    rec.eq((twice.label, twice.sampler), (new.label, new.sampler), 'second round trip properties')
    # properties given explicitly, and files left by other samples
    root3 = os.path.join(rec.tmp, 'props')
    if m['label'] is None and m['sampler'] == 'mcmc' and not (s.properties and s.properties.params):
        with open(root3 + '.properties.ini', 'w') as f:
            f.write('label = someone else\nsampler = nested\n')
        s.saveAsText(root3)
        t = loadMCSamples(root3, settings={'ignore_rows': 0}, no_cache=True)
        rec.eq((t.label, t.sampler), (None, 'mcmc'), 'properties left by other samples')
        rec.ev('left over properties')
    s.saveAsText(root3)
    s.saveTextMetadata(root3, properties={'label': 'Given', 'custom': '17'})
    t = loadMCSamples(root3, settings={'ignore_rows': 0}, no_cache=True)
    rec.eq((t.label, t.sampler, t.properties.params.get('custom')), ('Given', m['sampler'], '17'), 'properties given when saving')


def fixed(rng, rec):
    """Constant columns become fixed ranges which survive saving."""
    from getdist import loadMCSamples
    p = int(rng.integers(2, 6))
    n = int(rng.integers(20, 40))
    x = rng.normal(size=(n, p))
    nm = gen.names(rng, p)
    con = [j for j in range(1, p) if rng.random() < 0.5]
    vals = {}
    for j in con:
        v = float(rng.choice([0, 1, -3.5, 0.0625, 67.25]))
        x[:, j] = v
        vals[nm[j]] = v
    ranges = {nm[0]: [-20, None]}
    s = gen.mc(x, None, gen.loglikes(rng, n), nm, ranges=ranges)
    rec.eq(s.ranges.fixedValueDict(), vals, 'constant columns recorded as fixed')
    root = os.path.join(rec.tmp, 'r')
    s.saveAsText(root)
    new = loadMCSamples(root, settings={'ignore_rows': 0}, no_cache=True)
    rec.eq(new.paramNames.list(), [a for a in nm if a not in vals], 'varying parameters kept')
    rec.eq(new.ranges.fixedValueDict(), vals, 'fixed values survive saving')
    rec.eq(new.ranges.getLower(nm[0]), -20., 'lower bound kept with fixed parameters')
    rec.near(new.samples, s.samples, 'columns with fixed parameters', rtol=TXT, atol=0)
    rec.sig(p, tuple(con))


def binary(rng, rec):
    from getdist import WeightedSamples
    s, m = build(rng, rec)
    for q in rng.permutation(['var', 'density', 'none', 'marge'])[:2]:
        if q == 'var':
            s.getVars()
        elif q == 'marge' and s.numrows > 20:
            s.getMeans()
    st = state(s)
    fn = os.path.join(rec.tmp, 'f.pickle')
    s.savePickle(fn)
    with open(fn, 'rb') as f:
        new = pickle.load(f)
    got = state(new)
    for k in ('x', 'w'):
        rec.check(np.array_equal(got[k], st[k]), 'binary rows exact', k=k)
    rec.check((got['ll'] is None) == (st['ll'] is None) and (st['ll'] is None or np.array_equal(got['ll'], st['ll'])),
              'binary loglikes exact')
    rec.eq(got['off'], st['off'], 'binary chain structure')
    cmp_meta(rec, new, m, 0)
    rec.near(new.getMeans(), s.getMeans(), 'binary statistics', rtol=1e-14)
    rec.near(new.getCov(), s.getCov(), 'binary statistics', rtol=1e-14)
    if not m['single']:
        rec.eq([c.numrows for c in new.getSeparateChains()], [c.numrows for c in s.getSeparateChains()], 'binary chains')
    rec.sig(m['single'], m['sampler'], len(m['nm']), m['burn'])
    # plain weighted samples
    ws = WeightedSamples(samples=st['x'], weights=st['w'], loglikes=st['ll'])
    for idx in (None, 0, 3):
        root = os.path.join(rec.tmp, 'ws')
        ws.saveAsText(root, chain_index=idx)
        fn = root + ('' if idx is None else '_%d' % (idx + 1)) + '.txt'
        back = WeightedSamples(fn)
        rows(rec, back, st['x'], st['w'], st['ll'], TXT, 'plain samples')
        os.remove(fn)


GROUPS = {
    'text': (text, 500, 8000),
    'fixed': (fixed, 150, 1500),
    'binary': (binary, 200, 2500),
}
