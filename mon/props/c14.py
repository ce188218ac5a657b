import os

import numpy as np

from .. import gen

RULE = 'a case gives bounds through one or several routes and compares every bound with a dictionary model, or loads chains with a pattern of ' \
       'constant columns and compares what was removed and recorded; distinct = (routes, sides, patterns)'
ASSUMPTIONS = ['text files keep 8 significant digits', 'an unspecified side given after a specified one is not judged']


def num(rng):
    return float(rng.choice([0, 1, -1, rng.normal() * 10. ** rng.integers(-8, 9), rng.integers(-50, 50), 1e-30, -3.5e20]))


def bound(rng):
    """(as given, lower, upper)"""
    k = str(rng.choice(['both', 'low', 'high', 'none', 'fixed', 'strings', 'inf', 'array']))
    a, b = sorted((num(rng), num(rng)))
    if a == b:
        b = a + 1 + abs(a)
    if k == 'both':
        return k, [a, b], a, b
    if k == 'low':
        return k, (a, None), a, None
    if k == 'high':
        return k, [None, b], None, b
    if k == 'none':
        return k, [None, None], None, None
    if k == 'fixed':
        return k, [a, a], a, a
    if k == 'strings':
        c = rng.integers(0, 4)
        lo, hi = (None if c & 1 else a), (None if c & 2 else b)
        return k, ['N' if lo is None else repr(lo), 'N' if hi is None else repr(hi)], lo, hi
    if k == 'inf':
        c = rng.integers(0, 2)
        return k, [-np.inf, b] if c else [a, np.inf], None if c else a, b if c else None
    return k, np.array([a, b]), a, b


NAMES = ['omegabh2', 'tau', 'A', 'a_very_long_parameter_name_indeed', 'x', 'X', 'aa.bb', 'ns', 'n', 'w', 'chi2_BAO', 'p[1]']


def r8(v):
    return None if v is None else float('%.7E' % v)


def compare(rec, b, model, msg, exact=True):
    for n, (lo, hi) in model.items():
        for got, exp, side in ((b.getLower(n), lo, 'lower'), (b.getUpper(n), hi, 'upper')):
            if exp is None:
                rec.check(got is None, msg + ': %s side unbounded' % side, name=n, got=got)
            elif exact:
                rec.check(got is not None and got == exp, msg + ': %s bound' % side, name=n, got=got, expected=exp)
            else:
                rec.check(got is not None and abs(got - exp) <= 1.01e-7 * abs(exp), msg + ': %s bound to file precision' % side, name=n, got=got, expected=exp)
    for n in NAMES + ['nosuch', 'om', 'taux']:
        if n not in model:
            rec.check(b.getLower(n) is None and b.getUpper(n) is None, msg + ': no bound for other parameters', name=n)


def objects(rng, rec):
    from getdist.parampriors import ParamBounds
    b = ParamBounds()
    model, kinds = {}, []
    names = [str(v) for v in rng.choice(NAMES, int(rng.integers(1, len(NAMES) + 1)), replace=False)]
    for n in names:
        k, g, lo, hi = bound(rng)
        kinds.append(k)
        b.setRange(n, g)
        model[n] = (lo, hi)
    if rng.random() < 0.4:
        n = names[0]
        v = num(rng)
        b.setFixed(n, v)
        model[n] = (v, v)
    rec.set(model=model)
    compare(rec, b, model, 'set')
    rec.eq(list(b.names), names, 'names in order')
    fx = {n: lo for n, (lo, hi) in model.items() if lo is not None and lo == hi}
    rec.eq(b.fixedValueDict(), fx, 'fixed values')
    for n in names:
        rec.eq(b.fixedValue(n), fx.get(n), 'fixed value')
    ext = str(rng.choice(['.ranges', '.bounds']))
    fn = os.path.join(rec.tmp, 'a' + ext)
    b.saveToFile(fn)
    c = ParamBounds(fn)
    compare(rec, c, model, 'saved and loaded', exact=False)
    rec.eq(list(c.names), names, 'names after loading')
    rec.eq(set(c.fixedValueDict()), {n for n, (lo, hi) in model.items() if lo is not None and hi is not None and r8(lo) == r8(hi)}, 'fixed after loading')
    c.saveToFile(fn + '2.ranges')
    with open(fn) as f, open(fn + '2.ranges') as g:
        rec.eq(f.read(), g.read(), 'saving again gives the same file')
    # free layout text file
    with open(fn, 'w') as f:
        f.write('\n')
        for n in names[::-1]:
            lo, hi = model[n]
            f.write(str(rng.choice(['', ' ', '\t'])) + n + str(rng.choice([' ', '\t', '    '])) + ('N' if lo is None else repr(lo)) + '  ' +
                    ('N' if hi is None else repr(hi)) + str(rng.choice(['', ' '])) + '\n')
            if rng.random() < 0.2:
                f.write('\n')
    compare(rec, ParamBounds(fn), model, 'loaded from free format')
    for bad in (3, None):
        rec.raises(ValueError, lambda: b.getUpper(bad), 'name must be a string')
    rec.raises(ValueError, lambda: ParamBounds(os.path.join(rec.tmp, 'a.txt')), 'unknown extension refused')
    rec.sig('objects', tuple(sorted(set(kinds))), ext)


def samples(rng, rec):
    """Routes to samples."""
    from getdist import loadMCSamples, MCSamples
    from getdist.parampriors import ParamBounds
    p = int(rng.integers(1, 6))
    n = int(rng.integers(60, 300))
    names = [str(v) for v in rng.choice([q for q in NAMES if '[' not in q and '.' not in q], p, replace=False)]
    X = rng.normal(size=(n, p))
    ll = rng.exponential(size=n)
    model = {}
    given = {}
    kinds = []
    for j, nm in enumerate(names):
        k = str(rng.choice(['both', 'low', 'high', 'none', 'far', 'mid', 'mid']))
        lo = hi = None
        if k in ('both', 'low'):
            lo = float(X[:, j].min() - rng.choice([0, 1e-3, 0.01]))
        if k in ('both', 'high'):
            hi = float(X[:, j].max() + rng.choice([0, 1e-3, 0.01]))
        if k == 'far':
            lo, hi = -1e4, 1e5
        if k == 'mid':
            lo, hi = float(X[:, j].min() - rng.uniform(0, 2)), float(X[:, j].max() + rng.uniform(0, 2))
        if lo is not None and rng.random() < 0.2:
            # a bound at zero
            X[:, j] = np.maximum(X[:, j] - lo, 0)
            hi, lo = None if hi is None else hi - lo, 0.
        elif hi is not None and rng.random() < 0.2:
            X[:, j] = np.minimum(X[:, j] - hi, 0)
            hi, lo = 0., None if lo is None else lo - hi
        kinds.append(k)
        model[nm] = (lo, hi)
        if k != 'none' or rng.random() < 0.5:
            given[nm] = [lo, hi]
    route = str(rng.choice(['dict', 'list', 'tuple', 'bounds', 'file', 'settings', 'setRanges', 'mixed']))
    rec.set(route=route, model=model)
    exact = True
    if route == 'dict':
        d = {k: tuple(v) for k, v in given.items()}
        s = gen.mc(X, None, ll, names=names, ranges=d or None)
        rec.eq(d, {k: tuple(v) for k, v in given.items()}, 'argument not modified')
    elif route in ('list', 'tuple'):
        l = [list(model[nm]) for nm in names]
        s = gen.mc(X, None, ll, names=names, ranges=l if route == 'list' else tuple(l))
    elif route == 'bounds':
        b = ParamBounds()
        for k, v in given.items():
            b.setRange(k, v)
        s = gen.mc(X, None, ll, names=names, ranges=b)
        if given:
            s.ranges.setRange(names[0], [-77, 77])
            rec.check(b.getLower(names[0]) != -77, 'bounds object given is not shared')
            s.setRanges(b)
            s.updateBaseStatistics()
    elif route == 'setRanges':
        s = gen.mc(X, None, ll, names=names)
        s.getMargeStats()
        s.setRanges(given)
    elif route == 'settings':
        st = {'limits[%s]' % k: '%s %s' % tuple('N' if q is None else repr(q) for q in v) for k, v in given.items()}
        s = gen.mc(X, None, ll, names=names, settings=st)
    else:
        root = os.path.join(rec.tmp, 'c')
        gen.write_chain(root + '.txt', np.ones(n), ll, X, fmt='%.15e')
        with open(root + '.paramnames', 'w') as f:
            f.write('\n'.join('%s l_%s' % (q, q) for q in names))
        half = {k: v for i, (k, v) in enumerate(given.items()) if route == 'file' or i % 2}
        with open(root + '.ranges', 'w') as f:
            for k, v in half.items():
                f.write('%s %s %s\n' % (k, *('N' if q is None else repr(q) for q in v)))
            f.write('absent -3 5\n')
        rest = {'limits[%s]' % k: '%s %s' % tuple('N' if q is None else repr(q) for q in v) for k, v in given.items() if k not in half}
        s = loadMCSamples(root, settings=dict(rest, ignore_rows=0), no_cache=True)
        rec.eq((s.ranges.getLower('absent'), s.ranges.getUpper('absent')), (-3, 5), 'bounds of parameters not sampled')
    for nm in names:
        rec.eq((s.getLower(nm), s.getUpper(nm)), model[nm], 'bounds from the samples', name=nm)
        rec.eq((s.ranges.getLower(nm), s.ranges.getUpper(nm)), model[nm], 'ranges object', name=nm)
    rec.check(s.getLower('nosuch') is None and s.getUpper('nosuch') is None, 'unknown parameter has no bounds')
    before = s.getBounds()
    b1 = {nm: (before.getLower(nm), before.getUpper(nm)) for nm in names}
    s.getMargeStats()
    after = s.getBounds()
    b2 = {nm: (after.getLower(nm), after.getUpper(nm)) for nm in names}
    rec.eq(b1, b2, 'plot bounds do not depend on earlier queries')
    for j, (nm, k) in enumerate(zip(names, kinds)):
        exp = model[nm] if k != 'far' else (None, None)
        if k == 'mid':
            # near enough to matter or not: either is fine, but never a different value
            rec.check(all(a is None or a == e for a, e in zip(b2[nm], exp)), 'plot bounds are the hard bounds or nothing', name=nm, got=b2[nm], expected=exp)
            exp = b2[nm]
        else:
            rec.eq(b2[nm], exp, 'plot bounds: hard bounds near the samples', name=nm)
        d = s.get1DDensity(nm)
        v = d.bounds()
        rec.check((model[nm][0] is None or v[0] >= model[nm][0] - 1e-9 * (1 + abs(model[nm][0]))) and
                  (model[nm][1] is None or v[1] <= model[nm][1] + 1e-9 * (1 + abs(model[nm][1]))),
                  'range of the density inside the hard bounds', name=nm, got=v, bounds=model[nm])
        if exp[0] is not None:
            rec.near(d.x[0], exp[0], 'density starts at the lower bound', rtol=1e-9, atol=1e-9)
        if exp[1] is not None:
            rec.near(d.x[-1], exp[1], 'density ends at the upper bound', rtol=1e-9, atol=1e-9)
        if exp[0] is None:
            rec.check(d.x[0] < X[:, j].min(), 'density not cut where unbounded')
        if exp[1] is None:
            rec.check(d.x[-1] > X[:, j].max(), 'density not cut where unbounded')
    # save, copy, reload
    c = s.copy()
    rec.eq({nm: (c.getLower(nm), c.getUpper(nm)) for nm in names}, model, 'bounds of a copy')
    root = os.path.join(rec.tmp, 'saved')
    s.saveAsText(root)
    t = loadMCSamples(root, settings={'ignore_rows': 0}, no_cache=True)
    compare(rec, t.ranges, {nm: model[nm] for nm in names}, 'saved with samples', exact=False) if route not in ('file', 'mixed') else None
    for nm in names:
        for got, exp in zip((t.getLower(nm), t.getUpper(nm)), model[nm]):
            rec.check((got is None) == (exp is None) and (exp is None or abs(got - exp) <= 1.01e-7 * abs(exp)), 'bounds saved with the samples', name=nm, got=got,
                      expected=exp)
    # derived parameter with range
    par = s.addDerived(rng.uniform(0, 1, n), 'newpar', range=[0, None])
    rec.eq((s.getLower('newpar'), s.getUpper('newpar')), (0, None), 'range of an added parameter')
    rec.eq({nm: (s.getLower(nm), s.getUpper(nm)) for nm in names}, model, 'others unchanged by adding a parameter')
    rec.sig('samples', route, tuple(sorted(set(kinds))), p)


def fixedpars(rng, rec):
    """Constant columns."""
    from getdist import loadMCSamples
    p = int(rng.integers(2, 7))
    nch = int(rng.integers(1, 4))
    names = [str(v) for v in rng.choice([q for q in NAMES if '[' not in q and '.' not in q], p, replace=False)]
    kind = [str(rng.choice(['vary', 'vary', 'const', 'perchain', 'almost', 'tiny', 'zero', 'ends', 'big'])) for _ in range(p)]
    kind[int(rng.integers(0, p))] = 'vary'
    chains = []
    vals = {}
    for c in range(nch):
        n = int(rng.integers(20, 60))
        X = rng.normal(size=(n, p))
        for j, k in enumerate(kind):
            v = vals.setdefault(j, float(rng.choice([0.5, -2.3e-5, 1234.5678, 7.25e8, 1e-12])))
            if k == 'const':
                X[:, j] = v
            elif k == 'zero':
                X[:, j] = vals[j] = 0.
            elif k == 'perchain':
                X[:, j] = v * (1 + c)
            elif k == 'almost':
                X[:, j] = v
                X[int(rng.integers(0, n)), j] = v * 1.0001
            elif k == 'tiny':
                X[:, j] = 1e-14 * (1 + rng.random(n))
            elif k == 'ends':
                X[0, j] = X[-1, j] = v
            elif k == 'big':
                X[:, j] = 1e9 + rng.random(n) * 3
        chains.append(X)
    varies = [k in ('vary', 'almost', 'tiny', 'ends', 'big') or (k == 'perchain' and nch > 1) for k in kind]
    keep = [nm for nm, v in zip(names, varies) if v]
    fx = {nm: vals[j] for j, (nm, v) in enumerate(zip(names, varies)) if not v}
    route = str(rng.choice(['files', 'arrays']))
    rec.set(kind=kind, nch=nch, route=route, names=names)
    rg = {nm: [-1e10, 1e10] for nm in names if rng.random() < 0.3}
    if route == 'arrays':
        if nch == 1:
            s = gen.mc(chains[0], None, rng.random(len(chains[0])), names=names, ranges=rg or None)
        else:
            s = gen.mc(chains, None, [rng.random(len(x)) for x in chains], names=names, ranges=rg or None)
        s.deleteFixedParams()
    else:
        root = os.path.join(rec.tmp, 'f')
        for c, x in enumerate(chains):
            gen.write_chain('%s_%d.txt' % (root, c + 1), np.ones(len(x)), rng.random(len(x)), x, fmt='%.17e')
        with open(root + '.paramnames', 'w') as f:
            f.write('\n'.join('%s l_%s' % (q, q) for q in names))
        with open(root + '.ranges', 'w') as f:
            for k, v in rg.items():
                f.write('%s %s %s\n' % (k, v[0], v[1]))
        s = loadMCSamples(root, settings={'ignore_rows': 0}, no_cache=True)
    rec.eq(s.getParamNames().list(), keep, 'exactly the never-varying parameters are removed')
    rec.eq(s.samples.shape, (sum(len(x) for x in chains), len(keep)), 'columns left')
    X = np.vstack(chains)
    for nm in keep:
        rec.near(np.sort(s[nm]), np.sort(X[:, names.index(nm)]), 'columns of the others', rtol=1e-14, atol=0)
        if nm in rg:
            rec.eq((s.getLower(nm), s.getUpper(nm)), tuple(rg[nm]), 'bounds of the others')
    got = s.ranges.fixedValueDict()
    rec.eq(set(got), set(fx), 'fixed parameters recorded')
    for nm, v in fx.items():
        rec.near(got[nm], v, 'fixed value', rtol=1e-12, atol=0)
    d = s.getParamSampleDict(0)
    for nm, v in fx.items():
        rec.near(d[nm], v, 'fixed value in sample dictionary', rtol=1e-12, atol=0)
    root = os.path.join(rec.tmp, 'saved')
    s.saveAsText(root)
    t = loadMCSamples(root, settings={'ignore_rows': 0}, no_cache=True)
    f2 = t.ranges.fixedValueDict()
    rec.eq(set(f2) >= set(fx), True, 'fixed parameters after saving')
    for nm, v in fx.items():
        rec.near(f2[nm], v, 'fixed value after saving', rtol=1.01e-7, atol=0)
    rec.sig('fixed', tuple(sorted(set(kind))), nch, route)


GROUPS = {'objects': (objects, 200, 4000), 'samples': (samples, 120, 2000), 'fixedpars': (fixedpars, 120, 2500)}
