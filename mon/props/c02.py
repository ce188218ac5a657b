import numpy as np

from .. import gen

RULE = 'a case tags every row with a unique id, applies a random history of selection operations and checks rows, order, ' \
       'counts and chain membership after each; distinct = (container, number of chains, operation sequence)'


class Model:
    """Surviving rows per chain: arrays of ids and weights."""

    def __init__(self, ids, ws):
        self.ids = [np.asarray(i) for i in ids]
        self.w = [np.asarray(w, float) for w in ws]

    def flat(self):
        return np.concatenate(self.ids), np.concatenate(self.w)

    def apply(self, keep):
        """keep: per-row boolean over the flat array"""
        off = np.cumsum([0] + [len(i) for i in self.ids])
        for k in range(len(self.ids)):
            m = keep[off[k]:off[k + 1]]
            self.ids[k], self.w[k] = self.ids[k][m], self.w[k][m]


def tag_ll(ids):
    return 3 + 0.37 * np.asarray(ids, float)


def tag_x(ids):
    ids = np.asarray(ids, float)
    return np.column_stack([ids, np.cos(ids), 1e3 - 0.5 * ids])


def picks_ok(rec, ix, w, factor, msg):
    """Thinned picks must follow the cumulative weight: one pick per `factor` units of weight, to within one."""
    ix = np.asarray(ix)
    rec.check(len(ix) == 0 or (np.all(np.diff(ix) >= 0) and ix[0] >= 0 and ix[-1] < len(w)), msg + ' ordered', ix=ix)
    cnt = np.searchsorted(ix, np.arange(len(w)), side='right')
    c = np.cumsum(w)
    rec.check(np.all(np.abs(cnt - c / factor) <= 1 + 1e-9), msg + ' one pick per factor', factor=factor, counts=cnt,
              cum=c / factor)


def verify(rec, s, model, has_ll, extra=0):
    ids, w = model.flat()
    if s.samples is None:
        chains = s.getSeparateChains()
        rec.eq(len(chains), len(model.ids), 'number of separate chains')
    else:
        rec.check(s.samples.shape == (len(ids), 3 + extra), 'sample array shape', got=s.samples.shape, expected=len(ids))
        rec.check(np.array_equal(s.samples[:, 0], ids), 'surviving rows in order', got=s.samples[:, 0], expected=ids)
        rec.check(np.array_equal(s.samples[:, :3], tag_x(ids)), 'row values intact')
        rec.near(s.weights, w, 'row weights', rtol=1e-12)
        rec.check(s.numrows == len(ids), 'row count attribute')
        if has_ll:
            rec.near(s.loglikes, tag_ll(ids), 'row likelihoods', rtol=1e-13)
        rec.near(s.get_norm(), w.sum(), 'total weight')
        if getattr(s, 'chain_offsets', None) is None and getattr(s, 'chains', None) is None:
            return
        chains = s.getSeparateChains()
    rec.eq(len(chains), len(model.ids), 'number of chains on splitting')
    for c, i, wi in zip(chains, model.ids, model.w):
        rec.check(np.array_equal(np.asarray(c.samples)[:, 0], i), 'rows of each chain', got=c.samples[:, 0], expected=i)
        rec.check(np.array_equal(np.asarray(c.samples)[:, :3], tag_x(i)), 'row values of each chain')
        rec.near(c.weights, wi, 'weights of each chain', rtol=1e-12)
        if has_ll:
            rec.near(c.loglikes, tag_ll(i), 'likelihoods of each chain', rtol=1e-13)


def make(rng, rec):
    from getdist import WeightedSamples
    from getdist.chains import Chains
    kind = str(rng.choice(['ws', 'mc1', 'mcN', 'mcN', 'mcN', 'chN', 'chN']))
    k = 1 if kind in ('ws', 'mc1') else int(rng.integers(2, 5))
    lens = [int(rng.integers(6, 60)) for _ in range(k)]
    if kind == 'mc1':
        lens = [int(rng.integers(12, 90))]
    tot = sum(lens)
    start = int(rng.integers(0, 1000))
    allid = start + (np.arange(tot) if rng.random() < 0.5 else rng.permutation(tot))
    ids = np.split(allid, np.cumsum(lens)[:-1])
    wk = str(rng.choice(['unit', 'int', 'int', 'bigint', 'float', 'none']))
    if wk in ('unit', 'none'):
        ws = [np.ones(n) for n in lens]
    elif wk == 'int':
        ws = [rng.integers(1, 6, n).astype(float) for n in lens]
    elif wk == 'bigint':
        ws = [rng.integers(1, 60, n).astype(float) for n in lens]
    else:
        ws = [rng.uniform(0.01, 5, n) for n in lens]
    has_ll = bool(rng.random() < 0.7)
    xs = [tag_x(i) for i in ids]
    lls = [tag_ll(i) for i in ids] if has_ll else None
    wa = None if wk == 'none' else [w.copy() for w in ws]
    if kind == 'ws':
        s = WeightedSamples(samples=xs[0], weights=None if wa is None else wa[0], loglikes=lls and lls[0])
    elif kind == 'mc1':
        s = gen.mc(xs[0], None if wa is None else wa[0], lls and lls[0], names=['id', 'b', 'c'])
    elif kind == 'mcN':
        s = gen.mc(xs, wa, lls, names=['id', 'b', 'c'])
    else:
        s = Chains(names=['id', 'b', 'c'])
        s.loadChains('', xs, weights=wa, loglikes=lls)
    rec.set(kind=kind, lens=lens, wk=wk, ll=has_ll)
    return s, Model(ids, ws), kind, wk, has_ll


def history(rng, rec):
    s, m, kind, wk, has_ll = make(rng, rec)
    extra = 0
    verify(rec, s, m, has_ll)
    ops = []
    for step in range(int(rng.integers(2, 7))):
        sep = s.samples is None
        ids, w = m.flat()
        n = len(ids)
        if n < 14 or min(len(i) for i in m.ids) < 5:
            break
        isint = np.all(w == np.round(w))
        unique = len(set(ids)) == n  # after thinning, rows may be repeated
        op = str(rng.choice(['mask', 'index', 'burn', 'burnfrac', 'thin', 'wthin', 'minw', 'zeros', 'single', 'derived', 'copy',
                             'badthin', 'query', 'slice']))
        if op in ('mask', 'index', 'minw', 'zeros', 'derived', 'thin', 'badthin', 'slice') and sep:
            continue
        rec.set(step=step, op=op, ops=ops)
        if op == 'mask':
            keep = rng.random(n) < rng.uniform(0.4, 0.95)
            keep[:5] |= rng.random(5) < 0.5
            if keep.sum() < 12:
                continue
            s.filter(keep)
            m.apply(keep)
        elif op == 'index':
            ix = np.sort(rng.choice(n, int(rng.integers(12, n + 1)), replace=False)) if n >= 12 else np.arange(n)
            s.filter(ix if rng.random() < 0.5 else list(ix))
            keep = np.zeros(n, bool)
            keep[ix] = True
            m.apply(keep)
        elif op == 'slice':
            a = int(rng.integers(0, 3))
            s.filter(slice(a, n - a))
            keep = np.zeros(n, bool)
            keep[a:n - a] = True
            m.apply(keep)
        elif op in ('burn', 'burnfrac'):
            r = float(rng.choice([0.1, 0.3, 0.25, 0.5, rng.uniform(0, 0.6)])) if rng.random() < 0.7 else int(rng.integers(1, 4))
            if op == 'burn' and not sep:
                s.removeBurn(r)
            elif hasattr(s, 'removeBurnFraction'):
                if sep or r < 1:
                    s.removeBurnFraction(r)
                else:
                    s.removeBurn(r)
            else:
                s.removeBurn(r)

            def nrem(full, left):
                if r >= 1:
                    rec.eq(full - left, min(full, int(r)), 'number of burn-in rows removed')
                else:
                    rec.check(abs((full - left) - full * r) <= 0.5 + 1e-9, 'fraction of rows removed as burn-in', full=full,
                              left=left, r=r)
                return full - left

            if sep:
                for k, c in enumerate(s.getSeparateChains()):
                    q = nrem(len(m.ids[k]), c.samples.shape[0])
                    m.ids[k], m.w[k] = m.ids[k][q:], m.w[k][q:]
            else:
                q = nrem(n, s.numrows)
                keep = np.arange(n) >= q
                m.apply(keep)
        elif op == 'thin':
            if not isint or not unique:
                continue
            f = int(rng.choice([1, 2, 3, 5]))
            if w.sum() / f < 14:
                continue
            s.thin(f)
            got = s.samples[:, 0].copy()
            pos = {v: k for k, v in enumerate(ids)}
            rec.check(all(g in pos for g in got), 'thinned rows are existing rows')
            ix = np.array([pos[g] for g in got])
            picks_ok(rec, ix, w, f, 'thin')
            off = np.cumsum([0] + [len(i) for i in m.ids])
            for k in range(len(m.ids)):
                sel = ix[(ix >= off[k]) & (ix < off[k + 1])]
                m.ids[k], m.w[k] = ids[sel], np.ones(len(sel))
        elif op == 'wthin':
            if not isint or not unique:
                continue
            f = int(rng.choice([1, 2, 3, 5]))
            if min(x.sum() for x in m.w) / f < 8:
                continue
            s.weighted_thin(f)
            per = [c for c in s.getSeparateChains()] if (sep or getattr(s, 'chain_offsets', None) is not None) else [s]
            rec.eq(len(per), len(m.ids), 'chains after weighted thinning')
            for k, c in enumerate(per):
                pos = {v: q for q, v in enumerate(m.ids[k])}
                got = c.samples[:, 0]
                rec.check(all(g in pos for g in got), 'weighted-thinned rows stay in their chain', got=got, chain=m.ids[k])
                ix = np.array([pos[g] for g in got])
                rec.check(np.all(np.diff(ix) > 0), 'weighted-thinned rows unique and in order')
                cw = np.asarray(c.weights, float)
                rec.check(np.all(cw == np.round(cw)) and np.all(cw >= 1), 'weighted-thinned counts', w=cw)
                picks_ok(rec, np.repeat(ix, cw.astype(int)), m.w[k], f, 'weighted thin')
                m.ids[k], m.w[k] = m.ids[k][ix], cw
        elif op == 'badthin':
            if isint:
                rec.raises(Exception, lambda: s.thin(1.5), 'non-integer thin factor reported')
            else:
                rec.raises(Exception, lambda: s.thin(2), 'thinning non-integer weights reported')
        elif op == 'minw':
            ratio = float(rng.choice([0.0, 0.03137, 0.20171]))
            s.setMinWeightRatio(ratio)
            keep = w > ratio * w.max()
            if keep.sum() < 12:
                return
            m.apply(keep)
        elif op == 'zeros':
            s.deleteZeros()
        elif op == 'single':
            if sep:
                s.makeSingle()
            else:
                continue
        elif op == 'derived':
            if kind == 'ws':
                continue
            name = 'd%d' % extra
            v = np.sin(s.samples[:, 0] * (extra + 2.))
            s.addDerived(v, name=name)
            extra += 1
            rec.near(s.samples[:, -1], np.sin(ids * (extra + 1.)), 'derived column belongs to its rows', atol=1e-12)
        elif op == 'copy':
            import copy
            s = s.copy() if hasattr(s, 'copy') else copy.deepcopy(s)
        elif op == 'query':
            if not sep:
                s.mean(0)
                s.getCov()
        ops.append(op)
        verify(rec, s, m, has_ll, extra)
        if extra and s.samples is not None:
            i2 = m.flat()[0]
            rec.near(s.samples[:, 3], np.sin(i2 * 2.), 'added column stays with its rows', atol=1e-12)
    if s.samples is None:
        s.makeSingle()
        verify(rec, s, m, has_ll, extra)
    if ops:
        rec.sig(kind, len(m.ids), wk, tuple(ops))


def thin_static(rng, rec):
    from getdist import WeightedSamples
    n = int(rng.integers(1, 200))
    w = rng.integers(1, int(rng.choice([2, 4, 30])), n)
    if rng.random() < 0.5:
        w = w.astype(float)
    f = int(rng.choice([1, 2, 3, 4, 7, 10, 50]))
    if f > w.sum():
        f = 1
    rec.set(n=n, f=f, w=w)
    s = WeightedSamples(samples=np.arange(n, dtype=float)[:, None], weights=np.asarray(w, float))
    ix = s.thin_indices(f)
    picks_ok(rec, ix, w, f, 'thin indices')
    u, c = WeightedSamples.thin_indices_and_weights(f, np.asarray(w))
    rec.check(np.array_equal(np.repeat(u, c), ix), 'indices and counts agree with indices', u=u, c=c, ix=ix)
    if f == 1 and np.max(w) > 1:
        rec.check(np.array_equal(c, w) and np.array_equal(u, np.arange(n)), 'thinning by one keeps everything')
    w2 = rng.integers(1, 9, n)
    picks_ok(rec, s.thin_indices(f, weights=w2), w2, f, 'thin indices given weights')
    rec.sig(n, f, int(w.max()))


def single_samples(rng, rec):
    """Unit-weight output: only existing rows, increasing order, selection probability proportional to weight."""
    import os
    n = int(rng.integers(12, 80))
    ids = rng.permutation(n) + 7
    w = rng.choice([rng.uniform(0.01, 1, n), rng.integers(1, 10, n).astype(float)])
    ms = int(rng.choice([5, 20, 2000]))
    s = gen.mc(tag_x(ids), w.copy(), tag_ll(ids), names=['id', 'b', 'c'], settings={'max_scatter_points': ms})
    thin = None if rng.random() < 0.4 else float(rng.uniform(1, 4))
    R = 150
    frac = w / w.max() / (thin or 1)
    cnt = np.zeros(n)
    rec.set(n=n, thin=thin, ms=ms)
    base = int(rng.integers(0, 10 ** 6))
    pos = {v: k for k, v in enumerate(ids)}
    for r in range(R):
        ix = s.random_single_samples_indices(random_state=base + r, thin=thin)
        cnt[ix] += 1
        rec.check(len(ix) == 0 or (np.all(np.diff(ix) > 0) and ix.max() < n), 'single indices increasing', name='order')
    sig = np.sqrt(R * frac * (1 - frac)) + 1e-9
    rec.check(np.all(np.abs(cnt - R * frac) <= 7 * sig + 3), 'selection frequency proportional to weight', got=cnt / R,
              expected=frac)
    if not thin:
        rec.check(np.all(cnt[w == w.max()] == R), 'maximum weight rows always kept')
    # max_samples
    mx = int(rng.integers(1, 30))
    fr = np.minimum(1, w / w.max() / max(1, w.sum() / w.max() / mx))
    num = np.array([len(s.random_single_samples_indices(random_state=base + 5000 + r, max_samples=mx)) for r in range(60)])
    sd = np.sqrt(np.sum(fr * (1 - fr)) * 60) + 1e-9
    rec.check(abs(num.sum() - 60 * fr.sum()) <= 7 * sd + 3, 'mean number with max_samples', got=num.mean(), expected=fr.sum())
    # array and file output
    st = None if rng.random() < 0.5 else float(rng.uniform(1, 3))
    seed = base + 1
    arr = s.makeSingleSamples(single_thin=st, random_state=seed)
    ai = [pos.get(v) for v in arr[:, 0]]
    rec.check(None not in ai and np.all(np.diff(ai) > 0), 'single samples are rows in order')
    rec.check(np.array_equal(arr, tag_x(ids)[ai]), 'single sample rows intact')
    fn = os.path.join(rec.tmp, 'single.txt')
    s.makeSingleSamples(fn, single_thin=st, random_state=seed)
    d = np.atleast_2d(np.loadtxt(fn)) if os.path.getsize(fn) else np.zeros((0, 5))
    rec.check(d.shape == (len(ai), 5), 'single sample file has the same rows as the array', file=d.shape, arr=len(ai))
    if len(ai):
        rec.check(np.all(d[:, 0] == 1), 'unit weights in file')
        rec.near(d[:, 1], tag_ll(ids)[ai], 'likelihood of each written row', rtol=1e-6)
        rec.near(d[:, 2:], tag_x(ids)[ai], 'values of each written row', rtol=1e-6, atol=1e-7)
    efft = st if st is not None else max(1, w.sum() / w.max() / ms)
    f2 = w / w.max() / efft
    num = np.array([len(s.makeSingleSamples(single_thin=st, random_state=base + 9000 + r)) for r in range(60)])
    sd = np.sqrt(np.sum(f2 * (1 - f2)) * 60) + 1e-9
    rec.check(abs(num.sum() - 60 * f2.sum()) <= 7 * sd + 3, 'mean number of single samples', got=num.mean(), expected=f2.sum())
    # thinned data file
    wi = rng.integers(1, 5, n).astype(float)
    tll = tag_ll(ids) + float(rng.choice([0, 3000, -2000]))
    s2 = gen.mc(tag_x(ids), wi, tll, names=['id', 'b', 'c'])
    f = int(rng.integers(1, 5))
    ix = s2.thin_indices(f)
    cool = float(rng.choice([1, 2, 0.5]))
    fn = os.path.join(rec.tmp, 'thin.txt')
    s2.writeThinData(fn, ix, cool)
    d = np.atleast_2d(np.loadtxt(fn))
    rec.check(d.shape == (len(ix), 5), 'thinned file has one line per selected row', shape=d.shape, n=len(ix))
    rec.near(d[:, 2:], tag_x(ids)[ix], 'thinned file values', rtol=1e-6, atol=1e-7)
    rec.near(d[:, 1], tll[ix] * cool, 'thinned file likelihoods', rtol=1e-6)
    lw = np.log(d[:, 0])
    el = tll[ix] * (1 - cool)
    rec.check(np.all(np.isfinite(d)) and np.all(d[:, 0] > 0), 'thinned file weights are positive and finite')
    rec.near(lw - lw[0], el - el[0], 'thinned file weights', rtol=1e-5, atol=1e-5)
    rec.sig(n, thin is None, ms, st is None, f, cool)


def empty_chain(rng, rec):
    """Selections that empty one chain still leave the others intact."""
    k = int(rng.integers(2, 4))
    lens = [int(rng.integers(10, 30)) for _ in range(k)]
    ids = np.split(np.arange(sum(lens)) + 5, np.cumsum(lens)[:-1])
    s = gen.mc([tag_x(i) for i in ids], [np.ones(n) for n in lens], [tag_ll(i) for i in ids], names=['id', 'b', 'c'])
    m = Model(ids, [np.ones(n) for n in lens])
    j = int(rng.integers(k))
    keep = ~np.isin(s.samples[:, 0], ids[j])
    s.filter(keep)
    m.apply(keep)
    rec.set(lens=lens, removed=j)
    rec.check(np.array_equal(s.samples[:, 0], m.flat()[0]), 'rows after emptying a chain')
    got = [c.samples[:, 0] for c in s.getSeparateChains() if c.samples.shape[0]]
    rec.check(len(got) == k - 1 and all(np.array_equal(a, b) for a, b in zip(got, [i for i in m.ids if len(i)])),
              'other chains intact after one is emptied')
    rec.sig(k, j)


GROUPS = {'history': (history, 1500, 30000), 'thin_static': (thin_static, 400, 8000),
          'single_samples': (single_samples, 120, 2500), 'empty_chain': (empty_chain, 30, 300)}
