import copy

import numpy as np

from .. import gen
from ..gen import ref_mean, ref_cov

RULE = 'a case applies a random history of re-weightings and coolings to a sample object while twins, copies and caller arrays ' \
       'are watched; distinct = (container, weights, operation sequence)'


def same_upto_const(rec, w, logw, msg):
    w = np.asarray(w, float)
    rec.check(w.shape == logw.shape and np.all(np.isfinite(w)) and np.all(w >= 0) and w.max() > 0, msg + ': finite weights',
              w=w)
    rel = logw - logw.max()
    got = np.log(np.where(w > 0, w, 1)) - np.log(w[np.argmax(logw)])
    ok = rel > -600
    rec.check(np.all(w[ok] > 0), msg + ': no weight lost', w=w, rel=rel)
    rec.near(got[ok], rel[ok], msg, rtol=1e-8, atol=1e-8)


def history(rng, rec):
    from getdist import WeightedSamples
    from getdist.chains import Chains
    kind = str(rng.choice(['ws', 'chains', 'mc', 'mcN']))
    n, p = int(rng.integers(12, 60)), int(rng.integers(1, 4))
    x = gen.params(rng, n, p, ties=False)
    w, wk = gen.weights(rng, n)
    if w is not None and wk == 'int' and rng.random() < 0.5:
        w = w.astype(int)
    has_ll = rng.random() < 0.8
    ll = gen.loglikes(rng, n) if has_ll else None
    nm = gen.names(rng, p)
    caller = (x, w, ll)
    snap = copy.deepcopy(caller)
    cut = [n // 3]
    sp = lambda a: None if a is None else [a[:n // 3], a[n // 3:]]

    def mk():
        if kind == 'ws':
            return WeightedSamples(samples=x, weights=w, loglikes=ll)
        if kind == 'chains':
            return Chains(samples=x, weights=w, loglikes=ll, names=nm)
        if kind == 'mc':
            return gen.mc(x, w, ll, nm)
        return gen.mc(sp(x), sp(w), sp(ll), nm)

    s, other = mk(), mk()
    logw = np.log(np.ones(n) if w is None else np.asarray(w, float))
    L = None if ll is None else ll.copy()
    rec.set(kind=kind, n=n, p=p, wk=wk, has_ll=has_ll)
    ops = []
    big = np.max(np.abs(x), axis=0)
    for step in range(int(rng.integers(1, 6))):
        held = [copy.deepcopy(s)]
        if kind == 'mcN' and rng.random() < 0.6:
            held += s.getSeparateChains()
        refs = [s.weights, s.loglikes]
        hs = [(None if h.weights is None else h.weights.copy(), None if h.loglikes is None else h.loglikes.copy())
              for h in held]
        refsnap = [None if r is None else np.array(r) for r in refs]
        op = str(rng.choice(['reweight', 'reweight', 'cool', 'inverse', 'query', 'zero', 'split']))
        if op == 'cool' and not has_ll:
            op = 'reweight'
        rec.set(op=op, step=step, ops=ops)
        # stay where double precision can represent every intermediate weight
        room = np.log(s.weights.min()) if s.weights.min() > 0 else -1e9
        if op in ('reweight', 'inverse', 'zero', 'split'):
            d = rng.normal(size=n) * float(rng.choice([0.3, 3, 20])) + float(rng.choice([0, 100, -1e4, 2.5]))
            if op == 'zero':
                d = np.full(n, float(rng.choice([0, 3.25, -7])))
            if rng.random() < 0.2:
                d = np.round(d)
            if room - 2 * np.ptp(d) < -600:
                continue
            dd = d.copy()
            if op == 'split':
                a = rng.normal(size=n)
                s.reweightAddingLogLikes(a)
                s.reweightAddingLogLikes(d - a)
            else:
                s.reweightAddingLogLikes(d)
            rec.check(np.array_equal(d, dd), 'given likelihood array not modified')
            logw = logw - d
            if L is not None:
                L = L + d
            if op == 'inverse':
                s.reweightAddingLogLikes(-d)
                logw = logw + d
                if L is not None:
                    L = L - d
        elif op == 'cool':
            c = float(rng.choice([0.5, 2, 0.1, 1, 1.7, 5]))
            if room - np.ptp(L) * (abs(1 - c) + c * abs(1 - 1 / c)) < -600:
                continue
            s.cool(c)
            logw = logw + L * (1 - c)
            L = L * c
            if rng.random() < 0.3:
                s.cool(1 / c)
                logw = logw + L * (1 - 1 / c)
                L = L / c
        elif op == 'query':
            s.mean(0)
            s.cov()
            if kind.startswith('mc'):
                s.getLikeStats()
        ops.append(op)
        logw = logw - logw.max()
        same_upto_const(rec, s.weights, logw, 'weights follow the likelihood change')
        if L is not None:
            rec.near(s.loglikes, L, 'stored likelihoods follow', rtol=1e-9, atol=1e-8 * (1 + np.max(np.abs(L))))
        else:
            rec.check(s.loglikes is None, 'no likelihoods invented')
        rec.check(np.array_equal(s.samples, x), 'parameter values unchanged')
        ww = np.exp(logw)
        rec.near(s.get_norm(), np.sum(s.weights), 'total weight updated', rtol=1e-10)
        j = int(rng.integers(p))
        rec.near(s.mean(j), ref_mean(x[:, j], ww), 'mean after re-weighting', rtol=1e-7, atol=1e-7 * big[j])
        rec.near(s.getMeans()[j], ref_mean(x[:, j], ww), 'stored mean after re-weighting', rtol=1e-7, atol=1e-7 * big[j])
        rec.near(s.getCov()[j, j], ref_cov(x[:, j], x[:, j], ww), 'stored variance after re-weighting', rtol=1e-6,
                 atol=1e-7 * big[j] ** 2)
        if kind != 'ws' and rng.random() < 0.5:
            rec.near(s.mean(nm[j]), ref_mean(x[:, j], ww), 'named mean after re-weighting', rtol=1e-7, atol=1e-7 * big[j])
        if kind == 'mcN':
            ch = s.getSeparateChains()
            cat = [np.exp(logw)[:n // 3], np.exp(logw)[n // 3:]]
            for c, e, xx in zip(ch, cat, sp(x)):
                if e.min() > 1e-25 * e.max():
                    rec.near(c.weights / c.weights.max(), e / e.max(), 'weights of each chain follow', rtol=1e-7)
                    rec.check(np.array_equal(c.samples, xx), 'rows of each chain unchanged')
        # nobody else affected
        for h, (hw, hl) in zip(held, hs):
            rec.check((hw is None or np.array_equal(h.weights, hw)) and (hl is None or np.array_equal(h.loglikes, hl)),
                      'other sample objects unaffected')
        for r, r0 in zip(refs, refsnap):
            rec.check(r is None or np.array_equal(r, r0), 'arrays handed out earlier unaffected')
        for a, b in zip(caller, snap):
            rec.check(a is None or (a.dtype == b.dtype and np.array_equal(a, b)), 'caller arrays unaffected')
        w0 = np.ones(n) if snap[1] is None else snap[1]
        rec.check(np.array_equal(other.weights, w0), 'twin object unaffected')
        if has_ll:
            rec.check(np.array_equal(other.loglikes, snap[2]), 'twin likelihoods unaffected')
    rec.sig(kind, wk, has_ll, tuple(ops))


def extreme(rng, rec):
    """Large likelihood differences and strong cooling must not overflow or lose the dominant samples."""
    from getdist import WeightedSamples
    n = int(rng.integers(5, 40))
    x = rng.normal(size=(n, 2))
    ll = rng.uniform(0, float(rng.choice([50, 1000, 1e4])), n)
    s = WeightedSamples(samples=x, weights=rng.uniform(0.5, 2, n), loglikes=ll.copy())
    lw = np.log(s.weights)
    c = float(rng.choice([0.2, 3, 10, 0.9]))
    rec.set(n=n, cool=c, ll=ll)
    if rng.random() < 0.5:
        s.cool(c)
        lw = lw + ll * (1 - c)
    else:
        d = rng.normal(size=n) * 1e3 + float(rng.choice([1e5, 0, -1e5]))
        s.reweightAddingLogLikes(d)
        lw = lw - d
    same_upto_const(rec, s.weights, lw, 'extreme re-weighting')
    rec.near(s.mean(0), ref_mean(x[:, 0], np.exp(lw - lw.max())), 'mean after extreme re-weighting', rtol=1e-6, atol=1e-6)
    rec.sig(n, c)


GROUPS = {'history': (history, 900, 20000), 'extreme': (extreme, 200, 3000)}
