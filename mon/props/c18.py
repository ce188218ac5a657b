import decimal
import re
from fractions import Fraction

import numpy as np

RULE = 'a case is a batch of numbers, or of (value, upper error, lower error) triples, over many magnitudes, signs, roundings ties, digit carries and ' \
       'formatter settings; each string is parsed back exactly (as fractions) and compared with the value; distinct = (magnitudes, settings, form)'
ASSUMPTIONS = ['non-finite numbers are not generated',
               'the formatter may shorten errors to one figure for values of 20 or more with an error of 2 or more that is over 10%']

num = r'[-+]?\d+(?:\.\d*)?'


def F(x):
    if isinstance(x, str):
        return Fraction(x.rstrip('.'))
    return Fraction(float(x))


def places(s):
    return len(s) - s.index('.') - 1 if '.' in s else 0


def adj(x):
    """decimal exponent of the leading digit of a non-zero fraction"""
    x = abs(x)
    if x == 0:
        return 0
    e = len(str(int(x))) - 1 if x >= 1 else -1
    if x < 1:
        while x * 10 ** (-e) < 1:
            e -= 1
    return e


def unit(x, sf):
    """one unit in the last of sf figures of x, as Fraction, allowing x to round up to the next power of ten"""
    e = adj(x)
    return Fraction(10) ** (e - sf + 1)


def draw(rng):
    k = rng.integers(0, 10)
    e = int(rng.integers(-12, 13)) if rng.random() < 0.5 else int(rng.integers(-4, 6))
    if k == 0:
        v = 0.
    elif k == 1:
        v = float('9' * int(rng.integers(1, 9)) + 'e%d' % e)
    elif k == 2:
        v = float('%d5e%d' % (rng.integers(1, 9999), e))
    elif k == 3:
        v = float('9.' + '9' * int(rng.integers(0, 6)) + '%de%d' % (rng.integers(4, 7), e))
    elif k == 4:
        v = 10. ** e
    elif k == 5:
        v = float(np.nextafter(10. ** e, 0))
    elif k == 6:
        v = float(rng.integers(1, 200000))
    else:
        v = float(rng.uniform(1, 10) * 10. ** e)
    return v if v == 0 or rng.random() < 0.6 else -v


def sig(s):
    """significant figures printed (leading zeros removed; a printed integer's trailing zeros count)"""
    return len(s.lstrip('+-').replace('.', '').lstrip('0'))


def as_type(rng, v):
    k = rng.integers(0, 6)
    if k == 0:
        return np.float64(v)
    if k == 1 and v == int(v) and abs(v) < 2 ** 53:
        return int(v)
    if k == 2 and v == int(v) and abs(v) < 2 ** 53:
        return np.int64(v)
    if k == 3:
        return decimal.Decimal(v)
    return v


def numbers(rng, rec):
    from getdist import types
    for _ in range(40):
        v = draw(rng)
        sf = int(rng.integers(1, 9))
        a = as_type(rng, v)
        rec.set(v=v, sf=sf, type=type(a).__name__)
        ex = F(v)
        which = rng.integers(0, 3)
        if which == 0:
            s = types.numberFigs(a, sf)
        elif which == 1:
            s = types.NumberFormatter(sig_figs=sf).formatNumber(a)
        else:
            s = types.NumberFormatter().formatNumber(a, sf)
        check_number(rec, s, ex, sf, 'number')
        s, e = types.numberFigs(a, sf, sci=True) if rng.random() < 0.5 else types.NumberFormatter(sig_figs=sf).formatNumber(a, sci=True)
        check_number(rec, s, ex, sf, 'scientific number', e)
        if e == 0:
            rec.check(v == 0 or -4 <= adj(ex) <= 4, 'exponent shown for large and small numbers', exponent=adj(ex), got=s)
        else:
            rec.check(abs(adj(ex)) > 4, 'no exponent for ordinary numbers', got=(s, e))
            rec.check(1 <= abs(F(s)) <= 10, 'mantissa between 1 and 10', got=(s, e))
        s = types.NumberFormatter().formatNumber(a, sf, wantSign=True)
        check_number(rec, s, ex, sf, 'number with sign')
        if F(s) != 0:
            rec.eq(s[0], '+' if v > 0 else '-', 'sign of the number')
        rec.check(F(types.float_to_decimal(v)) == ex if False else Fraction(types.float_to_decimal(v)) == ex, 'exact decimal')
        rec.sig('num', sf, adj(ex) if v else None)


def check_number(rec, s, ex, sf, msg, e=0):
    rec.check(re.fullmatch(num, s) is not None, msg + ' is a number', got=s)
    got = F(s) * Fraction(10) ** e
    if ex == 0:
        rec.check(got == 0, msg + ' zero', got=s)
        return
    rec.check(abs(got - ex) <= unit(ex, sf) / 2 * (1 + Fraction(1, 10 ** 12)), msg + ' recovers the value', got=s, exponent=e, value=float(ex))
    rec.check((got > 0) == (ex > 0), msg + ' sign', got=s)
    n = sig(s)
    if '.' in s:
        rec.eq(n, sf, msg + ' significant figures', text=s)
    else:
        rec.check(n >= sf, msg + ' significant figures', text=s)


def check_error(rec, s, ex, err_sf, short_ok, scale, msg):
    """printed error against the exact one; returns its unit"""
    got = F(s)
    ex = ex / scale
    if ex == 0:
        rec.check(got == 0, msg + ' zero')
        return None
    u = unit(ex, err_sf)
    us = [u] + ([unit(ex, 1)] if short_ok else [])
    tol = 1 + Fraction(1, 10 ** 10)
    ok = [q for q in us if abs(got - ex) <= q / 2 * tol]
    rec.check(ok, msg + ' recovers the value', got=s, value=float(ex))
    rec.check((got > 0) == (ex > 0), msg + ' sign', got=s, value=float(ex))
    if '.' in s:
        rec.check(sig(s) == err_sf or (short_ok and sig(s) == 1), msg + ' figures', text=s, wanted=err_sf)
    else:
        rec.check(sig(s) >= (1 if short_ok else err_sf), msg + ' figures', text=s, wanted=err_sf)
        sfz = err_sf if not short_ok else 1
        if sig(s) > err_sf:
            rec.check(s.rstrip('0') != s, msg + ' no more figures than wanted', text=s)
    # (rounding may carry into the next power of ten, with a larger unit)
    return max(ok) if adj(got) == adj(ex) else 10 * max(ok)


def triple(rng, kind=None):
    v = draw(rng)
    k = rng.integers(0, 5)
    base = abs(v) if v else 10. ** int(rng.integers(-8, 8))
    r = 10. ** rng.uniform(-6, 2.5)
    e = base * r
    if k == 0:
        e = abs(draw(rng)) or 1.
        if not 1e-7 < e / base < 1e4:
            e = base * r
    elif k == 1:
        e = float('%.1g' % e) * float(rng.choice([1, 0.9949, 0.995, 0.9951, 0.95]))
    p, m = e, e
    if rng.random() < 0.6:
        m = e * float(10 ** rng.uniform(-1.5, 1.5))
    return v, float(p), float(m)


def errors(rng, rec):
    from getdist import types
    for _ in range(30):
        v, p, m = triple(rng)
        err_sf = int(rng.choice([2, 2, 1, 3]))
        fm = types.NumberFormatter(sig_figs=int(rng.choice([4, 4, 2, 3, 6])), err_sf=err_sf)
        sci = bool(rng.integers(0, 2))
        sign = bool(rng.integers(0, 2))
        mm = -m if sign else m
        conv = (lambda x: np.float64(x)) if rng.random() < 0.5 else (lambda x: x)
        rec.set(v=v, plus=p, minus=mm, err_sf=err_sf, sf=fm.sig_figs, sci=sci)
        out = fm.namesigFigs(conv(v), conv(p), conv(mm), wantSign=sign, sci=sci)
        e = out[3] if sci else 0
        res, ps, ms = out[:3]
        big = max(abs(F(v) + F(p)), abs(F(v) - F(mm)))
        if sci and big:
            a = adj(big)
            ar = {a, adj(big * (1 + Fraction(1, 10 ** 3))), adj(big * (1 - Fraction(1, 10 ** 12)))}
            rec.check(e in ar or (e == 0 and min(abs(q) for q in ar) <= 4), 'exponent of the larger end', exponent=e, expected=a)
            rec.check(e == 0 or max(abs(q) for q in ar) > 4, 'no exponent for ordinary numbers', exponent=e)
        value_and_errors(rec, res, ps, ms, F(v), F(p), F(mm), err_sf, Fraction(10) ** e, sign)
        rec.sig('err', adj(F(v)) if v else None, adj(F(p)), adj(F(m)), err_sf, sci)


def value_and_errors(rec, res, ps, ms, v, p, m, err_sf, scale, sign):
    short_ok = v >= 20 and p >= 2 and 10 * p > (v + p)
    up = check_error(rec, ps, p, err_sf, short_ok, scale, 'upper error')
    um = check_error(rec, ms, m, err_sf, short_ok, scale, 'lower error') if ms is not None else up
    if sign:
        for s, x in ((ps, p), (ms, m)):
            if F(s) != 0:
                rec.eq(s[0], '+' if x > 0 else '-', 'sign of the error')
    x = v / scale
    got = F(res)
    u = max(q for q in (up, um, Fraction(1, 10 ** max(places(ps), places(ms or ps)))) if q is not None)
    # the mean is printed at least as precisely as its upper error
    tol = 1 + Fraction(1, 10 ** 10)
    lim = up if up is not None else u
    lim = max(lim, Fraction(1, 10 ** places(ps))) if '.' in ps else max(lim, Fraction(1))
    rec.check(abs(got - x) <= lim / 2 * tol, 'mean recovers the value to the precision of the error', got=res, value=float(x), errors=(ps, ms))
    rec.check(abs(got - x) <= Fraction(1, 10 ** places(res)) / 2 * tol or not places(res), 'mean recovers the value to its printed precision', got=res, value=float(x))
    if got != 0:
        rec.check((got > 0) == (x > 0), 'sign of the mean', got=res)
    else:
        rec.check(not res.startswith('-'), 'zero has no sign', got=res)
    d = places(res)
    lo, hi = min(places(ps), places(ms or ps)), max(places(ps), places(ms or ps))
    # one more place where rounding carries into the next power of ten (9.99999 +- 0.0001)
    carry = x != 0 and adj(x) != adj(x + (lim if x > 0 else -lim))
    rec.check(lo <= d <= hi + carry, 'mean and errors printed to the same decimal places', got=(res, ps, ms))


TEX_SCI = re.compile(r'\\left\(\\,(.*)\\,\\right\)\\cdot 10\^\{(-?\d+)\}')


def tex(rng, rec):
    """Limits as printed in tables and inline."""
    from getdist import types
    from getdist.paramnames import ParamInfo
    from getdist.types import MargeStats, ParamLimit, TableFormatter, NoLineTableFormatter
    for _ in range(12):
        ms = MargeStats()
        ms.limits = [0.68, 0.95, 0.99]
        ms.hasBestFit = bool(rng.random() < 0.4)
        par = ParamInfo('x')
        par.name, par.label = 'x', r'\alpha'
        v, p, m = triple(rng)
        par.mean, par.err = v, (p + m) / 2
        par.limits = []
        f = 1.
        tags = []
        for i in range(3):
            tag = str(rng.choice(['two', 'two', 'two', '>', '<', 'none']))
            tags.append(tag)
            skew = float(rng.choice([1., 1., 1.02, 1.3, 0.97, 0.7]))
            q = par.err if rng.random() < 0.5 else p
            par.limits.append(ParamLimit([v - f * q, v + f * q * skew], tag))
            f += 1.1
        par.best_fit = v + par.err * float(rng.normal()) * 0.3
        ms.names = [par]
        fmt = TableFormatter() if rng.random() < 0.5 else NoLineTableFormatter()
        tol = fmt.numberFormatter.separate_limit_tol
        for lim in (1, 2, 3):
            rec.set(mean=v, err=par.err, limits=[(float(q.lower), float(q.upper)) for q in par.limits], tags=tags, limit=lim)
            vals = ms.texValues(fmt, 'x' if rng.random() < 0.5 else par, limit=lim)
            rec.eq(len(vals), 2 if ms.hasBestFit else 1, 'number of values')
            t = vals[0]
            L = par.limits[lim - 1]
            if tags[lim - 1] == 'none':
                rec.eq(t, fmt.noConstraint, 'no constraint')
            elif tags[lim - 1] in '<>':
                # '>' tags an upper limit
                up = tags[lim - 1] == '>'
                mt = re.fullmatch(r'([<>]) (%s)(?:\\cdot 10\^\{(-?\d+)\})?' % num, t)
                rec.check(mt, 'one-tail limit text', got=t)
                rec.eq(mt.group(1), '<' if up else '>', 'direction of the one-tail limit')
                check_number(rec, mt.group(2), F(L.upper if up else L.lower), 3, 'one-tail limit', int(mt.group(3) or 0))
            else:
                mt = TEX_SCI.fullmatch(t)
                sc, body = Fraction(1), t
                if mt:
                    body, sc = mt.group(1), Fraction(10) ** int(mt.group(2))
                pm = re.fullmatch(r'(%s)\\pm (%s)' % (num, num), body)
                asym = re.fullmatch(r'(%s)\^\{(%s)\}_\{(%s)\}' % (num, num, num), body)
                rec.check(pm or asym, 'two-tail limit text', got=t)
                ratio = abs(float((L.upper - v) / (L.lower - v))) if L.lower != v else np.inf
                if pm:
                    rec.check(lim == 1 and abs(ratio - 1) <= tol + 1e-9, 'single error only for nearly symmetric first limit', ratio=ratio, limit=lim)
                    value_and_errors(rec, pm.group(1), pm.group(2), None, F(v), F(par.err), F(par.err), 2, sc, False)
                else:
                    rec.check(lim != 1 or abs(ratio - 1) >= tol - 1e-9, 'separate errors', ratio=ratio)
                    value_and_errors(rec, asym.group(1), asym.group(2), asym.group(3), F(v), F(L.upper - v), F(L.lower - v), 2, sc, True)
            if ms.hasBestFit:
                mt = re.fullmatch(r'(%s)(?:\\cdot 10\^\{(-?\d+)\})?' % num, vals[1])
                rec.check(mt, 'best fit text', got=vals[1])
                got = F(mt.group(1)) * Fraction(10) ** int(mt.group(2) or 0)
                w = F(L.upper) - F(L.lower)
                rec.check(abs(got - F(par.best_fit)) <= w / 10 * Fraction(6, 10), 'best fit recovers the value within the range shown', got=vals[1], value=par.best_fit, width=float(w))
            rec.ev('limits ' + tags[lim - 1])
        rec.sig('tex', tags, ms.hasBestFit, adj(F(v)) if v else None)
    # chi2 parameters: mean and scatter
    par.name = 'chi2_x'
    par.mean, par.err = abs(triple(rng)[0]) % 1e5 + 1, float(10 ** rng.uniform(-2, 2))
    ms.hasBestFit = False
    rec.set(mean=par.mean, err=par.err)
    t = ms.texValues(fmt, par, limit=1)[0]
    pm = re.fullmatch(r'(%s)\\pm (%s)' % (num, num), t)
    rec.check(pm, 'chi2 text', got=t)
    value_and_errors(rec, pm.group(1), pm.group(2), None, F(par.mean), F(par.err), F(par.err), 2, Fraction(1), False)
    t = ms.texValues(fmt, par, limit=2)[0]
    mt = re.fullmatch(r'(%s)\\,\(\{\\nu\\rm\{:\}\\,(%s)\}\)' % (num, num), t)
    rec.check(mt, 'chi2 with degrees of freedom text', got=t)
    rec.near(float(mt.group(2)), par.err ** 2 / 2, 'effective degrees of freedom', rtol=0, atol=0.0501)
    # shifts relative to a reference
    ref = MargeStats()
    ref.limits, ref.hasBestFit = [0.68, 0.95, 0.99], False
    r = ParamInfo()
    r.name, r.label, r.mean, r.err = 'x', 'x', v + par.err * 0, abs(p) * float(rng.choice([1.3, 0.6, 1.0005, 0.9995]))
    r.mean = v + float(rng.normal()) * r.err
    r.limits = par.limits
    ref.names = [r]
    par.name, par.mean, par.err = 'x', v, (p + m) / 2
    if tags[0] == 'two':
        delta = par.mean - r.mean
        plain = ms.texValues(fmt, par, limit=1)[0]
        for kw, exp in (({}, [delta / r.err]),
                        (dict(shiftSigma_indep=True, shiftSigma_subset=True), [delta / max(np.sqrt(abs(par.err ** 2 - r.err ** 2)), r.err / 20), delta / np.sqrt(par.err ** 2 + r.err ** 2)]),
                        (dict(shiftSigma_subset=True), [delta / max(np.sqrt(abs(par.err ** 2 - r.err ** 2)), r.err / 20)]),
                        (dict(shiftSigma_indep=True), [delta / np.sqrt(par.err ** 2 + r.err ** 2)])):
            t = ms.texValues(fmt, par, limit=1, refResults=ref, **kw)[0]
            rec.check(t.startswith(plain + r'\quad('), 'value before the shift', got=t, plain=plain)
            got = [float(q) for q in re.findall(r'([-+]\d+\.\d) \\sigma', t[len(plain):])]
            rec.eq(len(got), len(exp), 'shifts shown', text=t)
            for g, x in zip(got, exp):
                rec.near(g, x, 'shift', rtol=1e-9, atol=0.0501)
            rec.eq(len(re.findall(r'\\sigma', t[len(plain):])), len(exp), 'sigma shown once per shift')
            rec.check('\\\\' not in t, 'no end of table row within a cell', text=t)
            rec.check('(,' not in t, 'no stray separator', text=t)


GROUPS = {'numbers': (numbers, 200, 6000), 'errors': (errors, 250, 8000), 'tex': (tex, 150, 4000)}
QUICK_BUDGET = 100
THOROUGH_BUDGET = 400
CASE_LIMIT = 30
