import copy
import fnmatch
import os
import pickle

import numpy as np

from .. import gen

RULE = 'a case is one name list with aliases (lookup groups) or one history of name-changing operations on samples whose columns identify ' \
       'their parameter; after every operation every way of looking up every name is compared with a model; distinct = (operations, sizes)'
ASSUMPTIONS = ['aliases that are another parameter\'s own name, or shared between parameters, are not generated']

POOL = ['omegabh2', 'omegach2', 'theta', 'tau', 'logA', 'ns', 'mnu', 'w', 'H0', 'sigma8', 'A', 'AL', 'Al', 'alpha1', 'alpha2', 'alpha10', 'x', 'X',
        'n_s', 'r02', 'z0', 'chi2_BAO', 'chi2_CMB', 'S8', 'omegab', 'omega', 'aa', 'aa.bb', 'aa.cc', 'aa.bb.cc', 'bb.x', 'p[1]', 'calPlanck', 'weightx', 'p-1', 'x+y']
LAB = [r'\Omega_b h^2', r'\tau', 'x', r'n_{\rm s}', r'{\rm{ln}}(10^{10} A_s)', r'H_0\,[{\rm km}]', r'\sigma_8', r'100\theta_{MC}', 'a b', r'\alpha_{%d}', '', 'q!']


def pick(rng, n, pool=POOL):
    return [str(v) for v in rng.choice(pool, n, replace=False)]


def label(rng):
    s = str(rng.choice(LAB))
    return s % int(rng.integers(0, 99)) if '%' in s else s


class Model:
    """ordered list of dicts(name,label,derived,renames,col)"""

    def __init__(self):
        self.p = []

    def names(self):
        return [q['name'] for q in self.p]

    def get(self, n):
        for q in self.p:
            if q['name'] == n:
                return q


def same_par(rec, got, q, msg):
    rec.check(got is not None, msg + ' found', name=q['name'])
    rec.eq(got.name, q['name'], msg + ' name')
    rec.eq(got.label, q['label'], msg + ' label')
    rec.eq(bool(got.isDerived), q['derived'], msg + ' derived flag')


def lookups(rng, rec, pl, m):
    """All lookups on a ParamList."""
    nm = m.names()
    rec.eq(pl.list(), nm, 'order of names')
    rec.eq(pl.labels(), [q['label'] for q in m.p], 'order of labels')
    rec.eq((pl.numParams(), pl.numDerived(), pl.numNonDerived()), (len(nm), sum(q['derived'] for q in m.p), sum(not q['derived'] for q in m.p)), 'counts')
    rec.eq(pl.getDerivedNames(), [q['name'] for q in m.p if q['derived']], 'derived names')
    rec.eq(pl.getRunningNames(), [q['name'] for q in m.p if not q['derived']], 'running names')
    rec.eq(pl.listString(), ' '.join(nm), 'names string')
    for i, q in enumerate(m.p):
        same_par(rec, pl.parWithName(q['name']), q, 'by name')
        rec.eq(pl.numberOfName(q['name']), i, 'number of name')
        rec.check(pl.hasParam(q['name']), 'has parameter')
        rec.eq((pl.name(i), pl.name(i, True)), (q['name'], q['name'] + ('*' if q['derived'] else '')), 'name by number')
        for r in q['renames']:
            same_par(rec, pl.parWithName(r), q, 'by alias')
        rec.eq(pl.names[i].getLabel(), q['label'] or q['name'], 'label text')
        rec.eq(pl.names[i].latexLabel(), '$%s$' % q['label'] if q['label'] else q['name'], 'latex label')
    for bad in ('nosuch', 'omegabh', '', 'X1') + tuple(n + 'q' for n in nm[:2]) + tuple(n[:-1] for n in nm[:2]):
        if bad in nm or any(bad in q['renames'] for q in m.p):
            continue
        rec.check(pl.parWithName(bad) is None, 'unknown name gives nothing', name=bad)
        rec.eq(pl.numberOfName(bad), -1, 'unknown number')
        rec.raises(Exception, lambda: pl.parWithName(bad, error=True), 'unknown name refused')
    pats = ['*', '?', 'omega*', '*2', 'alpha?', 'a*', '[x]', '*.*', 'chi2_*', 'zz*']
    for pat in pats:
        if '*' in pat or '?' in pat:
            exp = [n for n in nm if fnmatch.fnmatchcase(n, pat)]
            rec.eq([q.name for q in pl.parsWithNames(pat)], exp, 'wildcard', pattern=pat)
            rec.eq(pl.getMatches(pat, strings=True), exp, 'matching names')
    k = rng.permutation(len(nm))[:int(rng.integers(1, len(nm) + 1))]
    want, exp = [], []
    for i in k:
        c = rng.integers(0, 4)
        if c == 0 and m.p[i]['renames']:
            want.append(m.p[i]['renames'][0])
            exp.append(nm[i])
        elif c == 1:
            pat = nm[i][:2] + '*'
            if '[' in pat:
                continue
            want.append(pat)
            exp += [n for n in nm if fnmatch.fnmatchcase(n, pat)]
        elif c == 2:
            want.append(pl.names[i])
            exp.append(nm[i])
        else:
            want.append(nm[i])
            exp.append(nm[i])
    if want:
        rec.eq([q.name for q in pl.parsWithNames(want)], exp, 'list of names, aliases and wildcards', want=[str(v) for v in want])
    rec.eq([q if q is None else q.name for q in pl.parsWithNames([nm[0], 'nosuch'])], [nm[0], None], 'unknown in a list')
    rec.raises(Exception, lambda: pl.parsWithNames([nm[0], 'nosuch'], error=True), 'unknown in a list refused')
    # on-the-fly aliases
    t = nm[int(rng.integers(0, len(nm)))]
    rec.eq(pl.parWithName('zzz', renames={'zzz': t}).name, t, 'alias of the asked name')
    rec.eq(pl.parWithName('zzz', renames={t: ['yyy', 'zzz']}).name, t, 'alias of the stored name')
    rec.check(pl.parWithName('zzz') is None, 'aliases given for one lookup only')


def build(rng, n, dots=True):
    m = Model()
    pool = [q for q in POOL if dots or '.' not in q]
    for nm in pick(rng, n, pool):
        m.p.append(dict(name=nm, label=label(rng), derived=bool(rng.random() < 0.3), renames=[]))
    return m


def files(rng, rec):
    """Lists written and read back; comments; override of labels; from strings."""
    from getdist.paramnames import ParamNames, ParamInfo
    m = build(rng, int(rng.integers(1, 12)))
    for q in m.p:
        q['label'] = q['label'].replace('!', '\\')
    lines = []
    com = []
    for q in m.p:
        c = str(rng.choice(['', '', 'a comment', 'with # hash', 'tab\tin']))
        com.append(c)
        sep = str(rng.choice([' ', '\t', '   ', ' \t ']))
        l = q['name'] + ('*' if q['derived'] else '') + (sep + q['label'] if q['label'] else '')
        if c and q['label']:
            l += sep + '#' + c
        elif c:
            com[-1] = ''
        lines.append(l)
    fn = os.path.join(rec.tmp, 'a.paramnames')
    bom = rng.random() < 0.2
    with open(fn, 'w', encoding='utf-8-sig' if bom else 'utf-8') as f:
        blank = rng.random() < 0.3
        f.write(('\n\n' if blank else '\n').join(lines) + ('\n' if rng.random() < 0.8 else ''))
    pl = ParamNames(fn)
    rec.set(lines=lines)
    rec.eq([q.comment for q in pl.names], [c.strip() for c in com], 'comments')
    lookups(rng, rec, pl, m)
    f2 = os.path.join(rec.tmp, 'b.paramnames')
    pl.saveAsText(f2)
    p2 = ParamNames(f2)
    lookups(rng, rec, p2, m)
    rec.eq([q.comment for q in p2.names], [q.comment for q in pl.names], 'comments after saving')
    rec.eq(str(p2), str(pl), 'text after saving')
    # label overrides only touch the named ones
    ov = {}
    f3 = os.path.join(rec.tmp, 'c.paramnames')
    with open(f3, 'w') as f:
        for q in m.p[::-1]:
            if rng.random() < 0.5:
                ov[q['name']] = 'new_{%s}' % len(ov)
                f.write('%s  %s\n' % (q['name'] + ('*' if rng.random() < 0.5 else ''), ov[q['name']]))
        f.write('other other\n')
    p3 = ParamNames(fn, setParamNameFile=f3)
    m3 = copy.deepcopy(m)
    for q in m3.p:
        q['label'] = ov.get(q['name'], q['label'])
    lookups(rng, rec, p3, m3)
    # keyword storage
    class KW(dict):
        def keyWord_int(self, k):
            return int(self[k][0])

        def setKeyWord_int(self, k, v):
            self[k] = (str(v), '')

        def setKeyWord(self, k, v, c):
            self[k] = (v, c or 'NULL')

        def keyWordAndComment(self, k):
            return self[k]

    kw = KW()
    pl.saveKeyWords(kw)
    p4 = ParamNames()
    rec.eq(p4.loadFromKeyWords(kw), len(m.p), 'number from keywords')
    if all('!' not in q['label'] for q in m.p):
        lookups(rng, rec, p4, m)
    # filtered copies, copies and pickles
    keep = [n for n in m.names() if rng.random() < 0.5]
    fc = pl.filteredCopy(keep)
    rec.eq(fc.list(), [n for n in m.names() if n in keep], 'filtered copy')
    fc2 = pl.filteredCopy(fc)
    rec.eq(fc2.list(), fc.list(), 'filtered by list object')
    lookups(rng, rec, pickle.loads(pickle.dumps(pl)), m)
    # invalid names
    for bad in ('a b', 'a*b', 'a?', 'a\tb'):
        rec.raises(ValueError, lambda: ParamInfo(name=bad), 'invalid name refused', bad=bad)
    rec.raises(ValueError, lambda: ParamInfo(name=3), 'non-string name refused')
    rec.check(ParamInfo(name='a').nameEquals('a') and not ParamInfo(name='a').nameEquals('b') and not ParamInfo(name='a').nameEquals(ParamInfo(name='b')),
              'name comparison')
    n = int(rng.integers(1, 12))
    d = ParamNames(default=n)
    rec.eq(d.list(), ['param%d' % (i + 1) for i in range(n)], 'default names')
    rec.eq(d.labels(), ['p_{%d}' % (i + 1) for i in range(n)], 'default labels')
    rec.sig('files', len(m.p), bom, blank, len(keep))


def aliases(rng, rec):
    """updateRenames / mergeRenames."""
    from getdist.paramnames import ParamNames, mergeRenames
    m = build(rng, int(rng.integers(2, 8)))
    pl = ParamNames(names=[q['name'] + ('*' if q['derived'] else '') for q in m.p], labels=[q['label'] for q in m.p])
    free = ['al%d' % i for i in range(30)]
    for rnd in range(int(rng.integers(1, 4))):
        up = {}
        for q in m.p:
            if rng.random() < 0.5:
                new = [free.pop() for _ in range(int(rng.integers(1, 3)))]
                if q['renames'] and rng.random() < 0.3:
                    new.append(q['renames'][0])
                form = rng.integers(0, 3)
                if form == 0 and len(new) == 1:
                    up[q['name']] = new[0]
                elif form == 1:
                    # given the other way round: alias -> own name
                    up[new[0]] = [q['name']] + new[1:]
                else:
                    up[q['name']] = list(new)
                q['renames'] = q['renames'] + [v for v in new if v not in q['renames']]
        if rng.random() < 0.3:
            up['unrelated'] = ['unrel1']
        before = copy.deepcopy(up)
        pl.updateRenames(up)
        rec.eq(up, before, 'alias dictionary not modified')
        rec.set(update=up, names=m.names())
        lookups(rng, rec, pl, m)
        got = pl.getRenames()
        rec.eq({k: set(v) for k, v in got.items()}, {q['name']: set(q['renames']) for q in m.p if q['renames']}, 'known aliases')
    for isd, exp in (({}, True), (dict(derived=True), True), (dict(derived=False), False), (dict(derived=None), True)):
        rec.eq(bool(ParamNames(names=['a']).addDerived('z', **isd).isDerived), exp, 'derived flag of an added parameter', given=isd)
    for par in pl.names:
        par.comment = 'some words'
        rec.eq((par.string(), par.string(wantComments=False)), (str(par), str(par).split('\t#')[0]), 'text with and without the comment')
        rec.check(par.string().endswith('\t#some words') and 'some' not in par.string(False), 'comment in the text')
    # merging dictionaries: keys from the left-most
    a, b = {}, {}
    exp = {}
    for i in range(int(rng.integers(1, 5))):
        ka, kb = 'ka%d' % i, 'kb%d' % i
        link = 'l%d' % i
        c = rng.integers(0, 4)
        if c == 0:
            a[ka] = [link]
            b[kb] = [link]
            exp[ka] = {link, kb}
        elif c == 1:
            a[ka] = link
            exp[ka] = {link}
        elif c == 2:
            b[kb] = [link, 'm%d' % i]
            exp[kb] = {link, 'm%d' % i}
        else:
            a[ka] = [kb]
            b[kb] = ['m%d' % i]
            exp[ka] = {kb, 'm%d' % i}
    got = mergeRenames(a, b)
    rec.eq({k: set(v) for k, v in got.items()}, exp, 'merged aliases', first=a, second=b)
    # any number of dictionaries, names linked through several of them
    ds = []
    for i in range(int(rng.integers(1, 5))):
        ks = [str(v) for v in rng.choice(['k%d' % j for j in range(6)], int(rng.integers(1, 5)), replace=False)]
        ds.append({k: [str(v) for v in rng.choice(['v%d' % j for j in range(12)], int(rng.integers(1, 3)), replace=False)] for k in ks})
    comps = []
    for d in ds:
        for k, v in d.items():
            new = {k, *v}
            for c in [c for c in comps if c & new]:
                comps.remove(c)
                new |= c
            comps.append(new)
    before = copy.deepcopy(ds)
    for keep in (False, True):
        got = mergeRenames(*ds, keep_names_1st=keep)
        rec.eq(ds, before, 'dictionaries to merge not modified')
        rec.eq(sorted(sorted({k, *v}) for k, v in got.items()), sorted(sorted(c) for c in comps), 'groups of names after merging', dicts=ds, merged=got)
        for k, v in got.items():
            c = {k, *v}
            rec.check(k in [d for d in ds if set(d) & c][0], 'a merged group is under a name of the left-most dictionary', key=k, dicts=ds)
    got = mergeRenames({'p1': [], 'p2': ['x']}, {'x': 'y', 'other': 'z'}, keep_names_1st=True)
    rec.eq({k: set(v) for k, v in got.items()}, {'p1': set(), 'p2': {'x', 'y'}, 'other': {'z'}}, 'names of the first dictionary are kept')
    rec.sig('aliases', len(m.p), rnd)


def check_samples(rng, rec, s, m, ids, fixed):
    """every lookup on the samples reaches the column carrying that parameter's id (column mean within its band)."""
    lookups(rng, rec, s.getParamNames(), m)
    P = s.getParams()
    rec.eq(s.samples.shape[1], len(m.p), 'number of columns')
    for i, q in enumerate(m.p):
        nm = q['name']
        truth = q['col']
        rec.check(np.array_equal(s.samples[:, i], truth), 'column position', name=nm)
        rec.check(np.array_equal(s[nm], truth), 'column by name', name=nm)
        rec.check(np.array_equal(s[s.paramNames.names[i]], truth), 'column by parameter object', name=nm)
        ob = P
        for part in nm.split('.'):
            ob = getattr(ob, part)
        if not isinstance(ob, np.ndarray):
            ob = ob.value
        rec.check(np.array_equal(ob, truth), 'column from getParams', name=nm)
        rec.near(s.mean(nm), truth.mean(), 'mean by name', rtol=1e-9)
        rec.near(s.getMeans()[i], truth.mean(), 'mean by position', rtol=1e-9)
        rec.near(s.confidence(nm, 0.5), np.sort(truth)[(len(truth) - 1) // 2], 'median by name', rtol=1e-6, atol=1e-2)
        rec.eq((s.parName(i), s.parLabel(i), s.parLabel(nm)), (nm, q['label'], q['label']), 'name and label by position')
    rec.raises(Exception, lambda: s['nosuch'], 'unknown column refused')
    k = int(rng.integers(0, s.numrows))
    d = s.getParamSampleDict(k)
    for q in m.p:
        rec.eq(d[q['name']], q['col'][k], 'sample dictionary')
    for f, v in fixed.items():
        rec.near(d[f], v, 'fixed value in the sample dictionary', rtol=1e-9)
    dd = s.getParamSampleDict(k, want_derived=False, want_fixed=False)
    rec.eq(set(dd) - {'weight', 'loglike'}, {q['name'] for q in m.p if not q['derived']}, 'sample dictionary without derived and fixed')


def history(rng, rec):
    n = int(rng.integers(5, 40))
    m = build(rng, int(rng.integers(2, 7)), dots=rng.random() < 0.3)
    ids = 0
    for q in m.p:
        ids += 1
        q['col'] = 1000. * ids + rng.uniform(0, 1, n)
        q['fix'] = False
    for q in m.p[1:]:
        if rng.random() < 0.2:
            q['col'] = np.full(n, q['col'][0])
            q['fix'] = True
    X = np.array([q['col'] for q in m.p]).T
    s = gen.mc(X.copy(), np.ones(n), rng.exponential(size=n), names=[q['name'] + ('*' if q['derived'] else '') for q in m.p],
               labels=[q['label'] for q in m.p])
    fixed = {}
    # fixed parameters may be removed when the samples are made
    if len(s.paramNames.names) != len(m.p):
        for q in [q for q in m.p if q['fix']]:
            fixed[q['name']] = q['col'][0]
        m.p = [q for q in m.p if not q['fix']]
    ops = []
    free = ['al%d' % i for i in range(30)]
    rec.set(ops=ops, names=m.names())
    check_samples(rng, rec, s, m, ids, fixed)
    for _ in range(int(rng.integers(2, 8))):
        op = str(rng.choice(['add', 'addbad', 'delfix', 'rename', 'filter', 'copy', 'pickle', 'setnames', 'label', 'thin', 'stats', 'savetext', 'addexisting']))
        ops.append(op)
        if op == 'add':
            left = [v for v in POOL if v not in m.names() and v not in fixed and '.' not in v]
            nm = str(rng.choice(left))
            ids += 1
            nn = len(m.p[0]['col'])
            c = 1000. * ids + rng.uniform(0, 1, nn)
            f = rng.random() < 0.2
            if f:
                c = np.full(nn, c[0])
            lab = label(rng)
            par = s.addDerived(c, nm, label=lab, comment='c')
            m.p.append(dict(name=nm, label=lab or nm, derived=True, renames=[], col=c, fix=f))
            rec.eq(par.name, nm, 'returned parameter')
        elif op == 'addbad':
            before = s.samples.copy()
            rec.raises(ValueError, lambda: s.addDerived(np.zeros(s.numrows), str(rng.choice(['a b', 'x*']))), 'invalid name refused')
            rec.check(np.array_equal(before, s.samples), 'samples unchanged by refused name')
            rec.raises(ValueError, lambda: s.addDerived(np.zeros(s.numrows + 1), 'newone'), 'wrong length refused')
        elif op == 'addexisting':
            q = m.p[int(rng.integers(0, len(m.p)))]
            rec.raises(ValueError, lambda: s.addDerived(np.zeros(s.numrows), q['renames'][0] if q['renames'] and rng.random() < 0.5 else q['name']), 'existing name refused')
        elif op == 'delfix':
            s.deleteFixedParams()
            for q in m.p:
                if q['fix']:
                    fixed[q['name']] = q['col'][0]
            m.p = [q for q in m.p if not q['fix']]
        elif op == 'rename':
            up = {}
            for q in m.p:
                if rng.random() < 0.4:
                    a = free.pop()
                    up[q['name']] = [a]
                    q['renames'].append(a)
            s.updateRenames(up)
            rec.eq({k: set(v) for k, v in s.getRenames().items()}, {q['name']: set(q['renames']) for q in m.p if q['renames']}, 'aliases of the samples')
        elif op == 'filter':
            nn = len(m.p[0]['col'])
            if nn > 6:
                keep = rng.random(nn) < 0.8
                keep[:3] = True
                s.filter(keep)
                for q in m.p:
                    q['col'] = q['col'][keep]
                    q['fix'] = bool(np.all(q['col'] == q['col'][0]))
        elif op == 'copy':
            s = s.copy()
        elif op == 'pickle':
            s = pickle.loads(pickle.dumps(s))
        elif op == 'setnames':
            left = [v for v in POOL if v not in fixed and '.' not in v]
            new = pick(rng, len(m.p), left)
            s.setParamNames(new)
            for q, nm in zip(m.p, new):
                q.update(name=nm, label='', derived=False, renames=[])
        elif op == 'label':
            q = m.p[int(rng.integers(0, len(m.p)))]
            s.getParamNames().parWithName(q['name']).label = q['label'] = 'lab%d' % ids
        elif op == 'stats':
            s.getMeans()
            s.getCov()
        elif op == 'savetext':
            from getdist import loadMCSamples
            if all(not q['fix'] for q in m.p) and len(m.p[0]['col']) > 3 and all(q['label'] == q['label'].strip() and '!' not in q['label'] and
                                                                           '#' not in q['label'] for q in m.p):
                root = os.path.join(rec.tmp, 'r%d' % len(ops))
                s.saveAsText(root)
                s2 = loadMCSamples(root, settings={'ignore_rows': 0})
                rec.eq(s2.getParamNames().list(), m.names(), 'names after saving')
                rec.eq(s2.getParamNames().labels(), [q['label'] for q in m.p], 'labels after saving')
                rec.eq(s2.getParamNames().getDerivedNames(), [q['name'] for q in m.p if q['derived']], 'derived after saving')
                for q in m.p:
                    rec.near(s2[q['name']], q['col'], 'columns after saving', rtol=1e-6)
        rec.set(names=m.names())
        check_samples(rng, rec, s, m, ids, fixed)
    rec.sig('history', tuple(ops))


GROUPS = {'files': (files, 150, 3000), 'aliases': (aliases, 100, 2000), 'history': (history, 150, 3000)}
