import os
import pickle
import resource
import shutil
import signal

import numpy as np

from .. import gen

RULE = 'a case is a history of loads (with various settings), edits of chain/metadata files, and damage to or interruption of the ' \
       'cache write; each load is compared with an uncached twin; distinct = (operation sequence, setting variant)'


def chain_text(x, w, ll):
    return ''.join(' '.join('%.8e' % v for v in [w[i], ll[i]] + list(x[i])) + '\n' for i in range(len(w)))


class Tree:
    def __init__(self, rng, rec):
        self.rng = rng
        self.dir = os.path.join(rec.tmp, 'chains')
        os.makedirs(self.dir, exist_ok=True)
        self.name = str(rng.choice(['test', 'base', 'r.x', 'a_b']))
        self.root = os.path.join(self.dir, self.name)
        self.yaml = False
        self.p = int(rng.integers(2, 4))
        self.nchain = int(rng.integers(1, 4))
        self.fixcol = bool(rng.random() < 0.3)
        for i in range(self.nchain):
            self.write(i + 1)
        self.names = ['x', 'y', 'z'][:self.p]
        self.paramnames('lab0')
        self.clock = 1.6e9
        self.settle()

    def rows(self, n=None):
        rng = self.rng
        n = n or int(rng.integers(25, 60))
        x = rng.normal(size=(n, self.p)) * 0.5 + 2
        if self.fixcol:
            x[:, -1] = 3.5
        return x, rng.integers(1, 5, n).astype(float), rng.exponential(2, n) + 10

    def fn(self, i):
        return '%s_%d.txt' % (self.root, i)

    def write(self, i, n=None):
        with open(self.fn(i), 'w') as f:
            f.write(chain_text(*self.rows(n)))

    def paramnames(self, lab):
        with open(self.root + '.paramnames', 'w') as f:
            for j, nm in enumerate(self.names):
                f.write('%s\t%s_%d\n' % (nm, lab, j))

    def settle(self):
        """Give all files distinct, past modification times, as if they were written long before."""
        for f in sorted(os.listdir(self.dir)):
            self.clock += 10
            os.utime(os.path.join(self.dir, f), (self.clock, self.clock))

    def older(self, fn):
        self.oldclock = getattr(self, 'oldclock', 1.2e9) + 7
        os.utime(fn, (self.oldclock, self.oldclock))

    def bump(self, fn):
        self.clock += 1000
        os.utime(fn, (self.clock, self.clock))


def settings_variants(rng):
    return [None, {'ignore_rows': 0}, {'ignore_rows': 0.2}, {'ignore_rows': 5}, {'limits[x]': '-10 11'}, {'limits[x]': '-20 12'},
            {'marker[x]': '1.5'}, {'contours': [0.5, 0.8, 0.9]}, {'contours': [0.68, 0.95]}, {'force_twotail': True},
            {'smooth_scale_1D': 0.3}, {'fine_bins': 512}, {'min_weight_ratio': 0.3}, {'ignore_rows': 0, 'limits[y]': '0 N'},
            {'max_frac_twotail1': 0.01}, {'credible_interval_threshold': 0.3}, {'max_scatter_points': 11},
            {'no_warning_params': 'a b'}, {'ignore_rows': 0, 'min_weight_ratio': 1e-30}][int(rng.integers(19))]


def snapshot(s):
    ch = s.getSeparateChains()
    key = sorted(tuple(map(tuple, np.column_stack([c.weights, c.loglikes, c.samples]))) for c in ch)
    d = dict(chains=key, names=s.paramNames.list(), labels=s.paramNames.labels(), der=[q.isDerived for q in s.paramNames.names],
             ranges=str(s.ranges), lims=sorted((n, s.ranges.getLower(n), s.ranges.getUpper(n)) for n in s.ranges.names),
             fixed=s.ranges.fixedValueDict(), label=s.label, sampler=s.sampler, markers=dict(s.markers),
             contours=list(map(float, s.contours)), twotail=list(map(float, s.max_frac_twotail)),
             burn=(s.ignore_rows, s.ignore_frac, s.ignore_lines), name=s.getName(), rootname=s.rootname,
             scatter=s.max_scatter_points, fine=s.fine_bins, smooth=s.smooth_scale_1D, ft=s.force_twotail,
             cit=s.credible_interval_threshold, mwr=s.min_weight_ratio, nwp=list(s.no_warning_params),
             ctl=s.converge_test_limit)
    return d


def numbers(s):
    m = s.getMargeStats()
    out = []
    for q in m.names:
        out += [q.mean, q.err] + [v for lim in q.limits for v in (lim.lower, lim.upper, len(lim.limitTag()))]
    L = s.getLikeStats()
    out += [L.logLike_sample, float(L.complexity or 0)]
    out += [v for q in L.names for v in list(q.ND_limit_bot) + list(q.ND_limit_top) + [q.bestfit_sample]]
    out += list(s.getMeans())
    out += list(s.get1DDensity('x').P[::16])
    return np.array(out, float)


def twin_dirs(rec):
    import getdist
    getdist.cache_dir = os.path.join(rec.tmp, 'cache')
    return getdist


def load(rec, root, st, **kw):
    import getdist
    from getdist import loadMCSamples
    getdist.cache_dir = os.path.join(rec.tmp, 'cache')
    try:
        return loadMCSamples(root, settings=dict(st) if st else None, **kw), None
    except Exception as e:
        return None, e


def reference(rec, root, st):
    import getdist
    from getdist import loadMCSamples
    getdist.cache_dir = os.path.join(rec.tmp, 'nocache')
    try:
        return loadMCSamples(root, settings=dict(st) if st else None, no_cache=True), None
    except Exception as e:
        return None, e


def compare(rec, root, st, ops, deep=False, root_ref=None):
    ref, e0 = reference(rec, root_ref or root, st)
    got, e1 = load(rec, root, st)
    rec.check((e0 is None) == (e1 is None) and type(e0) == type(e1), 'cached load succeeds iff uncached load does', e0=repr(e0),
              e1=repr(e1), ops=ops)
    if ref is None:
        rec.ev('load refused by both')
        return None
    a, b = snapshot(got), snapshot(ref)
    for k in b:
        rec.check(a[k] == b[k], 'cached load same as uncached: ' + k, name='cached load state same as uncached', cached=a[k],
                  uncached=b[k], ops=ops, settings=st)
    if deep:
        na, nb = numbers(got), numbers(ref)
        rec.near(na, nb, 'cached statistics same as uncached', rtol=1e-6, atol=1e-9, ops=ops, settings=st)
    return got


def cachefiles(rec):
    d = os.path.join(rec.tmp, 'cache')
    return [os.path.join(d, f) for f in sorted(os.listdir(d))] if os.path.isdir(d) else []


def edit(rng, rec, t, op):
    """One change to the files. Returns a description."""
    i = int(rng.integers(1, t.nchain + 1))
    fn = t.fn(i)
    if op == 'append':
        with open(fn, 'a') as f:
            f.write(chain_text(*t.rows(int(rng.integers(1, 20)))))
        t.bump(fn)
    elif op == 'rewrite':
        t.write(i)
        t.bump(fn)
    elif op == 'rewrite_now':
        t.write(i)
    elif op == 'replace_older':
        t.write(i)
        t.older(fn)
    elif op == 'same_size':
        n = sum(1 for _ in open(fn)) if os.path.exists(fn) else 30
        t.write(i, n)
        t.bump(fn)
    elif op == 'add':
        t.nchain += 1
        t.write(t.nchain)
        if rng.random() < 0.5:
            t.bump(t.fn(t.nchain))
        else:
            t.older(t.fn(t.nchain))
    elif op == 'delete':
        if os.path.exists(fn) and t.nchain > 1:
            os.remove(fn)
    elif op == 'labels':
        t.paramnames('L%d' % int(rng.integers(1000)))
        t.bump(t.root + '.paramnames')
    elif op == 'labels_older':
        t.paramnames('L%d' % int(rng.integers(1000)))
        t.older(t.root + '.paramnames')
    elif op == 'ranges':
        with open(t.root + '.ranges', 'w') as f:
            f.write('x %s %s\n' % (rng.choice(['N', '-5', '-7.5']), rng.choice(['N', '15'])))
        t.bump(t.root + '.ranges')
    elif op == 'del_ranges':
        if os.path.exists(t.root + '.ranges'):
            os.remove(t.root + '.ranges')
    elif op == 'props':
        with open(t.root + '.properties.ini', 'w') as f:
            f.write('label = lab%d\n' % int(rng.integers(100)))
            k = rng.integers(0, 4)
            if k == 1:
                f.write('burn_removed = T\n')
            elif k == 2:
                f.write('ignore_rows = %s\n' % rng.choice(['0.1', '4', '0']))
            elif k == 3:
                f.write('sampler = uncorrelated\n')
        t.bump(t.root + '.properties.ini')
    elif op == 'del_props':
        if os.path.exists(t.root + '.properties.ini'):
            os.remove(t.root + '.properties.ini')


EDITS = ['append', 'rewrite', 'rewrite_now', 'replace_older', 'same_size', 'add', 'delete', 'labels', 'labels_older', 'ranges',
         'del_ranges', 'props', 'del_props']


def history(rng, rec):
    t = Tree(rng, rec)
    ops = []
    variants = [settings_variants(rng) for _ in range(2)] + [None]
    for step in range(int(rng.integers(3, 7))):
        op = str(rng.choice(['load', 'load', 'edit', 'edit', 'mutate', 'nocache', 'relative', 'other']))
        st = variants[int(rng.integers(len(variants)))]
        if op == 'edit':
            op = str(rng.choice(EDITS))
            edit(rng, rec, t, op)
        elif op == 'mutate':
            s, e = load(rec, t.root, st)
            if s is not None:
                s.filter(np.arange(s.numrows) % 2 == 0)
                s.paramNames.names[0].label = 'changed'
                s.setRanges({'x': [-30, 30]})
                s.updateSettings({'contours': [0.1, 0.2], 'limits[x]': '-40 40'})
        elif op == 'nocache':
            load(rec, t.root, st, no_cache=True)
        elif op == 'other':
            # another chain of the same name elsewhere
            d2 = os.path.join(rec.tmp, 'other')
            os.makedirs(d2, exist_ok=True)
            for f in os.listdir(t.dir):
                if not os.path.exists(os.path.join(d2, f)):
                    shutil.copy2(os.path.join(t.dir, f), os.path.join(d2, f))
            t2 = Tree.__new__(Tree)
            t2.__dict__.update(t.__dict__, dir=d2, root=os.path.join(d2, t.name))
            edit(rng, rec, t2, 'append')
            compare(rec, t2.root, st, ops + ['other'])
        elif op == 'relative':
            os.chdir(t.dir)
            compare(rec, t.name, st, ops + ['relative'])
            os.chdir('/')
        ops.append((op, repr(st)))
        if op != 'nocache':
            st2 = variants[int(rng.integers(len(variants)))]
            ops.append(('check', repr(st2)))
            compare(rec, t.root, st2, ops, deep=rng.random() < 0.15)
    rec.sig(*[o[0] for o in ops])


def settings_pair(rng, rec):
    """Loading with one setting and then with another gives what the second asks for."""
    t = Tree(rng, rec)
    a, b = settings_variants(rng), settings_variants(rng)
    compare(rec, t.root, a, ['first'])
    compare(rec, t.root, b, ['second'], deep=True)
    compare(rec, t.root, a, ['third'], deep=rng.random() < 0.3)
    rec.sig(repr(a), repr(b))


def damage(rng, rec):
    """A truncated, garbage, foreign or outdated cache file never changes what is loaded."""
    t = Tree(rng, rec)
    st = settings_variants(rng)
    if compare(rec, t.root, st, ['initial']) is None:
        return
    files = cachefiles(rec)
    rec.check(len(files) <= 1, 'at most one cache file per root', files=files)
    if not files:
        rec.ev('no cache written')
        return
    fn = files[0]
    good = open(fn, 'rb').read()
    rec.check(compare(rec, t.root, st, ['hit']) is not None, 'load with intact cache')
    kinds = ['trunc', 'trunc', 'trunc', 'empty', 'garbage', 'foreign', 'dict', 'text', 'version', 'other_root', 'dir', 'tail']
    for kind in rng.permutation(kinds)[:5]:
        if os.path.isdir(fn):
            shutil.rmtree(fn)
        if kind == 'trunc':
            data = good[:int(rng.integers(0, len(good)))]
        elif kind == 'tail':
            data = good[:len(good) - int(rng.integers(1, 4))]
        elif kind == 'empty':
            data = b''
        elif kind == 'garbage':
            data = bytes(rng.integers(0, 256, 200, dtype=np.uint8))
            if data[:1] in b'\x80c(':
                data = b'\xff' + data
        elif kind == 'foreign':
            data = pickle.dumps(gen.mc(rng.normal(size=(30, 2)), names=['u', 'v']))
        elif kind == 'dict':
            data = pickle.dumps({'version': 22, 'samples': 3})
        elif kind == 'text':
            data = b'not a pickle\n' * 4
        elif kind in ('version', 'other_root'):
            try:
                ob = pickle.loads(good)
                if kind == 'version':
                    ob.version = -1
                    ob.samples = ob.samples + 100
                else:
                    d2 = os.path.join(rec.tmp, 'else')
                    os.makedirs(d2, exist_ok=True)
                    t2 = Tree.__new__(Tree)
                    t2.__dict__.update(t.__dict__, dir=d2, root=os.path.join(d2, t.name))
                    for i in range(t.nchain):
                        t2.write(i + 1, 33)
                    t2.paramnames('q')
                    keep = set(cachefiles(rec))
                    load(rec, t2.root, st)
                    new = [f for f in cachefiles(rec) if f not in keep]
                    rec.check(len(new) == 1, 'different directories use different cache files', new=new)
                    ob = None
            except AttributeError:
                continue
            data = pickle.dumps(ob) if ob is not None else good
            if kind == 'other_root':
                continue
        if kind == 'dir':
            if os.path.exists(fn):
                os.remove(fn)
            os.makedirs(fn)
        else:
            with open(fn, 'wb') as f:
                f.write(data)
        rec.set(kind=kind, size=len(good))
        compare(rec, t.root, st, ['damage ' + str(kind)])
        compare(rec, t.root, st, ['after damage ' + str(kind)], deep=rng.random() < 0.2)
        rec.sig(str(kind), repr(st))


def interrupted(rng, rec):
    """The process dies, or the disk fills up, after each of several numbers of bytes of the cache write."""
    t = Tree(rng, rec)
    st = settings_variants(rng)
    if compare(rec, t.root, st, ['initial']) is None:
        return
    files = cachefiles(rec)
    if not files:
        rec.ev('no cache written')
        return
    size = os.path.getsize(files[0])
    for cut in [0, 1] + sorted(int(c) for c in rng.integers(2, size, 4)) + [size - 1]:
        kill = bool(rng.integers(2))
        keep_old = bool(rng.integers(2))
        if not keep_old:
            for f in cachefiles(rec):
                os.remove(f)
        edit(rng, rec, t, 'append')
        pid = os.fork()
        if not pid:
            try:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (cut, cut))
                s, e = load(rec, t.root, st)
                os._exit(3 if s is not None else 4)
            finally:
                os._exit(5)
        _, status = os.waitpid(pid, 0)
        died = os.WIFSIGNALED(status)
        rec.ev('crash points injected' if died else 'write failures injected')
        if not kill:
            rec.check(not died and os.WEXITSTATUS(status) == 3, 'samples still loaded when the cache cannot be written',
                      status=status, cut=cut)
        compare(rec, t.root, st, ['interrupted at %d of %d kill=%s' % (cut, size, kill)])
        compare(rec, t.root, st, ['again after interruption'])
        rec.sig(kill, keep_old, cut * 20 // size)


FAULTS = True
GROUPS = {
    'history': (history, 120, 3000),
    'settings_pair': (settings_pair, 120, 2000),
    'damage': (damage, 80, 1500),
    'interrupted': (interrupted, 60, 800),
}
