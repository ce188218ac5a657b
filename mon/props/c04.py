import os

import numpy as np

from .. import gen

RULE = 'a case writes a directory of chain files with uniquely tagged rows plus look-alike files, and loads a root through ' \
       'each public loader; distinct = (layout, burn-in setting, decoys, options)'


def decoys(rng, d, root, sep):
    """Files with similar names which do not belong to the root."""
    pool = ['%s_post_BAO_1.txt', '%s2_1.txt', 'x%s_1.txt', '%s_1.txt.bak', '%s_a.txt', '%s_1x.txt', '%sx.txt', '%s_1.TXT.old',
            '%s__1.txt', '%s_1_2.txt', '%s_1.data', '%s_.txt', '%s.margestats', '%s-1.txt', '%s_1.txt~']
    if sep == '_':
        pool += ['%sX1.txt']
    else:
        pool += ['%s.updated.txt', '%s.1.2.txt']
    used = []
    for t in rng.choice(pool, int(rng.integers(0, 7)), replace=False):
        fn = str(t) % root
        with open(os.path.join(d, fn), 'w') as f:
            for i in range(6):
                f.write('1 2 %s %s %s\n' % (900000 + i, 3 + i, 5 - i * i))
        used.append(fn)
    return used


def file_text(rng, ids, w, ll, x, header):
    """Text of a chain file in one of several equivalent layouts."""
    fmt = str(rng.choice(['%.10e', '%16.9E', '%.12g', '%s']))
    sep = str(rng.choice([' ', '  ', '\t', '   ']))
    lead = str(rng.choice(['', ' ', '\t']))
    lines = []
    if header:
        lines.append('# weight  minuslogpost  a  b  c')
        if rng.random() < 0.3:
            lines.append('#')
    for i in range(len(w)):
        if header and rng.random() < 0.05:
            lines.append('# comment in the middle 1 2 3')
        row = [w[i], ll[i]] + list(x[i])
        lines.append(lead + sep.join((repr(float(v)) if fmt == '%s' else fmt % v) for v in row)
                     + ('  # trailing 9 9' if header and rng.random() < 0.03 else ''))
    return '\n'.join(lines) + ('\n' if rng.random() < 0.9 or not lines else '')


def tag(ids):
    ids = np.asarray(ids, float)
    return np.column_stack([ids, np.sin(ids) * 10, 1e3 + ids ** 2 * 1e-3])


def make_dir(rng, rec, sep='_', allow_empty=True):
    sub = str(rng.choice(['', 'sub', 'a b', 'x_1']))
    d = os.path.join(rec.tmp, 'ch', sub) if sub else os.path.join(rec.tmp, 'ch')
    os.makedirs(d, exist_ok=True)
    root = str(rng.choice(['test', 'base_mnu', 'r.1', 'a_2', 'ch+ain', 'run(1)', 'x']))
    nums = sorted(set(int(v) for v in rng.choice([1, 2, 3, 4, 7, 10, 11, 12, 100], int(rng.integers(1, 6)), replace=False)))
    if rng.random() < 0.3:
        nums = list(range(1, len(nums) + 1))
    single = rng.random() < 0.2
    use = [None] if single else nums
    header = rng.random() < 0.4
    data = {}
    start = 0
    for k in use:
        n = int(rng.integers(8, 50))
        ids = start + np.arange(n)
        start += n
        w = rng.integers(1, 9, n).astype(float)
        ll = 5 + 0.25 * ids
        data[k] = (ids, w, ll, tag(ids))
        fn = root + '.txt' if k is None else '%s%s%d.txt' % (root, sep, k)
        with open(os.path.join(d, fn), 'w') as f:
            f.write(file_text(rng, ids, w, ll, data[k][3], header))
    empty = None
    if allow_empty and not single and rng.random() < 0.2:
        empty = max(use) + 1
        with open(os.path.join(d, '%s%s%d.txt' % (root, sep, empty)), 'w') as f:
            if header and rng.random() < 0.5:
                f.write('# weight  minuslogpost\n')
    dec = decoys(rng, d, root, sep)
    return d, root, data, header, empty, dec


def paramnames(d, root, n=3):
    names = ['a', 'b', 'c'][:n]
    with open(os.path.join(d, root + '.paramnames'), 'w') as f:
        for nme in names:
            f.write(nme + ('*' if nme == 'c' else '') + '\t' + nme + '_{lab}\n')


def check_loaded(rec, s, expect):
    """expect: {key: (ids, w, ll, x)} rows which should survive, one contiguous block per chain in any chain order."""
    chains = [s] if getattr(s, 'chain_offsets', None) is None else s.getSeparateChains()
    got = {tuple(c.samples[:, 0]): c for c in chains}
    exp = {tuple(v[0].astype(float)): v for v in expect.values()}
    rec.check(sorted(got) == sorted(exp), 'rows loaded', got=sorted((g[:1], len(g)) for g in got),
              expected=sorted((g[:1], len(g)) for g in exp))
    tot = sum(len(v[0]) for v in expect.values())
    rec.eq(s.samples.shape[0], tot, 'number of rows loaded')
    for key, (ids, w, ll, x) in exp.items():
        c = got[key]
        rec.near(c.samples, x, 'values loaded', rtol=1e-7, atol=1e-7)
        rec.near(c.weights, w, 'weights loaded', rtol=1e-7)
        rec.near(c.loglikes, ll, 'likelihoods loaded', rtol=1e-7)


def burn(rec, data, ig):
    """All acceptable survivor sets for a burn-in value (a fraction may round either way)."""
    res = {}
    for k, (ids, w, ll, x) in data.items():
        n = len(ids)
        if ig >= 1:
            q = int(ig)
        else:
            q = int(np.floor(n * ig + 0.5 - 1e-9))
            if abs(n * ig - np.floor(n * ig) - 0.5) < 1e-6:
                q = int(round(n * ig))
        if q < n:
            res[k] = (ids[q:], w[q:], ll[q:], x[q:])
    return res


def load(rng, rec):
    from getdist import loadMCSamples, MCSamples
    from getdist.chains import chainFiles
    sep = str(rng.choice(['_', '_', '.']))
    d, root, data, header, empty, dec = make_dir(rng, rec, sep)
    paramnames(d, root)
    igs = [0, 0.3, 0.5, 0.1, 1, 3, 5, float(rng.uniform(0, 0.7)), '4', '0.25', 2.0]
    ig = igs[int(rng.integers(len(igs)))]
    how = str(rng.choice(['settings', 'ini_file', 'ini_obj', 'kw', 'default', 'ini+settings']))
    props = str(rng.choice(['none', 'none', 'burn_removed', 'ignore_rows', 'burn_removed_false', 'label']))
    eff = float(ig)
    if how == 'default':
        eff = 0.3
    pfile = os.path.join(d, root + '.properties.ini')
    if props != 'none':
        with open(pfile, 'w') as f:
            if props == 'burn_removed':
                f.write('burn_removed = T\n')
                eff = 0
            elif props == 'burn_removed_false':
                f.write('burn_removed = F\n')
            elif props == 'ignore_rows':
                v = [0, 0.4, 2][int(rng.integers(3))]
                f.write('ignore_rows = %s\n' % v)
                eff = v
            f.write('label = lab el\n')
    rec.set(d=os.listdir(d), root=root, ig=ig, how=how, props=props, header=header, sep=sep, empty=empty)
    expect = burn(rec, data, eff)
    if not expect or sum(len(v[0]) for v in expect.values()) < 10:
        from ..core import Skip
        raise Skip()
    rel = rng.random() < 0.3
    full = os.path.join(d, root)
    if rel:
        os.chdir(rec.tmp)
        full = os.path.relpath(full, rec.tmp)
        if rng.random() < 0.5:
            os.chdir(d)
            full = root
    before = sorted(os.listdir(d))
    kw = {}
    if how == 'settings':
        kw['settings'] = {'ignore_rows': ig}
    elif how in ('ini_file', 'ini_obj', 'ini+settings'):
        fn = os.path.join(rec.tmp, 'analysis_%s.ini' % how[:5])
        with open(fn, 'w') as f:
            f.write('ignore_rows = %s\nnum_bins = 90\n' % (0.77 if how == 'ini+settings' else ig))
        from getdist import IniFile
        kw['ini'] = fn if how != 'ini_obj' else IniFile(fn)
        if how == 'ini+settings':
            kw['settings'] = {'ignore_rows': ig}
    via = str(rng.choice(['load', 'load_nocache', 'mc']))
    if how == 'kw' or via == 'mc':
        files = chainFiles(full, separator=sep)
        if how == 'kw':
            s = MCSamples(full, ignore_rows=float(ig))
        else:
            s = MCSamples(full, **kw)
        s.readChains(files)
    else:
        s = loadMCSamples(full, no_cache=via == 'load_nocache', **kw)
    check_loaded(rec, s, expect)
    rec.eq(s.paramNames.list(), ['a', 'b', 'c'], 'parameter names loaded')
    rec.eq([p.isDerived for p in s.paramNames.names], [False, False, True], 'derived flags loaded')
    rec.eq(sorted(os.listdir(d)), before, 'loading leaves the chain directory as it was')
    if props != 'none':
        rec.eq(s.getLabel(), 'lab el', 'label from properties')
    rec.sig(sep, how, props, via, header, len(data), bool(empty), tuple(sorted(dec))[:3], rel, str(ig)[:4])


def select(rng, rec):
    """chainFiles selection against an independent name model."""
    from getdist.chains import chainFiles
    sep = str(rng.choice(['_', '.']))
    d = os.path.join(rec.tmp, 'c')
    os.makedirs(d)
    root = str(rng.choice(['test', 'a_1', 'b.c', 'r+', '1', '[x]']))
    ext = str(rng.choice(['.txt', '.txt', '.data', '.chain.txt']))
    files = {}
    for k in [None] + list(range(0, 13)):
        if rng.random() < 0.5:
            files[k] = root + ext if k is None else root + sep + str(k) + ext
    if rng.random() < 0.3:
        files['lead'] = root + sep + '007' + ext
    for f in files.values():
        open(os.path.join(d, f), 'w').close()
    for f in [root + sep + 'a' + ext, root + sep + '1' + ext + 'x', 'z' + root + sep + '1' + ext, root + sep + '1', root + ext[:-1],
              root + sep + '-1' + ext, root + sep + '1' + sep + '2' + ext, root + 'q' + sep + '1' + ext, root + sep + ext,
              root + sep + '1.5' + ext, (root + sep + '1' + ext).replace(sep + '1', '1')]:
        if f not in files.values() and rng.random() < 0.5:
            open(os.path.join(d, f), 'w').close()
    kw = {}
    if rng.random() < 0.4:
        kw['chain_indices'] = [int(i) for i in rng.integers(0, 14, 4)]
    if rng.random() < 0.4:
        kw['first_chain'] = int(rng.integers(0, 8))
    if rng.random() < 0.4:
        kw['last_chain'] = int(rng.integers(0, 14))
    if rng.random() < 0.4:
        kw['chain_exclude'] = [int(i) for i in rng.integers(0, 14, 3)]
    if sep != '_' or rng.random() < 0.5:
        kw['separator'] = sep
    if ext != '.txt' or rng.random() < 0.5:
        kw['ext'] = ext
    exp = []
    for k, f in files.items():
        i = 0 if k is None else 7 if k == 'lead' else k
        if 'chain_indices' in kw and i not in kw['chain_indices']:
            continue
        if i < kw.get('first_chain', 0) or i in kw.get('chain_exclude', []):
            continue
        if 'last_chain' in kw and i > kw['last_chain']:
            continue
        exp.append(f)
    # any decoy that happens to be a proper chain name for this root is recognised by an independent matcher
    got = chainFiles(os.path.join(d, root), **kw)
    rec.set(root=root, sep=sep, ext=ext, kw=kw, files=sorted(os.listdir(d)))
    rec.eq(sorted(os.path.basename(g) for g in got), sorted(exp), 'files selected')
    rec.check(all(os.path.dirname(g) == d for g in got), 'full paths returned')
    if rng.random() < 0.3:
        os.chdir(d)
        rec.eq(sorted(os.path.basename(g) for g in chainFiles(root, **kw)), sorted(exp), 'files selected relative')
    rec.sig(root, sep, ext, tuple(sorted(kw)), len(exp))


def dir_root(rng, rec):
    """Roots which are directories (files 1.txt, 2.txt ... inside)."""
    from getdist.chains import chainFiles
    d = os.path.join(rec.tmp, 'dd')
    os.makedirs(d)
    exp = []
    for f in ['1.txt', '2.txt', '10.txt', 'a1.txt', '1a.txt', 'x_1.txt', '3.txt.bak', '1.2.txt', '_1.txt', 'updated.yaml']:
        if rng.random() < 0.6:
            open(os.path.join(d, f), 'w').close()
            if f in ('1.txt', '2.txt', '10.txt'):
                exp.append(f)
    sep = str(rng.choice(['_', '.']))
    got = chainFiles(d + '/', separator=sep)
    rec.set(files=os.listdir(d), sep=sep)
    rec.eq(sorted(os.path.basename(g) for g in got), sorted(exp), 'files selected in directory root')
    rec.sig(sep, tuple(sorted(exp)), len(os.listdir(d)))


def errors(rng, rec):
    """Absent chains, all-burnt chains and mismatched name files are reported."""
    from getdist import loadMCSamples, WeightedSamples
    d, root, data, header, empty, dec = make_dir(rng, rec, '_', allow_empty=False)
    full = os.path.join(d, root)
    k = int(rng.integers(4))
    rec.set(k=k, root=root, files=os.listdir(d))
    if k == 0:
        paramnames(d, root, 2)
        rec.raises(Exception, lambda: loadMCSamples(full, settings={'ignore_rows': 0}), 'mismatched parameter names reported')
    elif k == 1:
        rec.raises(Exception, lambda: loadMCSamples(os.path.join(d, 'absent')), 'absent chains reported')
    elif k == 2:
        paramnames(d, root)
        rec.raises(Exception, lambda: loadMCSamples(full, settings={'ignore_rows': 60}), 'nothing left after burn-in reported')
    else:
        key = list(data)[0]
        fn = os.path.join(d, root + '.txt' if key is None else '%s_%d.txt' % (root, key))
        ids, w, ll, x = data[key]
        ig = [0, 1, 4, 0.3, 0.5][int(rng.integers(5))]
        s = WeightedSamples(fn, ignore_rows=ig)
        check_loaded(rec, s, burn(rec, {0: data[key]}, ig))
        s = WeightedSamples(fn, files_are_chains=False)
        rec.near(s.samples, np.column_stack([w, ll, x]), 'plain table loaded', rtol=1e-7, atol=1e-7)
        rec.check(s.loglikes is None and np.all(s.weights == 1), 'plain table has unit weights')
        s = WeightedSamples(samples=x, weights=w, loglikes=ll, ignore_rows=ig)
        check_loaded(rec, s, burn(rec, {0: data[key]}, ig))
        s = WeightedSamples(samples=[x[:, j] for j in range(3)], weights=w, loglikes=ll, ignore_rows=ig)
        check_loaded(rec, s, burn(rec, {0: data[key]}, ig))
    rec.sig(k, header, len(data))


def arrays(rng, rec):
    """Sample arrays given in memory lose exactly the requested burn-in of each chain."""
    from getdist import MCSamples
    k = int(rng.integers(1, 4))
    data, start = {}, 0
    for c in range(k):
        n = int(rng.integers(12, 40))
        ids = start + np.arange(n)
        start += n
        data[c] = (ids, rng.integers(1, 5, n).astype(float), 2 + 0.5 * ids, tag(ids))
    igs = [0, 0.3, 0.5, 1, 4, float(rng.uniform(0, 0.6))]
    ig = igs[int(rng.integers(len(igs)))]
    how = str(rng.choice(['settings', 'kw', 'default']))
    kw = {}
    eff = ig
    if how == 'settings':
        kw['settings'] = {'ignore_rows': ig}
    elif how == 'kw':
        kw['ignore_rows'] = ig
    else:
        eff = 0.3
    one = k == 1 and rng.random() < 0.6
    pick = lambda j: data[0][j] if one else [data[c][j] for c in data]
    arr = pick(3)
    if one and rng.random() < 0.4:
        arr = [arr[:, j] for j in range(3)]  # list of parameter vectors
    rec.set(k=k, ig=ig, how=how, one=one, kind=str(type(arr)))
    s = MCSamples(samples=arr, weights=pick(1), loglikes=pick(2), names=['a', 'b', 'c'], **kw)
    check_loaded(rec, s, burn(rec, data, eff))
    rec.sig(k, how, str(ig)[:4], one, isinstance(arr, list))


GROUPS = {'load': (load, 500, 8000), 'select': (select, 500, 8000), 'dir_root': (dir_root, 40, 300),
          'errors': (errors, 150, 2000), 'arrays': (arrays, 200, 3000)}
