import contextlib
import io
import os
import re

import numpy as np

from .. import core, gen

RULE = 'a case is a history of lookups, additions, rewrites, removals and resets over generated directory trees of chains whose names share prefixes, suffixes ' \
       'and orderings of tags; every chain holds values identifying it, so each lookup is compared with the chain that the tree says should be found; ' \
       'distinct = (tree layout, operations, outcome of each lookup)'
ASSUMPTIONS = ['directory trees used as a grid (no chains at their top level) are read when they are given, as documented, so are not changed afterwards',
               'when several chains under one searched directory have the same name any of them may be found']

STEMS = ['base', 'base_x', 'base_x_y', 'base_y_x', 'base_xy', 'abase', 'base_1x', 'base.x', 'x', 'xx', 'x_1y', 'base_x_post_y', 'run', 'run2', 'Run', 'a+b', 'a(b)', 'run__z', 'base__x']
DIRS = ['a', 'b', 'c', 'plik', 'base', '_x']


class Tree:
    """what is on disk: file root -> identifying value"""
    counter = 0

    def __init__(self, top):
        self.top = top
        self.chains = {}

    def write(self, rng, d, name, layout=None):
        Tree.counter += 1
        ident = float(Tree.counter)
        d = os.path.join(self.top, d)
        os.makedirs(d, exist_ok=True)
        root = os.path.join(d, name)
        for f in os.listdir(d):
            if f in [name + '.txt', name + '.paramnames', name + '.updated.yaml'] + [name + s + '%d.txt' % i for s in '_.' for i in range(1, 8)]:
                os.remove(os.path.join(d, f))
        layout = layout or str(rng.choice(['_', '_', '.', 'single', 'start2', 'cobaya']))
        if layout == 'single' and re.search(r'[_.]\d+$', name):
            layout = '_'  # x_1.txt is the first chain of x
        nums = [None] if layout == 'single' else [2, 3] if layout == 'start2' else list(range(1, int(rng.integers(2, 4))))
        x = ident + rng.uniform(-0.1, 0.1, (40, 2))
        if layout == 'cobaya':
            x = np.column_stack([x, np.ones((40, 4))])
        for n in nums:
            fn = root + '.txt' if n is None else root + ('.' if layout in ('.', 'cobaya') else '_') + '%d.txt' % n
            gen.write_chain(fn, np.ones(40), np.ones(40), x,
                            **({'header': '# weight minuslogpost p q minuslogprior minuslogprior__0 chi2 chi2__one'} if layout == 'cobaya' else {}))
        if layout == 'cobaya':
            with open(root + '.updated.yaml', 'w') as f:
                f.write('params:\n  p: {prior: [-1000000, 1000000]}\n  q: {prior: [-1000000, 1000000]}\nlikelihood: {one: null}\n')
        else:
            with open(root + '.paramnames', 'w') as f:
                f.write('p\tp\nq\tq\n')
        self.chains[os.path.normpath(root)] = ident
        return root

    def ident(self, s):
        return float(np.round(np.mean(s['p'])))

    def under(self, loc, name):
        """identities of the chains called name under the directory"""
        loc = os.path.normpath(loc)
        out = []
        for r, i in self.chains.items():
            if (r == loc or r.startswith(loc + os.sep)) and (r[len(loc):].endswith(os.sep + os.path.normpath(name))):
                out.append(i)
        return out

    def exact(self, loc, name):
        return self.chains.get(os.path.normpath(os.path.join(loc, name)))


def clash(names):
    """chain numbering makes some names ambiguous on disk: x_1 as a root is file x_1.txt, which is also the first chain of x"""
    out = []
    for n in names:
        if not any(n != m and (n.startswith(m + '_') or n.startswith(m + '.')) and n[len(m) + 1:].isdigit() for m in names):
            out.append(n)
    return out


def build(rng, t, loc, deep):
    names = clash([str(v) for v in rng.choice(STEMS, int(rng.integers(2, 7)), replace=False)])
    for n in names:
        for _ in range(1 if rng.random() < 0.75 else int(rng.integers(2, 4))):
            depth = int(rng.integers(1 if deep else 0, 5 if deep else 2))
            d = os.path.join(loc, *[str(v) for v in rng.choice(DIRS, depth)]) if depth else loc
            t.write(rng, d, n, layout=str(rng.choice(['_', '.', 'cobaya'])) if depth and not deep else None)
    # decoys that are not chains
    p = os.path.join(t.top, loc)
    for d in ['nochain.paramnames', 'other_1.txt.bak', 'base_zz_1.minimum', 'q.py_mcsamples_x']:
        with open(os.path.join(p, d), 'w') as f:
            f.write('p p\nq q\n')
    return names


def norm(n):
    return '_'.join(sorted(n.replace('__', '_').replace('_post', '').split('_')))


def grid_lookup(t, loc, name):
    """identities that may be returned by a directory tree used as a grid, and whether asking is ambiguous"""
    roots = {}
    for r, i in t.chains.items():
        if r.startswith(os.path.normpath(loc) + os.sep):
            roots.setdefault(os.path.basename(r), []).append((r, i))
    b = os.path.basename(name)
    found = t.under(loc, name)
    if os.sep in name:
        # names have as many leading directories as needed to be unique
        group = [r.split(os.sep) for r, _ in roots.get(b, [])]
        k = 2
        while len(set(tuple(g[-k:]) for g in group)) < len(group):
            k += 1
        short = len(found) == 1 and len(group) > 1 and len(name.split(os.sep)) == k
        return found, not short and bool(found)
    if len(found) == 1:
        return found, False
    if len(found) > 1:
        return found, True
    eq = [i for n, v in roots.items() if norm(n) == norm(b) for _, i in v]
    return eq, len(eq) > 1


def history(rng, rec):
    from getdist.plots import MCSampleAnalysis, GetDistPlotError, RootInfo
    top = rec.tmp
    t = Tree(top)
    locs, kinds = [], []
    nloc = int(rng.integers(1, 4))
    for i in range(nloc):
        loc = 'loc%d' % i
        deep = bool(rng.random() < 0.4)
        os.makedirs(os.path.join(top, loc))
        build(rng, t, loc, deep)
        if not deep and not any(os.path.dirname(r) == os.path.join(top, loc) for r in t.chains):
            t.write(rng, loc, 'extra')
        locs.append(os.path.join(top, loc))
        kinds.append('tree' if deep else 'dir')
    relative = bool(rng.random() < 0.3)
    rec.set(locations=kinds, tree=sorted(os.path.relpath(r, top) for r in t.chains), relative=relative)
    old = os.getcwd()
    os.chdir(top)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            _history(rng, rec, t, locs, kinds, relative, MCSampleAnalysis, GetDistPlotError, RootInfo)
    finally:
        os.chdir(old)


def _history(rng, rec, t, locs, kinds, relative, MCSampleAnalysis, GetDistPlotError, RootInfo):
    top = t.top
    given = [os.path.relpath(l, top) if relative else l + ('/' if rng.random() < 0.2 else '') for l in locs]
    st = {'ignore_rows': 0}
    nstart = int(rng.integers(1, len(locs) + 1))
    an = MCSampleAnalysis(given[0] if nstart == 1 and rng.random() < 0.5 else given[:nstart], settings=st)
    active = list(range(nstart))
    loaded = {}
    hist, outcomes = [], []
    for step in range(int(rng.integers(6, 18))):
        op = str(rng.choice(['look'] * 8 + ['rewrite', 'new', 'remove', 'reset', 'adddir', 'reload', 'addroot', 'density']))
        hist.append(op)
        rec.set(history=hist)
        allnames = sorted(set(os.path.basename(r) for r in t.chains))
        if op in ('look', 'reload', 'density'):
            k = rng.random()
            if k < 0.5:
                name = str(rng.choice(allnames))
            elif k < 0.7:
                name = str(rng.choice(STEMS + ['nochain', 'bas', 'base_', 'xy', 'other', 'base_zz', 'extr', 'BASE']))
            else:
                r = str(rng.choice(sorted(t.chains)))
                parts = os.path.relpath(r, top).split(os.sep)
                name = '/'.join(parts[-int(rng.integers(1, len(parts))):] if len(parts) > 1 else parts)
            hist[-1] = op + ' ' + name
            want, ambiguous, where, maybe = None, False, None, []
            for i in active:
                if kinds[i] == 'dir':
                    e = t.exact(locs[i], name)
                    w = [e] if e is not None else t.under(locs[i], name)
                    amb = False
                else:
                    w, amb = grid_lookup(t, locs[i], name)
                    if os.sep in name and amb:
                        # longer paths than needed to be unique may be known or not
                        maybe += w
                        continue
                if w or amb:
                    want, ambiguous, where = w, amb, i
                    break
            if maybe and not want:
                want, ambiguous = maybe, True
            elif maybe:
                want = want + maybe
            if op != 'reload' and name in loaded:
                want, ambiguous = [loaded[name]], False
            try:
                s = an.samples_for_root(name, cache=op != 'reload')
                got = t.ident(s)
            except (GetDistPlotError, ValueError, IOError) as e:
                s, got = None, None
            if want and not ambiguous:
                rec.check(got in want, 'the chain with that name is found', name=name, got=got, want=want, where=where, kind=None if where is None else kinds[where],
                          chain=[os.path.relpath(r, top) for r, i in t.chains.items() if i in want])
                outcomes.append('found')
            elif want:
                rec.check(got is None or got in want, 'an ambiguous name is not another chain', name=name, got=got)
                outcomes.append('ambiguous')
            else:
                rec.check(got is None, 'a name that does not exist is reported as absent', name=name, got=got, chain=[os.path.relpath(r, top) for r, i in t.chains.items() if i == got])
                outcomes.append('absent')
            if got is not None:
                loaded[name] = got
                rec.check(an.samples_for_root(name) is s, 'found again')
                if op == 'density' or rng.random() < 0.3:
                    d = an.get_density(name, 'p')
                    rec.check(abs(0.5 * (d.x[0] + d.x[-1]) - got) < 0.4, 'density of the chain asked for', name=name, x=[d.x[0], d.x[-1]], want=got)
        elif op == 'rewrite' and 'dir' in [kinds[i] for i in active]:
            # a chain changes on disk: the next load sees it, what is loaded stays until asked again
            c = [r for r in t.chains if kinds[[i for i, l in enumerate(locs) if r.startswith(l + os.sep)][0]] == 'dir']
            r = str(rng.choice(c))
            t.write(rng, os.path.relpath(os.path.dirname(r), top), os.path.basename(r))
            bump(r)
            if rng.random() < 0.6:
                for n in [n for n in loaded if os.path.basename(n) == os.path.basename(r)]:
                    an.remove_root(n)
                    loaded.pop(n)
            hist[-1] = 'rewrite ' + os.path.relpath(r, top)
        elif op == 'new':
            i = [i for i in range(len(locs)) if kinds[i] == 'dir']
            if not i:
                continue
            loc = os.path.relpath(locs[int(rng.choice(i))], top)
            n = clash(sorted(set([str(rng.choice(STEMS))]) | set(os.path.basename(r) for r in t.chains)))
            here = set(os.path.basename(r) for r in t.chains)
            n = [m for m in n if m not in here and not any(h.startswith(m + '_') and h[len(m) + 1:].isdigit() or h.startswith(m + '.') and h[len(m) + 1:].isdigit() for h in here)]
            if n:
                t.write(rng, loc, n[0])
                hist[-1] = 'new %s/%s' % (loc, n[0])
        elif op == 'remove' and loaded:
            n = str(rng.choice(sorted(loaded)))
            an.remove_root(n)
            loaded.pop(n)
        elif op == 'reset':
            an.reset(settings=st)
            loaded.clear()
        elif op == 'adddir' and len(active) < len(locs):
            i = len(active)
            an.add_chain_dir(given[i])
            an.add_chain_dir(given[int(rng.integers(0, i + 1))])
            active.append(i)
        elif op == 'addroot':
            r = str(rng.choice(sorted(t.chains)))
            if rng.random() < 0.5:
                s = an.add_root(r)
            else:
                s = an.add_root(RootInfo(os.path.basename(r), os.path.dirname(r)))
            rec.eq(t.ident(s), t.chains[r] if loaded.get(os.path.basename(r)) is None or True else None, 'chain added by its path', root=os.path.relpath(r, top)) \
                if not stale(t, loaded, r) else None
            loaded[os.path.basename(r)] = t.ident(s)
            d = an.get_density(os.path.basename(r), 'p')
            rec.check(abs(0.5 * (d.x[0] + d.x[-1]) - t.ident(s)) < 0.4, 'density of the chain added')
            a = an.samples_for_root(r)
            rec.check(stale(t, loaded, r) or t.ident(a) == t.chains[r], 'chain by absolute path')
            loaded[r] = t.ident(a)
            hist[-1] = 'addroot ' + os.path.relpath(r, top)
    rec.sig(kinds, [h.split()[0] for h in hist], outcomes)


def stale(t, loaded, r):
    """already loaded from the same place before it changed on disk"""
    return any(i not in t.chains.values() for n, i in loaded.items() if os.path.basename(n) == os.path.basename(r))


def bump(root):
    """make sure the rewritten files are newer than any cached version"""
    import time
    d = os.path.dirname(root)
    now = time.time() + 5
    for f in os.listdir(d):
        if f.startswith(os.path.basename(root)) and f.endswith(('.txt', '.paramnames')):
            os.utime(os.path.join(d, f), (now, now))


def functions(rng, rec):
    """the lookup functions themselves, for names with special characters and shared prefixes"""
    from getdist import chains
    from getdist.chain_grid import get_chain_root_files, ChainDirGrid
    from getdist.mcsamples import loadMCSamples
    top = rec.tmp
    t = Tree(top)
    deep = bool(rng.random() < 0.6)
    os.makedirs(os.path.join(top, 'g'))
    build(rng, t, 'g', deep)
    g = os.path.join(top, 'g')
    old = os.getcwd()
    os.chdir(top)
    try:
        for loc in (g, 'g'):
            for r, i in t.chains.items():
                rec.check(chains.hasChainFiles(r), 'has chain files', root=r)
                files = []
                for sep in '_.':
                    files += chains.chainFiles(r, separator=sep)
                d = os.path.dirname(r)
                mine = [f for f in os.listdir(d) if f.endswith('.txt') and is_file_of(f, os.path.basename(r))]
                rec.eq(sorted(set(os.path.basename(f) for f in files)), sorted(mine), 'files of the chain', root=os.path.relpath(r, top))
                s = loadMCSamples(r, no_cache=True, settings={'ignore_rows': 0})
                rec.eq(t.ident(s), i, 'chain loaded by its root')
            names = sorted(set(os.path.basename(r) for r in t.chains)) + STEMS + ['bas', 'nochain', 'base_zz']
            for n in names:
                f = chains.findChainFileRoot(loc, n)
                want = [r for r in t.chains if os.path.basename(r) == n]
                if want:
                    rec.check(f is not None and os.path.abspath(f) in want, 'chain found by name', name=n, got=f)
                    e = os.path.join(g, n)
                    if e in t.chains and f is not None:
                        rec.eq(os.path.abspath(f), e, 'nearest chain first')
                else:
                    rec.check(f is None, 'no chain of that name', name=n, got=f)
                f = chains.findChainFileRoot(loc, n, search_subdirectories=False)
                rec.eq(None if f is None else os.path.abspath(f), os.path.join(g, n) if os.path.join(g, n) in t.chains else None, 'chain in the directory itself')
            dirs = set([g] + [os.path.dirname(r) for r in t.chains])
            for d in dirs:
                dd = os.path.relpath(d, top) if loc == 'g' else d
                got = get_chain_root_files(dd)
                rec.eq(sorted(os.path.abspath(x) for x in got), sorted(r for r in t.chains if os.path.dirname(r) == d), 'chains in a directory')
            # as a grid
            G = ChainDirGrid(loc)
            sub = {r: i for r, i in t.chains.items() if os.path.dirname(r) != g}
            rec.eq(sorted(os.path.abspath(v.chainRoot) for v in G.roots.values()), sorted(sub), 'each chain of the tree once')
            for n, item in G.roots.items():
                rec.eq(item.name, n, 'name of the grid item')
                rec.check(os.path.abspath(item.chainRoot).endswith(os.sep + n), 'name is part of the path', name=n, root=item.chainRoot)
                rec.check(G.resolve_root(n) is item and G.resolveRoot(n) is item, 'item found by its name')
                rec.eq(os.path.abspath(os.path.join(item.chainPath, item.name)), os.path.abspath(item.chainRoot), 'path of the item')
                if os.sep not in n:
                    rec.eq(len([r for r in sub if os.path.basename(r) == n]), 1, 'short names are unique')
                tag = os.path.relpath(item.chainRoot, loc).split(os.sep)[0]
                rec.eq(item.paramtag, tag, 'top directory of the item')
                rec.check(n in G.roots_for_dir(tag), 'listed for its directory')
            rec.eq(sorted(sum([G.roots_for_dir(d) for d in G.base_dir_names], [])), sorted(G.roots), 'directories list every chain')
            for n in STEMS + ['nochain']:
                w, amb = grid_lookup(t, g, n) if not any(os.path.dirname(r) == g for r in t.chains) else grid_lookup(sub_tree(t, sub), g, n)
                try:
                    it = G.resolve_root(n)
                    got = None if it is None else t.chains[os.path.normpath(os.path.abspath(it.chainRoot))]
                except ValueError:
                    got = 'ambiguous'
                rec.eq(got, 'ambiguous' if amb else (w[0] if w else None), 'resolved in the tree', name=n)
    finally:
        os.chdir(old)
    rec.sig(deep, sorted(os.path.relpath(r, top) for r in t.chains))


def sub_tree(t, sub):
    s = Tree(t.top)
    s.chains = sub
    return s


def is_file_of(f, name):
    b = f[:-4]
    if b == name:
        return True
    return b.startswith(name) and len(b) > len(name) + 1 and b[len(name)] in '_.' and b[len(name) + 1:].isdigit()


def settings(rng, rec):
    """analysis settings of a directory apply to its chains only; priority is as asked"""
    from getdist.plots import MCSampleAnalysis
    top = rec.tmp
    t = Tree(top)
    n = int(rng.integers(1, 4))
    val = {}
    for i in range(n):
        d = 'loc%d' % i
        deep = rng.random() < 0.4
        t.write(rng, os.path.join(d, 's') if deep else d, 'chain%d' % i, layout='_')
        if rng.random() < 0.6:
            val[i] = float(rng.choice([0.03, 0.2, 0.5]))
            with open(os.path.join(top, d, 'getdist.ini'), 'w') as f:
                f.write('smooth_scale_1D = %s\nignore_rows = %d\n' % (val[i], 5 * (i + 1)))
    glob = {'ignore_rows': 0, 'smooth_scale_1D': 0.35, 'num_bins': 57}
    prio = bool(rng.random() < 0.6)
    an = MCSampleAnalysis([os.path.join(top, 'loc%d' % i) for i in range(n)], settings=glob)
    an.reset(settings=glob, chain_settings_have_priority=prio)
    for i in rng.permutation(n):
        i = int(i)
        call = {'smooth_scale_1D': 0.41, 'fine_bins': 512} if rng.random() < 0.5 else None
        given = dict(call) if call else None
        s = an.samples_for_root('chain%d' % i, settings=call) if call or rng.random() < 0.5 else an.samples_for_root('chain%d' % i)
        rec.eq(call, given, 'settings given are not changed')
        use = i in val and prio
        nch = len([f for f in os.listdir(os.path.dirname(s.root)) if f.endswith('.txt')])
        rec.eq(s.num_bins, 57, 'settings of the analysis')
        rec.near(s.smooth_scale_1D, val[i] if use else 0.41 if call else 0.35, 'settings of the directory of the chain', call=call, priority=prio)
        rec.eq(s.fine_bins, 512 if call else 1024, 'settings given for the chain')
        rec.eq(s.numrows, nch * (40 - (5 * (i + 1) if use else 0)), 'rows used')
    rec.eq(glob, {'ignore_rows': 0, 'smooth_scale_1D': 0.35, 'num_bins': 57}, 'settings of the analysis are not changed')
    rec.sig(n, sorted(val), prio)


def grid_settings(rng, rec):
    """settings given by a grid for its runs"""
    from getdist.plots import MCSampleAnalysis
    from .c26 import make_grid, quiet
    from .. import gridgen
    d = gridgen.gen_def(rng)
    if not d['groups']:
        raise core.Skip
    opts = {'max_scatter_points': 3000, 'smooth_scale_1D': 0.11, 'num_bins': 61, 'fine_bins': 512, 'ignore_rows': 7}
    pick = lambda keys, f: {k: type(opts[k])(opts[k] * f) for k in keys if rng.random() < 0.4}
    for g in d['groups']:
        for ds in g['datasets']:
            ds['dist'] = pick(opts, 1)
        for i in g['imps']:
            if i['kind'] == 'setting':
                i['dist'] = pick(opts, 2)
    path, b, m = make_grid(rng, rec, d, 'g')
    runs, again = {}, set()
    for r in gridgen.expand(d):
        for x in [r] + list(gridgen.tree(r)):
            if x.name in runs:
                again.add(x.name)  # asked for twice: which of the two is kept is not specified
            runs.setdefault(x.name, x)
    for n in again:
        del runs[n]
    items = [x for x in b.items(wantImportance=True) if x.name in runs]
    items = [x for x in items if runs[x.name].parent is None or runs[x.name].parent.parent is None]  # whether a filtered run has the settings of its parent is not specified
    if not items:
        raise core.Skip
    items = [items[int(i)] for i in rng.choice(len(items), min(len(items), 4), replace=False)]
    for x in items:
        gridgen.write_run(rng, x.chainRoot, rows=60)
    glob = {k: v for k, v in {'ignore_rows': 1, 'smooth_scale_1D': 0.35, 'num_bins': 57, 'max_scatter_points': 700, 'fine_bins': 2048}.items() if rng.random() < 0.7}
    prio = bool(rng.random() < 0.6)
    with quiet():
        an = MCSampleAnalysis([path], settings=glob)
        an.reset(settings=glob, chain_settings_have_priority=prio)
        for x in items:
            call = {k: v for k, v in {'ignore_rows': 2, 'smooth_scale_1D': 0.41, 'num_bins': 71, 'max_scatter_points': 900, 'fine_bins': 256}.items() if rng.random() < 0.4}
            own = {k: v for k, v in runs[x.name].dist.items() if k in opts}
            s = an.samples_for_root(x.name, settings=call or None)
            want = {}
            for layer in (glob, call, own) if prio else (glob, call):  # without priority the complete settings of the analysis, defaults included, are used
                want.update(layer)
            for k, v in want.items():
                if k != 'ignore_rows':
                    rec.near(getattr(s, k), v, 'settings of a run of a grid', key=k, run=x.name, own=own, call=call, analysis=glob, priority=prio)
            if 'ignore_rows' in want:
                rec.eq(s.numrows, total(x.chainRoot) - len_files(x.chainRoot) * int(want['ignore_rows']), 'rows used of a run of a grid', own=own, call=call, analysis=glob, priority=prio)
            rec.ev('grid_settings', len(want))
            rec.sig('grid', sorted(own), sorted(call), sorted(glob), prio)


def files_of(root):
    import glob
    return [f for f in glob.glob(root + '_*.txt') if f[len(root) + 1:-4].isdigit()]


def len_files(root):
    return len(files_of(root))


def total(root):
    n = 0
    for f in files_of(root):
        with open(f) as h:
            n += len(h.read().strip().split('\n'))
    return n


GROUPS = {'history': (history, 100, 2500), 'functions': (functions, 50, 1000), 'settings': (settings, 60, 600), 'grid_settings': (grid_settings, 60, 800)}
QUICK_BUDGET = 120
THOROUGH_BUDGET = 600
