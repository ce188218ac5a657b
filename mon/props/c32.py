"""Status of the runs of a grid: what the status queries and the tools which act on them report and do, against the files which are on disk"""
import os
import re
import sys
import time

import numpy as np

from .. import core, gridgen, guard
from .c26 import argv, make_grid, matches, model_runs, query, quiet
from .c28 import environment, setup

RULE = 'a case is a scratch grid whose runs are in generated states (chains missing, empty, partial, stuck, running, stopped, finished, converged or not, minimized, failed, ' \
       'importance samples out of date, analysed or out of date), and status queries or one run of a real tool (submission, convergence report, batch analysis); expected ' \
       'results come from a model of the states written; distinct = (tool, options, number of runs selected, number of runs)'
ASSUMPTIONS = ['ages of chain files are at least 20 s away from the limits used', 'convergence files are complete', 'chains with a convergence status file exist',
               'one tool runs at a time']


class State:
    pass


class Grid:
    def __init__(self, rng, rec, extra=None):
        d = gridgen.gen_def(rng)
        if not d['groups']:
            raise core.Skip
        d.update(extra or {})
        self.d = d
        self.path, self.b, m = make_grid(rng, rec, d, 'grid')
        self.runs = model_runs(self.b, d)
        if not self.runs:
            raise core.Skip
        self.top = rec.tmp
        found = {}
        for r in gridgen.expand(d):
            for x in gridgen.tree(r):
                # runs with the same name defined in different ways: which is kept is not our question here
                if found.setdefault(x.name, (x.imp.get('minimize'), x.imp.get('kind'), x.imp.get('dist'))) != (x.imp.get('minimize'), x.imp.get('kind'), x.imp.get('dist')):
                    raise core.Skip
        self.state = {}
        for r in self.runs:
            self.make(rng, r)
        rec.set(states={n: {k: v for k, v in s.__dict__.items() if k not in ('dir', 'root')} for n, s in list(self.state.items())[:12]})

    def file(self, fn, txt, age):
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, 'w') as f:
            f.write(txt)
        t = time.time() - age
        os.utime(fn, (t, t))

    def make(self, rng, r):
        s = self.state[r.name] = State()
        s.dir = os.path.join(self.path, r.full.paramtag, r.full.datatag)
        s.root = os.path.join(s.dir, r.name)
        parent = self.state.get(r.parent.name) if r.parent else None
        s.chains = {}  # number: (size, age)
        kind = str(rng.choice(['none', 'empty', 'some', 'some', 'some', 'some', 'gap', 'nofirst']))
        n = int(rng.integers(1, 5))
        base = float(rng.choice([rng.uniform(1, 200), rng.uniform(330, 900), rng.uniform(2000, 1e6)]))
        if parent is not None and 1 in parent.chains and rng.random() < 0.7:
            base = parent.chains[1][1] + float(rng.choice([-1, 1])) * float(rng.uniform(2, 100))
            if base < 1 or 280 < base < 320:
                base = parent.chains[1][1] + 150
                if 280 < base < 320:
                    base += 100
        if kind in ('some', 'gap'):
            for i in range(1, n + 1):
                age = base if i == 1 else max(1., base + float(rng.choice([rng.uniform(-300, 260), rng.uniform(-50, 50), rng.uniform(700, 3000)])))
                s.chains[i] = (int(rng.choice([0, 9], p=[0.12, 0.88])), age)
            if kind == 'gap':
                s.chains[n + 2] = (9, base)
        elif kind == 'empty':
            s.chains[1] = (0, base)
        elif kind == 'nofirst':
            s.chains[2] = (9, base)
        for i, (size, age) in s.chains.items():
            self.file(s.root + '_%d.txt' % i, ' 1. 2. 3.\n'[:size + 1] if size else '', age)
        s.R, s.done = None, None
        if s.chains.get(1, (0,))[0] and rng.random() < 0.6:
            s.R = round(float(np.exp(rng.uniform(-7, 1))), 6)
            s.done = bool(rng.random() < 0.5)
            self.file(s.root + '.converge_stat', '%14.6f\n%s' % (s.R, ' Done\n' if s.done else str(rng.choice(['', '', '  \n', ' Running\n']))), 5)
        elif rng.random() < 0.1:
            self.file(s.root + '.converge_stat', '', 5)
        s.chk = bool(rng.random() < 0.6)
        if s.chk:
            self.file(s.root + '_1.chk', 'x', 5)
        s.min = str(rng.choice(['none', 'empty', 'ok', 'ok', 'failed']))
        if s.min != 'none':
            like = {'ok': rng.uniform(-900, 90000), 'failed': 1e30, 'empty': 0}[s.min]
            s.like = float('%.3f' % like)
            self.file(s.root + '.minimum', '' if s.min == 'empty' else ' -log(Like) = %20.3f\n  chi-sq    = %20.3f\n\n    1   0.2200000E-01   omegabh2             \\Omega_b h^2\n'
                      '    2   0.5000000E-01   tau                  \\tau\n\n   chi-sq  data\n\n' % (like, 2 * like), 5)
        dist = os.path.join(s.dir, 'dist', r.name)
        s.dist = None
        if rng.random() < 0.6:
            s.dist = max(0.5, base + float(rng.choice([-1, 1])) * float(rng.uniform(2, 150)))
            self.file(dist + '.margestats', 'stats\n', s.dist)
        s.worst = None
        u = rng.random()
        if u < 0.6:
            e = sorted(round(float(np.exp(rng.uniform(-7, 0))), 5) for _ in range(int(rng.integers(1, 4))))
            s.worst = e[-1]
            self.file(dist + '.converge', '\nNumber of chains used =  2\n\n Variance test convergence stats using remaining chains\n param var(chain mean)/mean(chain var)\n\n'
                      '%13.5f  \\tau\n\nvar(mean)/mean(var) for eigenvalues of covariance of means of parameters\n' % 9.9 +
                      ''.join('%3i%13.5f\n' % (i + 1, v) for i, v in enumerate(e)) + '\nSplit tests: rms_n([delta(upper/lower quantile)]/sd) n={2,3,4}, limit=95%\n', 5)
        elif u < 0.75:  # one chain only
            self.file(dist + '.converge', '\nNumber of chains used =  1\n\nSplit tests: rms_n([delta(upper/lower quantile)]/sd) n={2,3,4}, limit=95%\n 1 2 3\n', 5)
        elif u < 0.8:
            self.file(dist + '.converge', '', 5)
        s.age1 = s.chains[1][1] if 1 in s.chains else None

    # the model
    def exists(self, r, i=1):
        return self.state[r.name].chains.get(i, (0,))[0] > 0

    def all_exist(self, r, n):
        return all(self.exists(r, i) for i in range(1, n + 1))

    def stuck(self, r):
        s = self.state[r.name]
        n = 1
        while n in s.chains:
            n += 1
        ages = [s.chains[i][1] for i in range(1, n)]
        return n + 1 in s.chains or max(ages) - min(ages) > 600

    def stopped(self, r):
        return self.exists(r) and self.state[r.name].age1 > 300

    def parent_changed(self, r):
        return not self.exists(r) or self.state[r.name].age1 > self.state[r.parent.name].age1

    def finished(self, r):
        if r.parent is None:
            return self.state[r.name].done is True
        return self.state[r.parent.name].done is True and not self.parent_changed(r) and self.stopped(r)

    def to_continue(self, r, minR):
        s = self.state[r.name]
        return s.R is not None and s.chk and not s.done and s.R > minR

    def converged(self, r, R, unknown=False):
        w = self.state[r.name].worst
        return unknown if w is None else w <= R

    def min_exists(self, r):
        return self.state[r.name].min in ('ok', 'failed')

    def min_ok(self, r):
        return self.state[r.name].min == 'ok'

    def out_of_date(self, r):
        s = self.state[r.name]
        return self.exists(r) and (s.dist is None or s.age1 < s.dist)


def status(rng, rec):
    from paramgrid import batchjob
    g = Grid(rng, rec)
    b = g.b
    if rng.random() < 0.5:
        with quiet():
            b = batchjob.readobject(g.path)
    items = {x.name: x for x in b.items(wantImportance=True)}
    for r in g.runs:
        x, s = items[r.name], g.state[r.name]
        wit = dict(run=r.name)
        for i in range(1, 6):
            rec.eq(x.chainName(i), s.root + '_%d.txt' % i, 'chain file name', number=i, **wit)
            rec.eq(bool(x.chainExists(i)), g.exists(r, i), 'whether a chain exists', number=i, **wit)
            rec.eq(bool(x.allChainExists(i)), g.all_exist(r, i), 'whether all chains exist', number=i, **wit)
            rec.eq(x.chainNames(i), [s.root + '_%d.txt' % k for k in range(1, i + 1)], 'names of a number of chains', number=i, **wit)
        n = 1
        while g.exists(r, n):
            n += 1
        rec.eq(x.chainNames(), [s.root + '_%d.txt' % k for k in range(1, n)], 'names of the chains there are', **wit)
        if 1 in s.chains:
            rec.eq(bool(x.chainsDodgy()), g.stuck(r), 'whether chains look stuck', **wit)
            rec.near(x.chainFileDate(), time.time() - s.age1, 'time of the last write', atol=60, **wit)
        rec.eq(bool(x.notRunning()), g.stopped(r), 'whether a run has stopped', **wit)
        rec.eq(x.convergeStat() if s.R is None else (x.convergeStat()[0], bool(x.convergeStat()[1])), (s.R, s.done), 'convergence while running', **wit)
        if r.parent is None or 1 in g.state[r.parent.name].chains:
            rec.eq(bool(x.chainFinished()), g.finished(r), 'whether a run has finished', **wit)
        if r.parent is not None and 1 in g.state[r.parent.name].chains:
            rec.eq(bool(x.parentChanged()), g.parent_changed(r), 'whether the parent changed after importance sampling', **wit)
        for minR in (0, float(np.exp(rng.uniform(-7, 1)))):
            rec.eq(bool(x.wantCheckpointContinue(minR)), g.to_continue(r, minR), 'whether a run can be continued', minR=minR, **wit)
        rec.eq(bool(x.chainMinimumExists()), g.min_exists(r), 'whether there is a best fit', **wit)
        rec.eq(bool(x.chainMinimumConverged()), g.min_ok(r), 'whether the best fit converged', **wit)
        if g.min_exists(r):
            rec.near(x.chainBestfit().logLike, s.like, 'likelihood of the best fit', rtol=1e-9, **wit)
        else:
            rec.check(x.chainBestfit() is None, 'best fit where there is none', **wit)
        rec.eq(bool(x.getDistExists()), s.dist is not None, 'whether a run has been analysed', **wit)
        rec.eq(bool(x.getDistNeedsUpdate()), g.out_of_date(r), 'whether the analysis is out of date', **wit)
        with quiet():
            rec.eq(x.R(), s.worst, 'convergence found by the analysis', **wit)
            for unknown in (False, True):
                R = float(np.exp(rng.uniform(-7, 0)))
                rec.eq(bool(x.hasConvergeBetterThan(R, returnNotExist=unknown)), g.converged(r, R, unknown), 'whether a run has converged', R=R, unknown=unknown, **wit)
            if s.worst is not None:
                rec.check(x.hasConvergeBetterThan(s.worst + 1e-9) and not x.hasConvergeBetterThan(s.worst - 1e-9), 'convergence limit', **wit)
        rec.ev('runs queried')
    # the state changes: queries follow the files, not what was seen before
    for r in [g.runs[int(i)] for i in rng.choice(len(g.runs), min(len(g.runs), 4), replace=False)]:
        s, x = g.state[r.name], items[r.name]
        for f in os.listdir(s.dir):
            if re.match(re.escape(r.name) + r'(_\d\.(txt|chk)|\.converge_stat|\.minimum)$', f):
                os.remove(os.path.join(s.dir, f))
        for f in ('.margestats', '.converge'):
            f = os.path.join(s.dir, 'dist', r.name) + f
            if os.path.exists(f):
                os.remove(f)
        g.make(rng, r)
        rec.eq([bool(x.chainExists()), bool(x.notRunning()), bool(x.chainMinimumConverged()), bool(x.getDistExists()), bool(x.getDistNeedsUpdate()), x.convergeStat()[0]],
               [g.exists(r), g.stopped(r), g.min_ok(r), g.state[r.name].dist is not None, g.out_of_date(r),
                g.state[r.name].R], 'status after the files changed', run=r.name)
    rec.sig('status', len(g.runs), sum(g.exists(r) for r in g.runs))


def option(rng, p):
    return bool(rng.random() < p)


def submitted_inis(sched, known=()):
    out = []
    for j in sched.read()['jobs']:
        if j['id'] not in known:
            cmds = [line.split() for line in j['script'].splitlines() if not line.startswith('#')]
            out.append((j['id'], [w for line in cmds for w in line if re.search('/(iniFiles|postIniFiles)/', w) and w.endswith('.ini')]))
    return out


def submission(rng, rec):
    kind = str(rng.choice(['PBS', 'OGS', 'MOAB']))
    g = Grid(rng, rec)
    top, sched = setup(rng, rec, kind)
    live = {}  # scheduler id: names of runs
    hist = []
    jobnames = {}
    last = lastq = None
    for step in range(int(rng.integers(1, 4))):
        q = query(rng, g.runs) if rng.random() < 0.4 else {}
        args = argv(rng, q)
        o = dict(notexist=option(rng, .25), minimize=option(rng, .2), importance_minimize=option(rng, .15), minimize_failed=option(rng, .2), importance_ready=option(rng, .25),
                 importance_changed=option(rng, .25), parent_stopped=option(rng, .2), chain_exists=option(rng, .15), not_queued=step > 0 and option(rng, .6), filters=option(rng, .15))
        if step and rng.random() < 0.4:  # again, leaving out what is in the queue
            o.update({k: last[k] for k in ('minimize', 'importance_minimize', 'filters')}, not_queued=True)
            q = lastq
            args = argv(rng, q)
        if o['minimize'] and o['importance_minimize']:
            o['minimize'] = False
        last, lastq = dict(o), q
        for k in o:
            if o[k]:
                args.append('--' + k)
        notall = int(rng.integers(1, 5)) if rng.random() < 0.2 else None
        if notall:
            args += ['--notall', notall]
        chk = None
        if rng.random() < 0.25:
            chk = round(float(np.exp(rng.uniform(-7, 1))), 4) if rng.random() < 0.5 else 0
            args += ['--checkpoint_run'] + ([chk] if chk else [])
        pconv = round(float(np.exp(rng.uniform(-7, 0))), 4) + 1e-6 if rng.random() < 0.2 else 0
        if pconv:
            args += ['--parent_converge', pconv]
        conv = round(float(np.exp(rng.uniform(-7, 0))), 4) + 1e-6 if rng.random() < 0.25 else 0
        if conv:
            args += ['--converge', conv]
        per = int(rng.choice([1, 1, 1, 2, 3]))
        combine = 'all_in_one%d' % step if rng.random() < 0.15 else None
        if combine:
            args += ['--combineOneJobName', combine]
            per = 1
        elif per > 1:
            args += ['--runsPerJob', per]
        mode = str(rng.choice(['submit', 'submit', 'submit', 'dryrun', 'no_sub']))
        if mode != 'submit':
            args.append('--' + mode)
        # which runs are meant
        isMin = o['minimize'] or o['importance_minimize']
        sel = dict(q)
        if o['importance_minimize'] or (o['importance_changed'] or o['importance_ready'] or o['filters']) and not o['minimize']:
            sel.setdefault('importance', [])
        elif 'importance' not in q and not o['minimize']:
            sel['noimportance'] = True
        if o['minimize']:
            sel['noimportance'] = True
            if o['importance_changed'] or o['importance_ready'] or o['filters']:
                sel.setdefault('importance', [])
        queued = {n for ns in live.values() for n in ns}
        variant = '_minimize' if isMin else ''
        names, filtered = [], []
        for r in g.runs:
            if not matches(sel, r):
                continue
            isfilt = r.imp is not None and 'kind' not in r.imp
            if o['notexist'] and (g.min_exists(r) if isMin else g.exists(r)):
                continue
            if o['minimize_failed'] and g.min_ok(r):
                continue
            if not isMin and notall and g.all_exist(r, notall):
                continue
            if isMin and (isfilt or r.imp is not None and r.imp['kind'] == 'setting' and not r.imp['minimize']):
                continue
            if pconv and r.parent is not None and not g.converged(r.parent, pconv):
                continue
            if conv and g.converged(r, conv, True):
                continue
            if chk is not None and not (g.to_continue(r, chk) and g.stopped(r)):
                continue
            if o['chain_exists'] and not g.exists(r):
                continue
            if r.parent is not None and not isMin:
                if o['importance_ready']:
                    if not g.finished_safe(r.parent):
                        continue
                elif not o['filters'] and not g.exists(r.parent):
                    continue
                if o['importance_changed']:
                    if g.exists(r) and 1 not in g.state[r.parent.name].chains:
                        raise core.Skip  # date of a parent which is not there
                    if not g.parent_changed_safe(r):
                        continue
                if o['parent_stopped'] and not g.stopped(r.parent):
                    continue
            if isfilt:
                if o['filters'] and g.exists(r.parent):
                    filtered.append(r)
            elif not o['filters'] and not (o['not_queued'] and r.name + variant in queued):
                names.append(r)
        before = {f for s in g.state.values() for f in [s.root + '.filtered'] if os.path.exists(f)}
        for f in before:
            os.remove(f)
        known = set(j['id'] for j in sched.read()['jobs'])
        hist.append([str(a) for a in args])
        rec.set(history=hist, expected_runs=[r.name for r in names], live={k: v for k, v in live.items()})
        with environment(sched, top):
            res = guard.script('runbatch.py', [g.path] + args, top, rec.tmp, processes=True)
        rec.check(res.error is None, 'submission fails', error=res.error)
        rec.eq(res.escaped, [], 'submission changes files elsewhere')
        exp = [os.path.join(g.path, 'iniFiles' if r.parent is None else 'postIniFiles', r.name + variant + '.ini') for r in names]
        new = submitted_inis(sched, known)
        if mode == 'submit':
            got = [i for _, inis in new for i in inis]
            rec.eq(sorted(got), sorted(exp), 'runs submitted are not those asked for')
            n = len(exp) if per == 1 else -(-len(exp) // per)
            rec.eq(len(new), (1 if exp else 0) if combine else n, 'number of jobs submitted')
            rec.check(all(len(i) <= per or combine for _, i in new), 'too many runs in a job')
            for jid, inis in new:
                script = [j['script'] for j in sched.read()['jobs'] if j['id'] == jid][0].splitlines()
                lines = [x for x in script if not x.startswith('#') and any(i in x.split() for i in inis)]
                if combine:
                    rec.check(not any(x.rstrip().endswith('&') for x in lines), 'runs of a sequential job do not follow each other', script=script)
                elif len(inis) > 1:
                    rec.check(all(x.rstrip().endswith('&') for x in lines), 'runs sharing a job do not run together', script=script)
                jn = [x.split()[2] for x in script if x.startswith('#PBS -N')][0]
                if combine:
                    rec.eq(jn, combine, 'name of a combined job')
                elif len(inis) == 1:
                    rec.eq(jn, os.path.basename(inis[0])[:-4], 'name of a job with one run')
                else:
                    key = tuple(sorted(inis))
                    rec.check(jobnames.setdefault(jn, key) == key, 'jobs with different runs have the same name', name=jn, inis=key, other=jobnames[jn])
                live[jid] = [os.path.basename(i)[:-4] for i in inis]
        else:
            rec.eq(new, [], 'jobs are submitted by a dry run')
            rec.eq(sorted(w for w in res.out.replace('Submitting...', ' ').split() if re.search('/(iniFiles|postIniFiles)/', w)), sorted(e[:-4] for e in exp), 'runs listed by a dry run')
        made = {r.name for r in g.runs if os.path.exists(g.state[r.name].root + '.filtered')}
        rec.eq(sorted(made), sorted(r.name for r in filtered), 'importance filters run')
        rec.sig('submit', sorted(k for k in o if o[k]), notall, chk is None, bool(pconv), bool(conv), per, mode, len(names), len(g.runs))
        rec.ev('runs submitted', len(exp))
        # the cluster gets on with it
        for jid in list(live):
            u = rng.random()
            if u < 0.3:
                sched.finish(jid)
                del live[jid]
            elif u < 0.6:
                sched.set_state(jid, 'R')


def _finished_safe(self, r):
    # a run with no convergence information has not finished, whatever else there is
    if r.parent is not None and self.state[r.parent.name].done is None:
        return False
    if r.parent is not None and self.exists(r) and 1 not in self.state[r.parent.name].chains:
        raise core.Skip
    return self.finished(r)


def _parent_changed_safe(self, r):
    if not self.exists(r):
        return True
    return self.parent_changed(r)


Grid.finished_safe = _finished_safe
Grid.parent_changed_safe = _parent_changed_safe


def report(rng, rec):
    g = Grid(rng, rec)
    for _ in range(3):
        q = query(rng, g.runs) if rng.random() < 0.5 else {}
        args = argv(rng, q)
        o = {k: option(rng, p) for k, p in [('exist', .3), ('checkpoint', .3), ('running', .2), ('not_running', .3), ('stuck', .2)]}
        args += ['--' + k for k in o if o[k]]
        conv = round(float(np.exp(rng.uniform(-7, 0))), 4) + 1e-6 if rng.random() < 0.5 else 0
        if conv:
            args += ['--converge', conv]
        sel = [r for r in g.runs if matches(q, r)]
        rec.set(args=[str(a) for a in args])
        res = guard.script('checkConverge.py', [g.path] + args, g.top, g.top)
        rec.check(res.error is None, 'report fails', error=res.error)
        rec.eq(res.escaped, [], 'report changes files')
        got = {'stuck': [], 'missing': [], 'converge': []}
        where = 'converge'
        for line in res.out.splitlines():
            if line.startswith('Not exist'):
                where = 'missing'
            elif line.startswith('Converge'):
                where = 'converge'
            elif line.startswith('Chain stuck?'):
                got['stuck'].append(line.split('...')[1])
            elif line.startswith('... '):
                p = line.split()
                got[where].append((os.path.basename(p[1]), None if len(p) < 3 or p[2] == 'None' else float(p[2])))
        exp = {'stuck': [], 'missing': [], 'converge': []}
        if o['stuck']:
            exp['stuck'] = [r.name for r in sel if g.exists(r) and g.stuck(r)]
        elif o['checkpoint'] or o['running']:
            for r in sel:
                s = g.state[r.name]
                if s.R is not None and not s.done:
                    if not (o['not_running'] and not g.stopped(r)) and not (o['running'] and g.stopped(r)):
                        exp['converge'].append((r.name, s.R))
                    if o['running'] and g.stuck(r):
                        exp['stuck'].append(r.name)
        else:
            for r in sel:
                if not g.exists(r):
                    if not o['exist']:
                        exp['missing'].append((r.name, None))
                elif (not conv or not g.converged(r, conv, True)) and not (o['not_running'] and not g.stopped(r)):
                    exp['converge'].append((r.name, g.state[r.name].worst))
        rec.eq({k: sorted(v, key=str) for k, v in got.items()}, {k: sorted(v, key=str) for k, v in exp.items()}, 'convergence report does not reflect the chains')
        rec.sig('report', sorted(k for k in o if o[k]), bool(conv), sorted(q), [len(exp[k]) for k in sorted(exp)])


RECORDER = '''import sys
with open(%r, 'a') as f:
    f.write(sys.argv[1] + '\\n')
'''


def read_ini(fn):
    keys, default, include = {}, [], []
    with open(fn) as f:
        for line in f:
            line = line.strip()
            m = re.match(r'(DEFAULT|INCLUDE)\((.*)\)$', line)
            if m:
                (default if m.group(1) == 'DEFAULT' else include).append(m.group(2))
            elif '=' in line and not line.startswith('#'):
                k, v = line.split('=', 1)
                keys[k.strip()] = v.strip()
    return keys, default, include


def true(v):
    return v is not None and v[:1] in 'TtYy1'


def analysis(rng, rec):
    """analysing all chains of a grid: settings for each and which are run"""
    opts = {k: v for k, v in [('max_corr_2D', 0.9), ('num_bins', 77), ('marker_ns', 0.9), ('smooth_scale_1D', 0.3)] if rng.random() < 0.4}
    g = Grid(rng, rec, dict(getdist_options=opts) if opts else None)
    burned = set()
    for r in g.runs:
        if rng.random() < 0.2:
            g.file(g.state[r.name].root + '.properties.ini', 'burn_removed = T\n' if rng.random() < 0.7 else 'burn_removed = F\n', 5)
            with open(g.state[r.name].root + '.properties.ini') as f:
                if '= T' in f.read():
                    burned.add(r.name)
    q = query(rng, g.runs) if rng.random() < 0.5 else {}
    args = argv(rng, q)
    o = {k: option(rng, p) for k, p in [('update_only', .35), ('norun', .25), ('notexist', .35), ('no_plots', .3), ('make_plots', .3), ('burn_removed', .2), ('exist', .3)]}
    args += ['--' + k for k in o if o[k]]
    burn = round(float(rng.uniform(0, 0.5)), 3) if rng.random() < 0.4 else None
    if burn is not None:
        args += ['--burn_remove', burn]
    pdata = os.path.join(g.top, 'pdata') if rng.random() < 0.3 else None
    if pdata:
        args += ['--plot_data', pdata]
    base = os.path.join(g.top, 'base.ini')
    with open(base, 'w') as f:
        f.write('ignore_rows = 0.3\nnum_bins = 100\n')
    if rng.random() < 0.6:
        args += ['--base_ini', base]
    else:
        import getdist
        base = getdist.default_getdist_settings
    log = os.path.join(g.top, 'log')
    rcd = os.path.join(g.top, 'recorder.py')
    open(log, 'w').close()
    with open(rcd, 'w') as f:
        f.write(RECORDER % log)
    args += ['--command', sys.executable, '--command_params', rcd]
    if rng.random() < 0.5:
        args += ['--procs', int(rng.integers(2, 4))]
    sel = [r for r in g.runs if matches(q, r)]
    rec.set(args=[str(a) for a in args])
    res = guard.script('runGridGetdist.py', [g.path] + args, g.top, g.top, processes=True)
    rec.check(res.error is None, 'batch analysis fails', error=res.error)
    rec.eq(res.escaped, [], 'batch analysis changes files elsewhere')
    inidir = os.path.join(g.path, 'getdist')
    rec.eq(sorted(os.listdir(inidir)), sorted(r.name + '.ini' for r in sel), 'settings files written')
    run = [r for r in sel if g.exists(r) and not o['norun'] and not (o['notexist'] and g.state[r.name].dist is not None) and not (o['update_only'] and not g.out_of_date(r))]
    end = time.time() + 20
    while True:  # the last ones may still be running
        with open(log) as f:
            got = f.read().splitlines()
        if len(got) >= len(run) or time.time() > end:
            break
        time.sleep(0.05)
    rec.eq(sorted(got), sorted(os.path.join(inidir, r.name + '.ini') for r in run), 'chains analysed')
    for r in sel:
        keys, default, include = read_ini(os.path.join(inidir, r.name + '.ini'))
        s = g.state[r.name]
        wit = dict(run=r.name, settings=keys)
        rec.eq(keys.get('file_root'), s.root, 'chains to analyse', **wit)
        rec.eq(os.path.normpath(keys.get('out_dir', '')), os.path.join(s.dir, 'dist'), 'where results go', **wit)
        rec.check(os.path.isdir(os.path.join(s.dir, 'dist')), 'no directory for the results', **wit)
        rec.eq([os.path.normpath(keys['plot_data_dir'])] if 'plot_data_dir' in keys else [], [pdata] if pdata else [], 'where plot data goes', **wit)
        rec.eq(default, [base], 'default settings', **wit)
        if r.parent is not None or o['burn_removed'] or r.name in burned:
            rec.near(float(keys.get('ignore_rows', 'nan')), 0, 'burn in removed again', **wit)
        elif burn is not None:
            rec.near(float(keys.get('ignore_rows', 'nan')), burn, 'burn in', **wit)
        else:
            rec.check('ignore_rows' not in keys, 'burn in changed', **wit)
        if r.parent is not None:
            rec.eq(keys.get('compare1'), g.state[r.parent.name].root, 'chain to compare with', **wit)
            rec.eq(keys.get('compare_num'), '1', 'number of chains to compare with', **wit)
        else:
            rec.check('compare1' not in keys, 'chain compared with another', **wit)
        rec.eq([true(keys.get('no_plots')), true(keys.get('make_plots'))], [o['no_plots'], o['make_plots']], 'plot options', **wit)
        for k, v in opts.items():
            rec.near(float(keys.get(k, 'nan')), v, 'grid analysis setting', rtol=1e-12, setting=k, **wit)
        if r.parent is None or r.parent.parent is None:
            for k, v in r.dist.items():
                rec.near(float(keys.get(k, 'nan')), v, 'analysis setting of the run', rtol=1e-12, setting=k, **wit)
    if not o['exist'] and not o['norun']:
        said = [os.path.basename(line.split()[-1]) for line in res.out.splitlines() if line.startswith('Chains do not exist')]
        rec.eq(sorted(said), sorted(r.name for r in sel if not g.exists(r) and not (o['notexist'] and g.state[r.name].dist is not None) and not o['update_only']),
               'chains reported missing')
    rec.sig('analysis', sorted(k for k in o if o[k]), burn is None, len(run), len(sel), bool(opts))
    rec.ev('analyses started', len(run))


def real(rng, rec):
    """with the actual analysis: results end up where status queries find them, from the samples meant"""
    from paramgrid import batchjob
    import subprocess
    d = gridgen.gen_def(rng, filters=False)
    if not d['groups']:
        raise core.Skip
    path, b, m = make_grid(rng, rec, d, 'grid')
    runs = model_runs(b, d)
    if not runs:
        raise core.Skip
    r = runs[int(rng.integers(len(runs)))]
    imps = [x for x in runs if x.parent is not None]
    if imps and rng.random() < 0.5:
        r = imps[int(rng.integers(len(imps)))]
    root = os.path.join(path, r.full.paramtag, r.full.datatag, r.name)
    n = int(rng.integers(1, 4))
    rows = 500
    gridgen.write_run(rng, root, n, rows)
    burned = rng.random() < 0.3
    if burned:
        with open(root + '.properties.ini', 'w') as f:
            f.write('burn_removed = T\n')
    burn = float(rng.choice([0, 0.2, 0.5]))
    args = ['--name', r.name, '--burn_remove', burn, '--no_plots', '--command', sys.executable, '--command_params', os.path.join(core.EXE, 'GetDist.py')]
    rec.set(args=[str(a) for a in args], chains=n, burned=burned)
    res = guard.script('runGridGetdist.py', [path] + args, rec.tmp, rec.tmp, processes=True)
    rec.check(res.error is None, 'batch analysis fails', error=res.error)
    with quiet():
        x = [x for x in batchjob.readobject(path).items(wantImportance=True) if x.name == r.name][0]
    end = time.time() + 60
    while not os.path.exists(x.distRoot + '.likestats') and time.time() < end:
        time.sleep(0.1)
    time.sleep(0.5)
    rec.check(x.getDistExists() and not x.getDistNeedsUpdate(), 'results of the analysis are not found')
    use = []
    for i in range(1, n + 1):
        c = np.loadtxt(root + '_%d.txt' % i)
        use.append(c if burned or r.parent is not None else c[int(round(rows * burn)):])
    use = np.concatenate(use)
    with quiet():
        x.loadJobItemResults(noconverge=False)
    for k, nm in enumerate(['p', 'q']):
        mean = np.average(use[:, 2 + k], weights=use[:, 0])
        # rounding of the number of rows is up to the loader: one row of the many
        rec.near(x.result_marge.parWithName(nm).mean, mean, 'analysed mean', rtol=1e-4, atol=1e-4 if not burn else 0.02, run=r.name, par=nm)
    if n > 1:
        rec.check(x.R() is not None and x.R() >= 0, 'no convergence from several chains')
    else:
        rec.check(x.R() is None and not x.hasConvergeBetterThan(100.), 'convergence from a single chain')
    rec.sig('real', n, burn, burned, r.parent is None)


GROUPS = dict(status=(status, 60, 1200), submission=(submission, 220, 2500), report=(report, 80, 1200), analysis=(analysis, 24, 600), real=(real, 4, 60))
QUICK_BUDGET = 60
THOROUGH_BUDGET = 320
