import contextlib
import os
import pickle
import resource
import signal
import subprocess
import sys

import numpy as np

from .. import core, fakesched, gridgen
from .c21 import workdir
from .c26 import make_grid, matches, model_runs, query, argv, quiet

RULE = 'a case is a history of submissions, starts, completions, listings and cancellations on one or two grids through the real job queue code, with a recording stand-in ' \
       'scheduler (three output styles); after every step the listing, the index and the jobs cancelled are compared with a set model; the crash group stops an ' \
       'index update before each file operation and after each partial write; distinct = (scheduler, operation, selection, jobs matched, queue size, crash point)'
ASSUMPTIONS = ['scheduler and index are used by one process at a time', 'the scheduler lists jobs under the id it printed on submission', 'USER is set']

TEMPLATE = '''#!/bin/bash
#PBS -q ##QUEUE##
#PBS -l nodes=##NUMNODES##:ppn=##PPN##,walltime=##WALLTIME##
#PBS -N ##JOBNAME##
cd ##ROOTDIR##
export OMP_NUM_THREADS=##OMP##
MPI ##NUMMPI## ##CHAINSPERNODE## ##NUMRUNS## ##MEM_MB## ##ONERUN##
%s
##DEFAULT_nodes: 1 ##
##DEFAULT_chainsPerNode: 2 ##
##DEFAULT_coresPerNode: 24 ##
##COMMAND##
wait
'''


@contextlib.contextmanager
def environment(sched, cwd):
    old = dict(os.environ)
    try:
        for k in list(os.environ):
            if k.startswith('COSMOMC_') or k.startswith('SGE_'):
                del os.environ[k]
        os.environ.update(sched.env())
        with workdir(cwd), quiet():
            yield
    finally:
        os.environ.clear()
        os.environ.update(old)


class Model:
    def __init__(self):
        self.jobs = {}  # id -> dict(name, runs, grid, state: Q R done) for jobs in an index

    def live(self, grid, running=True, queued=True):
        return [i for i, j in self.jobs.items() if j['grid'] == grid and (j['state'] == 'R' and running or j['state'] == 'Q' and queued)]


def number(jid):
    p = jid.split('.')
    return int(p[0]) if p[0].isdigit() else int(p[1])


def setup(rng, rec, kind):
    top = os.path.join(rec.tmp, 'work')
    os.makedirs(os.path.join(top, 'scripts'))
    run = '##RUN: go ##NUMMPI## ##PROGRAM## ##INI## > ./scripts/##INIBASE##.log ##' if rng.random() < 0.6 else ''
    with open(os.path.join(top, 'job_script'), 'w') as f:
        f.write(TEMPLATE % run)
    return top, fakesched.Scheduler(rec.tmp, kind)


def history(rng, rec):
    from paramgrid import jobqueue
    kind = str(rng.choice(['PBS', 'OGS', 'MOAB']))
    top, sched = setup(rng, rec, kind)
    grids = [os.path.join(top, g) + os.sep for g in ['gridA', 'gridB'][:1 + int(rng.random() < 0.5)]]
    for g in grids:
        os.makedirs(g)
    if rng.random() < 0.25:
        sched.update(short=True)  # ids printed on submission are the numbers only
    own = {'MOAB': 'canceljob'}.get(kind, 'qdel')
    if rng.random() < 0.3:
        own = 'mycancel'
        with open(os.path.join(top, 'job_script'), 'a') as f:
            f.write('##DEFAULT_qdel: mycancel ##\n')
    if rng.random() < 0.2:
        grids.append(None)  # index in ./scripts
    mod = Model()
    pool = ['base_%s_%s' % (a, b) for a in 'xyz' for b in ['TT', 'TE']] + ['base_x_TT_minimize']
    hist = []
    cancelled = []
    used = set()
    old = None
    with environment(sched, top):
        for step in range(int(rng.integers(4, 14))):
            grid = grids[int(rng.integers(len(grids)))]
            op = str(rng.choice(['submit'] * 4 + ['start', 'finish', 'finish', 'delete', 'delete', 'query', 'foreign', 'fail', 'delname']))
            if old and rng.random() < 0.7:  # ask for the names of a job whose id now belongs to another
                op, grid = 'delete', old['grid']
            if op == 'submit':
                runs = [str(v) for v in rng.choice(pool, int(rng.choice([1, 1, 1, 2, 3])), replace=False)]
                name = runs[0] if len(runs) == 1 else '-'.join(runs) if rng.random() < 0.6 else 'combined%d' % int(rng.integers(2))
                files = [os.path.join(grid or top, 'iniFiles', r) + ('.ini' if rng.random() < 0.5 else '') for r in runs]
                seq = bool(len(runs) > 1 and rng.random() < 0.3)
                step_id = int(rng.choice([1, 1, 7]))
                sched.update(step=step_id)
                before = set(j['id'] for j in sched.read()['jobs'])
                given = list(files)
                reuse = rng.random() < 0.3 and [i for i in mod.jobs if mod.jobs[i]['state'] == 'done' and mod.jobs[i]['grid'] == grid]
                if reuse:  # the scheduler starts numbering again
                    sched.update(next=number(reuse[0]) - step_id)
                res = jobqueue.submitJob(name, files if len(files) > 1 or rng.random() < 0.5 else files[0], sequential=seq, batchPath=grid)
                new = [j for j in sched.read()['jobs'] if j['id'] not in before]
                hist.append(('submit', grid and os.path.basename(grid[:-1]), name, runs, [j['id'] for j in new], bool(reuse)))
                rec.set(history=hist, scheduler=kind)
                rec.eq(len(new), 1, 'submission does not submit one job')
                rec.eq(files, given, 'submission changes the list of files it is given')
                jid = new[0]['id']
                if reuse:
                    top_id = max([number(i) for i in used] + [number(j['id']) for j in sched.read()['jobs']] + [100])
                    sched.update(next=top_id + 1)
                old = mod.jobs.get(jid)
                mod.jobs[jid] = dict(name=name, runs=runs, grid=grid, state='Q', order=len(hist))
                used.add(jid)
                script = new[0]['script']
                for f, r in zip(files, runs):
                    ini = (f[:-4] if f.endswith('.ini') else f) + '.ini'
                    lines = [x for x in script.splitlines() if ini in x.split() and not x.startswith('#')]
                    rec.eq(len(lines), 1, 'submitted script does not run each file of the job once', ini=ini, script=script)
                rec.check(('#PBS -N ' + name) in script.splitlines() and '##' not in script.replace('##RUN', '').replace('##DEFAULT', '').replace(' ##', ''),
                          'placeholders left in the submitted script', script=script)
                rec.eq(len([x for x in script.splitlines() if x.startswith('go ') or x.startswith('time mpirun')]), len(runs), 'number of runs in the script', script=script)
                nruns = 1 if seq else len(runs)
                rec.check('MPI 2 2 %d 63900 %d' % (nruns, int(len(runs) == 1 or seq)) in script and 'OMP_NUM_THREADS=%d' % (12 // nruns) in script.splitlines()[6 - 1],
                          'cores and chains in the script', script=script)
            elif op == 'fail':
                sched.update(**{str(rng.choice(['fail', 'silent'])): True})
                hist.append(('refused',))
                try:
                    jobqueue.submitJob('base_x_TT', [os.path.join(grid or top, 'iniFiles', 'base_x_TT')], batchPath=grid)
                except subprocess.CalledProcessError:
                    pass
                sched.update(fail=False, silent=False)
            elif op in ('start', 'finish'):
                c = [i for i, j in mod.jobs.items() if j['state'] == ('Q' if op == 'start' else 'R') or op == 'finish' and j['state'] == 'Q']
                if not c:
                    continue
                jid = str(rng.choice(c))
                hist.append((op, jid))
                if op == 'start':
                    sched.set_state(jid, 'R')
                    mod.jobs[jid]['state'] = 'R'
                else:
                    sched.finish(jid)
                    mod.jobs[jid]['state'] = 'done'
            elif op == 'foreign':
                st = sched.read()
                st['next'] += 1
                sched.write(st)
                jid = '%d' % st['next'] if st.get('short') else {'PBS': '%d.master', 'OGS': '%d', 'MOAB': 'Moab.%d'}[kind] % st['next']
                sched.add_foreign(jid, 'bob' if rng.random() < 0.3 else None, str(rng.choice(['Q', 'R'])))
                sched.update(all_users=bool(rng.random() < 0.5))
                hist.append(('foreign', jid))
            elif op == 'delname':
                c = [j['name'] for j in mod.jobs.values() if j['grid'] == grid]
                if not c:
                    continue
                name = str(rng.choice(c))
                hist.append(('delname', name))
                jobqueue.deleteJobNames(grid, name if rng.random() < 0.5 else [name])
                same = [i for i, j in mod.jobs.items() if j['grid'] == grid and j['name'] == name]
                latest = max(same, key=lambda i: mod.jobs[i]['order'])
                del mod.jobs[latest]
            elif op == 'delete':
                mine = {i: j for i, j in mod.jobs.items() if j['grid'] == grid}
                how = str(rng.choice(['ids', 'roots', 'names', 'min', 'minmax', 'mixed', 'deleteRootNames'] if not old else ['roots', 'names']))
                confirm = bool(rng.random() < 0.7) or how == 'deleteRootNames'
                state = [{}, {}, dict(running=True), dict(queued=True)][int(rng.integers(4))] if how != 'deleteRootNames' else {}
                kw = {}
                sel = []
                latest = lambda f: max([i for i in mine if f(mine[i])], key=lambda i: mine[i]['order'], default=None)
                allids = sorted(used | {'999.master', '12'})
                if how in ('ids', 'mixed'):
                    ids = [str(v) for v in rng.choice(allids, min(len(allids), int(rng.integers(1, 4))), replace=False)]
                    kw['jobIds'] = ids if len(ids) > 1 or rng.random() < 0.5 else ids[0]
                    sel += [i for i in ids if i in mine]
                if how in ('roots', 'mixed', 'deleteRootNames'):
                    names = [str(v) for v in rng.choice(pool, int(rng.integers(1, 4)), replace=False)] if not old else old['runs'][:1]
                    kw['rootNames'] = [names, set(names), names[0]][int(rng.integers(3))] if len(names) == 1 else [names, set(names)][int(rng.integers(2))]
                    sel += [latest(lambda j, n=n: n in j['runs']) for n in names]
                if how in ('names', 'mixed'):
                    names = [str(v) for v in rng.choice(sorted(set(j['name'] for j in mod.jobs.values()) | {'nothing'}), 1)] if not old else [old['name']]
                    kw['jobNames'] = names if rng.random() < 0.5 else names[0]
                    sel += [latest(lambda j, n=n: n == j['name']) for n in names]
                if how == 'min':
                    lo = int(rng.integers(99, 130))
                    kw['jobId_min'] = lo
                    sel += [i for i in mine if number(i) >= lo]
                if how == 'minmax':
                    lo = int(rng.integers(99, 130))
                    hi = lo + int(rng.integers(0, 20))
                    kw['jobId_minmax'] = [lo, hi]
                    sel += [i for i in mine if lo <= number(i) <= hi]
                sel = [i for i in set(sel) if i is not None]
                old = None
                active = [i for i in sel if mine[i]['state'] in ('Q', 'R') and (not state or mine[i]['state'] == ('R' if 'running' in state else 'Q'))]
                n0 = len(sched.read()['cancelled'])
                ids_given = list(kw['jobIds']) if isinstance(kw.get('jobIds'), list) else None
                hist.append(('delete', how, {k: v if not isinstance(v, set) else sorted(v) for k, v in kw.items()}, state, confirm))
                rec.set(history=hist, scheduler=kind)
                if how == 'deleteRootNames':
                    jobqueue.deleteRootNames(grid, **kw)
                else:
                    res = jobqueue.deleteJobs(grid, confirm=confirm, **dict(kw, **state))
                    rec.eq(sorted(str(v) for v in res), sorted(set(sel) | set([kw['jobIds']] if isinstance(kw.get('jobIds'), str) else kw.get('jobIds', []))), 'jobs reported as selected')
                got = sched.read()['cancelled'][n0:]
                used_cmd = set(v[0] for v in sched.read()['log'] if v[0] in ('qdel', 'canceljob', 'mycancel'))
                rec.check(used_cmd <= {own}, 'jobs cancelled with another command than the one of the job', used=sorted(used_cmd), expected=own)
                rec.eq(sorted(got), sorted(active) if confirm else [], 'cancellation does not cancel exactly the matching jobs', selected=sel)
                if ids_given is not None:
                    rec.eq(kw['jobIds'], ids_given, 'cancellation changes the list of ids it is given')
                if confirm:
                    for i in sel:
                        if i in active or mine[i]['state'] == 'done':
                            del mod.jobs[i]
                rec.sig(kind, 'delete', how, confirm, sorted(state), len(sel), len(active))
            # observe
            rec.set(history=hist, scheduler=kind)
            for g in grids:
                idx = jobqueue.loadJobIndex(g)
                rec.eq(sorted(idx.jobSettings), sorted(i for i, j in mod.jobs.items() if j['grid'] == g), 'index does not hold exactly the jobs submitted and not deleted')
                for i, s in idx.jobSettings.items():
                    rec.eq((s.jobId, s.jobName, list(s.names)), (i, mod.jobs[i]['name'], mod.jobs[i]['runs']), 'index entry of a job has other id, name or runs')
                for running, queued in [[(True, True), (True, False), (False, True)][int(rng.integers(3))]]:
                    live = mod.live(g, running, queued)
                    ids, names, runs, infos = jobqueue.queue_job_details(g, running=running, queued=queued, warnNotBatch=bool(rng.random() < 0.5))
                    rec.eq(sorted(zip(ids, names, [list(r) for r in runs])), sorted((i, mod.jobs[i]['name'], mod.jobs[i]['runs']) for i in live),
                           'listing is not exactly the jobs submitted and not finished or cancelled', running=running, queued=queued)
                    rec.check(all(i in t for i, t in zip(ids, infos)), 'listing gives the information of another job')
                    if rng.random() < 0.25:
                        rec.eq(sorted(jobqueue.queue_job_names(g, running=running, queued=queued)), sorted(r for i in live for r in mod.jobs[i]['runs']), 'runs in the queue',
                               running=running, queued=queued)
            rec.ev('steps')
            rec.sig(kind, op, len(mod.jobs), len([1 for j in mod.jobs.values() if j['state'] != 'done']), len(set(j['name'] for j in mod.jobs.values())))


def crash(rng, rec):
    """stop an update of the index before each file operation, or when the disk is full after n bytes"""
    from paramgrid import jobqueue
    kind = 'PBS'
    top, sched = setup(rng, rec, kind)
    grid = os.path.join(top, 'grid') + os.sep
    os.makedirs(grid)
    op = str(rng.choice(['add', 'delete', 'deleteName', 'first']))
    with environment(sched, top):
        n = 0 if op == 'first' else int(rng.integers(1, 6))
        for i in range(n):
            jobqueue.submitJob('job%d' % i, [os.path.join(grid, 'iniFiles', 'base_%d' % i)], batchPath=grid)
        jobs = [j['id'] for j in sched.read()['jobs']]
        content = lambda: {i: (j.jobName, list(j.names)) for i, j in jobqueue.loadJobIndex(grid).jobSettings.items()}
        old = content()
        snap = {f: open(os.path.join(grid, f), 'rb').read() for f in os.listdir(grid) if os.path.isfile(os.path.join(grid, f))}
        sstate = sched.read()
        victim = str(rng.choice(jobs)) if jobs else None

        def update():
            if op in ('add', 'first'):
                j = jobqueue.jobSettings('new', batchPath=grid)
                j.names, j.jobId = ['base_new', 'base_new2'], '777.master'
                jobqueue.addJobIndex(grid, j)
            elif op == 'delete':
                jobqueue.deleteJobs(grid, jobIds=[victim])
            else:
                jobqueue.deleteJobNames(grid, old[victim][0])

        def child(mode, k):
            pid = os.fork()
            if pid:
                return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            code = 3
            try:
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                if mode == 'op':
                    count = [0]

                    def hook(event, args):
                        if event in ('open', 'os.remove', 'os.rename', 'os.truncate', 'os.link', 'os.symlink', 'os.unlink', 'shutil.move', 'shutil.copyfile') and \
                                any(isinstance(a, (str, bytes)) and 'jobIndex' in os.fsdecode(a) for a in args):
                            if count[0] == k:
                                os._exit(9)
                            count[0] += 1

                    sys.addaudithook(hook)
                elif mode == 'full':
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.RLIM_INFINITY))
                elif mode == 'unpicklable':
                    import io
                    real = pickle.Pickler

                    class Bad:
                        def __reduce__(self):
                            raise RuntimeError('interrupted')
                    idx = jobqueue.loadJobIndex(grid)
                    idx.zzz = Bad()
                    jobqueue.saveJobIndex(idx, grid)
                update()
                code = 0
            except BaseException:
                code = 4
            finally:
                os._exit(code)

        def restore():
            for f in os.listdir(grid):
                if os.path.isfile(os.path.join(grid, f)):
                    os.remove(os.path.join(grid, f))
            for f, v in snap.items():
                with open(os.path.join(grid, f), 'wb') as h:
                    h.write(v)
            sched.write(sstate)

        rc = child('none', 0)
        rec.eq(rc, 0, 'index update fails', op=op)
        new = content()
        exp = dict(old, **{'777.master': ('new', ['base_new', 'base_new2'])}) if op in ('add', 'first') else {i: v for i, v in old.items() if i != victim}
        rec.eq(new, exp, 'index after the update', op=op)
        size = len(open(os.path.join(grid, 'jobIndex.pyobj'), 'rb').read())
        seen = set()
        k = 0
        plan = [('op', i) for i in range(40)] + [('full', int(v)) for v in rng.integers(0, size, 4)] + [('unpicklable', 0)]
        done_ops = False
        for mode, k in plan:
            if mode == 'op' and done_ops:
                continue
            if mode == 'full' and op == 'delete' and k < 3000 and False:
                continue
            restore()
            rc = child(mode, k)
            if mode == 'op' and rc != 9:
                rec.eq(rc, 0, 'index update fails', op=op)
                done_ops = True
            try:
                c = content()
            except Exception as e:
                rec.check(False, 'index not readable after a crash while updating it', op=op, at=(mode, k), error=repr(e))
            rec.check(c == old or c == new, 'index after a crash has neither its previous nor its new content', op=op, at=(mode, k), got=c, previous=old, new=new)
            seen.add((mode, k if mode == 'op' else 0, c == new))
            # the index can be used afterwards
            if rng.random() < 0.3:
                rc = child('none', 0)
                rec.eq(rc, 0, 'index update fails after a crash', op=op, at=(mode, k))
                rec.eq(content(), new, 'index update after a crash', op=op, at=(mode, k))
            rec.ev('crash points')
            rec.sig(op, mode, k if mode == 'op' else k * 8 // size, c == new, n)
        rec.check(done_ops, 'crash points not all reached', op=op)


def scripts(rng, rec):
    """the command line tools on a real grid"""
    from paramgrid import jobqueue
    kind = str(rng.choice(['PBS', 'OGS']))
    d = gridgen.gen_def(rng, filters=False)
    if not d['groups']:
        raise core.Skip
    top, sched = setup(rng, rec, kind)
    path, b, m = make_grid(rng, rec, d, 'g')
    runs = model_runs(b, d)
    jobs = {}
    env = dict(os.environ, PYTHONPATH=core.EXE, **sched.env())
    with environment(sched, top):
        chosen = [runs[int(i)] for i in rng.choice(len(runs), min(len(runs), 6), replace=False)]
        for r in chosen:
            nm = r.name + ('_minimize' if rng.random() < 0.3 else '')
            n0 = set(j['id'] for j in sched.read()['jobs'])
            jobqueue.submitJob(nm, [os.path.join(path, 'iniFiles', nm)], batchPath=path)
            jid = [j['id'] for j in sched.read()['jobs'] if j['id'] not in n0][0]
            jobs[jid] = (r, nm)
            if rng.random() < 0.4:
                sched.set_state(jid, 'R')
        sched.add_foreign('5000.master' if kind == 'PBS' else '5000')
    live = {j['id']: j['state'] for j in sched.read()['jobs']}
    cancelled = set()
    hist = []
    for _ in range(3):
        tool = str(rng.choice(['running', 'delete', 'delete']))
        q = query(rng, runs) if rng.random() < 0.5 else {}
        flag = [[], ['--queued'], ['--running']][int(rng.integers(3))]
        inq = [i for i in jobs if i not in cancelled]
        okstate = lambda i: not flag or live[i] == {'--queued': 'Q', '--running': 'R'}[flag[0]]
        if tool == 'running':
            cmd = ['runningJobs.py', path] + argv(rng, q) + flag
            exp = [i for i in inq if okstate(i) and matches(q, jobs[i][0])]
        else:
            how = int(rng.integers(4))
            confirm = bool(rng.random() < 0.7)
            nums = sorted(number(i) for i in jobs)
            if how == 0:
                sel = [i for i in inq if matches(q, jobs[i][0])]
                extra = argv(rng, q)
            elif how == 1:
                lo = int(rng.choice(nums))
                hi = int(rng.choice(nums))
                sel = [i for i in inq if lo <= number(i) <= hi]
                extra = ['--delete_id_range', str(lo), str(hi)]
            elif how == 2:
                lo = int(rng.choice(nums))
                sel = [i for i in inq if number(i) >= lo]
                extra = ['--delete_id_min', str(lo)]
            else:
                ids = [int(v) for v in rng.choice(nums, min(len(nums), 2), replace=False)]
                sel = [i for i in inq if number(i) in ids]
                extra = ['--delete_ids'] + [str(i) for i in ids]
            exp = [i for i in sel if okstate(i)] if confirm else []
            cmd = ['deleteJobs.py', path] + extra + flag + ['--confirm'] * confirm
        n0 = len(sched.read()['cancelled'])
        hist.append(cmd)
        rec.set(history=[[c[0]] + c[2:] for c in hist], jobs={i: (nm, live[i]) for i, (r, nm) in jobs.items()})
        out = subprocess.run([sys.executable, os.path.join(core.EXE, cmd[0])] + cmd[1:], capture_output=True, text=True, env=env, cwd=top)
        rec.eq(out.returncode, 0, 'tool fails', err=out.stderr[-600:])
        got = sched.read()['cancelled'][n0:]
        if tool == 'running':
            listed = [line.split()[0] for line in out.stdout.splitlines() if ' |' in line]
            rec.eq(sorted(listed), sorted(exp), 'tool does not list exactly the matching jobs')
            rec.eq(got, [], 'listing jobs cancels some')
        else:
            rec.eq(sorted(got), sorted(exp), 'tool does not cancel exactly the matching jobs')
            cancelled |= set(got)
        with environment(sched, top):
            ids = jobqueue.queue_job_details(path)[0]
            rec.eq(sorted(ids), sorted(i for i in jobs if i not in cancelled), 'queue listing after the tool')
        rec.sig(tool, sorted(q), flag, len(exp), len(inq))


GROUPS = dict(history=(history, 240, 4000), crash=(crash, 24, 400), scripts=(scripts, 12, 250))
QUICK_BUDGET = 70
THOROUGH_BUDGET = 320
