"""C34: submitted jobs ask for the resources and run the commands that were requested."""
import contextlib
import io
import os
import re
import shutil
import subprocess
import sys

import numpy as np

from .. import core, fakesched
from .c28 import environment, number

RULE = 'a case is one job submission (library call or runMPI.py) with settings given as arguments, in the job template (generated, or one of those shipped), in the environment or not at ' \
       'all, to a recording stand-in scheduler; the script received by the scheduler, the command line used, the index entry and the files left are compared with a precedence model and ' \
       'with resource arithmetic; distinct = (sources of each setting, runs, template, outcome)'
ASSUMPTIONS = ['the number of cores of this machine, used when nothing is specified, is not prescribed']

FIELDS = ['JOBNAME', 'OMP', 'MEM_MB', 'WALLTIME', 'NUMNODES', 'NUMRUNS', 'NUMMPI', 'CHAINSPERNODE', 'PPN', 'MPIPERNODE', 'NUMTASKS', 'NUMSLOTS', 'ROOTDIR', 'ONERUN', 'PROGRAM', 'QUEUE', 'JOBCLASS']
BUILTIN = dict(mem_per_node='63900', walltime='24:00:00', program='./cosmomc', queue='', jobclass='', runsPerJob='1')
SHIPPED = ['job_script', 'job_script_DARWIN', 'job_script_MOAB', 'job_script_SLURM', 'job_script_UGE']


def value(rng, key):
    if key == 'coresPerNode':
        return str(rng.choice([1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48]))
    if key == 'chainsPerNode':
        return str(rng.choice([1, 1, 2, 2, 3, 4]))
    if key == 'nodes':
        return str(rng.choice([1, 2, 3, 5]))
    if key == 'mem_per_node':
        return str(int(rng.integers(1000, 90000)))
    if key == 'walltime':
        return '%02d:%02d:00' % (rng.integers(1, 99), rng.integers(0, 60))
    if key == 'program':
        return str(rng.choice(['./cosmomc', '/opt/bin/cosmo', './python/run.sh -x', '../cosmomc_dev']))
    return '%s%d' % (key[:3], rng.integers(1, 99))


def generated(rng, tdef, run):
    rows = ['#!/bin/bash'] + ['#X %s=[##%s##]' % (f, f) for f in FIELDS] + ['#Y again ##JOBNAME## ##OMP##x##OMP##']
    rows += ['##DEFAULT_%s: %s ##' % (k, v) for k, v in tdef.items()]
    if run:
        rows.append('##RUN: go ##NUMMPI##x##OMP## ##PROGRAM## ##INI## > ./scripts/##INIBASE##.log ##')
    rows += ['##COMMAND##', 'wait']
    if rng.random() < 0.3:
        return '\r\n'.join(rows) + '\r\n'
    return '\n'.join(rows) + '\n'


def submission(rng, rec, shipped=None):
    from paramgrid import jobqueue
    kind = str(rng.choice(['PBS', 'OGS'])) if shipped != 'job_script_MOAB' else 'MOAB'
    if shipped is None and rng.random() < 0.3:
        kind = 'MOAB'
    top = os.path.join(rec.tmp, 'work')
    os.makedirs(os.path.join(top, 'scripts'))
    sched = fakesched.Scheduler(rec.tmp, kind)
    keys = ['coresPerNode', 'chainsPerNode', 'nodes', 'mem_per_node', 'walltime', 'program', 'queue', 'jobclass']
    src = {}  # key -> {source: value}
    for k in keys:
        d = src[k] = {}
        for s, p in [('arg', 0.35), ('template', 0.35 if shipped is None else 0), ('env', 0.3)]:
            if rng.random() < p:
                d[s] = value(rng, k)
    if shipped is None:
        run = bool(rng.random() < 0.6)
        tdef = {k: d['template'] for k, d in src.items() if 'template' in d}
        text = generated(rng, tdef, run)
        if rng.random() < 0.3:
            tdef['qdel'] = 'qdel' if kind != 'MOAB' else 'canceljob'
    else:
        with open(os.path.join(core.REPO, shipped)) as f:
            text = f.read()
        for k, v in re.findall(r'^##DEFAULT_(\w+):(.*?)##', text, re.M):
            if k in src:
                src[k]['template'] = v.strip()
        run = '##RUN:' in text
    tname = str(rng.choice(['job_script', 'my_template']))
    with open(os.path.join(top, tname), 'w', newline='') as f:
        f.write(text)
    kwargs = {}
    env = {'COSMOMC_' + k: d['env'] for k, d in src.items() if 'env' in d}
    if tname != 'job_script':
        if rng.random() < 0.5:
            kwargs['job_template'] = tname
        else:
            env['COSMOMC_job_template'] = tname
    for k, d in src.items():
        if 'arg' in d:
            kwargs[k] = int(d['arg']) if k in ('coresPerNode', 'chainsPerNode', 'nodes', 'mem_per_node') else d['arg']
        elif rng.random() < 0.3:
            kwargs[k] = None
    exp = {k: d.get('arg') or d.get('template') or d.get('env') or BUILTIN.get(k) for k, d in src.items()}
    script_tool = bool(rng.random() < 0.15)
    nruns = int(rng.choice([1, 1, 2, 3])) if not script_tool else int(rng.choice([1, 1, 2]))
    seq = bool(nruns > 1 and rng.random() < 0.4 and not script_tool)
    per = int(rng.choice([1, 2, 3])) if not script_tool and rng.random() < 0.3 else None
    if per:
        kwargs['runsPerJob'] = per
    mode = str(rng.choice(['sub'] * 6 + ['dryrun', 'no_sub']))
    if mode != 'sub':
        kwargs[mode] = True
    sub = 'msub' if kind == 'MOAB' else 'qsub'
    opt = None
    if shipped is None and rng.random() < 0.3:
        opt = '-l n=##NUMNODES##:##PPN##'
        kwargs['qsub'] = sub + ' ' + opt
    runs = ['base_%s%d' % (str(rng.choice(['mnu', 'plikHM.TT', 'a.ini.b', 'x'])) if not script_tool else 'mnu', i) for i in range(nruns)]
    files = [os.path.join('iniFiles', r) + ('.ini' if rng.random() < 0.5 or '.ini.' in r else '') for r in runs]
    name = str(rng.choice(['myjob', 'base_joint-2'])) if not script_tool else runs[0]
    rec.set(sources=src, kwargs={k: v for k, v in kwargs.items()}, env=env, files=files, sequential=seq, template=shipped or tname, scheduler=kind)
    grid = None
    if rng.random() < 0.5 and not script_tool:
        grid = os.path.join(top, 'grid') + os.sep
        os.makedirs(grid)
        kwargs['batchPath'] = grid
    err = None
    with environment(sched, top):
        os.environ.update(env)
        if script_tool:
            args = []
            for k, v in kwargs.items():
                if v is True:
                    args += ['--' + k]
                elif v is not None:
                    args += ['--' + k, str(v)]
            out = subprocess.run([sys.executable, os.path.join(core.EXE, 'runMPI.py')] + args + files if rng.random() < 0.5 else
                                 [sys.executable, os.path.join(core.EXE, 'runMPI.py')] + files + args,
                                 capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=core.EXE), cwd=top)
            if out.returncode:
                err = out.stderr[-500:]
        else:
            try:
                jobqueue.submitJob(name, list(files) if nruns > 1 or rng.random() < 0.5 else files[0], sequential=seq, **kwargs)
            except Exception as e:
                err = '%s: %s' % (type(e).__name__, e)
        index = jobqueue.loadJobIndex(grid) if not script_tool else jobqueue.loadJobIndex(None)
    jobs = sched.read()['jobs']
    log = [x for x in sched.read()['log'] if x[0] in ('qsub', 'msub')]
    cores, cpn = exp['coresPerNode'], exp['chainsPerNode']
    par = 1 if seq else nruns
    bad = cores and cpn and (int(cores) % (int(cpn) * (per or 1)) != 0 or mode != 'dryrun' and int(cpn) * par > int(cores))
    rec.sig(shipped, tuple(sorted((k, tuple(sorted(d))) for k, d in src.items())), nruns, seq, mode, bool(bad))
    if err is not None:
        if cores and cpn:
            rec.check(bad, 'submission of possible resources fails', err=err)
        rec.check('cores' in err, 'submission fails for another reason', err=err)
        rec.eq((jobs, sorted(os.listdir(os.path.join(top, 'scripts')))), ([], []), 'failed submission leaves files or jobs')
        rec.ev('refused')
        return
    rec.check(not bad, 'chains with fractions of cores accepted')
    if mode == 'dryrun':
        rec.eq((jobs, log, sorted(os.listdir(os.path.join(top, 'scripts')))), ([], [], []), 'dry run submits or writes something')
        rec.ev('dryrun')
        return
    sfile = os.path.join(top, 'scripts', name + '_subscript')
    rec.check(os.path.exists(sfile), 'no submission script written', files=os.listdir(os.path.join(top, 'scripts')))
    with open(sfile) as f:
        script = f.read()
    if mode == 'no_sub':
        rec.eq((jobs, log), ([], []), 'job submitted with no_sub')
        rec.check(not index or not index.jobSettings, 'job that was not submitted is in the index')
    else:
        rec.eq(len(jobs), 1, 'one job submitted')
        rec.eq(jobs[0]['script'], script, 'submitted script is the one written')
    if '\r' in script:
        rec.check(False, 'carriage returns in the script', script=script)
    rec.check(not re.search('##(%s|COMMAND|INI|INIBASE)##' % '|'.join(FIELDS), '\n'.join(l for l in script.splitlines() if not l.startswith('##RUN:'))),
              'placeholders left in the script', script=script)
    # what the script asks for
    if shipped is None:
        got = {}
        for l in script.splitlines():
            m = re.fullmatch(r'#X (\w+)=\[(.*)\]', l)
            if m:
                got[m.group(1)] = m.group(2)
        rec.eq(sorted(got), sorted(FIELDS), 'every value filled in')
        vals = got
        rec.check('#Y again %s %sx%s' % (name, got['OMP'], got['OMP']) in script.splitlines(), 'placeholder used several times', script=script)
    else:
        vals = {}
        tl = text.replace('\r', '').splitlines()
        sl = script.splitlines()
        for l in tl:
            if l.startswith('##') or '##COMMAND##' in l:
                continue
            ph = re.findall(r'##(\w+)##', l)
            if not ph:
                rec.check(l in sl, 'line of the template lost', line=l)
                continue
            pat = '(.*)'.join(re.escape(q) for q in re.split(r'##\w+##', l))
            mm = [m for m in (re.fullmatch(pat, q) for q in sl) if m and not m.group(0).startswith('##')]
            if mm and len(set(m.groups() for m in mm)) == 1:
                for p, v in zip(ph, mm[0].groups()):
                    vals.setdefault(p, v)
        rec.check('OMP' in vals and 'WALLTIME' in vals and 'ROOTDIR' in vals, 'values filled in the shipped template', script=script, got=vals)
    for f, k in [('MEM_MB', 'mem_per_node'), ('WALLTIME', 'walltime'), ('PROGRAM', 'program'), ('QUEUE', 'queue'), ('JOBCLASS', 'jobclass'), ('NUMNODES', 'nodes'), ('CHAINSPERNODE', 'chainsPerNode')]:
        if f in vals and exp[k] is not None:
            rec.eq(vals[f].strip() if f in ('QUEUE', 'JOBCLASS') else vals[f], exp[k], 'setting in the script is not the one given with highest precedence', setting=k)
    nodes = int(exp['nodes'] or vals.get('NUMNODES') or 0)
    chains = int(cpn or vals.get('CHAINSPERNODE') or 0)
    omp = int(vals['OMP'])
    rec.check(omp > 0, 'chains without a core')
    if 'JOBNAME' in vals:
        rec.eq(vals['JOBNAME'].strip(), name, 'name of the job')
    rec.eq(os.path.realpath(vals['ROOTDIR']), os.path.realpath(top), 'directory of the job')
    if cores and chains:
        rec.eq(omp, int(cores) // (chains * par), 'threads of each chain')
    if chains:
        for f, v in [('PPN', chains * par * omp), ('MPIPERNODE', chains * par)]:
            if f in vals:
                rec.eq(int(vals[f]), v, 'resources per node', field=f)
        if nodes:
            for f, v in [('NUMMPI', nodes * chains), ('NUMTASKS', nodes * chains * par), ('NUMSLOTS', chains * par * omp * nodes)]:
                if f in vals:
                    rec.eq(int(vals[f]), v, 'resources of the job', field=f)
    if 'NUMRUNS' in vals:
        rec.eq(int(vals['NUMRUNS']), par, 'runs at the same time')
    if 'ONERUN' in vals:
        rec.eq(vals['ONERUN'], '1' if nruns == 1 or seq else '0', 'single run at a time')
    rec.ev('resources')
    # the commands
    prog = exp['program']
    body = [l for l in script.splitlines() if not l.startswith('#')]
    cmds = [l for l in body if any('iniFiles' + os.sep + r + '.ini' in l for r in runs)]
    rec.eq(len(cmds), nruns, 'one command for each run', script=script)
    for r, c in zip(runs, cmds):
        rec.check(prog + ' ' + os.path.join('iniFiles', r) + '.ini ' in c, 'command of the run, in order', command=c, run=r)
        rec.check(('./scripts/%s.log' % r if run else './scripts/%s.ini.log' % r) in c, 'log file of the run', command=c)
        if nruns > 1:
            rec.eq(c.rstrip().endswith('&'), not seq, 'runs one after another only if asked', command=c)
        if nodes and chains:
            m = re.search(r'(?:-np|go) (\d+)', c)
            if m:
                rec.eq(int(m.group(1)), nodes * chains, 'number of chains in the command', command=c)
        if not nodes or not chains:
            continue
        m = re.search(r'go \d+x(\d+) ', c)
        if m:
            rec.eq(int(m.group(1)), omp, 'threads in the command', command=c)
    if nruns > 1:
        with open(os.path.join(top, 'scripts', name + '.batch')) as f:
            rec.eq(f.read().split(), [os.path.join('iniFiles', r) for r in runs], 'list of the files of the job')
    if mode == 'sub':
        rec.eq(len(log), 1, 'one submission command')
        rec.eq(log[0][0], sub, 'command used to submit')
        rec.eq(os.path.basename(log[0][-1]), name + '_subscript', 'script given to the scheduler')
        if opt and nodes and chains:
            rec.eq(log[0][1:-1], ['-l', 'n=%d:%d' % (nodes, chains * par * omp)], 'options of the submission command')
        jid = jobs[0]['id']
        rec.eq(list(index.jobSettings), [jid], 'job in the index')
        j = index.jobSettings[jid]
        rec.eq((j.jobName, list(j.names)), (name, runs), 'index entry')
        with open(os.path.join(top, 'scripts', name + '.sub')) as f:
            rec.eq(f.read().strip(), jid, 'record of the submission')
        # cancelled with the scheduler's own command
        with environment(sched, top):
            jobqueue.deleteJobs(grid, jid)
        rec.eq([x[0] for x in sched.read()['log'] if x[0] in ('qdel', 'canceljob')], ['canceljob' if kind == 'MOAB' else 'qdel'], 'command used to cancel')
        rec.eq(sched.read()['cancelled'], [jid], 'job cancelled')
    rec.ev('scripts_checked')


def templates(rng, rec):
    submission(rng, rec)


def shipped(rng, rec):
    submission(rng, rec, SHIPPED[rec.idx % len(SHIPPED)])


GROUPS = dict(templates=(templates, 150, 5000), shipped=(shipped, 50, 1500))
QUICK_BUDGET = 120
THOROUGH_BUDGET = 600
