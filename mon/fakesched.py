"""A recording stand-in for a cluster scheduler: real executables found through PATH that keep the queue in a scratch directory and never run or kill anything."""
import json
import os
import stat
import sys

SCRIPT = r'''#!%(py)s -SE
import json, os, sys
D = %(dir)r
fn = os.path.join(D, 'state.json')
with open(fn) as f:
    st = json.load(f)
cmd = os.path.basename(sys.argv[0])
kind = st['kind']
st['log'].append([cmd] + sys.argv[1:])
out = ''
rc = 0
if cmd in ('qsub', 'msub'):
    if st.get('fail'):
        rc = 1
        sys.stderr.write('submission refused\n')
    elif st.get('silent'):
        pass
    else:
        with open(sys.argv[-1]) as f:
            script = f.read()
        st['next'] += st.get('step', 1)
        num = str(st['next'])
        jid = num if st.get('short') else {'PBS': num + '.master', 'OGS': num, 'MOAB': 'Moab.' + num}[kind]
        st['jobs'].append(dict(id=jid, user=st['user'], state='Q', script=script, name=os.path.basename(sys.argv[-1])[:10]))
        out = {'PBS': jid + '\n', 'OGS': 'Your job %%s ("%%s") has been submitted\n' %% (num, os.path.basename(sys.argv[-1])), 'MOAB': '\n' + jid + '\n'}[kind]
elif cmd in ('qdel', 'canceljob', 'mycancel'):
    for j in sys.argv[1:]:
        st['cancelled'].append(j)
        if any(x['id'] == j for x in st['jobs']):
            st['jobs'] = [x for x in st['jobs'] if x['id'] != j]
        else:
            rc = 1
            sys.stderr.write('unknown job\n')
elif cmd == 'qstat' and '-help' in sys.argv:
    out = 'OGS/GE 2011.11\nusage: qstat\n' if kind == 'OGS' else 'usage: qstat\n'
elif cmd in ('qstat', 'showq'):
    user = None
    for a, b in zip(sys.argv, sys.argv[1:]):
        if a in ('-u', '-U'):
            user = b
    jobs = [dict(j, id={'PBS': j['id'] + '.master', 'OGS': j['id'], 'MOAB': 'Moab.' + j['id']}[kind] if j['id'].isdigit() and st.get('short') else j['id']) for j in st['jobs']]
    jobs = [j for j in jobs if user is None or j['user'] == user or st.get('all_users')]
    if kind == 'PBS':
        out = '\nmaster:\n                                                      Req\'d  Elap\nJob ID               Username Queue    Jobname    SessID S Time\n' + '-' * 60 + '\n'
        for j in jobs:
            out += '%%-20s %%-8s batch    %%-10s    123 %%s 00:01\n' %% (j['id'], j['user'], j['name'], j['state'])
    elif kind == 'OGS':
        out = 'job-ID  prior   name       user         state submit/start at     queue\n' + '-' * 70 + '\n'
        for j in jobs:
            out += '%%7s 0.55500 %%-10s %%-12s %%-5s 01/01/2015 10:00:00 all.q@node\n' %% (j['id'], j['name'], j['user'], {'Q': 'qw', 'R': 'r'}[j['state']])
    else:
        out = '\nactive jobs------------------------\nJOBID              USERNAME      STATE PROCS   REMAINING            STARTTIME\n\n'
        for j in jobs:
            out += '%%-18s %%-8s %%10s     8    1:00:00  Mon Jan  1\n' %% (j['id'], j['user'], {'Q': 'Idle', 'R': 'Running'}[j['state']])
        out += '\nTotal jobs: %%d   \n' %% len(jobs)
with open(fn + '.tmp', 'w') as f:
    json.dump(st, f)
os.rename(fn + '.tmp', fn)
sys.stdout.write(out)
sys.exit(rc)
'''


class Scheduler:
    def __init__(self, top, kind, user='alice'):
        self.dir = os.path.join(top, 'sched')
        self.bin = os.path.join(self.dir, 'bin')
        os.makedirs(self.bin)
        self.kind = kind
        self.user = user
        for c in {'PBS': ['qsub', 'qstat', 'qdel', 'mycancel'], 'OGS': ['qsub', 'qstat', 'qdel', 'mycancel'],
                  'MOAB': ['msub', 'showq', 'canceljob', 'qstat', 'qdel', 'qsub', 'mycancel']}[kind]:
            fn = os.path.join(self.bin, c)
            with open(fn, 'w') as f:
                f.write(SCRIPT % dict(py=os.path.realpath(sys.executable), dir=self.dir))
            os.chmod(fn, os.stat(fn).st_mode | stat.S_IXUSR)
        self.write(dict(kind=kind, user=user, next=100, jobs=[], log=[], cancelled=[]))

    def read(self):
        with open(os.path.join(self.dir, 'state.json')) as f:
            return json.load(f)

    def write(self, st):
        with open(os.path.join(self.dir, 'state.json'), 'w') as f:
            json.dump(st, f)

    def update(self, **kw):
        st = self.read()
        st.update(kw)
        self.write(st)

    def env(self):
        # only the stand-ins and the basic system tools are reachable
        return dict(PATH=self.bin + os.pathsep + '/usr/bin' + os.pathsep + '/bin', USER=self.user)

    def set_state(self, jid, state):
        st = self.read()
        for j in st['jobs']:
            if j['id'] == jid:
                j['state'] = state
        self.write(st)

    def finish(self, jid):
        st = self.read()
        st['jobs'] = [j for j in st['jobs'] if j['id'] != jid]
        self.write(st)

    def add_foreign(self, jid, user=None, state='Q'):
        st = self.read()
        st['jobs'].append(dict(id=jid, user=user or self.user, state=state, script='', name='other'))
        self.write(st)
