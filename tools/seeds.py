#!/usr/bin/env python3
"""Build and confirm planted bugs from tools/seed_specs/*.py (development tool only; no check reads this).

usage: seeds.py build ID...   -> writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json}, confirming in scratch copies that
                                  the demo passes clean / fails patched, the tree builds and the stable tests still pass
       seeds.py detect ID...  -> applies to a scratch copy and runs the property's quick check on it (VREPO)
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

def specs():
    out = {}
    for f in sorted(glob.glob(VERIF + '/tools/seed_specs/*.py')):
        sp = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out.update(m.SEEDS)
    return out

DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD/python" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nHERE="$(cd "$(dirname "$0")" && pwd)"\nexec /opt/venv/bin/python "$HERE/demo.py"\n'
HEAD = 'import os, sys, tempfile\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.join(os.getcwd(), "python"))\n'

def copy():
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    w = os.path.join(d, 'repo')
    shutil.copytree('/repo', w, symlinks=True)
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
    return d, w

def run_demo(sd, w):
    env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF')}
    return subprocess.run(['bash', sd + '/demo.sh'], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)

def tests(w):
    stable = json.load(open('/opt/vp/BASELINE.json'))
    x = w + '/../junit.xml'
    tmp = os.path.dirname(w) + '/tmp'
    os.makedirs(tmp)
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + w + '/python', '--timeout=300', '-x' if 0 else '-q',
                    '-o', 'junit_family=xunit2', '--junitxml=' + x, 'getdist/tests'], cwd=w + '/python',
                   env=dict(os.environ, PYTHONPATH=w + '/python', MPLBACKEND='Agg', TMPDIR=tmp, HOME=tmp, XDG_CACHE_HOME=tmp + '/c', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PATH='/opt/venv/bin:' + os.environ['PATH']), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    import xml.etree.ElementTree as ET
    ok = set()
    for t in ET.parse(x).iter('testcase'):
        if not [c for c in t if c.tag in ('failure', 'error', 'skipped')]:
            ok.add(t.get('name'))
    names = stable.get('stable') or stable.get('passed') or stable.get('tests') or stable
    names = [n if isinstance(n, str) else n.get('name') for n in (names if isinstance(names, list) else list(names))]
    bad = [n for n in names if n.split('::')[-1].split('.')[-1] not in ok]
    return bad

def build(i, s, test=True):
    d, w = copy()
    sd = VERIF + '/seeded/' + i
    try:
        os.makedirs(sd, exist_ok=True)
        open(sd + '/demo.sh', 'w').write(DEMO)
        open(sd + '/demo.py', 'w').write(HEAD + s['demo'].lstrip('\n'))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(sd + '/meta.json', 'w'), indent=1)
        r = run_demo(sd, w)
        if r.returncode:
            return '%s: DEMO FAILS ON CLEAN\n%s' % (i, r.stdout.decode()[-1500:])
        for f, old, new in s['edits']:
            t = open(w + '/' + f).read()
            if t.count(old) != 1:
                return '%s: edit text found %d times in %s' % (i, t.count(old), f)
            open(w + '/' + f, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w, 'diff'])
        open(sd + '/patch.diff', 'wb').write(diff)
        r = run_demo(sd, w)
        if r.returncode == 0:
            return '%s: DEMO PASSES PATCHED' % i
        last = r.stdout.decode().strip().split('\n')[-1][:150]
        bad = tests(w) if test else []
        if bad:
            return '%s: STABLE TESTS FAIL %s' % (i, bad)
        return '%s: ok (%s)' % (i, last)
    finally:
        shutil.rmtree(d)

def detect(i, prop, tier='quick'):
    d, w = copy()
    try:
        subprocess.check_call(['git', '-C', w, 'apply', VERIF + '/seeded/%s/patch.diff' % i])
        r = subprocess.run(['bash', VERIF + '/run.sh', prop, tier], cwd=VERIF, env=dict(os.environ, VREPO=w),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        v = [l for l in r.stdout.decode().split('\n') if l.startswith('VIOLATION')]
        return '%s %s: %s %s' % (i, prop, 'CAUGHT' if r.returncode == 1 and v else 'missed rc=%d' % r.returncode, len(v))
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    sp = specs()
    ids = sys.argv[2:] or sorted(sp)
    from concurrent.futures import ThreadPoolExecutor
    if sys.argv[1] == 'build':
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(lambda i: build(i, sp[i]), ids):
                print(r, flush=True)
    else:
        for i in ids:
            print(detect(i, sp[i]['property']), flush=True)
