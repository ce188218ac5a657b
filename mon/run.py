import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import core

IDS = ['C%02d' % i for i in range(1, 60)]


def _worker_init():
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    if not os.environ.get('VMON_VERBOSE'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    core.reset_state()


_MOD = None
_KNOWN = ()


def _do(task):
    prop, group, idx, seed, tier, limit = task
    func = _MOD.GROUPS[group][0]
    t = time.time()
    r = core.run_case(prop, group, func, idx, seed, tier, _KNOWN, limit)
    r['t'] = time.time() - t
    return r


def load_module(prop):
    return importlib.import_module('mon.props.' + prop.lower())


def replay(fn):
    d = json.load(open(fn))
    mod = load_module(d['property'])
    known = core.load_known().get(d['property'], {})
    core.reset_state()
    r = core.run_case(d['property'], d['group'], mod.GROUPS[d['group']][0], d['idx'], d['seed'], d['tier'], known,
                      verbose=True)
    print(json.dumps({k: r[k] for k in ('violation', 'events', 'known')}, indent=1))
    if r['violation']:
        print('VIOLATION property=%s replay=%s' % (d['property'], fn))
        return 1
    return 0


def main():
    global _MOD, _KNOWN
    args = sys.argv[1:]
    if args and args[0] == 'replay':
        return replay(args[1])
    prop = args[0].upper()
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = set(args[2].split(',')) if len(args) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    evdir = os.path.join(core.VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
    known = core.load_known().get(prop, {})
    _KNOWN = tuple(known)
    violations = []
    harness = []
    results = []
    broken = 0
    try:
        _MOD = load_module(prop)
    except Exception as e:
        loc = core.repo_frame(e.__traceback__)
        if not loc:
            traceback.print_exc()
            return 2
        violations.append(dict(group='import', idx=0, violation=dict(
            msg='code under test cannot be imported: %s (%s)' % (e, loc), witness=dict(tb=traceback.format_exc()[-1500:]))))
    budget = {'quick': getattr(_MOD, 'QUICK_BUDGET', 150), 'thorough': getattr(_MOD, 'THOROUGH_BUDGET', 1500)}[tier]
    budget = float(os.environ.get('VMON_BUDGET', budget))
    limit = getattr(_MOD, 'CASE_LIMIT', 240)
    not_run = 0
    if _MOD is not None:
        tasks = []
        scale = float(os.environ.get('VMON_SCALE', '1'))
        for name, (func, nq, nt) in _MOD.GROUPS.items():
            if only and name not in only:
                continue
            n = max(1, int(round((nq if tier == 'quick' else nt) * scale)))
            # interleave groups so that a time limit never starves one of them
            tasks += [((i + 0.5) / n, name, i) for i in range(n)]
        tasks.sort()
        tasks = [(prop, name, i, seed, tier, limit) for _, name, i in tasks]
        if hasattr(_MOD, 'prepare'):
            _MOD.prepare()
        nproc = int(os.environ.get('VMON_PROCS', min(8, os.cpu_count() or 1)))
        sys.stdout.flush()
        from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
        from concurrent.futures.process import BrokenProcessPool
        it = iter(tasks)
        while True:
            ex = ProcessPoolExecutor(nproc, mp_context=mp.get_context('fork'), initializer=_worker_init)
            pending = {}
            stop = False
            try:
                while True:
                    while len(pending) < 2 * nproc and not stop:
                        if time.time() - t0 > budget or len(violations) >= 8:
                            stop = True
                            break
                        t = next(it, None)
                        if t is None:
                            stop = True
                            break
                        pending[ex.submit(_do, t)] = t
                    if not pending:
                        break
                    done, _ = wait(list(pending), return_when=FIRST_COMPLETED)
                    for f in done:
                        t = pending.pop(f)
                        r = f.result()
                        results.append(r)
                        if r.get('harness_error'):
                            harness.append(r)
                        elif r['violation']:
                            violations.append(r)
                ex.shutdown()
                break
            except BrokenProcessPool:
                broken += 1
                ex.shutdown(wait=False, cancel_futures=True)
                if broken > 3:
                    harness.append(dict(harness_error='worker processes keep dying'))
                    break
        not_run = sum(1 for _ in it)

    events, sigs, groups, khits, tgroup = {}, set(), {}, {}, {}
    samples = []
    for r in sorted(results, key=lambda r: (r['group'], r['idx'])):
        for k, n in r['events'].items():
            events[r['group'] + '/' + k] = events.get(r['group'] + '/' + k, 0) + n
        sigs.update((r['group'], s) for s in r['sigs'])
        groups[r['group']] = groups.get(r['group'], 0) + 1
        tgroup[r['group']] = tgroup.get(r['group'], 0) + r['t']
        khits.update(r['known'])
        if r['sample'] and sum(1 for s in samples if s['group'] == r['group']) < 2:
            samples.append(dict(group=r['group'], idx=r['idx'], case=r['sample']))
    lines = []
    for v in violations:
        fn = os.path.join(evdir, 'replays', '%s_%s_%s_%s.json' % (prop, v['group'], v['idx'], seed))
        core.dump_json(fn, dict(property=prop, group=v['group'], idx=v['idx'], seed=seed, tier=tier,
                                violation=v['violation'], replay_cmd='bash run.sh replay ' + fn))
        lines.append((v, fn))
    wall = time.time() - t0
    rule = getattr(_MOD, 'RULE', '') or 'one case = one generated workload run against the real code; distinct_nontrivial ' \
        'counts distinct recorded situation signatures among cases that produced oracle decisions'
    core.dump_json(os.path.join(evdir, prop + '.json'), dict(
        property=prop, tier=tier, seed=seed,
        level='fault_enumeration' if getattr(_MOD, 'FAULTS', False) else 'exploration',
        coverage=dict(evaluations=len(results), distinct_nontrivial=len(sigs), rule=rule, samples=samples[:12],
                      oracle_decisions=sum(events.values()), decisions_by_oracle=events, cases_by_group=groups,
                      skipped=sum(1 for r in results if r['skipped']), cases_not_run_for_time=not_run,
                      worker_restarts=broken, known_findings_seen=sorted(khits),
                      cpu_s_by_group={k: round(v, 2) for k, v in tgroup.items()}),
        assumptions=getattr(_MOD, 'ASSUMPTIONS', ['the explored workloads represent use; oracles are independent '
                                                  'implementations in /verif']),
        wall_s=round(wall, 2), violations=len(violations)))
    for k in sorted(khits):
        print('KNOWN-FINDING: property=%s %s %s' % (prop, k, known.get(k, '')))
    for v, fn in lines[:4]:
        print('%s group %s case %s: %s' % (prop, v['group'], v['idx'], v['violation']['msg']))
        if os.environ.get('VMON_SHOW'):
            print(json.dumps(v['violation'].get('witness'), indent=1).replace('\\n', '\n'))
    print('%s %s seed=%s: %d cases, %d oracle decisions, %d distinct situations, %d violations, %.1f s'
          % (prop, tier, seed, len(results), sum(events.values()), len(sigs), len(violations), wall))
    if os.environ.get('VMON_TIMES'):
        print({k: (groups[k], round(v, 2)) for k, v in tgroup.items()}, 'skipped',
              {g: sum(1 for r in results if r['skipped'] and r['group'] == g) for g in groups})
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop, lines[0][1]))
        return 1
    if harness:
        print('INCONCLUSIVE: ' + harness[0]['harness_error'])
        return 2
    if not only:
        silent = [g for g in _MOD.GROUPS if not any(k.startswith(g + '/') for k in events)]
        if silent:
            print('INCONCLUSIVE: no oracle decisions in group(s) %s' % silent)
            return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
