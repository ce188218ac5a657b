"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os

V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=list(state), observe=list(observe)))


G = 'python/getdist/'
exec(open(os.path.join(V, 'tools', 'properties_def.py')).read())


def main():
    implemented = {p['id'] for p in P
                   if os.path.exists(os.path.join(V, 'mon', 'props', p['id'].lower() + '.py'))}
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            rec = dict(id=p['id'], title=p['title'], statement=p['statement'],
                       quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                       anchors=dict(files=p['files'],
                                    mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                    observe_at=p['observe'] or ['public API and written files'], hook_needed=None))
            f.write(json.dumps(rec) + '\n')
    man = dict(version=1, setup_cmd='bash setup.sh',
               checks=[dict(property=p['id'], quick_cmd='bash run.sh %s quick' % p['id'],
                            thorough_cmd='bash run.sh %s thorough' % p['id'], technique=p['technique'],
                            level='fault_enumeration' if p['id'] in ('C28',) else 'exploration',
                            level_note=p['note'], evidence_file='evidence/%s.json' % p['id'])
                       for p in P if p['id'] in implemented],
               not_applicable=[dict(property=p['id'], reason='check not built yet') for p in P
                               if p['id'] not in implemented],
               notes='Pure Python target: no hooks in /repo; monitors attach at run time from /verif. '
                     'See DESIGN.md and known_findings.txt.')
    if not man['not_applicable']:
        man['not_applicable'] = []
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(implemented), 'claimed')


main()
