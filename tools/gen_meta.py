"""Writes properties.jsonl and MANIFEST.json from the texts below (python3 tools/gen_meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))


D = 'aalpy/learning_algs/deterministic/'
exec(open(os.path.join(HERE, 'tools', 'prop_texts.py')).read())

NOT_APPLICABLE = {}


def main():
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['id']
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['observe']:
                a['observe_at'] = p['observe'].split(', ')
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=a)) + '\n')
    checks = []
    na = []
    for p in sorted(P, key=lambda p: p['id']):
        if os.path.exists(os.path.join(HERE, 'vmon', 'props', p['id'].lower() + '.py')):
            checks.append(dict(property=p['id'], quick_cmd=f'./check {p["id"]} --quick',
                               thorough_cmd=f'./check {p["id"]} --thorough', technique=p['technique'],
                               level='exploration', level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason=NOT_APPLICABLE.get(p['id'], 'check not built yet')))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='Pure Python, nothing is compiled: every check imports aalpy from /repo (current working tree). '
                   'No hooks were added to /repo; monitors observe the system-under-learning interface, oracle calls, '
                   'results and files. Genuine defects were repaired in "fix:" commits, see known_findings.json.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(checks), 'checks')


main()
