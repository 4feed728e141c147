"""Rewrites the "fixed" list of known_findings.json from the fix commits of /repo (python3 tools/gen_known.py)."""
import json
import os
import subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(H + '/tools/fix_map.json'))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        p = next((m[k] for k in m if h.startswith(k) or k.startswith(h)), None)
        if p is None:
            print('unassigned', l)
            continue
        fixed.append(f'fixed: property={p} {h} {s[4:].strip()}')
k = json.load(open(H + '/known_findings.json'))
k['fixed'] = fixed
json.dump(k, open(H + '/known_findings.json', 'w'), indent=1, ensure_ascii=False)
print(len(fixed))
