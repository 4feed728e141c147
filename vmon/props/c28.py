"""A seeded experiment is reproducible: in every process, whatever was done before, it does exactly the same."""
import json
import os
import subprocess
import sys

from ..core import Skip

ID = 'C28'
RULE = ('A case is a batch of 40 seeded experiments, each run in three processes that differ in string hashing, memory layout and '
        'the order of the experiments; the recorded queries, answers, results and statistics must be the same. '
        'Distinct = different experiment logs.')
FAMILIES = ['lstar', 'kv', 'lsharp', 'adaptive', 'vpa', 'rpni', 'papni', 'alergia', 'gsm', 'stochastic', 'onfsm', 'generators',
            'tools']
FLOORS = {'experiments': 5000, 'runs': 15000, 'log_entries': 500000}
FLOORS.update({f'completed_{f}': 300 for f in FAMILIES})
BATCH = 40
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def plan(tier):
    n = 12 if tier == 'quick' else 120
    return [(f, n) for f in FAMILIES]


def child(family, first, count, seed, hashseed, junk, reverse, full=False):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), REPRO_JUNK=str(junk), PYTHONDONTWRITEBYTECODE='1')
    env.pop('REPRO_REVERSE', None)
    if reverse:
        env['REPRO_REVERSE'] = '1'
    p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'vmon.repro', family, str(first), str(count), str(seed)] +
                         (['full'] if full else []), cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        out, err = p.communicate(timeout=200)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Skip('experiments took too long')
    if p.returncode:
        raise RuntimeError('child failed: ' + err[-1500:])
    return {r[0]: r[1:] for r in map(json.loads, out.splitlines())}


def run(family, idx, rng, mon):
    seed = rng.getrandbits(30)
    ways = [(0, 0, False), (rng.randint(1, 10 ** 6), rng.randint(1, 3000), False), (rng.randint(1, 10 ** 6), rng.randint(1, 3000), True)]
    first = idx * BATCH
    res = [child(family, first, BATCH, seed, *w) for w in ways]
    for i in range(first, first + BATCH):
        a = res[0][i]
        for r, w in zip(res[1:], ways[1:]):
            b = r[i]
            if a[:2] != b[:2]:
                x = child(family, *(first, BATCH), seed, *ways[0], full=True)[i][2]
                y = child(family, *(first, BATCH), seed, *w, full=True)[i][2]
                d = next((k for k, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
                mon.fail('not-reproducible', f'experiment {i} of family {family} took another course in a second process',
                         experiment=x[0][:400] if x else '', position=d, first_run=x[max(0, d - 3):d + 2],
                         second_run=y[max(0, d - 3):d + 2], environments=[ways[0], w])
        mon.ev('runs', 3)
        mon.ev('experiments')
        mon.ev('log_entries', a[0] * 3)
        mon.seen(family, a[1])
        if len(a) > 2:
            mon.ev('raised_' + family)
        elif a[0] > 1:
            mon.ev('completed_' + family)
    mon.sample(family=family, experiments=BATCH, digests=[res[0][i][1][:16] for i in range(first, first + 3)])
