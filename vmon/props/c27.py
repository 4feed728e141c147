"""The PRISM export describes the MDP; model checking results are read, rounded and compared correctly."""
import contextlib
import io
import os
import random
import re
import shutil
import stat
import tempfile
from fractions import Fraction

import aalpy.paths
from aalpy.utils import (mdp_2_prism_format, model_check_experiment, model_check_properties,
                         statistical_model_checking)
from aalpy.utils.ModelChecking import stop_based_on_confidence

from ..stoch import SM, build_sm, gen_sm, probs
from .c22 import ids

ID = 'C27'
RULE = ('A case exports one MDP, reads the PRISM text with an own parser and compares every state, command, probability and '
        'label; or lets a stand-in for PRISM print generated results and compares what is returned; or runs statistical '
        'model checking on a recording model. Distinct = (kind, MDP or results).')
FLOORS = {'exports': 15000, 'commands': 60000, 'labels': 30000, 'prism_runs': 1500, 'results': 2000, 'smc_tests': 200000,
          'smc_estimates': 700, 'stops': 150}


def plan(tier):
    q = tier == 'quick'
    return [('export', 30000 if q else 300000), ('prism', 3000 if q else 15000), ('smc', 8000 if q else 50000),
            ('estimate', 1500 if q else 10000)]


def run(family, idx, rng, mon):
    random.seed(rng.getrandbits(32))
    globals()[family](rng, mon, idx)


KEY = ["mdp", "init", "module", "endmodule", "label"]


def gen_mdp(rng, partial=True):
    n = rng.randint(1, 8)
    A = rng.choice([['a', 'b', 'c'], ['north', 'south_1', 'E2'], ['init', 'module', 'go'], ['label', 'mdp', 'endmodule']])
    A = A[:rng.randint(1, 3)]
    props = ['grass', 'goal', 'mud', 'init', 'mdp', 'x1', 'label', 'a_b']
    so = []
    for _ in range(n):
        r = rng.random()
        if r < .5:
            so.append(rng.choice(props))
        elif r < .6:
            so.append('')
        else:
            k = rng.sample(props, rng.randint(2, 3))
            so.append('__'.join(k) + ('__' if rng.random() < .3 else ''))
    t = []
    for s in range(n):
        row = {}
        for a in A:
            if partial and rng.random() < .25:
                continue
            tg = rng.sample(range(n), rng.randint(1, min(n, 3)))
            pr = probs(rng, len(tg))
            if rng.random() < .1 and len(tg) == 2:
                pr = [1e-05, 0.99999]
            row[a] = [(so[x], x, p) for x, p in zip(tg, pr)]
        t.append(row)
    return SM('mdp', A, t, so, rng.randrange(n))


def clean(sym):
    return f'___{sym}___' if sym in KEY else sym


class Text(Exception):
    pass


def parse(text):
    """(name, range, init, {state: {action: {target: prob}}}, {label: set of states}) of the PRISM text"""
    src = '\n'.join(l for l in text.splitlines() if not l.strip().startswith('//'))
    m = re.match(r'\s*mdp\s+module\s+(\w+)\s+loc\s*:\s*\[\s*(\d+)\s*\.\.\s*(\d+)\s*\]\s*init\s+(\d+)\s*;(.*?)\bendmodule\b(.*)$',
                 src, re.S)
    if not m:
        raise Text('header')
    name, lo, hi, init, body, rest = m.groups()
    cmds = {}
    for c in [x.strip() for x in body.split(';')][:-1]:
        g = re.match(r"\[\s*(\w+)\s*\]\s*\(?\s*loc\s*=\s*(\d+)\s*\)?\s*->(.*)$", c, re.S)
        if not g:
            raise Text(f'command {c!r}')
        a, s, upd = g.groups()
        dist = {}
        for u in re.split(r'(?<=\))\s*\+', upd):
            h = re.match(r"\s*([0-9.eE+-]+)\s*:\s*\(\s*loc'\s*=\s*(\d+)\s*\)\s*$", u)
            if not h:
                raise Text(f'update {u!r}')
            dist[int(h[2])] = dist.get(int(h[2]), 0) + float(h[1])
        if a in cmds.setdefault(int(s), {}):
            raise Text(f'two commands for {a!r} in {s}')
        cmds[int(s)][a] = dist
    if [x.strip() for x in body.split(';')][-1]:
        raise Text('end of module')
    labels = {}
    for c in [x.strip() for x in rest.split(';')]:
        if not c:
            continue
        g = re.match(r'label\s+"(\w+)"\s*=(.*)$', c, re.S)
        if not g:
            raise Text(f'label {c!r}')
        sts = set()
        for x in g[2].split('|'):
            h = re.match(r'\s*\(?\s*loc\s*=\s*(\d+)\s*\)?\s*$', x)
            if not h:
                raise Text(f'label formula {g[2]!r}')
            sts.add(int(h[1]))
        if g[1] in labels:
            raise Text(f'label {g[1]!r} twice')
        labels[g[1]] = sts
    return name, int(lo), int(hi), int(init), cmds, labels


def judge(mon, m, text, name, wit):
    """text describes m: isomorphic from the initial location on, all states accounted for"""
    try:
        got, lo, hi, init, cmds, labels = parse(text)
    except Text as e:
        mon.fail('prism-syntax', f'{e}', text=text, **wit)
    mon.check(got == name, 'prism-name', f'module {got!r} instead of {name!r}', text=text, **wit)
    locs = set(cmds) | {init} | {x for c in cmds.values() for d in c.values() for x in d} | {x for s in labels.values() for x in s}
    mon.check(lo == 0 and all(lo <= x <= hi for x in locs), 'prism-range', f'{sorted(locs)} outside {lo}..{hi}', text=text, **wit)
    mon.check(hi + 1 >= m.n, 'prism-range', f'{hi} for {m.n} states', text=text, **wit)
    lab = lambda s: {clean(o) for o in m.so[s].split('__') if o}
    sig = lambda x: {l for l, sts in labels.items() if x in sts}
    # a numbering of the states that makes the text equal to the model: refine by search over the initial location
    cand = match(m, init, cmds, sig, lab)
    mon.check(cand is not None, 'prism-model', 'the text does not describe the MDP', text=text, **wit)
    mon.ev('commands', sum(len(c) for c in cmds.values()))
    mon.ev('labels', len(labels))


def match(m, init, cmds, sig, lab):
    """bisimulation between the model and the text (location numbers are free)"""
    def text_sig(x):
        return (frozenset(sig(x)), frozenset(cmds.get(x, {})))

    def model_sig(s):
        return (frozenset(lab(s)), frozenset(clean(a) for a in m.t[s]))
    # partition refinement on the union
    nodes = [('m', s) for s in range(m.n)] + [('t', x) for x in range(m.n)]
    cls = {}
    for k, x in nodes:
        cls[k, x] = model_sig(x) if k == 'm' else text_sig(x)

    def dist(k, x):
        res = []
        src = ((clean(a), [(t, p) for _, t, p in l]) for a, l in m.t[x].items()) if k == 'm' else \
            ((a, d.items()) for a, d in cmds.get(x, {}).items())
        for a, l in src:
            acc = {}
            for t, p in l:
                c = cls[k, t]
                acc[c] = acc.get(c, 0) + p
            res.append((a, frozenset((c, round(p, 9)) for c, p in acc.items())))
        return frozenset(res)
    num = len(set(cls.values()))
    while True:
        try:
            new = {(k, x): (cls[k, x], dist(k, x)) for k, x in nodes}
        except KeyError:
            return None
        names = {}
        new = {n: names.setdefault(v, len(names)) for n, v in new.items()}
        cls = new
        if len(names) == num:
            break
        num = len(names)
    if cls['m', m.init] != cls['t', init]:
        return None
    # every state of the model is there as often as in the text
    a = sorted(cls['m', s] for s in range(m.n))
    b = sorted(cls['t', x] for x in range(m.n))
    return True if a == b else None


def make(rng, m):
    i = ids(rng, m.n)
    return build_sm(m, ids=i, order=rng.sample(range(m.n), m.n))


def export(rng, mon, idx):
    m = gen_mdp(rng)
    model = make(rng, m)
    name = rng.choice(['exp', 'mc_exp', 'grid_1', 'M'])
    wit = dict(mdp=m.describe())
    if rng.random() < .85:
        text = mdp_2_prism_format(model, name)
    else:
        d = tempfile.mkdtemp(prefix='vmon27')
        try:
            p = os.path.join(d, 'm.prism')
            text = mdp_2_prism_format(model, name, p)
            with open(p) as f:
                mon.check(f.read() == text, 'prism-file', 'file and returned text differ', **wit)
            mon.ev('files')
        finally:
            shutil.rmtree(d, ignore_errors=True)
    judge(mon, m, text, name, wit)
    mon.ev('exports')
    mon.seen('export', repr(m.describe()))
    mon.sample(text=text[:1500])


SCRIPT = '''#!/bin/sh
printf '%s\\n' "$#" "$1" "$2" "$PWD" > "$(dirname "$0")/call"
cp "$1" "$(dirname "$0")/model"
cat "$(dirname "$0")/out"
'''


def shown(rng):
    """a result as PRISM prints it, with its value"""
    r = rng.random()
    if r < .3:
        v = rng.random()
        s = repr(v)
    elif r < .5:
        e = rng.randint(4, 9)
        s = f'{rng.randint(1, 9)}.{rng.randint(0, 9999)}E-{e}'
    elif r < .6:
        s = rng.choice(['0', '1', '12', '0.0', '1.0'])
    elif r < .7:
        s = f'{rng.random() * 1e-6:.6e}'
    else:
        s = f'{rng.random():.4f}'
    return s, float(Fraction(s))


def prism(rng, mon, idx):
    m = gen_mdp(rng)
    model = make(rng, m)
    d = tempfile.mkdtemp(prefix='vmon27')
    old, cwd = aalpy.paths.path_to_prism, os.getcwd()
    try:
        os.mkdir(os.path.join(d, 'work'))
        os.mkdir(os.path.join(d, 'bin'))
        exe = os.path.join(d, 'bin', 'prism')
        with open(exe, 'w') as f:
            f.write(SCRIPT)
        os.chmod(exe, 0o755)
        props = os.path.join(d, rng.choice(['p.props', 'work/q.props']))
        with open(props, 'w') as f:
            f.write('Pmax=?[F "goal"]\n')
        lines, vals = ['PRISM', '=====', '', 'Version: 4.7', f'Command line: prism {d}', '', 'Parsing model file "x"...'], []
        for k in range(rng.choice([0, 1, 2, 4, 7])):
            txt, v = shown(rng)
            vals.append(v)
            lines += ['', f'Model checking: Pmax=? [ F<={k} "goal" ]', 'Building model...', 'States:      3 (1 initial)',
                      'Value in the initial state: ' + txt, 'Time for model checking: 0.003 seconds.', '',
                      'Result: ' + txt + rng.choice(['', ' (exact floating point)', ' (value in the initial state)'])]
            if rng.random() < .2:
                lines.append(rng.choice(['Result: true', 'Error: Result: 0.5', 'The Result: 0.25', 'Result : 0.125']))
        with open(os.path.join(d, 'bin', 'out'), 'w') as f:
            f.write('\n'.join(lines) + '\n')
        aalpy.paths.path_to_prism = exe
        os.chdir(os.path.join(d, 'work'))
        ref = props if rng.random() < .5 else os.path.relpath(props)
        wit = dict(mdp=m.describe(), output=lines, values=vals)
        call(rng, mon, idx, m, model, d, ref, props, vals, wit)
        left = os.listdir(os.path.join(d, 'work'))
        mon.check(left == (['q.props'] if 'work' in props else []), 'left-files', f'{left} left behind', **wit)
        with open(os.path.join(d, 'bin', 'call')) as f:
            n, a, b, w = f.read().splitlines()
        mon.check(n == '2' and b == props and os.path.isabs(a), 'prism-call', f'called with {a} {b}', **wit)
        with open(os.path.join(d, 'bin', 'model')) as f:
            text = f.read()
        if idx % 5 != 4:
            judge(mon, m, text, re.search(r'module\s+(\w+)', text)[1], wit)
        mon.ev('prism_runs')
        mon.ev('results', len(vals))
        mon.seen('prism', idx % 5, repr(lines))
    finally:
        aalpy.paths.path_to_prism = old
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def call(rng, mon, idx, m, model, d, ref, props, vals, wit):
    names = [f'prop{i + 1}' for i in range(len(vals))]
    if idx % 5 == 0:
        got = model_check_properties(model, ref)
        mon.check(got == dict(zip(names, vals)), 'results', f'{got} instead of {vals}', **wit)
        return
    good = [rng.choice([v, v + rng.choice([-1, 1]) * rng.random() * .2, rng.random()]) for v in vals]
    if idx % 5 in (1, 2):
        prec = rng.choice([None, 2, 4, 6])
        got = model_check_experiment(ref, good, model, **({} if prec is None else dict(precision=prec)))
        prec = 4 if prec is None else prec
        half = .5 * 10 ** -prec + 1e-12
        mon.check(list(got[0]) == names and list(got[1]) == names, 'result-names', f'{got}', **wit)
        for x, y, v, g in zip(got[0].values(), got[1].values(), vals, good):
            mon.check(abs(x - v) <= half and abs(y - abs(v - g)) <= half, 'rounded-results',
                      f'{got} for results {vals}, correct values {good}', **wit)
            mon.check(round(x, prec) == x and round(y, prec) == y and y >= 0, 'rounded-results', f'{got}', **wit)
        return
    bound = rng.choice([0.01, 0.05, .25, 1])
    if rng.random() < .5:
        good = [v + rng.choice([-1, 1]) * bound * rng.random() * .9 for v in vals]
        if good and rng.random() < .5:
            i = rng.randrange(len(good))
            good[i] += rng.choice([-3, 3]) * bound
    diffs = [abs(v - g) for v, g in zip(vals, good)]
    if any(abs(x - bound) < 2e-4 for x in diffs):
        good = [v for v in vals]
        diffs = [0] * len(vals)
    if idx % 5 == 4:
        # stochastic Mealy machines are converted first; rebuild one
        s = gen_sm(rng, 'smm', nmax=4, outs='str', alph='chr')
        model = build_sm(s)
    lvl = rng.choice([0, 1, 2, 3])
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        got = stop_based_on_confidence(model, (ref, good, bound), lvl) if lvl != 2 or rng.random() < .5 else \
            stop_based_on_confidence(model, (ref, good, bound))
    want = bool(vals) and all(x <= bound for x in diffs)
    mon.check(got is want, 'stopping', f'{got}: results {vals}, correct values {good}, bound {bound}', **wit)
    mon.check(bool(buf.getvalue()) == (lvl >= 2), 'stopping-print', f'print level {lvl}: {buf.getvalue()!r}', **wit)
    mon.ev('stops', want)


class Recorded:
    """a model that logs what is done to it"""

    def __init__(self, rng, A, outs, p):
        self.rng, self.A, self.outs, self.p = rng, A, outs, p
        self.tests = []
        self.fresh = False

    def get_input_alphabet(self):
        return list(self.A)

    def reset_to_initial(self):
        self.tests.append([])

    def step(self, a):
        o = self.outs[0] if self.rng.random() >= self.p else self.rng.choice(self.outs)
        self.tests[-1].append((a, o))
        return o


def smc(rng, mon, idx):
    A = rng.choice([['a'], ['a', 'b'], [0, 1, 2], ['', 'x']])
    outs = rng.choice([['n', 'g', 'h', 'k'], [0, 5, 6, 7], ['', 'x', 'y', 'z']])
    goals = set(rng.sample(outs[1:], rng.randint(0, 2)))
    if rng.random() < .1:
        goals.add(outs[0])
    k, n = rng.choice([0, 1, 3, 8]), rng.choice([1, 7, 40, 200])
    r = Recorded(rng, A, outs, rng.choice([.05, .2, .6]))
    before = set(goals)
    got = statistical_model_checking(r, goals, k, n) if rng.random() < .5 else \
        statistical_model_checking(r, goals, max_num_steps=k, num_tests=n)
    wit = dict(alphabet=A, outputs=outs, goals=goals, steps=k, tests=n)
    mon.check(goals == before, 'goals-changed', f'{goals}', **wit)
    # a reset without steps does not make a test if tests have steps
    tests = [t for t in r.tests if t] if k else r.tests
    mon.check(len(tests) == n, 'smc-tests', f'{len(tests)} tests executed, {n} requested', **wit)
    hits = 0
    for t in tests:
        hit = any(o in goals for _, o in t)
        hits += hit
        mon.check(len(t) <= k and (hit or len(t) == k), 'smc-length', f'test of {len(t)} steps, bound {k}', **wit)
        mon.check(all(a in A for a, _ in t), 'smc-inputs', f'{t}', **wit)
    mon.check(abs(got - hits / n) < 1e-9, 'smc-result', f'{got}, but {hits} of {n} tests reached a goal', **wit)
    mon.ev('smc_tests', n)
    mon.seen('smc', repr(wit), got)


def estimate(rng, mon, idx):
    """the estimate on a real MDP is close to the probability under uniformly random inputs"""
    m = gen_mdp(rng, partial=False)
    model = make(rng, m)
    outs = sorted(set(m.so))
    goals = set(rng.sample(outs, rng.randint(1, min(2, len(outs)))))
    k, n = rng.choice([1, 2, 5]), 1500
    got = statistical_model_checking(model, set(goals), k, n)
    cur, p = {m.init: 1.0}, 0.0
    for _ in range(k):
        new = {}
        for s, q in cur.items():
            for a in m.A:
                for o, t, w in m.t[s][a]:
                    x = q * w / len(m.A)
                    if o in goals:
                        p += x
                    else:
                        new[t] = new.get(t, 0) + x
        cur = new
    # Hoeffding: off by more than this with probability below 1e-10
    eps = (24 / (2 * n)) ** .5
    mon.check(abs(got - p) <= eps, 'smc-estimate', f'{got}, the probability is {p:.4f}', mdp=m.describe(), goals=goals, steps=k)
    mon.ev('smc_estimates')
    mon.seen('estimate', repr(m.describe()), k)
