"""Bisimilarity / equality verdicts, returned counterexamples and the randomized comparison of automata."""
import contextlib
import io

from aalpy import bisimilar
from aalpy.automata import Mdp, MdpState, Onfsm, OnfsmState
from aalpy.utils import compare_automata

from ..aal import build
from ..core import Violation
from ..gen import gen_dm, mutate, permuted
from ..ref import DM, diff

ID = 'C13'
RULE = ('A case is a pair of automata (isomorphic, equivalent but not isomorphic, a few edits apart, unrelated, partial, '
        'different alphabets, types); the verdict is compared with a product search. Distinct = (operation, pair).')
FLOORS = {'equal_pairs': 6000, 'different_pairs': 9000, 'comparisons': 900, 'counterexamples': 9000}


def plan(tier):
    q = tier == 'quick'
    return [('pairs', 40000 if q else 200000), ('partial', 25000 if q else 100000), ('compare', 8000 if q else 30000),
            ('types', 500 if q else 3000), ('large', 300 if q else 3000)]


def loose(x, y):
    return x == y


def blowup(rng, m):
    """equivalent machine with duplicated states"""
    k = rng.randint(1, 2)
    n = m.n * (k + 1)
    d = [{a: rng.choice([m.d[s % m.n][a] + m.n * j for j in range(k + 1)]) for a in m.d[s % m.n]} for s in range(n)]
    so = [m.so[s % m.n] for s in range(n)] if m.so is not None else None
    eo = [dict(m.eo[s % m.n]) for s in range(n)] if m.eo is not None else None
    return DM(m.kind, m.A, d, so, eo, m.init)


def drop(rng, m, p):
    d = [dict(r) for r in m.d]
    eo = [dict(r) for r in m.eo] if m.eo is not None else None
    for i in range(m.n):
        for a in m.A:
            if rng.random() < p:
                d[i].pop(a, None)
                if eo is not None:
                    eo[i].pop(a, None)
    return DM(m.kind, m.A, d, list(m.so) if m.so is not None else None, eo, m.init)


def variant(rng, m):
    r = rng.random()
    if r < .25:
        x = permuted(rng, m)
    elif r < .4:
        x = blowup(rng, m)
    elif r < .5:
        x = m.minimize()
    elif r < .9:
        x = mutate(rng, m, rng.choice([1, 1, 2, 3]))
    else:
        x = gen_dm(rng, m.kind, nmax=6)
        x = DM(m.kind, x.A, x.d, x.so, x.eo, x.init)
    return x


def snap(a):
    return [(id(s), dict(s.transitions), getattr(s, 'output', None), dict(getattr(s, 'output_fun', {}))) for s in a.states], \
        a.initial_state


def judge(mon, m1, m2, a1, a2):
    A = list(m1.A) + [a for a in m2.A if a not in m1.A]
    w = diff(m1, m2, A, comp=loose)
    wit = dict(first=m1.describe(), second=m2.describe())
    b = [snap(a1), snap(a2)]
    verdict = bisimilar(a1, a2)
    cex = bisimilar(a1, a2, return_cex=True)
    eq, ne = a1 == a2, a1 != a2
    mon.check(verdict is (w is None), 'verdict', f'bisimilar() = {verdict}, reference difference {w}', **wit)
    mon.check(eq is (w is None) and ne is (w is not None), 'verdict', f'== gives {eq}, != gives {ne}, reference {w}', **wit)
    mon.check(bisimilar(a2, a1) == verdict, 'symmetry', 'verdict depends on the order of the arguments', **wit)
    mon.check([snap(a1), snap(a2)] == b, 'mutated', 'comparing automata changed one of them', **wit)
    if w is None:
        mon.check(cex is None, 'counterexample', f'counterexample {cex} for bisimilar automata', **wit)
        mon.ev('equal_pairs')
        return
    mon.check(cex is not None, 'counterexample', 'no counterexample for different automata', **wit)
    mon.ev('different_pairs')
    mon.ev('counterexamples')
    check_cex(mon, m1, m2, tuple(cex), wit)


def check_cex(mon, m1, m2, cex, wit):
    x, y = m1.init, m2.init
    if m1.kind != 'mealy' and m1.so[x] != m2.so[y]:
        return True
    for i, a in enumerate(cex):
        if (a in m1.d[x]) != (a in m2.d[y]):
            return True
        mon.check(a in m1.d[x], 'counterexample', f'{cex}: input {a!r} is defined in neither automaton', **wit)
        if m1.out(x, a) != m2.out(y, a):
            return True
        x, y = m1.d[x][a], m2.d[y][a]
    mon.fail('counterexample', f'{list(cex)} does not distinguish the automata', **wit)


def run(family, idx, rng, mon):
    k = ('dfa', 'moore', 'mealy')[idx % 3]
    if family == 'types':
        return types(rng, mon, k)
    m = gen_dm(rng, k, nmax=9) if family != 'large' else gen_dm(rng, k, nmin=30, nmax=120, styles=['random', 'lock', 'cycle', 'tree'])
    if family == 'compare':
        return compare(rng, mon, m)
    if rng.random() < .3:
        m = permuted(rng, m)
    if family == 'partial':
        m = drop(rng, m, rng.choice([.1, .3, .6]))
        r = rng.random()
        if r < .3:
            x = permuted(rng, m)
        elif r < .5:
            x = blowup(rng, m)
        elif r < .8:
            x = drop(rng, m, .08)
        else:
            x = permuted(rng, drop(rng, m, .15))
    else:
        x = variant(rng, m)
    a1, a2 = build(m), build(x)
    judge(mon, m, x, a1, a2)
    mon.seen(family, m.describe(), x.describe())
    mon.sample(kind=k, sizes=[m.n, x.n], difference=diff(m, x, list(m.A) + [a for a in x.A if a not in m.A], comp=loose))
    if rng.random() < .2:
        mon.check(bisimilar(a1, a1) is True and bisimilar(a1, a1, return_cex=True) is None, 'verdict',
                  'an automaton is not bisimilar to itself', first=m.describe())


def compare(rng, mon, m):
    keep = sorted(m.reach())
    ren = {s: i for i, s in enumerate(keep)}
    m = DM(m.kind, m.A, [{a: ren[t] for a, t in m.d[s].items()} for s in keep],
           [m.so[s] for s in keep] if m.so is not None else None, [m.eo[s] for s in keep] if m.eo is not None else None,
           ren[m.init])
    x = variant(rng, m)
    keep = x.reach()
    if set(map(repr, x.A)) != set(map(repr, m.A)) or len(keep) != x.n or m.n == 0:
        x = permuted(rng, m)
    a1, a2 = build(m), build(x)
    if rng.random() < .1:
        x, a2 = m, a1
        mon.ev('compared_with_itself')
    if rng.random() < .1:
        # another alphabet, of the same size or a larger one
        y = x if rng.random() < .5 else m
        new = list(y.A)
        if rng.random() < .6:
            new[rng.randrange(len(new))] = 'new letter'
        else:
            new.append('new letter')
        am = dict(zip(y.A, new))
        d = [{am[a]: t for a, t in r.items()} for r in y.d]
        eo = [{am[a]: o for a, o in r.items()} for r in y.eo] if y.eo is not None else None
        for a in new[len(y.A):]:
            for s in range(y.n):
                d[s][a] = s
                if eo is not None:
                    eo[s][a] = 'o'
        b1, b2 = a1, build(DM(y.kind, new, d, y.so, eo, y.init))
        if rng.random() < .5:
            b1, b2 = b2, b1
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                compare_automata(b1, b2)
            ok = False
        except AssertionError:
            ok = True
        mon.check(ok, 'alphabets', 'automata with different input alphabets were compared', first=m.describe(), alphabet=new)
        mon.ev('refused_alphabets')
    num = rng.randint(1, 6)
    wit = dict(first=m.describe(), second=x.describe())
    res = compare_automata(a1, a2, num_cex=num)
    mon.ev('comparisons')
    mon.check(len(res) <= num, 'compare-count', f'{len(res)} counterexamples, at most {num} requested', **wit)
    mon.check([len(c) for c in res] == sorted(len(c) for c in res), 'compare-order', f'{res} not sorted by length', **wit)
    mon.check(len(set(map(tuple, res))) == len(res), 'compare-duplicates', f'{res} has duplicates', **wit)
    for c in res:
        check_cex(mon, m, x, tuple(c), wit)
    w = diff(m, x, m.A, comp=loose)
    mon.seen('compare', m.describe(), x.describe())
    mon.sample(kind=m.kind, found=len(res), reference_difference=w)


def types(rng, mon, k):
    m = gen_dm(rng, k, nmax=4)
    other = [x for x in ('dfa', 'moore', 'mealy') if x != k]
    x = gen_dm(rng, rng.choice(other), nmax=4)
    for f in (lambda: bisimilar(build(m), build(x)), lambda: build(m) == build(x)):
        try:
            f()
        except ValueError:
            mon.ev('refused')
            continue
        mon.fail('types', 'automata of different types were compared')
    s = MdpState('q0', 'x')
    s.transitions['a'].append((s, 1.0))
    t = OnfsmState('q0')
    t.transitions['a'].append(('o', t))
    for a, b in ((Mdp(s, [s]), Mdp(s, [s])), (Onfsm(t, [t]), Onfsm(t, [t]))):
        try:
            bisimilar(a, b)
        except NotImplementedError:
            mon.ev('refused')
            continue
        mon.fail('types', f'a verdict for {type(a).__name__}')
    mon.seen('types', k, x.kind, m.describe())
