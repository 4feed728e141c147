"""Random automata are of the kind, size, alphabets and shape that was asked for."""
import random
import warnings

from aalpy.utils import (generate_random_deterministic_automata, generate_random_dfa, generate_random_markov_chain,
                         generate_random_mdp, generate_random_mealy_machine, generate_random_moore_machine,
                         generate_random_ONFSM, generate_random_sevpa, generate_random_smm)

from ..ref import extract, fresh, same
from ..stoch import read_sm

ID = 'C24'
RULE = ('A case calls one generator with random parameters and judges the automaton by the reference interpreter: kind, '
        'number of states, alphabets, completeness, determinism, reachability, minimality or warning, prefixes, '
        'distributions. Distinct = (generator, parameters, automaton).')
FLOORS = {'deterministic': 900, 'minimal': 400, 'not_minimal_warned': 10, 'mdp': 150, 'smm': 150, 'onfsm': 400, 'mc': 200,
          'sevpa': 300, 'distributions': 5000, 'prefixes': 3000}


def plan(tier):
    q = tier == 'quick'
    return [('det', 20000 if q else 200000), ('impossible', 120 if q else 900), ('mdp', 4000 if q else 30000),
            ('smm', 4000 if q else 30000), ('onfsm', 6000 if q else 50000), ('mc', 3000 if q else 20000),
            ('sevpa', 5000 if q else 40000)]


INPUTS = [[1, 2, 3, 4], ['a', 'b', 'c', 'd'], [0, 1, 2, 3], [('x', 0), ('x', 1), 'y', 5], ['', 'u', 'v', 'w']]
OUTS = [['p', 'q', 'r', 's', 't'], [0, 1, 2, 3, 4], [('o', 1), 'z', 3, '', 7]]


def run(family, idx, rng, mon):
    globals()[family](rng, mon)


def call(mon, f, *a, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = f(*[fresh(x) if type(x) is str else x for x in a], **kw)
    return r, [str(x.message) for x in w]


def judge_det(mon, aut, kind, n, inputs, outputs, acc, minimal, warned, wit):
    g = extract(aut, kind)
    mon.check(len(aut.states) == n and len({id(s) for s in aut.states}) == n, 'states', f'{len(aut.states)} for {n}', **wit)
    mon.check(g.n == n, 'states', 'a reached state is not listed', **wit)
    mon.check(g.n_reach == n, 'unreachable', f'{g.n_reach} of {n} states are reachable', **wit)
    mon.check(len({repr(s.state_id) for s in aut.states}) == n, 'ids', 'ids are not unique', **wit)
    want = {(type(a).__name__, repr(a)) for a in inputs}
    for s in range(n):
        have = {(type(a).__name__, repr(a)) for a in g.d[s]}
        mon.check(have == want, 'alphabet', f'{sorted(have)} / {sorted(want)}', **wit)
        os_ = list(g.eo[s].values()) if kind == 'mealy' else [g.so[s]]
        for o in os_:
            mon.check(any(same(o, x) for x in outputs), 'output', f'{o!r} not in {outputs}', **wit)
    if acc is not None:
        k = sum(1 for o in g.so if o is True)
        mon.check(k == acc, 'accepting', f'{k} accepting states, asked for {acc}', **wit)
    ms = g.minimal_size()
    if minimal:
        told = any('on-minimal' in x for x in warned)
        mon.check(ms == n or told, 'not-minimal', f'{ms} classes of {n} states and no warning', **wit)
        mon.check(ms < n or not told, 'false-warning', 'warned, but the automaton is minimal', **wit)
        mon.ev('minimal' if ms == n else 'not_minimal_warned')
    dist = {s: len(p) for s, p in g.reach().items()}
    for i, s in enumerate(g.order):
        p = s.prefix
        mon.check(p is not None and g.goto(p) == i and len(p) == dist[i], 'prefix', f'{s.state_id}: {p!r}', **wit)
        mon.ev('prefixes')
    mon.ev('deterministic')
    mon.seen('det', repr(g.describe()))


def det(rng, mon):
    kind = rng.choice(['dfa', 'moore', 'mealy'])
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])
    k = rng.randint(1, 4)
    o = rng.randint(2, 5)
    if k == 1 and n > 6:
        n = 6
    minimal = rng.random() < .6
    wit = dict(automaton=kind, states=n, inputs=k, outputs=o, minimal=minimal)
    if rng.random() < .4:
        kw = {} if rng.random() < .5 else dict(num_accepting_states=rng.randint(0, n))
        acc = kw.get('num_accepting_states', n // 2)
        if minimal and kind == 'dfa' and acc in (0, n) and n > 1:
            return
        ins, outs = [f'i{j + 1}' for j in range(k)], [f'o{j + 1}' for j in range(o)]
        if rng.random() < .4:
            ins = rng.choice(INPUTS)[:k]
            kw['custom_input_alphabet'] = list(ins)
        if kind != 'dfa' and rng.random() < .4:
            outs = rng.choice(OUTS)[:o]
            kw['custom_output_alphabet'] = list(outs)
        wit['kw'] = repr(kw)
        keep = repr(kw)
        a, w = call(mon, generate_random_deterministic_automata, kind, n, k, o, ensure_minimality=minimal, **kw)
        mon.check(repr(kw) == keep, 'arguments-changed', f'{keep} -> {kw}', **wit)
        judge_det(mon, a, kind, n, ins, [True, False] if kind == 'dfa' else outs, acc if kind == 'dfa' else None, minimal,
                  w, wit)
        return
    ins, outs = rng.choice(INPUTS)[:k], rng.choice(OUTS)[:o]
    pre = dict(compute_prefixes=True) if rng.random() < .3 else {}
    keep = repr((ins, outs))
    if kind == 'dfa':
        acc = rng.randint(1, max(1, n - 1))
        a, w = call(mon, generate_random_dfa, n, ins, num_accepting_states=acc, ensure_minimality=minimal, **pre)
        want = acc if acc < n else n // 2
        wit['accepting'] = acc
        judge_det(mon, a, kind, n, ins, [True, False], want, minimal, w, wit)
    else:
        f = generate_random_mealy_machine if kind == 'mealy' else generate_random_moore_machine
        a, w = call(mon, f, n, ins, outs, ensure_minimality=minimal, **pre)
        judge_det(mon, a, kind, n, ins, outs, None, minimal, w, wit)
    mon.check(repr((ins, outs)) == keep, 'arguments-changed', 'alphabets changed', **wit)


def impossible(rng, mon):
    """no minimal automaton exists (or none is found): returned with a warning, never an endless search"""
    n, k = rng.randint(2, 6), rng.randint(1, 3)
    wit = dict(states=n, inputs=k)
    acc = rng.choice([0, n])
    a, w = call(mon, generate_random_deterministic_automata, 'dfa', n, k, num_accepting_states=acc)
    judge_det(mon, a, 'dfa', n, [f'i{j + 1}' for j in range(k)], [True, False], acc, True, w, wit)


def dists(mon, g, wit, given=None):
    for s, r in enumerate(g.t):
        for a, l in r.items():
            ps = [e[2] for e in l]
            mon.check(ps and all(p > 0 for p in ps) and abs(sum(ps) - 1) < 1e-6, 'distribution',
                      f'state {s} on {a!r}: {ps}', **wit)
            mon.check(len({repr(e[0]) for e in l}) == len(l), 'not-observable', f'state {s} on {a!r}: {l}', **wit)
            if given:
                mon.check(any(sorted(ps) == sorted(d) for d in given), 'distribution', f'{ps} not among {given}', **wit)
            mon.ev('distributions')


PROBS = [[(1.,)], [(.5, .5)], [(1.,), (.5, .25, .25)], [(.4, .6), (.2, .8)]]

WIDE = [[(.3, .2, .1, .1, .1, .1, .1)], [(.4, .1, .1, .1, .1, .1, .1), (.5, .1, .1, .1, .1, .1)],
        [(.2, .2, .1, .1, .1, .1, .1, .05, .05)]]


def stochastic(rng, mon, kind, f):
    n = rng.choice([1, 2, 3, 4, 5, 8])
    k, o = rng.randint(1, 4), rng.randint(2, 5)
    if k == 1 and n > 5:
        n = 5
    given = None
    if rng.random() < .05:      # distributions over many outcomes
        n, k, o = rng.randint(7, 10), rng.randint(2, 3), rng.randint(7, 10)
        given = [p for p in WIDE if max(map(len, p)) <= min(n, o)]
        given = rng.choice(given)
    elif rng.random() < .4:
        given = rng.choice([p for p in PROBS if max(map(len, p)) <= min(n, o)] or [None])
    wit = dict(kind_=kind, states=n, inputs=k, outputs=o, probabilities=repr(given))
    a, w = call(mon, f, n, k, o, given) if given else call(mon, f, n, k, o)
    g = read_sm(a)
    mon.check(type(a).__name__ == {'mdp': 'Mdp', 'smm': 'StochasticMealyMachine'}[kind], 'type', type(a).__name__, **wit)
    mon.check(len(a.states) == n and g.n == n, 'states', f'{len(a.states)} listed, {g.n} in all, asked {n}', **wit)
    mon.check(g.n_reach == n, 'unreachable', f'{g.n_reach} of {n}', **wit)
    mon.check(len({s.state_id for s in a.states}) == n, 'ids', 'ids are not unique', **wit)
    ins = {f'i{j + 1}' for j in range(k)}
    outs = {f'o{j + 1}' for j in range(o)}
    for s in range(n):
        mon.check(set(g.t[s]) == ins, 'alphabet', f'{sorted(g.t[s])}', **wit)
        mon.check({e[0] for l in g.t[s].values() for e in l} <= outs, 'output', f'{g.t[s]}', **wit)
    if g.so is not None:
        mon.check(set(g.so) <= outs, 'output', f'{g.so}', **wit)
    dists(mon, g, wit, given)
    mon.ev(kind)
    mon.seen(kind, repr(g.describe()))


def mdp(rng, mon):
    stochastic(rng, mon, 'mdp', generate_random_mdp)


def smm(rng, mon):
    stochastic(rng, mon, 'smm', generate_random_smm)


def onfsm(rng, mon):
    n, k, o = rng.randint(1, 12), rng.randint(1, 4), rng.randint(1, 5)
    p = rng.choice([None, 0.0, 1.0, .5])
    wit = dict(states=n, inputs=k, outputs=o, multiple=p)
    a = generate_random_ONFSM(n, k, o) if p is None else generate_random_ONFSM(n, k, o, multiple_out_prob=p)
    g = read_sm(a)
    mon.check(type(a).__name__ == 'Onfsm', 'type', type(a).__name__, **wit)
    mon.check(len(a.states) == n and g.n == n and a.initial_state in a.states, 'states', f'{len(a.states)}, {g.n}', **wit)
    mon.check(len({s.state_id for s in a.states}) == n, 'ids', 'ids are not unique', **wit)
    ins = {f'i{j + 1}' for j in range(k)}
    outs = {f'o{j + 1}' for j in range(o)}
    for s in range(n):
        mon.check(set(g.t[s]) == ins, 'alphabet', f'{sorted(g.t[s])}', **wit)
        for x, l in g.t[s].items():
            os_ = [e[0] for e in l]
            mon.check(1 <= len(os_) == len(set(os_)) and set(os_) <= outs, 'not-observable', f'{x}: {l}', **wit)
            if p == 0.0:
                mon.check(len(os_) == 1, 'multiple', f'probability 0, but {os_}', **wit)
            if p == 1.0 and o >= 2:
                mon.check(len(os_) >= 2, 'multiple', f'probability 1, but {os_}', **wit)
    mon.ev('onfsm')
    mon.seen('onfsm', repr(g.describe()))


def mc(rng, mon):
    n = rng.randint(3, 15)
    wit = dict(states=n)
    a = generate_random_markov_chain(n)
    g = read_sm(a)
    mon.check(type(a).__name__ == 'MarkovChain', 'type', type(a).__name__, **wit)
    mon.check(len(a.states) == n and g.n == n, 'states', f'{len(a.states)}, {g.n}', **wit)
    mon.check(g.n_reach == n, 'unreachable', f'{g.n_reach} of {n}', **wit)
    mon.check(len({s.state_id for s in a.states}) == n, 'ids', 'ids are not unique', **wit)
    mon.check(len(set(map(repr, g.so))) == n, 'output', f'{g.so}', **wit)
    dists(mon, g, wit)
    mon.check(sum(1 for r in g.t if not r) <= 1, 'distribution', 'several states without transitions', **wit)
    mon.ev('mc')
    mon.seen('mc', repr(g.describe()))


def sevpa(rng, mon):
    n = rng.randint(1, 8)
    i, c, r = rng.randint(0, 5), rng.randint(1, 5), rng.randint(1, 5)
    acc, ret = rng.choice([0.0, 1.0, .5, .3]), rng.choice([0.0, .2, .5, .9, 1.0])
    wit = dict(states=n, internal=i, calls=c, returns=r, acceptance=acc, return_prob=ret)
    a = generate_random_sevpa(n, i, c, r, acc, ret)
    mon.check(type(a).__name__ == 'Sevpa', 'type', type(a).__name__, **wit)
    mon.check(len(a.states) == n and any(s is a.initial_state for s in a.states), 'states', f'{len(a.states)}', **wit)
    ids = [s.state_id for s in a.states]
    mon.check(len(set(ids)) == n, 'ids', 'ids are not unique', **wit)
    ia, ca, ra = [f'i{j}' for j in range(i)], [f'c{j}' for j in range(c)], [f'r{j}' for j in range(r)]
    al = a.input_alphabet
    mon.check(set(al.internal_alphabet) == set(ia) and set(al.call_alphabet) == set(ca) and
              set(al.return_alphabet) == set(ra), 'alphabet', str(al), **wit)
    for s in a.states:
        if acc in (0.0, 1.0):
            mon.check(s.is_accepting is (acc == 1.0), 'accepting', f'{s.is_accepting!r} for probability {acc}', **wit)
        seen = {}
        for l, ts in s.transitions.items():
            for t in ts:
                mon.check(t.letter == l and any(t.target_state is x for x in a.states), 'transition', str(t), **wit)
                key = (l, t.stack_guard if l in ra else None)
                mon.check(key not in seen, 'not-deterministic', f'{s.state_id}: {key}', **wit)
                mon.check((t.action == 'pop') == (l in ra), 'transition', str(t), **wit)
                seen[key] = t
        want = {(l, None) for l in ia} | {(l, (q, x)) for l in ra for q in ids for x in ca}
        mon.check(set(seen) == want, 'not-complete', f'{s.state_id}: missing {sorted(want - set(seen), key=repr)[:3]}', **wit)
    mon.ev('sevpa')
    mon.seen('sevpa', repr([[(l, [(t.stack_guard, t.target_state.state_id) for t in ts]) for l, ts in s.transitions.items()]
                            for s in a.states]))
