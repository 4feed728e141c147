"""Input completion adds exactly the missing transitions, as documented, and changes nothing else."""
import random

from aalpy.utils import make_input_complete

from ..aal import build
from ..gen import gen_dm, permuted, word
from ..ref import same
from ..stoch import build_sm, gen_sm
from .c22 import ids

ID = 'C23'
RULE = ('A case completes one partial (or complete) automaton by self loops or a sink state and compares every state and '
        'transition with a snapshot taken before, then executes words over the completed automaton. Distinct = (kind, '
        'mode, automaton).')
FLOORS = {'completed': 4000, 'added': 20000, 'kept': 40000, 'already_complete': 500, 'words': 8000, 'sinks': 1500}
KINDS = ('dfa', 'moore', 'mealy', 'onfsm', 'ndmoore', 'mdp', 'smm')


def plan(tier):
    return [(k, 12000 if tier == 'quick' else 90000) for k in KINDS]


def out_of(kind, s):
    return s.is_accepting if kind == 'dfa' else s.output if kind in ('moore', 'ndmoore', 'mdp') else None


def row(kind, s):
    """letter -> list of (output, id of target object, weight)"""
    r = {}
    for a, e in s.transitions.items():
        if kind in ('dfa', 'moore'):
            r[a] = [(None, id(e), None)]
        elif kind == 'mealy':
            r[a] = [(s.output_fun[a], id(e), None)]
        elif kind == 'onfsm':
            r[a] = [(o, id(t), None) for o, t in e]
        elif kind == 'ndmoore':
            r[a] = [(None, id(t), None) for t in e]
        elif kind == 'mdp':
            r[a] = [(None, id(t), p) for t, p in e]
        else:
            r[a] = [(o, id(t), p) for t, o, p in e]
    return r


def eq_row(x, y):
    return len(x) == len(y) and all(e[1] == f[1] and same(e[0], f[0]) and same(e[2], f[2]) for e, f in zip(x, y))


def run(family, idx, rng, mon):
    kind = family
    if kind in ('dfa', 'moore', 'mealy'):
        m = permuted(rng, gen_dm(rng, kind, nmax=8 if rng.random() < .95 else 40, amax=4))
        A = list(m.A)
        drop = rng.choice([0, .1, .3, .3, .6, .9])
        for s in range(m.n):
            for a in A:
                if rng.random() < drop:
                    del m.d[s][a]
                    if m.eo:
                        m.eo[s].pop(a)
        order = list(range(m.n))
        rng.shuffle(order)
        aut = build(m, ids(rng, m.n), order)
    else:
        m = gen_sm(rng, kind, nmax=6, amax=4, observable=rng.random() < .6, partial=rng.random() < .8)
        m.init = rng.randrange(m.n)
        order = list(range(m.n))
        rng.shuffle(order)
        aut = build_sm(m, ids(rng, m.n), order)
    if any(s.state_id == 'sink' for s in aut.states):
        return
    mode = rng.choice(['self_loop', 'sink_state'])
    alph = aut.get_input_alphabet()
    old = list(aut.states)
    init = aut.initial_state
    snap = {id(s): (s.state_id, out_of(kind, s), row(kind, s)) for s in old}
    wit = dict(automaton=m.describe(), mode=mode, alphabet=[repr(a) for a in alph])
    used = {repr(a) for s in old for a in row(kind, s)}
    mon.check({repr(a) for a in alph} == used and len(alph) == len(used), 'alphabet', f'{alph}', **wit)
    complete = all({repr(a) for a in row(kind, s)} == used for s in old)
    mon.check(aut.is_input_complete() is complete, 'is-complete', f'is_input_complete() is {not complete}', **wit)
    how = rng.choice(['function', 'method', 'default'])
    if how == 'function':
        res = make_input_complete(aut, mode)
        mon.check(res is aut, 'returned', 'the completed automaton is not returned', **wit)
    elif how == 'method' or mode != 'self_loop':
        aut.make_input_complete(mode)
    else:
        make_input_complete(aut)
    wit['how'] = how
    mon.check(aut.initial_state is init, 'initial', 'initial state changed', **wit)
    new = [s for s in aut.states if id(s) not in snap]
    mon.check([id(s) for s in aut.states if id(s) in snap] == [id(s) for s in old], 'states', 'states changed', **wit)
    mon.check(len(new) == (1 if mode == 'sink_state' and not complete else 0), 'states',
              f'{len(new)} states added, mode {mode}, complete before: {complete}', **wit)
    sink = new[0] if new else None
    if sink is not None:
        mon.ev('sinks')
        mon.check(all(sink.state_id != s.state_id for s in old), 'sink-id', f'{sink.state_id!r}', **wit)
        if kind == 'dfa':
            mon.check(sink.is_accepting is False, 'sink-output', f'{sink.is_accepting!r}', **wit)
        elif kind in ('moore', 'ndmoore', 'mdp'):
            mon.check(sink.output == 'sink_state', 'sink-output', f'{sink.output!r}', **wit)
    for s in aut.states:
        r = row(kind, s)
        sid, so, before = snap.get(id(s), (None, None, {}))
        if s is not sink:
            mon.check(s.state_id == sid and same(out_of(kind, s), so), 'state', f'{sid!r} changed', **wit)
        mon.check({repr(a) for a in r} == used, 'not-complete', f'state {s.state_id!r} has {list(r)}', **wit)
        for a in alph:
            if a in before:
                mon.check(eq_row(r[a], before[a]), 'transition-changed', f'{s.state_id!r} on {a!r}', **wit)
                mon.ev('kept')
                continue
            tgt = s if mode == 'self_loop' else sink
            mon.check(len(r[a]) == 1 and r[a][0][1] == id(tgt), 'wrong-target',
                      f'{s.state_id!r} on {a!r}, mode {mode}', **wit)
            if kind in ('mealy', 'onfsm', 'smm'):
                mon.check(r[a][0][0] == 'epsilon', 'wrong-output', f'{s.state_id!r} on {a!r}: {r[a][0][0]!r}', **wit)
            if kind in ('mdp', 'smm'):
                mon.check(r[a][0][2] == 1, 'wrong-probability', f'{s.state_id!r} on {a!r}: {r[a][0][2]!r}', **wit)
            mon.ev('added')
    if alph:
        mon.check(aut.is_input_complete() is True, 'is-complete', 'not complete after completion', **wit)
    # execution of the completed automaton
    for _ in range(3):
        if not alph:
            break
        aut.reset_to_initial()
        w = word(rng, alph, 1, 8)
        for a in w:
            s = aut.current_state
            before = snap.get(id(s), (None, None, {}))[2]
            o = aut.step(a)
            t = aut.current_state
            if a in before:
                ok = any(e[1] == id(t) and (e[0] is None or same(e[0], o)) for e in before[a])
            else:
                ok = t is (s if mode == 'self_loop' else sink)
                if kind in ('mealy', 'onfsm', 'smm'):
                    ok = ok and o == 'epsilon'
            if kind in ('dfa', 'moore', 'ndmoore', 'mdp'):
                ok = ok and same(o, out_of(kind, t))
            mon.check(ok, 'execution', f'{s.state_id!r} on {a!r} gives {o!r}, {t.state_id!r}', **wit)
        mon.ev('words')
    # completing twice changes nothing
    n = len(aut.states)
    make_input_complete(aut, mode)
    mon.check(len(aut.states) == n and all({repr(a) for a in row(kind, s)} == used for s in aut.states), 'idempotent',
              'completing again changed the automaton', **wit)
    mon.ev('already_complete' if complete else 'completed')
    mon.seen(kind, mode, repr(m.describe()))
    mon.sample(kind=kind, mode=mode, added=len(used) * len(aut.states) - sum(len(v[2]) for v in snap.values()))
