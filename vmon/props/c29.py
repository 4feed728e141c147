"""Copies (copy, deepcopy, pickle, state setup) are the same automaton and share nothing with the original."""
import copy
import pickle
import random

from aalpy.automata import Dfa, MealyMachine, Mdp, MooreMachine, NDMooreMachine, Sevpa, StochasticMealyMachine, Vpa

from ..aal import build
from ..gen import gen_dm, permuted
from ..ref import DM, diff, extract, same
from ..stoch import build_sm, gen_sm, wide
from ..vpl import gen_rv, gen_word, relettered, structured
from .c14 import view
from .c21 import build_sevpa, build_vpa, vids
from .c22 import ids

ID = 'C29'
RULE = ('A case copies one automaton in several ways (copy, deepcopy, pickle, state setup, copy of a copy), compares states, '
        'transitions and answers, then changes copy or original and looks at the other one; or builds an automaton from a '
        'written state setup. Distinct = (kind, way, automaton).')
KIND = {'dfa': Dfa, 'moore': MooreMachine, 'mealy': MealyMachine, 'ndmoore': NDMooreMachine, 'mdp': Mdp,
        'smm': StochasticMealyMachine, 'vpa': Vpa, 'sevpa': Sevpa}
KINDS = list(KIND)
FLOORS = {'copies': 35000, 'changed_copies': 15000, 'setups': 18000, 'words': 150000, 'large': 21}
WAYS = ['copy', 'deepcopy', 'pickle', 'setup', 'shallow', 'twice', 'nested']


def plan(tier):
    q = tier == 'quick'
    c = len(KINDS) * len(WAYS)
    return [('copies', c * (700 if q else 7000)), ('setup', 20000 if q else 60000), ('large', 21 if q else 42)]


def run(family, idx, rng, mon):
    random.seed(rng.getrandbits(32))
    globals()['do_' + family](rng, mon, idx)


def make(rng, kind):
    """(automaton, reference)"""
    if kind in ('dfa', 'moore', 'mealy'):
        m = permuted(rng, gen_dm(rng, kind, nmax=9, amax=3))
        if rng.random() < .3:
            for s in range(m.n):
                for a in m.A:
                    if rng.random() < .25:
                        m.d[s].pop(a)
                        if m.eo:
                            m.eo[s].pop(a)
        i = ids(rng, m.n)
        return build(m, ids=i, order=rng.sample(range(m.n), m.n)), m
    if kind in ('vpa', 'sevpa'):
        rv = structured(rng) if kind == 'vpa' and rng.random() < .2 else gen_rv(rng, nmax=5, single_entry=kind == 'sevpa')
        if kind == 'sevpa':
            C = {g[1] for row in rv.rr for (g, r) in row}
            rv.C = [c for c in rv.C if c in C]
            rv.cc = [{c: v for c, v in row.items() if c in C} for row in rv.cc]
        rv.init = 0 if kind == 'sevpa' else rng.randrange(len(rv.acc))
        if rng.random() < .4:
            rv = relettered(rng, rv)
        model = (build_sevpa if kind == 'sevpa' else build_vpa)(rv, vids(rng, rv))
        if rng.random() < .5:
            rng.shuffle(model.states)
        return model, rv
    m = gen_sm(rng, kind, observable=rng.random() < .7, partial=rng.random() < .3, **wide(rng, nmax=7))
    m.init = rng.randrange(m.n)
    return build_sm(m, ids=ids(rng, m.n), order=rng.sample(range(m.n), m.n)), m


def duplicate(rng, way, model):
    if way == 'copy':
        return model.copy()
    if way == 'deepcopy':
        return copy.deepcopy(model)
    if way == 'pickle':
        return pickle.loads(pickle.dumps(model, rng.choice([2, 4, pickle.HIGHEST_PROTOCOL])))
    if way == 'setup':
        return type(model).from_state_setup(model.to_state_setup())
    if way == 'shallow':
        return copy.copy(model)
    if way == 'twice':
        return pickle.loads(pickle.dumps(model.copy().copy()))
    return copy.deepcopy({'m': [model]})['m'][0]


def listed(m):
    """states of the automaton; VPAs made from a setup also list the error state common to all VPAs"""
    return [s for s in m.states if s is not Vpa.error_state]


def strict(kind, model):
    v, i = view(model, kind)
    if kind == 'vpa' and Vpa.error_state in model.states:
        v.pop(Vpa.error_state.state_id)
    return {(type(k).__name__, k): (type(p).__name__, repr(p), [tuple((type(x).__name__, repr(x)) for x in t) for t in tr])
            for k, (p, tr) in v.items()}, (type(i).__name__, i)


def equal(mon, kind, a, b, wit):
    mon.check(type(b) is KIND[kind], 'copy-type', f'copy of a {kind} is {type(b).__name__}', **wit)
    (va, ia), (vb, ib) = strict(kind, a), strict(kind, b)
    mon.check(len(listed(b)) == len(listed(a)) and b.size == len(b.states), 'copy-states',
              f'{len(b.states)} states of {len(a.states)}', **wit)
    mon.check(ia == ib, 'copy-initial', f'initial state {ib} instead of {ia}', **wit)
    mon.check(set(va) == set(vb), 'copy-states', f'states {set(vb)} instead of {set(va)}', **wit)
    for s in va:
        mon.check(va[s] == vb[s], 'copy-transitions', f'state {s}: {vb[s]} instead of {va[s]}', **wit)
    mon.check(b.initial_state in b.states and (kind in ('vpa', 'sevpa') or b.current_state is b.initial_state), 'copy-reset',
              'copy does not start in its initial state', **wit)


def objects(model):
    """ids of all state and container objects"""
    res = set()
    todo = [model.initial_state] + listed(model)
    while todo:
        s = todo.pop()
        if id(s) in res:
            continue
        res.add(id(s))
        res.add(id(s.transitions))
        if hasattr(s, 'output_fun'):
            res.add(id(s.output_fun))
        for e in s.transitions.values():
            for x in (e if isinstance(e, list) else [e]):
                if isinstance(e, list):
                    res.add(id(e))
                for y in (x if isinstance(x, tuple) else [x]):
                    y = getattr(y, 'target_state', y)
                    if hasattr(y, 'transitions'):
                        todo.append(y)
    return res


def answers(rng, mon, kind, ref, b, wit):
    if kind in ('vpa', 'sevpa'):
        for _ in range(6):
            w = gen_word(rng, ref)
            b.reset_to_initial()
            mon.check([bool(b.step(x)) for x in w] == ref.run(w), 'copy-answers', f'{w}', **wit)
            mon.ev('words')
    elif kind in ('dfa', 'moore', 'mealy'):
        r = extract(b, kind, ref.A, 'copy')
        w = diff(ref, r, ref.A)
        mon.check(w is None, 'copy-answers', f'differs on {w}', **wit)
        for _ in range(4):
            w, s = [], ref.init
            for _ in range(rng.randint(0, 8)):
                if not ref.d[s]:
                    break
                a = rng.choice(list(ref.d[s]))
                w.append(a)
                s = ref.d[s][a]
            b.reset_to_initial()
            got = [b.step(a) for a in w]
            mon.check(all(map(same, got, ref.run(w))), 'copy-answers', f'{w}: {got}', **wit)
            mon.ev('words')


def vandalize(rng, kind, m):
    """change everything about an automaton"""
    for s in listed(m):
        s.state_id = f'changed {s.state_id}'
        if hasattr(s, 'is_accepting'):
            s.is_accepting = not s.is_accepting
        else:
            s.output = 'changed'
        if hasattr(s, 'output_fun'):
            for a in s.output_fun:
                s.output_fun[a] = 'changed'
        for a, e in list(s.transitions.items()):
            if isinstance(e, list):
                e.clear()
            else:
                s.transitions[a] = rng.choice(m.states)
        s.transitions['new letter'] = [] if kind not in ('dfa', 'moore', 'mealy') else s
    m.initial_state = m.states[-1]
    m.states.pop()


def do_copies(rng, mon, idx):
    kind = KINDS[idx % len(KINDS)]
    way = WAYS[idx // len(KINDS) % len(WAYS)]
    a, ref = make(rng, kind)
    wit = dict(automaton=ref.describe(), way=way, automaton_kind=kind, ids=[repr(s.state_id) for s in a.states])
    before = strict(kind, a)
    objs = sorted(id(s) for s in a.states)
    # the original is in the middle of an execution
    walk = []
    if kind not in ('vpa', 'sevpa'):
        a.reset_to_initial()
        for _ in range(rng.randint(0, 4)):
            al = [x for x, e in a.current_state.transitions.items() if e]
            if not al:
                break
            a.step(rng.choice(al))
    cur = a.current_state
    b = duplicate(rng, way, a)
    mon.check(a.current_state is cur, 'original-moved', 'copying changed the current state of the original', **wit)
    mon.check(strict(kind, a) == before and sorted(id(s) for s in a.states) == objs, 'original-changed',
              'copying changed the original', **wit)
    equal(mon, kind, a, b, wit)
    shared = objects(a) & objects(b)
    mon.check(not shared and a.states is not b.states, 'shared', f'{len(shared)} objects shared', **wit)
    answers(rng, mon, kind, ref, b, wit)
    mon.ev('copies')
    if rng.random() < .6:
        x, y = (a, b) if rng.random() < .5 else (b, a)
        snap = strict(kind, y)
        vandalize(rng, kind, x)
        mon.check(strict(kind, y) == snap, 'shared', 'a change of one automaton shows in the other', **wit)
        answers(rng, mon, kind, ref, y, wit)
        mon.ev('changed_copies')
    mon.seen(kind, way, repr(ref.describe()))
    mon.sample(kind=kind, way=way, states=len(b.states))


def do_setup(rng, mon, idx):
    """a written state setup: first state is the initial one"""
    kind = [k for k in KINDS if k != 'sevpa'][idx % 7]
    model, ref = make(rng, kind)
    n = len(ref.acc) if kind == 'vpa' else ref.n
    i = ids(rng, n)
    order = [ref.init] + rng.sample([s for s in range(n) if s != ref.init], n - 1)
    if kind in ('dfa', 'moore'):
        setup = {i[s]: (ref.so[s], {a: i[t] for a, t in ref.d[s].items()}) for s in order}
    elif kind == 'mealy':
        setup = {i[s]: {a: (ref.eo[s][a], i[t]) for a, t in ref.d[s].items()} for s in order}
    elif kind == 'ndmoore':
        setup = {i[s]: (ref.so[s], {a: [i[t] for _, t, _ in l] for a, l in ref.t[s].items()}) for s in order}
    elif kind == 'mdp':
        setup = {i[s]: (ref.so[s], {a: [(i[t], p) for _, t, p in l] for a, l in ref.t[s].items()}) for s in order}
    elif kind == 'smm':
        setup = {i[s]: {a: [(i[t], o, p) for o, t, p in l] for a, l in ref.t[s].items()} for s in order}
    else:
        setup = {}
        for s in order:
            tr = {}
            for a, t in ref.ii[s].items():
                tr.setdefault(a, []).append((i[t], None, None))
            for c, (t, g) in ref.cc[s].items():
                tr.setdefault(c, []).append((i[t], 'push', g))
            for (g, r), t in ref.rr[s].items():
                tr.setdefault(r, []).append((i[t], 'pop', g))
            setup[i[s]] = (ref.acc[s], tr)
    text = repr(setup)
    wit = dict(setup=text, automaton_kind=kind)
    b = KIND[kind].from_state_setup(setup)
    mon.check(repr(setup) == text, 'setup-changed', 'the state setup was modified', **wit)
    mon.check(type(b) is KIND[kind], 'copy-type', type(b).__name__, **wit)
    mon.check({repr(s.state_id) for s in listed(b)} == set(map(repr, i)) and len(listed(b)) == n, 'copy-states', f'{[s.state_id for s in b.states]}', **wit)
    mon.check(repr(b.initial_state.state_id) == repr(i[ref.init]), 'copy-initial', f'{b.initial_state.state_id}', **wit)
    answers(rng, mon, kind, ref, b, wit)
    if kind in ('ndmoore', 'mdp', 'smm'):
        byid = {repr(s.state_id): s for s in b.states}
        for s in range(n):
            got = byid[repr(i[s])]
            if kind != 'smm':
                mon.check(same(got.output, ref.so[s]), 'setup-output', f'{got.output}', **wit)
            mon.check(set(a for a, l in got.transitions.items() if l) == set(ref.t[s]), 'setup-transitions', f'{i[s]}', **wit)
            for a, l in ref.t[s].items():
                e = got.transitions[a]
                have = [(x.state_id,) for x in e] if kind == 'ndmoore' else \
                    [(x.state_id, p) for x, p in e] if kind == 'mdp' else [(x.state_id, o, p) for x, o, p in e]
                want = [(i[t],) for _, t, _ in l] if kind == 'ndmoore' else \
                    [(i[t], p) for _, t, p in l] if kind == 'mdp' else [(i[t], o, p) for o, t, p in l]
                mon.check(sorted(map(repr, have)) == sorted(map(repr, want)), 'setup-transitions', f'{have} / {want}', **wit)
    # the setup of the automaton describes it again
    again = b.to_state_setup()
    mon.check(repr(next(iter(again))) == repr(i[ref.init]), 'setup-initial', f'{next(iter(again))!r} first', **wit)
    mon.check({repr(k) for k in again} - {repr(Vpa.error_state.state_id)} == {repr(k) for k in setup}, 'setup-states', f'{list(again)}', **wit)
    mon.ev('setups')
    mon.seen('setup', kind, text)


def do_large(rng, mon, idx):
    """long chains: no way of copying may depend on the recursion limit"""
    n = 400
    kind = ['dfa', 'mealy', 'moore'][idx % 3]
    d = [{'a': (s + 1) % n, 'b': 0} for s in range(n)]
    m = DM(kind, ['a', 'b'], d, None if kind == 'mealy' else [s == n - 1 for s in range(n)],
           [{'a': s == n - 2, 'b': False} for s in range(n)] if kind == 'mealy' else None, 0)
    a = build(m)
    way = WAYS[idx % len(WAYS)]
    b = duplicate(rng, way, a)
    mon.check(len(b.states) == n, 'copy-states', f'{len(b.states)} of {n}')
    w = diff(m, extract(b, kind, m.A, 'copy'), m.A)
    mon.check(w is None, 'copy-answers', f'differs on a word of length {len(w or ())}')
    mon.ev('large')
    mon.seen('large', kind, way, n)
