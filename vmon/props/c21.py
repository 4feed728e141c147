"""Executing an automaton follows its transition structure: deterministic, non-deterministic, stochastic, pushdown."""
import math

from aalpy.SULs import AutomatonSUL
from aalpy.automata import (Sevpa, SevpaState, SevpaTransition, Vpa, VpaState, VpaTransition)

from ..aal import build
from ..gen import gen_dm, permuted, word
from ..ref import fresh, same
from ..stoch import build_sm, gen_sm, wide
from ..vpl import gen_rv, gen_word, relettered, structured

ID = 'C21'
RULE = ('A case builds one automaton object and executes generated words through step, step_to, execute_sequence and '
        'the automaton-backed system; every output and reached state is compared with a reference interpreter '
        '(deterministic, pushdown) or with the allowed support and frequencies (non-deterministic, stochastic). '
        'Distinct = (automaton, words).')
FLOORS = {'steps': 200000, 'nd_steps': 100000, 'vpa_words': 40000, 'step_to': 20000, 'frequency_tests': 400, 'undefined_inputs': 10000}


def plan(tier):
    q = tier == 'quick'
    return [('det', 36000 if q else 100000), ('nd', 24000 if q else 80000), ('freq', 1200 if q else 6000),
            ('vpa', 20000 if q else 60000), ('sevpa', 20000 if q else 60000)]


def structure(model):
    def norm(tr):
        if isinstance(tr, list):
            return [(id(e[0]), e[1]) for e in tr]
        res = []
        for k, v in tr.items():
            if isinstance(v, list):
                res.append((repr(k), [(id(e),) if not isinstance(e, tuple) else tuple(x if isinstance(x, (str, int, float))
                                                                                      else id(x) for x in e) for e in v]))
            else:
                res.append((repr(k), id(v)))
        return res
    return [(id(s), s.state_id, norm(s.transitions), repr(getattr(s, 'output', None)),
             repr(getattr(s, 'is_accepting', None))) for s in model.states], id(model.initial_state)


def run(family, idx, rng, mon):
    globals()['do_' + family](rng, mon, idx)


def undefined(mon, model, a, wit):
    """an input without transition is refused and changes nothing"""
    before, s = structure(model), model.current_state
    try:
        r = model.step(a)
    except Exception:
        r = None
    else:
        mon.fail('undefined-input', f'step with the undefined input {a!r} returned {r!r}', **wit)
    mon.ev('undefined_inputs')
    mon.check(model.current_state is s and structure(model) == before, 'undefined-input',
              f'the refused input {a!r} moved or changed the automaton', **wit)


def do_det(rng, mon, idx):
    k = ('dfa', 'moore', 'mealy')[idx % 3]
    m = permuted(rng, gen_dm(rng, k, nmax=9))
    order = list(range(m.n))
    rng.shuffle(order)
    model = build(m, order=order)
    st = {i: model.states[j] for j, i in enumerate(order)}
    before = structure(model)
    sul = AutomatonSUL(model)
    wit = dict(machine=m.describe())
    queries = steps = 0
    for _ in range(6):
        w = word(rng, m.A, 0, 10)
        how = rng.choice(['step', 'query', 'exec', 'io'])
        if how == 'step':
            model.reset_to_initial()
            got = []
            s = m.init
            if k != 'mealy':
                x = model.step(None)
                mon.check(same(x, m.so[s]), 'output', f'step(None) in the initial state gives {x!r}', **wit)
            for a in w:
                got.append(model.step(a))
                s = m.d[s][a]
                mon.check(model.current_state is st[s], 'state', f'after {w} prefix the automaton is in the wrong state', **wit)
                if k != 'mealy' and rng.random() < .3:
                    x = model.step(None)
                    mon.check(same(x, m.so[s]) and model.current_state is st[s], 'output',
                              f'step(None) gives {x!r} or moves the automaton', **wit)
            exp = m.run(w)
        elif how == 'exec':
            i = rng.randrange(m.n)
            got, exp = model.execute_sequence(st[i], w), m.run(w, i)
        elif w or k != 'mealy':
            got, exp = (sul.query(w), m.answer(w)) if how == 'query' else (sul.io_query(w), list(zip(w, m.answer(w))))
            queries += 1
            steps += len(w)
        else:
            continue
        if rng.random() < .15:
            undefined(mon, model, 'no such input', wit)
        mon.ev('steps', len(w))
        mon.check(len(got) == len(exp) and all(map(same, got, exp)) or (how == 'io' and got == exp), 'output',
                  f'{how} of {w} gives {got}, expected {exp}', **wit)
    mon.check((sul.num_queries, sul.num_steps) == (queries, steps), 'accounting',
              f'{sul.num_queries} queries / {sul.num_steps} steps counted for {queries} / {steps}', **wit)
    mon.check(structure(model) == before, 'mutated', 'execution changed the automaton', **wit)
    mon.seen(m.describe())


def do_nd(rng, mon, idx):
    k = ('onfsm', 'ndmoore', 'mdp', 'smm', 'mc')[idx % 5]
    m = gen_sm(rng, k, partial=rng.random() < .3 and k != 'mc', **wide(rng, nmax=6))
    order = list(range(m.n))
    rng.shuffle(order)
    model = build_sm(m, order=order)
    st = {i: model.states[j] for j, i in enumerate(order)}
    inv = {id(s): i for i, s in st.items()}
    before = structure(model)
    alpha = set(map(repr, model.get_input_alphabet())) if k != 'mc' else None
    compl = model.is_input_complete() if k != 'mc' else None
    wit = dict(machine=m.describe())
    seen = set()
    for _ in range(4):
        model.reset_to_initial()
        s = m.init
        mon.check(model.current_state is st[s], 'state', 'reset does not lead to the initial state', **wit)
        if k == 'mdp':
            mon.check(same(model.step(None), m.so[s]) and model.current_state is st[s], 'output',
                      'step(None) does not report the current output', **wit)
        for _ in range(12):
            if k == 'mc':
                a = None
                if not m.options(s, a):
                    mon.check(same(model.step(), m.so[s]) and model.current_state is st[s], 'state', 'absorbing state left', **wit)
                    break
            else:
                ok = [a for a in m.A if m.options(s, a)]
                if not ok:
                    break
                a = rng.choice(ok)
            opts = m.options(s, a)
            if k != 'mc' and rng.random() < .2:
                undefined(mon, model, rng.choice([x for x in m.A if not m.options(s, x)] + ['no such input']), wit)
                if k == 'onfsm' and rng.random() < .5:
                    r = st[s].get_transition('no such input', rng.choice([None, 'x']))
                    mon.check(not r, 'get-transition', f'get_transition of an unknown input = {r}', **wit)
            if k == 'onfsm':
                mon.check(sorted(map(repr, model.outputs_on_input(a))) == sorted(repr(e[0]) for e in opts), 'outputs-on-input',
                          f'outputs_on_input({a!r}) = {model.outputs_on_input(a)}', **wit)
                o = rng.choice(opts)
                g = st[s].get_transition(a, o[0])
                mon.check(g is not None and g[0] == o[0] and g[1] is st[o[1]], 'get-transition',
                          f'get_transition({a!r}, {o[0]!r}) = {g}', **wit)
            if k != 'ndmoore' and rng.random() < .4:
                # directed step
                if rng.random() < .3:
                    bad = 'no such output'
                    r = model.step_to(bad) if k == 'mc' else model.step_to(a, bad)
                    mon.check(r is None and model.current_state is st[s], 'step-to', 'step_to with an impossible output '
                              f'returned {r!r} or moved', **wit)
                    if k != 'mc':
                        r = model.step_to('no such input', opts[0][0])
                        mon.check(r is None and model.current_state is st[s], 'step-to', 'step_to with an unknown input', **wit)
                e = rng.choice(opts)
                r = model.step_to(e[0]) if k == 'mc' else model.step_to(a, e[0])
                mon.ev('step_to')
                mon.check(same(r, e[0]) and model.current_state is st[e[1]], 'step-to',
                          f'step_to({a!r}, {e[0]!r}) = {r!r}, state {inv.get(id(model.current_state))}, expected {e[1]}', **wit)
                s = e[1]
                continue
            o = model.step() if k == 'mc' else model.step(a)
            mon.ev('nd_steps')
            t = inv.get(id(model.current_state))
            mon.check(any(same(e[0], o) and e[1] == t for e in opts), 'support',
                      f'step({a!r}) in state {s} gave ({o!r}, {t}), allowed {opts}', **wit)
            seen.add((s, repr(a), t))
            s = t
    mon.check(structure(model) == before, 'mutated', 'execution changed the automaton', **wit)
    if k != 'mc':
        mon.check(set(map(repr, model.get_input_alphabet())) == alpha and model.is_input_complete() == compl, 'mutated',
                  'execution changed the input alphabet or completeness', **wit)
    mon.seen(k, m.describe(), sorted(seen))


def do_freq(rng, mon, idx):
    k = ('onfsm', 'ndmoore', 'mdp', 'smm', 'mc')[idx % 5]
    m = gen_sm(rng, k, nmax=4, amax=2)
    model = build_sm(m)
    st = list(model.states)
    inv = {id(s): i for i, s in enumerate(st)}
    N = 4000
    s = rng.randrange(m.n)
    a = None if k == 'mc' else rng.choice(m.A)
    opts = m.options(s, a)
    cnt = {}
    for _ in range(N):
        model.current_state = st[s]
        o = model.step() if k == 'mc' else model.step(a)
        key = (repr(o), inv[id(model.current_state)])
        cnt[key] = cnt.get(key, 0) + 1
    eps = math.sqrt(math.log(2 / 1e-12) / (2 * N))
    for o, t, p in opts:
        q = p if k in ('mdp', 'smm', 'mc') else 1 / len(opts)
        f = cnt.get((repr(o), t), 0) / N
        mon.check(abs(f - q) < eps, 'frequency', f'{k}: ({o!r}, {t}) on {a!r} taken with frequency {f:.3f}, '
                                                 f'probability {q:.3f}', machine=m.describe())
    mon.ev('frequency_tests')
    mon.seen('freq', m.describe(), s, repr(a))


def build_vpa(rv, ids=None):
    ids = ids or [f'q{i}' for i in range(len(rv.acc))]
    st = [VpaState(ids[i], rv.acc[i]) for i in range(len(rv.acc))]
    for i, s in enumerate(st):
        for a, t in rv.ii[i].items():
            s.transitions[a].append(VpaTransition(s, st[t], a, None))
        for c, (t, g) in rv.cc[i].items():
            s.transitions[c].append(VpaTransition(s, st[t], c, 'push', fresh(g)))
        for (g, r), t in rv.rr[i].items():
            s.transitions[r].append(VpaTransition(s, st[t], fresh(r), 'pop', fresh(g)))
    return Vpa(st[rv.init], st)


def build_sevpa(rv, ids=None):
    ids = ids or [f'q{i}' for i in range(len(rv.acc))]
    st = [SevpaState(ids[i], rv.acc[i]) for i in range(len(rv.acc))]
    for i, s in enumerate(st):
        for a, t in rv.ii[i].items():
            s.transitions[a].append(SevpaTransition(st[t], a, None))
        for (g, r), t in rv.rr[i].items():
            s.transitions[r].append(SevpaTransition(st[t], r, 'pop', (fresh(ids[g[0]]), fresh(g[1]))))
    return Sevpa(st[rv.init], st)


def vids(rng, rv):
    n = len(rv.acc)
    return rng.choice([None, None, list(range(n)), [f's{n - i}' for i in range(n)], [('s', i) for i in range(n)]])


def used(rv):
    """letters that actually occur on transitions"""
    I = {a for r in rv.ii for a in r}
    R = {r for row in rv.rr for (g, r) in row}
    C = {c for row in rv.cc for c in row}
    return I, C, R


def do_vpa(rng, mon, idx):
    rv = structured(rng) if rng.random() < .2 else gen_rv(rng, nmax=5, single_entry=rng.random() < .4)
    if rng.random() < .4:
        rv = relettered(rng, rv)
    pushdown(rng, mon, rv, build_vpa(rv, vids(rng, rv)), 'vpa')


def do_sevpa(rng, mon, idx):
    rv = gen_rv(rng, nmax=5, single_entry=True)
    # calls whose symbol is never popped are invisible in a 1-SEVPA: keep the letters that are
    C = {g[1] for row in rv.rr for (g, r) in row}
    rv.C = [c for c in rv.C if c in C]
    rv.cc = [{c: v for c, v in row.items() if c in C} for row in rv.cc]
    if rng.random() < .4:
        rv = relettered(rng, rv)
    pushdown(rng, mon, rv, build_sevpa(rv, vids(rng, rv)), 'sevpa')


def pushdown(rng, mon, rv, model, k):
    before = structure(model)
    wit = dict(machine=rv.describe())
    al = model.get_input_alphabet()
    I, C, R = used(rv)
    mon.check((set(al.internal_alphabet), set(al.call_alphabet), set(al.return_alphabet)) == (I, C, R), 'alphabet',
              f'input alphabet {al} expected {I} {C} {R}', **wit)
    sul = AutomatonSUL(model)
    for _ in range(12):
        w = list(gen_word(rng, rv))
        if rng.random() < .1:
            w.insert(rng.randrange(len(w) + 1), 'unknown letter')
        exp = []
        c = rv.cfg0()
        for a in w:
            c = rv.step(c, a)
            exp.append(rv.out(c))
        how = rng.choice(['step', 'query', 'exec'])
        if how == 'step':
            model.reset_to_initial()
            e0 = model.step(None)
            mon.check(bool(e0) == rv.out(rv.cfg0()), 'output', f'{k}: empty word answered {e0}', **wit)
            got = [model.step(a) for a in w]
            if w:
                mon.check(bool(model.step(None)) == exp[-1], 'output', f'{k}: step(None) after {w}', **wit)
        elif how == 'query':
            got = sul.query(tuple(w))
            if not w:
                exp = [rv.out(rv.cfg0())]
        else:
            got = model.execute_sequence(model.initial_state, w)
        mon.ev('vpa_words')
        mon.ev('vpa_accepting', sum(exp))
        mon.check([bool(x) for x in got] == exp and all(isinstance(x, bool) for x in got), 'output',
                  f'{k}: {how} of {w} gives {got}, expected {exp}', **wit)
    mon.check(structure(model) == before, 'mutated', f'{k}: execution changed the automaton', **wit)
    mon.seen(k, rv.describe())
