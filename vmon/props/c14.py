"""Saving an automaton and loading it again yields the same automaton, for every kind of automaton."""
import contextlib
import io
import os
import shutil
import tempfile

from aalpy.SULs import AutomatonSUL
from aalpy.automata import (Dfa, MarkovChain, MealyMachine, Mdp, MooreMachine, NDMooreMachine, Onfsm, Sevpa,
                            StochasticMealyMachine, Vpa)
from aalpy.utils import load_automaton_from_file, save_automaton_to_file

from ..aal import build
from ..gen import gen_dm, permuted, word
from ..ref import DM, same
from ..stoch import build_sm, gen_sm, wide
from ..vpl import gen_rv, gen_word, structured
from .c21 import build_sevpa, build_vpa

ID = 'C14'
RULE = ('A case saves one automaton (file or string), loads it and compares states, initial state, outputs, '
        'acceptance, transitions and probabilities, state by state; or loads a hand-formatted file. '
        'Distinct = (kind, automaton, letters and ids).')
FLOORS = {'roundtrips': 3000, 'edges_compared': 30000, 'texts': 500, 'words': 10000}
KINDS = {'dfa': Dfa, 'moore': MooreMachine, 'mealy': MealyMachine, 'onfsm': Onfsm, 'ndmoore': NDMooreMachine,
         'mc': MarkovChain, 'mdp': Mdp, 'smm': StochasticMealyMachine, 'sevpa': Sevpa, 'vpa': Vpa}
ALL = list(KINDS)


def plan(tier):
    q = tier == 'quick'
    return [('roundtrip', 20000 if q else 120000), ('text', 6000 if q else 30000)]


WORDS = ['a', 'b', 'in_1', 'Coin', 'x1', 'go', 'stop', 'i-j', 'k.l', 'p+q', 'z=1', 'u v', "it's", 'UP', 'äö', 'label',
         'shape', 'f(x)', 'a,b', 'm[0]', 'tea;', '{x', '1a', 'a1', '0x', 'q?', '#1', 'push', 'pop', 'node', 'edge', '²', '1²', '٣x', '①']
OUTS = ['o', 'ok', 'OK', 'err_1', 'a b', 'x.y', '-', '(1, 2)', 'a/b', '1.5', '-3', 'None', 'True', 'e:f', '[z]', 'c,d',
        "('p', 'q')", 'o{', 'ab=c', 'quit', '__sink__', '1a', '+', '²', '³½', '①']


def letters(rng, k, kind):
    style = rng.random()
    if style < .3:
        xs = list(range(k))
        if rng.random() < .5:
            xs = rng.sample(range(0, 120), k)
        return xs
    pool = [w for w in WORDS if not (kind in ('sevpa', 'vpa') and (' ' in w or w in ('push', 'pop')))]
    if style < .6 and k <= 6:
        pool = pool[:6]
    xs = rng.sample(pool, k) if k <= len(pool) else None
    if kind not in ('sevpa',) and rng.random() < .25 and xs:
        xs[rng.randrange(k)] = rng.randrange(10)
    return xs


def outs(rng, k, kind):
    style = rng.random()
    if style < .25:
        r = list(range(k))
        return r
    pool = [o for o in OUTS if not (kind == 'smm' and ':' in o)]
    if style < .55:
        pool = pool[:5]
    xs = rng.sample(pool, min(k, len(pool)))
    if xs and rng.random() < .25:
        xs[rng.randrange(len(xs))] = rng.randrange(10)
    return xs


def ids_for(rng, n):
    style = rng.choice(['s', 's', 'q', 'word', 'num', 'under'])
    if style == 'word':
        base = ['Init', 'Wait', 'Ready', 'busy', 'A1', 'Z_9', 'q_0_1', 'sinkState', 'x', 'label']
        xs = rng.sample(base, min(n, len(base)))
        return xs + [f't{i}' for i in range(n - len(xs))]
    if style == 'num':
        return [str(i) for i in range(n)]
    if style == 'under':
        return [f'state_{i}' for i in range(n)]
    return [f'{style}{i}' for i in range(n)]


def relabel_dm(rng, m, kind):
    A = letters(rng, len(m.A), kind)
    am = dict(zip(m.A, A))
    vals = []
    for x in (m.so if m.so is not None else [o for r in m.eo for o in r.values()]):
        if not any(same(x, y) for y in vals):
            vals.append(x)
    if kind == 'dfa':
        om = {repr(x): x for x in vals}
    else:
        os_ = outs(rng, len(vals), kind)
        om = {repr(x): os_[i % len(os_)] for i, x in enumerate(vals)}
    d = [{am[a]: t for a, t in r.items()} for r in m.d]
    so = [om[repr(x)] for x in m.so] if m.so is not None else None
    eo = [{am[a]: om[repr(o)] for a, o in r.items()} for r in m.eo] if m.eo is not None else None
    if rng.random() < .25:
        for s in range(m.n):
            for a in A:
                if rng.random() < .25:
                    d[s].pop(a)
                    if eo:
                        eo[s].pop(a)
    return DM(kind, A, d, so, eo, m.init)


def relabel_sm(rng, m):
    k = m.kind
    A = letters(rng, len(m.A), k)
    am = dict(zip(m.A, A))
    am[None] = None
    vals = []
    for x in (m.so if m.so is not None else [o for r in m.t for l in r.values() for o, _, _ in l]):
        if not any(same(x, y) for y in vals):
            vals.append(x)
    os_ = outs(rng, len(vals), k)
    om = {repr(x): os_[i % len(os_)] for i, x in enumerate(vals)}
    m.t = [{am[a]: [(om[repr(o)], t, p) for o, t, p in l] for a, l in r.items()} for r in m.t]
    if m.so is not None:
        m.so = [om[repr(x)] for x in m.so]
    m.A = A
    return m


def relabel_rv(rng, rv, kind):
    A = rv.A
    pool = [w for w in WORDS if ' ' not in w and "'" not in w and 'push' not in w and 'pop' not in w and w not in '{x']
    if kind == 'sevpa':
        pool = [w for w in pool if not any(c in w for c in '(,)[]')]
    xs = rng.sample(pool, len(A)) if rng.random() < .5 else list(A)
    if kind == 'vpa' and rng.random() < .3:
        xs = list(range(len(A)))
    am = dict(zip(A, xs))
    G = sorted({g for row in rv.cc for (_, g) in row.values()} | {g for row in rv.rr for (g, _) in row}, key=repr)
    if kind == 'sevpa':
        gm = {g: (g[0], am[g[1]]) for g in G}
    else:
        gs = rng.choice([[f'g{i}' for i in range(len(G))], list(range(1, len(G) + 1)), [f'Z_{i}' for i in range(len(G))]])
        gm = dict(zip(G, gs))
    rv.ii = [{am[a]: t for a, t in r.items()} for r in rv.ii]
    rv.cc = [{am[c]: (t, gm[g]) for c, (t, g) in r.items()} for r in rv.cc]
    rv.rr = [{(gm[g], am[r]): t for (g, r), t in row.items()} for row in rv.rr]
    rv.I, rv.C, rv.R = [am[a] for a in rv.I], [am[a] for a in rv.C], [am[a] for a in rv.R]
    return rv


def view(model, kind, rnd=None, out=str):
    """state_id -> (payload, multiset of transitions), plus the initial id"""
    res = {}
    for s in model.states:
        tr = []
        if kind == 'mc':
            tr = [(t.state_id, p) for t, p in s.transitions]
        else:
            for a, e in s.transitions.items():
                if kind in ('dfa', 'moore'):
                    tr.append((a, e.state_id))
                elif kind == 'mealy':
                    tr.append((a, s.output_fun[a], e.state_id))
                else:
                    for x in e:
                        if kind == 'onfsm':
                            tr.append((a, x[0], x[1].state_id))
                        elif kind == 'ndmoore':
                            tr.append((a, x.state_id))
                        elif kind == 'mdp':
                            tr.append((a, x[0].state_id, x[1]))
                        elif kind == 'smm':
                            tr.append((a, x[1], x[0].state_id, x[2]))
                        elif kind == 'sevpa':
                            tr.append((a, x.letter, x.action, x.stack_guard if x.action else None, x.target_state.state_id))
                        else:
                            tr.append((a, x.letter, x.action, x.stack_guard if x.action else None, x.start.state_id,
                                       x.target_state.state_id))
        pay = getattr(s, 'output', None) if kind not in ('dfa', 'sevpa', 'vpa') else bool(s.is_accepting)
        res[s.state_id] = (pay, sorted(tr, key=repr))
    return res, model.initial_state.state_id


def make(rng, kind):
    """(aalpy model, words for deterministic and pushdown kinds)"""
    words = []
    if kind in ('dfa', 'moore', 'mealy'):
        m = relabel_dm(rng, permuted(rng, gen_dm(rng, kind, nmax=8)), kind)
        order = list(range(m.n))
        rng.shuffle(order)
        ids = ids_for(rng, m.n)
        model = build(m, ids=ids, order=order)
        full = all(len(r) == len(m.A) for r in m.d)
        if full:
            words = [word(rng, m.A, 1, 8) for _ in range(4)]
        return model, words
    if kind in ('sevpa', 'vpa'):
        rv = structured(rng) if kind == 'vpa' and rng.random() < .2 else gen_rv(rng, nmax=4, single_entry=kind == 'sevpa')
        if kind == 'sevpa':
            C = {g[1] for row in rv.rr for (g, r) in row}
            rv.C = [c for c in rv.C if c in C]
            rv.cc = [{c: v for c, v in row.items() if c in C} for row in rv.cc]
        rv = relabel_rv(rng, rv, kind)
        model = build_sevpa(rv) if kind == 'sevpa' else build_vpa(rv)
        ws = [gen_word(rng, rv) for _ in range(6)]
        return model, [w for w in ws if w]
    m = relabel_sm(rng, gen_sm(rng, kind, observable=rng.random() < .7, partial=rng.random() < .3 and kind != 'mc', **wide(rng, nmax=6)))
    order = list(range(m.n))
    rng.shuffle(order)
    if rng.random() < .15 and kind == 'mc':
        m.t[rng.randrange(m.n)] = {}
    return build_sm(m, ids=ids_for(rng, m.n), order=order), words


def compare(mon, model, loaded, kind, rnd=None, ctx='', wit=None):
    mon.check(type(loaded) is KINDS[kind], 'type', f'loaded automaton has type {type(loaded).__name__}, saved {kind}')
    v0, i0 = view(model, kind)
    v1, i1 = view(loaded, kind)
    strout = kind in ('mdp', 'mc')
    mon.check(i0 == i1, 'initial', f'{kind}: initial state {i0!r} loaded as {i1!r}', **wit)
    mon.check(sorted(v0) == sorted(v1) and len(loaded.states) == len(model.states), 'states',
              f'{kind}: states {sorted(v0)} loaded as {sorted(v1)}', **wit)
    for s in v0:
        p0, t0 = v0[s]
        p1, t1 = v1[s]
        if strout:
            mon.check(str(p0) == str(p1), 'output', f'{kind}: output {p0!r} of {s} loaded as {p1!r}', **wit)
        else:
            mon.check(same(p0, p1), 'output', f'{kind}: output/acceptance {p0!r} of {s} loaded as {p1!r}', **wit)
        if rnd and kind in ('mc', 'mdp', 'smm'):
            t0 = [t[:-1] + (round(t[-1], rnd),) for t in t0]
        mon.ev('edges_compared', len(t0))
        if kind in ('mc', 'mdp', 'smm'):
            t0, t1 = [sorted([t[:-1] + (float(t[-1]),) for t in z], key=repr) for z in (t0, t1)]
        mon.check(len(t0) == len(t1) and all(len(x) == len(y) and all(map(same, x, y)) for x, y in zip(t0, t1)),
                  'transitions', f'{kind}: transitions of {s}: saved {t0} loaded {t1}', **wit)


def do_roundtrip(rng, mon, idx, d):
    kind = ALL[idx % len(ALL)]
    model, words = make(rng, kind)
    rnd = rng.choice([None, None, 2, 3, 6]) if kind in ('mc', 'mdp', 'smm') else None
    before = view(model, kind)
    wit = dict(model_kind=kind, model=repr(before)[:1500])
    name = rng.choice(['model', 'My Model', 'm-1', 'x_y'])
    path = os.path.join(d, name)
    how = rng.choice(['file', 'file', 'string', 'method', 'str'])
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if how == 'str' and rnd is None:
            text = str(model)
        elif how == 'string' or how == 'str':
            text = save_automaton_to_file(model, path, file_type='string', round_floats=rnd)
        else:
            text = None
            arg = path + rng.choice(['', '.dot'])
            if how == 'method' and rnd is None:
                model.save(arg)
            else:
                save_automaton_to_file(model, arg, round_floats=rnd, display_same_state_trans=rng.random() < .8)
        if text is not None:
            mon.check(isinstance(text, str), 'type', f'string output is {type(text).__name__}', **wit)
            with open(path + '.dot', 'w', encoding=None) as f:
                f.write(text)
        mon.check(os.path.exists(path + '.dot'), 'no-file', f'nothing written to {name}.dot', **wit)
        prefixes = rng.random() < .3 and kind in ('dfa', 'moore', 'mealy')
        loaded = load_automaton_from_file(path + '.dot', kind, compute_prefixes=prefixes)
    mon.ev('roundtrips')
    compare(mon, model, loaded, kind, 2 if how == 'str' and rnd is None else rnd, how, wit)
    mon.check(view(model, kind) == before, 'mutated', f'{kind}: saving changed the automaton', **wit)
    if prefixes:
        reach, todo = {id(loaded.initial_state)}, [loaded.initial_state]
        while todo:
            for t in todo.pop().transitions.values():
                if id(t) not in reach:
                    reach.add(id(t))
                    todo.append(t)
        for s in loaded.states:
            if s.prefix is None and id(s) not in reach:
                continue
            mon.check(s.prefix is not None, 'prefix', f'no prefix for the reachable {s.state_id}', **wit)
            x = loaded.initial_state
            for a in s.prefix:
                mon.check(a in x.transitions, 'prefix', f'prefix {s.prefix} of {s.state_id} is not executable', **wit)
                x = x.transitions[a]
            mon.check(x is s, 'prefix', f'prefix {s.prefix} of {s.state_id} leads to {x.state_id}', **wit)
            mon.ev('prefixes')
    if kind in ('dfa', 'moore', 'mealy', 'sevpa', 'vpa'):
        s1, s2 = AutomatonSUL(model), AutomatonSUL(loaded)
        for w in words:
            mon.ev('words')
            x, y = s1.query(w), s2.query(w)
            mon.check(len(x) == len(y) and all(map(same, x, y)), 'behaviour', f'{kind}: {w} answered {x} before, {y} after '
                      f'loading', **wit)
    # saving what was loaded gives the same text again, so repeated round trips are stable
    if rnd is None:
        with contextlib.redirect_stdout(io.StringIO()):
            save_automaton_to_file(loaded, os.path.join(d, 'again.dot'))
            again = load_automaton_from_file(os.path.join(d, 'again.dot'), kind)
        compare(mon, loaded, again, kind, None, 'again', dict(model_kind=kind, model=repr(view(loaded, kind))[:1500]))
    mon.seen(kind, before)
    mon.sample(kind=kind, how=how, states=sorted(before[0])[:6])


def do_text(rng, mon, idx, d):
    """Files formatted by hand in the style of the automata wiki and of the repository's model collection."""
    kind = ('dfa', 'moore', 'mealy', 'mdp', 'smm', 'onfsm')[idx % 6]
    n = rng.randint(1, 6)
    ids = ids_for(rng, n)
    A = letters(rng, rng.randint(1, 3), kind)
    O = [str(o) if kind == 'mdp' else o for o in outs(rng, 3, kind)]
    semi = rng.choice(['', ';', ';'])
    sp = lambda: rng.choice(['', ' ', '  '])
    ind = rng.choice(['', '  ', '\t'])
    init = rng.randrange(n)
    nodes, edges, exp = [], [], {}
    own = rng.random() < .5
    for i in range(n):
        lab = ids[i] if own else rng.choice([ids[i], f'L{i}'])
        att = []
        pay = None
        if kind == 'dfa':
            pay = rng.random() < .5
            if pay or rng.random() < .5:
                att.append('shape="doublecircle"' if pay else 'shape="circle"')
                if rng.random() < .4:
                    att[0] = att[0].replace('"', '')
        elif kind in ('moore',):
            pay = rng.choice(O)
            lab = f'{lab}|{pay}'
            att.append('shape="record"')
            if rng.random() < .5:
                att.append('style="rounded"')
            if rng.random() < .3:
                lab = '{' + lab + '}'
        elif kind == 'mdp':
            pay = rng.choice(O)
            lab = pay
        att.append(f'label="{lab}"')
        rng.shuffle(att)
        nodes.append(f'{ind}{ids[i]} [{("," + sp()).join(att)}]{semi}')
        tr = []
        for a in A:
            if kind in ('dfa', 'moore'):
                t = rng.randrange(n)
                l, e = f'{a}', (a, t)
                es = [(l, t, e)]
            elif kind == 'mealy':
                t, o = rng.randrange(n), rng.choice(O)
                es = [(f'{a}/{o}', t, (a, o, t))]
            elif kind == 'onfsm':
                es = []
                for o in rng.sample(O, rng.randint(1, len(O))):
                    t = rng.randrange(n)
                    es.append((f'{a}/{o}', t, (a, o, t)))
            elif kind == 'mdp':
                ts = rng.sample(range(n), rng.randint(1, n))
                es = [(f'{a}:{1 / len(ts)}', t, (a, t, 1 / len(ts))) for t in ts]
            else:
                k = rng.randint(1, len(O))
                es = []
                for o in O[:k]:
                    t = rng.randrange(n)
                    es.append((f'{a}/{o}:{1 / k}', t, (a, o, t, 1 / k)))
            for l, t, e in es:
                edges.append(f'{ind}{ids[i]}{sp()}->{sp()}{ids[t]}{sp()}[label="{l}"]{semi}')
                tr.append(tuple(e))
        exp[ids[i]] = (pay, tr)
    # a transition names its target by index: the position differs by kind
    pos = {'dfa': 1, 'moore': 1, 'mealy': 2, 'onfsm': 2, 'mdp': 1, 'smm': 2}[kind]
    for i, (pay, tr) in exp.items():
        exp[i] = (pay, sorted([tuple(ids[x] if j == pos else x for j, x in enumerate(t)) for t in tr], key=repr))
    body = []
    if rng.random() < .3:
        rng.shuffle(edges)
    if rng.random() < .2:
        body = edges + nodes
    else:
        body = nodes + edges
    start = [f'{ind}__start0 [{rng.choice(["label=", "shape=none, label=", "shape=none,label="])}""]{semi}',
             f'{ind}__start0 -> {ids[init]}{rng.choice([" [label=" + chr(34) * 2 + "]", ""])}{semi}']
    lines = [rng.choice(['digraph g {', 'digraph {', 'digraph model {', 'digraph "my model" {'])]
    lines += rng.choice([start + body, body + start, [start[0]] + body + [start[1]]]) + ['}']
    if rng.random() < .3:
        lines = [x for l in lines for x in (l, rng.choice(['', l and '']))]
    path = os.path.join(d, 't.dot')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    with contextlib.redirect_stdout(io.StringIO()):
        loaded = load_automaton_from_file(path, kind)
    mon.ev('texts')
    wit = dict(model_kind=kind, text='\n'.join(lines))
    order = [l.split('[')[0].strip() for l in nodes]
    mon.check(type(loaded) is KINDS[kind] and len(loaded.states) == n, 'states',
              f'{kind}: {len(loaded.states)} states loaded, {n} in the file', **wit)
    # states are matched by walking along from the initial state and, for the rest, by file order
    byid = dict(zip(order, loaded.states))
    name = {id(s): i for i, s in byid.items()}
    mon.check(name[id(loaded.initial_state)] == ids[init], 'initial', f'{kind}: wrong initial state', **wit)
    for s in loaded.states:
        i = name[id(s)]
        tr = []
        for a, e in s.transitions.items():
            if kind in ('dfa', 'moore'):
                tr.append((a, name[id(e)]))
            elif kind == 'mealy':
                tr.append((a, s.output_fun[a], name[id(e)]))
            elif kind == 'onfsm':
                tr += [(a, x[0], name[id(x[1])]) for x in e]
            elif kind == 'mdp':
                tr += [(a, name[id(x[0])], x[1]) for x in e]
            else:
                tr += [(a, x[1], name[id(x[0])], x[2]) for x in e]
        tr.sort(key=repr)
        pay = bool(s.is_accepting) if kind == 'dfa' else s.output if kind in ('moore', 'mdp') else None
        mon.ev('edges_compared', len(tr))
        mon.check(same(pay, exp[i][0]) or (kind == 'mdp' and str(pay) == str(exp[i][0])), 'output',
                  f'{kind}: output/acceptance of {i}: {pay!r} expected {exp[i][0]!r}', **wit)
        mon.check(len(tr) == len(exp[i][1]) and all(all(map(same, x, y)) for x, y in zip(tr, exp[i][1])), 'transitions',
                  f'{kind}: transitions of {i}: {tr} expected {exp[i][1]}', **wit)
    mon.seen('text', '\n'.join(lines))


def run(family, idx, rng, mon):
    d = tempfile.mkdtemp(prefix='vmon14')
    try:
        globals()['do_' + family](rng, mon, idx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
