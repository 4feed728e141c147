"""Analyses of deterministic automata agree with the definition: characterization sets, distinguishing sequences,
shortest paths, minimality, minimisation, connectivity, completeness; queries leave the automaton untouched."""
import warnings

from aalpy.automata import MooreState

from ..aal import build
from ..core import Violation
from ..gen import gen_dm, mutate, permuted, word
from ..ref import DM, diff, extract, same

ID = 'C12'
RULE = ('A case builds one automaton (shuffled state list, unreachable and equivalent states, partial for the path '
        'queries) and compares every analysis with an independent implementation on all states / state pairs. '
        'Distinct = (analysis, machine); every case has at least one pair of states unless it is the one-state machine.')
FLOORS = {'pairs': 200000, 'charsets': 9000, 'paths': 150000, 'minimized': 6000, 'prefixes': 20000}


def plan(tier):
    q = tier == 'quick'
    return [('charset', 18000 if q else 60000), ('pairs', 12000 if q else 40000), ('minimize', 12000 if q else 40000),
            ('paths', 10000 if q else 40000), ('large', 300 if q else 600), ('partial', 6000 if q else 20000)]


def make(rng, nmax=9, amax=4, styles=None, lo=1):
    k = rng.choice(['dfa', 'moore', 'mealy'])
    m = gen_dm(rng, k, nmax=nmax, amax=amax, nmin=lo, **({'styles': styles} if styles else {}))
    if rng.random() < .35:
        m = m.minimize()
    m = permuted(rng, m)
    order = list(range(m.n))
    rng.shuffle(order)
    model = build(m, order=order)
    return m, model, order


def answers(m, s, w):
    if not w:
        return [] if m.kind == 'mealy' else [m.so[s]]
    return m.run(w, s)


def agree(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def bfs(m, s):
    return m.reach(s)


def word_classes(m, nonempty):
    """state partition by output behaviour; nonempty=True ignores the state's own output"""
    cls = m.classes(range(m.n))
    if not nonempty or m.kind == 'mealy':
        return cls
    return {s: tuple(cls[m.d[s][a]] for a in m.A) for s in range(m.n)}


def snapshot(model):
    return [(id(s), s.state_id, list(s.transitions.items())) for s in model.states], model.current_state


def run(family, idx, rng, mon):
    globals()['do_' + family](rng, mon)


def do_charset(rng, mon, nmax=9, lo=1, styles=None):
    m, model, order = make(rng, nmax, lo=lo, styles=styles)
    st = {i: model.states[j] for j, i in enumerate(order)}
    opts = dict(online_suffix_closure=rng.random() < .5, split_all_blocks=rng.random() < .5, raise_warning=False)
    init = None
    if rng.random() < .4:
        init = list({word(rng, m.A, 1, 3) for _ in range(rng.randint(1, 3))})
    cls = m.classes(range(m.n))
    minimal = len(set(cls.values())) == m.n
    before = snapshot(model)
    given = None if init is None else rng.choice([list, tuple])(init)
    keep = repr(given)
    cs = model.compute_characterization_set(char_set_init=given, **opts)
    wit = dict(machine=m.describe(), options=opts, init=init, got=cs)
    mon.check(snapshot(model) == before, 'analysis-mutates', 'computing a characterization set changed the automaton', **wit)
    mon.check(repr(given) == keep, 'analysis-mutates', f'initial sequences {keep} became {given!r}', **wit)
    mon.ev('charsets')
    if not minimal:
        mon.check(cs is None, 'charset-none', f'characterization set {cs} for an automaton with equivalent states', **wit)
    else:
        mon.check(cs is not None, 'charset-none', 'no characterization set for a minimal automaton', **wit)
        cs = [tuple(c) for c in cs]
        for i in range(m.n):
            for j in range(i):
                mon.ev('pairs')
                if not any(not agree(answers(m, i, c), answers(m, j, c)) for c in cs):
                    mon.fail('charset-incomplete', f'states {i} and {j} are not separated by {cs}', **wit)
        if init is not None:
            mon.check(set(init) <= set(cs), 'charset-init', f'initial sequences {init} missing from {cs}', **wit)
        elif opts['online_suffix_closure']:
            S = set(cs)
            mon.check(all(len(c) <= 1 or c[1:] in S for c in S), 'charset-closure', f'{cs} is not suffix closed', **wit)
        mon.check(len(set(cs)) == len(cs), 'charset-duplicates', f'{cs} has duplicates', **wit)
    s1, s2 = model.compute_characterization_set(return_same_states=True, raise_warning=False)
    if minimal:
        mon.check(s1 is None and s2 is None, 'same-states', 'equivalent states reported for a minimal automaton', **wit)
    else:
        inv = {id(o): i for i, o in st.items()}
        mon.check(s1 is not s2 and id(s1) in inv and id(s2) in inv and cls[inv[id(s1)]] == cls[inv[id(s2)]],
                  'same-states', 'states reported as equivalent are not', **wit)
    mon.check(model.is_minimal() == minimal, 'is-minimal', f'is_minimal() = {model.is_minimal()}, reference {minimal}', **wit)
    mon.seen('charset', str(opts), m.describe())
    mon.sample(family='charset', options=opts, init=init, result=repr(cs), states=m.n)


def do_pairs(rng, mon, nmax=8):
    m, model, order = make(rng, nmax)
    st = {i: model.states[j] for j, i in enumerate(order)}
    cur = rng.choice(model.states)
    model.current_state = cur
    before = snapshot(model)
    cls = word_classes(m, True)
    al = list(m.A)
    rng.shuffle(al)
    for i in range(m.n):
        for j in range(m.n):
            seq = model.find_distinguishing_seq(st[i], st[j], al)
            mon.ev('pairs')
            eq = cls[i] == cls[j]
            if eq:
                mon.check(seq is None or (len(seq) == 0 and not agree(answers(m, i, ()), answers(m, j, ()))),
                          'dist-seq', f'{seq} reported to distinguish states {i},{j}, which answer alike', machine=m.describe())
            else:
                own = m.kind != 'mealy' and m.so[i] != m.so[j]
                mon.check(seq is not None, 'dist-seq', f'no sequence for the distinguishable states {i},{j}', machine=m.describe())
                mon.check(not agree(answers(m, i, tuple(seq)), answers(m, j, tuple(seq))), 'dist-seq',
                          f'{seq} does not distinguish {i},{j}', machine=m.describe())
                best = dist_len(m, i, j)
                mon.check(len(seq) <= best, 'dist-seq-length', f'{seq} for {i},{j}: a sequence of length {best} exists',
                          machine=m.describe())
    # output queries from arbitrary states
    for _ in range(10):
        i = rng.randrange(m.n)
        w = word(rng, m.A, 0, 7)
        got = model.compute_output_seq(st[i], w)
        mon.check(agree(list(got), answers(m, i, w)), 'output-seq', f'compute_output_seq({i}, {w}) = {got}', machine=m.describe())
        a = rng.choice(m.A)
        got = model.output_step(st[i], a)
        mon.check(same(got, m.out(i, a)), 'output-step', f'output_step({i}, {a!r}) = {got!r}', machine=m.describe())
        if rng.random() < .5:
            mon.check(snapshot(model) == before, 'analysis-mutates', 'an output query moved the automaton', machine=m.describe())
        got = model.execute_sequence(st[i], w)
        mon.check(list(got) == m.run(w, i) and model.current_state is st[m.goto(w, i)], 'execute',
                  f'execute_sequence({i}, {w}) = {got}', machine=m.describe())
        model.current_state = cur
    mon.check(snapshot(model) == before, 'analysis-mutates', 'a query changed the automaton', machine=m.describe())
    for i in range(m.n):
        d, s = st[i].get_diff_state_transitions(), st[i].get_same_state_transitions()
        loops = [a for a in m.A if m.d[i][a] == i]
        mon.check(sorted(map(repr, s)) == sorted(map(repr, loops)) and sorted(map(repr, list(d) + list(s))) == sorted(map(repr, m.A)),
                  'self-loops', f'state {i}: same-state transitions {s}, other {d}', machine=m.describe())
    mon.seen('pairs', m.describe())


def dist_len(m, i, j):
    from collections import deque
    seen, q = {(i, j)}, deque([(i, j, 0)])
    while q:
        x, y, n = q.popleft()
        for a in m.A:
            if m.out(x, a) != m.out(y, a):
                return n + 1
            p = (m.d[x][a], m.d[y][a])
            if p not in seen:
                seen.add(p)
                q.append((*p, n + 1))


def check_prefixes(mon, m, model, idx, shortest, **wit):
    dist = m.reach()
    for s in model.states:
        i = idx[id(s)]
        mon.ev('prefixes')
        if i in dist:
            mon.check(s.prefix is not None, 'prefix', f'reachable state {i} has no prefix', **wit)
            mon.check(m.goto(s.prefix) == i, 'prefix', f'prefix {s.prefix} does not lead to state {i}', **wit)
            if shortest:
                mon.check(len(s.prefix) == len(dist[i]), 'prefix', f'prefix {s.prefix} is not shortest', **wit)
        else:
            mon.check(s.prefix is None, 'prefix', f'unreachable state {i} has prefix {s.prefix}', **wit)


def do_minimize(rng, mon, nmax=9):
    m, model, order = make(rng, nmax, styles=['random', 'twin', 'twin', 'twin', 'unreach', 'nearmin', 'sink', 'single', 'cycle'])
    k_all = len(set(m.classes(range(m.n)).values()))
    k_reach = m.minimal_size()
    pre = rng.random() < .5
    if pre:
        model.compute_prefixes()
        check_prefixes(mon, m, model, {id(model.states[j]): i for j, i in enumerate(order)}, True, machine=m.describe())
    model.minimize()
    wit = dict(machine=m.describe(), order=order)
    mon.check(any(s is model.initial_state for s in model.states), 'minimize-initial',
              'the initial state of the minimized automaton is not one of its states', **wit)
    listed = set(map(id, model.states))
    mon.check(all(id(t) in listed for s in model.states for t in s.transitions.values()), 'minimize-dangling',
              'a transition of the minimized automaton leaves its state list', **wit)
    h = extract(model, m.kind)
    w = diff(m, h, m.A)
    mon.check(w is None, 'minimize-language', f'minimized automaton differs on {w}', **wit)
    mon.check(len(set(h.classes(range(h.n)).values())) == h.n == len(model.states), 'minimize-incomplete',
              'the minimized automaton has equivalent states', **wit)
    mon.check(len(model.states) in (k_all, k_reach), 'minimize-size', f'{len(model.states)} states, expected {k_all}', **wit)
    mon.check(model.is_minimal() is True, 'minimize-incomplete', 'is_minimal() is False after minimize()', **wit)
    ix = {id(s): i for i, s in enumerate(h.order)}
    check_prefixes(mon, h, model, ix, not pre, **wit)
    model.reset_to_initial()
    for _ in range(3):
        w = word(rng, m.A, 0, 8)
        model.reset_to_initial()
        got = [model.step(a) for a in w]
        mon.check(got == m.run(w), 'minimize-language', f'minimized automaton executes {w} as {got}', **wit)
    mon.ev('minimized')
    mon.seen('min', order, m.describe())


def do_paths(rng, mon, nmax=9):
    m, model, order = make(rng, nmax, amax=3)
    paths(rng, mon, m, model, order)
    check_global(mon, m, model)


def do_partial(rng, mon):
    m, model, order = make(rng, 8, amax=3)
    p = rng.choice([.2, .4, .6])
    for i in range(m.n):
        for a in list(m.A):
            if rng.random() < p:
                del m.d[i][a]
                if m.eo is not None:
                    del m.eo[i][a]
    model = build(m, order=order)
    paths(rng, mon, m, model, order)
    alpha = {a for r in m.d for a in r}
    complete = all(set(r) == alpha for r in m.d)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if not complete:
            before = snapshot(model)
            mon.check(model.is_minimal() is False, 'partial-minimal', 'is_minimal() of a partial automaton is not False',
                      machine=m.describe())
            model.minimize()
            mon.check(snapshot(model) == before, 'partial-minimize', 'minimize() changed a partial automaton', machine=m.describe())
    mon.check(model.is_input_complete() == complete, 'input-complete', f'is_input_complete() = {model.is_input_complete()}',
              machine=m.describe())
    mon.check(set(map(repr, model.get_input_alphabet())) == set(map(repr, alpha)) and
              len(model.get_input_alphabet()) == len(alpha), 'alphabet', f'{model.get_input_alphabet()} vs {alpha}')


def paths(rng, mon, m, model, order):
    st = {i: model.states[j] for j, i in enumerate(order)}
    allr = {i: bfs(m, i) for i in range(m.n)}
    before = snapshot(model)
    for i in range(m.n):
        for j in range(m.n):
            p = model.get_shortest_path(st[i], st[j])
            mon.ev('paths')
            if j in allr[i]:
                mon.check(p is not None, 'shortest-path', f'no path from {i} to {j}', machine=m.describe())
                cur = i
                for a in p:
                    mon.check(a in m.d[cur], 'shortest-path', f'path {p} from {i} uses undefined input', machine=m.describe())
                    cur = m.d[cur][a]
                mon.check(cur == j, 'shortest-path', f'path {p} from {i} leads to {cur}, not {j}', machine=m.describe())
                mon.check(len(p) == len(allr[i][j]), 'shortest-path', f'path {p} from {i} to {j} is not shortest '
                                                                      f'({allr[i][j]})', machine=m.describe())
            else:
                mon.check(p is None, 'shortest-path', f'path {p} from {i} to the unreachable {j}', machine=m.describe())
    sc = all(len(r) == m.n for r in allr.values())
    mon.check(model.is_strongly_connected() == sc, 'strongly-connected', f'is_strongly_connected() = '
              f'{model.is_strongly_connected()}, reference {sc}', machine=m.describe())
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        foreign = MooreState('foreign', 0)
        mon.check(model.get_shortest_path(foreign, st[0]) is None and model.get_shortest_path(st[0], foreign) is None,
                  'shortest-path', 'path from or to a state of another automaton')
    mon.check(snapshot(model) == before, 'analysis-mutates', 'a path query changed the automaton', machine=m.describe())
    model.compute_prefixes()
    check_prefixes(mon, m, model, {id(s): i for i, s in st.items()}, True, machine=m.describe())
    for i in range(m.n):
        mon.check(model.get_state_by_id(f's{i}') is st[i], 'state-by-id', f'get_state_by_id(s{i})')
    mon.check(model.get_state_by_id('nope') is None, 'state-by-id', 'get_state_by_id of an unknown id')
    mon.seen('paths', m.describe())


def check_global(mon, m, model):
    mon.check(model.is_input_complete() is True, 'input-complete', 'complete automaton reported incomplete')
    mon.check(sorted(map(repr, model.get_input_alphabet())) == sorted(map(repr, m.A)), 'alphabet',
              f'{model.get_input_alphabet()} vs {m.A}')
    mon.check(model.size == m.n, 'size', f'size {model.size} vs {m.n}')


def do_large(rng, mon):
    x = rng.random()
    if x < .5:
        do_charset(rng, mon, nmax=45, lo=25, styles=['random', 'lock', 'cycle', 'tree', 'nearmin', 'dense'])
    elif x < .8:
        do_minimize(rng, mon, nmax=30)
    else:
        do_pairs(rng, mon, nmax=25)
