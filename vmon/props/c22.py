"""Conversions between kinds of automata keep the behaviour and leave the source alone."""
import copy

from aalpy.utils import convert_i_o_traces_for_RPNI
from aalpy.utils.HelperFunctions import dfa_from_moore, mc_format_to_mdp, mc_from_mdp
from aalpy.SULs import AutomatonSUL

from ..aal import build
from ..core import Skip
from ..gen import gen_dm, permuted, word
from ..ref import DM, diff, extract, same
from ..stoch import SM, build_sm, gen_sm, read_sm, wide

ID = 'C22'
RULE = ('A case converts one automaton (stochastic Mealy to MDP, MDP to Markov chain, Moore to DFA) or one data set and '
        'compares the probability of every short and many random traces, the answers to words, the structure and the '
        'untouched source. Distinct = (conversion, automaton).')
FLOORS = {'smm_to_mdp': 1500, 'mdp_to_mc': 800, 'moore_to_dfa': 800, 'data_sets': 600, 'trace_probabilities': 60000,
          'rejected': 100}


def plan(tier):
    q = tier == 'quick'
    return [('smm', 16000 if q else 160000), ('mc', 9000 if q else 80000), ('moore', 9000 if q else 80000),
            ('data', 7000 if q else 60000)]


def ids(rng, n):
    style = rng.choice(['s', 's', 'num', 'int', 'under', 'nested', 'tuple'])
    if style == 'num':
        return [str(i) for i in range(n)]
    if style == 'int':
        return list(range(n))
    if style == 'under':
        return [f'q_{i}' for i in range(n)]
    if style == 'nested':
        # 's', 's1', 's11', 's_1', ...: concatenations of ids and numbers coincide
        base = [f'x{i}' for i in range(n - 14)] + ['s', 's1', 's11', 's_1', 's_11', 's0', 's01', '1', '11', '10', '0', '00', '_0', 's_0']
        rng.shuffle(base)
        return base[:n]
    if style == 'tuple':
        return [('q', i) for i in range(n)]
    return [f's{i}' for i in range(n)]


def snap(m):
    """complete picture of an automaton, by identity of the state objects"""
    res = [id(m.initial_state), [id(s) for s in m.states]]
    for s in m.states:
        t = s.transitions
        if isinstance(t, dict):
            tt = [(repr(a), [tuple(id(x) if hasattr(x, 'state_id') else repr(x) for x in e) for e in l]
                   if isinstance(l, list) else id(l)) for a, l in t.items()]
        else:
            tt = [tuple(id(x) if hasattr(x, 'state_id') else repr(x) for x in e) for e in t]
        res.append((repr(s.state_id), repr(getattr(s, 'output', None)), tt))
    return res


def forward(m, belief, a, o):
    """belief: state -> weight; weights after input a with output o"""
    res = {}
    for s, w in belief.items():
        for (x, t, p) in m.options(s, a):
            if same(x, o):
                res[t] = res.get(t, 0.0) + w * p
    return res


def compare(mon, m1, m2, wit, rng, depth, A, what):
    """equal probability of every trace up to a depth (breadth limited), then along random longer traces"""
    def outs(b):
        r = {}
        for m, bel in ((m1, b[0]), (m2, b[1])):
            for s in bel:
                for a in A:
                    for (o, t, p) in m.options(s, a):
                        r.setdefault((repr(a), type(o).__name__, repr(o)), (a, o))
        return r
    start = ({m1.init: 1.0}, {m2.init: 1.0})
    level = [((), start)]
    todo = 400
    for d in range(depth):
        nxt = []
        for tr, b in level:
            for a, o in outs(b).values():
                n1, n2 = forward(m1, b[0], a, o), forward(m2, b[1], a, o)
                p1, p2 = sum(n1.values()), sum(n2.values())
                mon.ev('trace_probabilities')
                mon.check(abs(p1 - p2) <= 1e-9 * max(1.0, p1), f'{what}-probability',
                          f'trace {tr + ((a, o),)!r} has probability {p1} / {p2} after conversion', **wit)
                todo -= 1
                if p1 > 0:
                    nxt.append((tr + ((a, o),), (n1, n2)))
        if todo <= 0:
            break
        rng.shuffle(nxt)
        level = nxt[:12]
    for _ in range(6):
        tr, b = (), start
        for _ in range(12):
            ch = list(outs(b).values())
            if not ch:
                break
            a, o = rng.choice(ch)
            n1, n2 = forward(m1, b[0], a, o), forward(m2, b[1], a, o)
            p1, p2 = sum(n1.values()), sum(n2.values())
            tr += ((a, o),)
            mon.ev('trace_probabilities')
            mon.check(abs(p1 - p2) <= 1e-9 * max(1.0, p1), f'{what}-probability',
                      f'trace {tr!r} has probability {p1} / {p2} after conversion', **wit)
            if p1 <= 0:
                break
            # keep the numbers away from underflow
            b = ({s: w / p1 for s, w in n1.items()}, {s: w / p1 for s, w in n2.items()})


def closed(mon, model, wit, what):
    listed = {id(s) for s in model.states}
    r = read_sm(model) if type(model).__name__ not in ('Dfa',) else None
    mon.check(len(listed) == len(model.states), f'{what}-states', 'a state is listed twice', **wit)
    mon.check(id(model.initial_state) in listed, f'{what}-states', 'initial state is not listed', **wit)
    if r is not None:
        mon.check(all(id(s) in listed for s in r.order), f'{what}-states', 'a reached state is not listed', **wit)
    sid = [s.state_id for s in model.states]
    mon.check(len({repr(i) for i in sid}) == len(sid), f'{what}-ids', f'states share an id: {sid}', **wit)
    return r


def run(family, idx, rng, mon):
    {'smm': smm, 'mc': mc, 'moore': moore, 'data': data}[family](rng, mon)


def smm(rng, mon):
    m = gen_sm(rng, 'smm', observable=rng.random() < .7, partial=rng.random() < .4, **wide(rng, nmax=6))
    m.init = rng.randrange(m.n)
    order = list(range(m.n))
    rng.shuffle(order)
    src = build_sm(m, ids(rng, m.n), order)
    wit = dict(source=m.describe(), ids=[repr(s.state_id) for s in src.states])
    before = snap(src)
    alph = src.get_input_alphabet()
    got = src.to_mdp()
    mon.check(type(got).__name__ == 'Mdp', 'smm-type', type(got).__name__, **wit)
    mon.check(snap(src) == before, 'smm-source', 'conversion changed the source', **wit)
    g = closed(mon, got, wit, 'smm')
    mon.check(not any(s is x for s in got.states for x in src.states), 'smm-source', 'states are shared', **wit)
    reached = {repr(a) for s in m_reach(m) for a in m.t[s]}
    ga = {repr(a) for a in got.get_input_alphabet()}
    mon.check(reached <= ga <= {repr(a) for a in alph}, 'smm-alphabet', f'{alph} / {got.get_input_alphabet()}', **wit)
    # the start state carries an output no transition of the source produces and is never re-entered
    mon.check(not any(t == 0 for row in g.t for l in row.values() for _, t, _ in l), 'smm-start',
              'the start state is entered again', **wit)
    compare(mon, m, g, wit, rng, 4, m.A, 'smm')
    # definedness: same inputs along every (input, output) walk
    for s, row in enumerate(g.t):
        for a, l in row.items():
            if l:
                mon.check(abs(sum(e[2] for e in l) - 1) < 1e-6, 'smm-distribution', f'{a!r}: {l}', **wit)
    mon.ev('smm_to_mdp')
    mon.seen('smm', repr(m.describe()))


def m_reach(m):
    seen, todo = {m.init}, [m.init]
    while todo:
        s = todo.pop()
        for l in m.t[s].values():
            for _, t, p in l:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
    return seen


def mc(rng, mon):
    m = gen_sm(rng, 'mdp', observable=rng.random() < .7, partial=rng.random() < .3, **wide(rng, nmax=6))
    if rng.random() < .5:
        # falsy inputs
        new = rng.sample([0, '', (), 'a', 5, 'b', (0,), -1, 'c', 2.5, ('', 1), 'd', 8, 'e'], len(m.A))
        am = dict(zip(m.A, new))
        m = SM('mdp', new, [{am[a]: l for a, l in r.items()} for r in m.t], m.so, m.init)
    m.init = rng.randrange(m.n)
    if rng.random() < .02:
        m.t = [{} for _ in m.t]
    order = list(range(m.n))
    rng.shuffle(order)
    src = build_sm(m, ids(rng, m.n), order)
    alph = src.get_input_alphabet()
    before = snap(src)
    wit = dict(source=m.describe(), alphabet=[repr(a) for a in alph])
    if not alph:
        got = mc_from_mdp(src)
        mon.check([(s.state_id, s.output, s.transitions) for s in got.states] == [(s.state_id, s.output, []) for s in src.states] and
                  got.initial_state.state_id == src.initial_state.state_id, 'mc-transitions', 'MDP without transitions', **wit)
        return
    if len(alph) > 1 and rng.random() < .15:
        try:
            mc_from_mdp(src)
        except ValueError:
            mon.ev('rejected')
            return
        mon.fail('mc-ambiguous', 'several inputs and none selected, but converted', **wit)
    a = rng.choice(alph)
    got = mc_from_mdp(src) if len(alph) == 1 and rng.random() < .7 else mc_from_mdp(src, input_symbol=a)
    wit['input'] = repr(a)
    mon.check(type(got).__name__ == 'MarkovChain', 'mc-type', type(got).__name__, **wit)
    mon.check(snap(src) == before, 'mc-source', 'conversion changed the source', **wit)
    g = closed(mon, got, wit, 'mc')
    mon.check(len(got.states) == len(src.states), 'mc-states', f'{len(got.states)} / {len(src.states)} states', **wit)
    mon.check([s.state_id for s in got.states] == [s.state_id for s in src.states], 'mc-ids', 'ids differ', **wit)
    for s, x in zip(src.states, got.states):
        mon.check(same(s.output, x.output), 'mc-output', f'{s.output!r} / {x.output!r}', **wit)
        want = [(t.state_id, p) for t, p in s.transitions.get(a, [])]
        have = [(t.state_id, p) for t, p in x.transitions]
        mon.check(sorted(map(repr, want)) == sorted(map(repr, have)), 'mc-transitions',
                  f'{s.state_id}: {want} / {have}', **wit)
    mon.check(same(g.so[g.init], m.so[m.init]), 'mc-initial', 'initial output', **wit)
    fixed = SM('mc', [None], [{None: r.get(a, [])} for r in m.t], m.so, m.init)
    compare(mon, fixed, g, wit, rng, 4, [None], 'mc')
    mon.ev('mdp_to_mc')
    mon.seen('mc', repr(m.describe()), repr(a))


def moore(rng, mon):
    m = permuted(rng, gen_dm(rng, 'moore', nmax=9, amax=3, outs='bool', omax=2))
    if rng.random() < .3:
        m.so = [None if o is False and rng.random() < .5 else o for o in m.so]
    if rng.random() < .3:
        for s in range(m.n):
            for a in list(m.d[s]):
                if rng.random() < .2:
                    del m.d[s][a]
    bad = rng.random() < .12
    if bad:
        s = rng.randrange(m.n)
        m.so[s] = rng.choice(['x', '', 2, 'True', -1, ('t',)])
    src = build(m, ids(rng, m.n))
    wit = dict(source=m.describe(), ids=[repr(s.state_id) for s in src.states])
    before = snap(src)
    if bad:
        try:
            dfa_from_moore(src)
        except ValueError:
            mon.ev('rejected')
            mon.check(snap(src) == before, 'moore-source', 'failed conversion changed the source', **wit)
            return
        mon.fail('moore-domain', 'outputs that are no booleans were converted', **wit)
    got = dfa_from_moore(src)
    mon.check(snap(src) == before, 'moore-source', 'conversion changed the source', **wit)
    mon.check(not any(s is x for s in got.states for x in src.states), 'moore-source', 'states are shared', **wit)
    g = extract(got, 'dfa')
    want = DM('dfa', m.A, m.d, [bool(o) for o in m.so], None, m.init)
    w = diff(want, g, m.A)
    mon.check(w is None, 'moore-language', f'answers differ on {w!r}', **wit)
    mon.check([repr(s.state_id) for s in got.states] == [repr(s.state_id) for s in src.states], 'moore-ids', 'ids', **wit)
    for s, x in zip(src.states, got.states):
        mon.check(x.is_accepting is bool(s.output), 'moore-acceptance', f'{s.output!r} / {x.is_accepting!r}', **wit)
        mon.check({repr(a): repr(t.state_id) for a, t in s.transitions.items()} ==
                  {repr(a): repr(t.state_id) for a, t in x.transitions.items()}, 'moore-transitions',
                  f'{s.state_id!r}', **wit)
        mon.check(all(any(t is y for y in got.states) for t in x.transitions.values()), 'moore-states',
                  'a target is not listed', **wit)
    if m.complete():
        for _ in range(6):
            w = word(rng, m.A, 0, 9)
            mon.check(list(AutomatonSUL(got).query(w)) == [bool(o) for o in m.answer(w)], 'moore-answer', f'{w!r}', **wit)
    mon.ev('moore_to_dfa')
    mon.seen('moore', repr(m.describe()))


def data(rng, mon):
    if rng.random() < .3:
        # Markov chain data as data of an MDP with one input
        O = rng.choice([['a', 'b'], [0, 1, 2], ['x', 3, ('t', 1)]])
        seqs = [[rng.choice(O) for _ in range(rng.randint(1, 7))] for _ in range(rng.randint(0, 9))]
        if rng.random() < .5:
            seqs = [tuple(s) for s in seqs]
        keep = copy.deepcopy(seqs)
        got = mc_format_to_mdp(seqs)
        wit = dict(data=repr(seqs), result=repr(got))
        mon.check(seqs == keep, 'data-source', 'the data changed', **wit)
        mon.check(len(got) == len(seqs), 'data-mc', 'number of sequences', **wit)
        sym = set()
        for s, g in zip(seqs, got):
            mon.check(len(g) == len(s) and same(g[0], s[0]), 'data-mc', f'{s!r} -> {g!r}', **wit)
            for x, e in zip(s[1:], g[1:]):
                mon.check(len(e) == 2 and same(e[1], x), 'data-mc', f'{s!r} -> {g!r}', **wit)
                sym.add(e[0])
        mon.check(len(sym) <= 1, 'data-mc', f'several inputs {sym}', **wit)
        mon.ev('data_sets')
        mon.seen('mcdata', repr(seqs))
        return
    kind = rng.choice(['mealy', 'moore', 'dfa'])
    m = gen_dm(rng, kind, nmax=6, amax=3, outs=rng.choice(['str', 'int', 'tuple', 'mixed']))
    seqs, want = [], set()
    for _ in range(rng.randint(0, 8)):
        w = word(rng, m.A, 0, 7)
        outs = m.run(w)
        s = list(zip(w, outs))
        if kind != 'mealy':
            s = [m.so[m.init]] + s
            want.add((repr(()), repr(m.so[m.init])))
        for i in range(len(w)):
            want.add((repr(w[:i + 1]), repr(outs[i])))
        seqs.append(tuple(s) if rng.random() < .3 else s)
    keep = copy.deepcopy(seqs)
    got = convert_i_o_traces_for_RPNI(seqs, kind) if kind != 'mealy' or rng.random() < .6 else convert_i_o_traces_for_RPNI(seqs)
    wit = dict(data=repr(seqs), result=repr(got), automaton=kind)
    mon.check(seqs == keep, 'data-source', 'the data changed', **wit)
    have = [(repr(tuple(i)), repr(o)) for i, o in got]
    mon.check(set(have) == want, 'data-rpni', f'missing {sorted(want - set(have))[:3]}, extra {sorted(set(have) - want)[:3]}',
              **wit)
    mon.check(len(have) == len(set(have)), 'data-rpni', 'duplicates', **wit)
    mon.ev('data_sets')
    mon.seen('rpni', kind, repr(seqs))
