"""Words, access strings, error states and alphabets of visibly pushdown automata belong to their language."""
import random

from aalpy.automata import Sevpa, SevpaAlphabet, SevpaState

from ..core import Skip, StepBudget
from ..vpl import DEAD, RV, cex, from_sevpa, gen_rv, gen_word, relettered, structured
from .c21 import build_sevpa, build_vpa, structure

ID = 'C30'
RULE = ('A case builds one generated 1-SEVPA (or VPA) and calls one helper (word search, random word, error state, state removal, '
        'access string, daisy automaton); results are judged by a reference pushdown interpreter, by counting the accepted '
        'words of every length, or by exact language comparison. Distinct = (helper, automaton).')
FLOORS = {'searches': 3000, 'found_words': 10000, 'random_words': 6500, 'error_states': 2500, 'no_error_state': 900,
          'deletions': 4000, 'access_strings': 20000, 'daisies': 500, 'vpa_words': 5000, 'vpa_forced': 300, 'behind_returns': 300}


def plan(tier):
    q = tier == 'quick'
    return [('search', 6000 if q else 60000), ('rand', 4000 if q else 40000), ('error', 8000 if q else 80000),
            ('access', 4000 if q else 40000), ('daisy', 600 if q else 3000), ('vpa', 3000 if q else 30000)]


def run(family, idx, rng, mon):
    random.seed(rng.getrandbits(32))
    globals()['do_' + family](rng, mon, idx)


def gen(rng, nmax=3, amax=2):
    """single-entry automaton over the call letters that are popped somewhere"""
    rv = gen_rv(rng, nmax=nmax, single_entry=True, amax=amax)
    rv = only_popped(rv)
    return relettered(rng, rv) if rng.random() < .3 else rv


def only_popped(rv):
    C = {g[1] for row in rv.rr for (g, r) in row}
    R = {r for row in rv.rr for (g, r) in row}
    I = {a for row in rv.ii for a in row}
    rv.C, rv.R, rv.I = [c for c in rv.C if c in C], [r for r in rv.R if r in R], [a for a in rv.I if a in I]
    rv.cc = [{c: v for c, v in row.items() if c in C} for row in rv.cc]
    return RV(rv.I, rv.C, rv.R, rv.ii, rv.cc, rv.rr, rv.acc, rv.init)


def trim(rv):
    """the part of the automaton between the initial state and acceptance: states reached by well-matched words"""
    reach = access(rv)
    edges = {}
    for s in range(len(rv.acc)):
        edges[s] = set(rv.ii[s].values()) | {t for (g, r), t in rv.rr[s].items() if g[0] in reach}
    good = {s for s in reach if rv.acc[s]}
    while True:
        more = {s for s in reach if s not in good and edges[s] & good}
        if not more:
            break
        good |= more
    keep = sorted(s for s in reach if s in good)
    # a guard is pushed by any reached state, also by one that is not accepted from at its own level
    guards = sorted(reach)
    if rv.init not in keep:
        raise Skip('empty')
    al = sorted(set(keep) | set(guards))
    new = {s: i for i, s in enumerate([rv.init] + [s for s in al if s != rv.init])}
    order = sorted(new, key=new.get)
    ii = [{a: new[t] for a, t in rv.ii[s].items() if t in new} for s in order]
    rr = [{((new[g[0]], g[1]), r): new[t] for (g, r), t in rv.rr[s].items() if t in new and g[0] in new} for s in order]
    cc = [{c: (0, (i, c)) for c in rv.C} for i in range(len(order))]
    return only_popped(RV(rv.I, rv.C, rv.R, ii, cc, rr, [rv.acc[s] for s in order]))


def access(rv):
    """state -> shortest well-matched word leading to it (one level of the stack, calls expanded)"""
    acc = {rv.init: ()}
    changed = True
    while changed:
        changed = False
        for s in list(acc):
            for a, t in rv.ii[s].items():
                w = acc[s] + (a,)
                if t not in acc or len(w) < len(acc[t]):
                    acc[t] = w
                    changed = True
            for ((p, c), r), t in rv.rr[s].items():
                if p in acc and c in rv.C:
                    w = acc[p] + (c,) + acc[s] + (r,)
                    if t not in acc or len(w) < len(acc[t]):
                        acc[t] = w
                        changed = True
    return acc


def content(model):
    """what the automaton consists of, empty transition lists aside"""
    return ([(s.state_id, bool(s.is_accepting), sorted((repr(a), t.target_state.state_id, t.action, repr(t.stack_guard))
                                                       for a, ts in s.transitions.items() for t in ts))
             for s in model.states], model.initial_state.state_id)


def counts(rv, limit, bound=6000):
    """numbers of accepted words of length 0, 1, 2, ... while at most `bound` words have to be looked at"""
    cur, res, total = {rv.cfg0(): 1}, [], 0
    for n in range(limit + 1):
        res.append(sum(k for c, k in cur.items() if rv.out(c)))
        nxt = {}
        for c, k in cur.items():
            for a in rv.A:
                d = rv.step(c, a)
                if d[0] != DEAD:
                    nxt[d] = nxt.get(d, 0) + k
        total += sum(nxt.values())
        if total > bound:
            break
        cur = nxt
    return res


class Budget:
    """stops a helper that draws random numbers or steps without end"""

    def __init__(self, model, steps, draws=100000, slow=StepBudget):
        self.model, self.steps, self.draws, self.slow = model, steps, draws, slow

    def __enter__(self):
        model, real = self.model, type(self.model).step
        self.old = random.random, random.uniform, random.randint, random.choice

        def step(letter):
            self.steps -= 1
            if self.steps < 0:
                raise self.slow('too many steps')
            return real(model, letter)

        def wrap(f):
            def g(*args):
                self.draws -= 1
                if self.draws < 0:
                    raise StepBudget('too many random choices')
                return f(*args)
            return g
        model.step = step
        random.random, random.uniform, random.randint, random.choice = map(wrap, self.old)
        return self

    def __exit__(self, *exc):
        random.random, random.uniform, random.randint, random.choice = self.old
        self.model.__dict__.pop('step', None)


def do_search(rng, mon, idx):
    rv = gen(rng)
    if not rv.A:
        raise Skip('no letters')
    model = build_sevpa(rv)
    before = content(model)
    lo = rng.choice([0, 0, 1, 2, 3, 4, 5])
    num = rng.choice([1, 1, 2, 3, 5, 8])
    n = counts(rv, 10)
    lengths = [i for i, k in enumerate(n) for _ in range(min(k, num)) if i >= max(lo, 1)]
    if len(lengths) < num:
        raise Skip('too few short words')
    wit = dict(machine=rv.describe(), min_word_length=lo, num_words=num)
    # every word that can still be accepted and is not longer than the last one found may be tried, others need not be
    with Budget(model, 400000):
        words = model.get_accepting_words_bfs(lo, num) if rng.random() < .5 else \
            model.get_accepting_words_bfs(min_word_length=lo, num_words=num)
    mon.check(isinstance(words, list) and len(words) == num, 'number', f'{words} instead of {num} words', **wit)
    mon.check(len({tuple(w) for w in words}) == num, 'distinct', f'{words}', **wit)
    for w in words:
        mon.check(rv.accepts(tuple(w)) and len(w) >= lo, 'not-accepted', f'{w}', **wit)
        mon.ev('found_words')
    mon.check([len(w) for w in words] == lengths[:num], 'not-shortest', f'lengths {[len(w) for w in words]} of {words}, '
              f'shortest accepted words have {lengths[:num]}', **wit)
    mon.check(content(model) == before, 'mutated', 'searching words changed the automaton', **wit)
    mon.ev('searches')
    top = set(access_internal(rv))
    if any(s not in top and rv.rr[s] for s in access(rv)):
        mon.ev('behind_returns')
    mon.seen('search', rv.describe(), lo, num)
    mon.sample(words=[repr(w) for w in words], min=lo)


def access_internal(rv):
    todo, seen = [rv.init], {rv.init}
    while todo:
        for t in rv.ii[todo.pop()].values():
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return seen


def do_rand(rng, mon, idx):
    rv = trim(gen(rng, nmax=3))
    if not rv.C or not rv.R:
        raise Skip('no calls')
    reach = access(rv)
    if any(len(reach.get(g[0], ())) > 4 for row in rv.rr for (g, r) in row) or len(reach) < len(rv.acc):
        raise Skip('long prefixes')
    # from every state the top level can go on to acceptance, arbitrarily often
    edges = {s: set(rv.ii[s].values()) | set(rv.rr[s].values()) for s in range(len(rv.acc))}
    clos = {s: closure(edges, s) for s in edges}
    if any(not any(rv.acc[t] for t in clos[s] | {s}) for s in edges):
        raise Skip('dead end')
    on = all(any(rv.acc[t] for t in clos[s]) for s in edges)
    # a return letter drawn again and again must not be the only choice in a state without returns
    stuck = any(not row for row in rv.rr) and not rv.I
    lo = rng.choice([0, 1, 2, 2, 3, 4, 6]) if on and not stuck else 1
    if not on and any(rv.acc[s] and not clos[s] for s in edges):
        mon.ev('final_states')
    prob = rng.choice([.2, .5, .5, .8])
    wit = dict(machine=rv.describe(), min_len=lo, return_letter_prob=prob)
    model = build_sevpa(rv)
    before = content(model)
    for _ in range(3):
        with Budget(model, 1000000, slow=Skip):
            how = rng.randrange(3)
            if how == 0 and lo == 2 and prob == .5:
                w = model.get_random_accepting_word()
            elif how == 1:
                w = model.get_random_accepting_word(prob, lo)
            else:
                w = model.get_random_accepting_word(return_letter_prob=prob, min_len=lo)
        mon.check(isinstance(w, list) and rv.accepts(tuple(w)), 'not-accepted', f'{w}', **wit)
        mon.check(len(w) >= lo, 'too-short', f'{w}', **wit)
        mon.ev('random_words')
    mon.check(content(model) == before, 'mutated', 'drawing words changed the automaton', **wit)
    mon.check(model.current_state is model.initial_state and model.stack == [Sevpa.empty], 'not-reset', 'automaton left '
              f'in {model.current_state.state_id} with stack {model.stack}', **wit)
    mon.seen('rand', rv.describe(), lo, prob)


def chance(rv, lo, hi, cap=3000):
    """probability that a run which chooses among the possible transitions alike accepts after lo..hi letters"""
    dist, res = {rv.cfg0(): 1.0}, 0.0
    for k in range(hi + 1):
        nxt = {}
        for c, p in dist.items():
            if k >= lo and rv.out(c):
                res += p
                continue
            s, st = c
            opts = [(t, st) for t in rv.ii[s].values()] + [(t, st + (g,)) for t, g in rv.cc[s].values()] + \
                   [(t, st[:-1]) for (g, r), t in rv.rr[s].items() if st and g == st[-1]]
            for o in opts:
                nxt[o] = nxt.get(o, 0) + p / len(opts)
        if len(nxt) > cap:
            break
        dist = nxt
    return res


def do_vpa(rng, mon, idx):
    rv = structured(rng) if rng.random() < .2 else gen_rv(rng, nmax=4, single_entry=rng.random() < .4)
    if rng.random() < .3:
        rv = relettered(rng, rv)
    model = build_vpa(rv)
    lo, hi = rng.choice([(4, 20), (0, 8), (1, 5), (2, 12), (5, 6), (3, 3)])
    wit = dict(machine=rv.describe(), min_steps=lo, max_steps=hi)
    before = structure(model)
    sure = chance(rv, lo, min(hi - 1, 8)) > .3
    found = 0
    for i in range(60 if sure else 4):
        if rng.random() < .5:
            for a in gen_word(rng, rv):
                model.step(a) if model.current_state else model.reset_to_initial()
        if (lo, hi) == (4, 20) and rng.random() < .5:
            w = model.generate_random_accepting_word()
        elif rng.random() < .5:
            w = model.generate_random_accepting_word(lo, hi)
        else:
            w = model.generate_random_accepting_word(min_steps=lo, max_steps=hi)
        if w is None:
            mon.ev('vpa_none')
            continue
        found += 1
        mon.ev('vpa_words')
        mon.check(isinstance(w, list) and rv.accepts(tuple(w)), 'not-accepted', f'{w}', **wit)
        mon.check(lo <= len(w) <= hi, 'length', f'{w}', **wit)
        if sure and found >= 4:
            break
    if sure:
        mon.ev('vpa_forced')
        mon.check(found > 0, 'no-word', '60 attempts gave no word', **wit)
    mon.check(structure(model) == before, 'mutated', 'drawing words changed the automaton', **wit)
    mon.seen('vpa', rv.describe(), lo, hi)


def closure(edges, s):
    todo, res = [s], set()
    while todo:
        for t in edges[todo.pop()]:
            if t not in res:
                res.add(t)
                todo.append(t)
    return res


def do_error(rng, mon, idx):
    rv = gen(rng, nmax=4)
    n = len(rv.acc)
    e = None
    if rng.random() < .7 and n > 1:
        # one state that nothing leads out of, sometimes with one way out
        e = rng.randrange(1, n)
        rv.acc[e] = rng.random() < .05
        rv.ii[e] = {a: e for a in rv.I}
        G = [(s, c) for s in range(n) for c in rv.C]
        rv.rr[e] = {(g, r): e for g in G for r in rv.R}
        for s in range(n):
            for c in rv.C:
                for r in rv.R:
                    if ((e, c), r) in rv.rr[s] or rng.random() < .5:
                        rv.rr[s][((e, c), r)] = e
        x = rng.random()
        if x < .15 and rv.I:
            rv.ii[e][rng.choice(rv.I)] = rng.randrange(n)
        elif x < .3 and rv.C:
            rv.rr[e][(rng.choice(G), rng.choice(rv.R))] = rng.randrange(n)
        elif x < .45 and rv.C:
            rv.rr[rng.randrange(n)][((e, rng.choice(rv.C)), rng.choice(rv.R))] = rng.randrange(n)
    rv = only_popped(rv)
    model = build_sevpa(rv)
    before = content(model)
    wit = dict(machine=rv.describe())

    def sink(s):
        return s != rv.init and not rv.acc[s] and all(t == s for t in rv.ii[s].values()) and \
            all(t == s for t in rv.rr[s].values()) and all(t == s for row in rv.rr for (g, r), t in row.items() if g[0] == s)
    sinks = {f'q{s}' for s in range(n) if sink(s)}
    silent = {f'q{s}' for s in range(n) if not rv.ii[s] and not rv.rr[s]}
    st = model.get_error_state()
    if st is None:
        mon.check(sinks <= silent, 'missed', f'{sorted(sinks)} not recognised as error state', **wit)
        mon.ev('no_error_state')
    else:
        mon.check(any(st is s for s in model.states) and st.state_id in sinks, 'not-an-error-state',
                  f'{st.state_id} is no error state', **wit)
        mon.ev('error_states')
    mon.check(content(model) == before, 'mutated', 'looking for an error state changed the automaton', **wit)
    for s in model.states:
        mon.check(model.get_state_by_id(s.state_id) is s, 'state-by-id', f'{s.state_id}', **wit)
    mon.check(model.get_state_by_id('nobody') is None, 'state-by-id', 'state for an unknown id', **wit)
    old = from_sevpa(model, rv.I, rv.C, rv.R, 'automaton')
    if rng.random() < .7 or n < 2:
        model.delete_state(st)
        if st is None:
            mon.check(content(model) == before, 'mutated', 'delete_state(None) changed the automaton', **wit)
        else:
            w = cex(old, from_sevpa(model, rv.I, rv.C, rv.R, 'automaton without error state'))
            mon.check(w is None, 'language', f'{w}: different without the error state', **wit)
    else:
        st = model.get_state_by_id(f'q{rng.randrange(1, n)}')
        model.delete_state(st)
    if st is not None:
        exp = ([(i, a, [t for t in ts if t[1] != st.state_id and not t[3].startswith(f"('{st.state_id}',")])
                for i, a, ts in before[0] if i != st.state_id], before[1])
        mon.check(content(model) == exp, 'deletion', f'{content(model)} instead of {exp}', state=st.state_id, **wit)
        mon.ev('deletions')
        # the automaton still runs
        left = from_sevpa(model, rv.I, rv.C, rv.R, 'automaton after deletion')
        for _ in range(5):
            w = gen_word(rng, rv, 0, 8)
            mon.check([bool(x) for x in model.execute_sequence(model.initial_state, w)] == left.run(w), 'execution',
                      f'{w} after deleting {st.state_id}', **wit)
    mon.seen('error', rv.describe())


def do_access(rng, mon, idx):
    rv = gen(rng, nmax=4)
    reach = access(rv)
    model = build_sevpa(rv)
    for i, s in enumerate(model.states):
        s.prefix = reach.get(i, ('unreachable',))
    model.initial_state.prefix = ()
    wit = dict(machine=rv.describe())
    before = content(model)
    for _ in range(8):
        w = gen_word(rng, rv, 0, 10)
        w = w[:rng.randint(0, len(w))]
        model.reset_to_initial()
        for a in w:
            old = model.current_state, list(model.stack)
            model.step(a)
            if model.error_state_reached:
                model.current_state, model.stack = old
                model.error_state_reached = False
                break
        state, stack = model.current_state, list(model.stack)
        how = rng.randrange(3)
        if how == 0:
            got, exp = model.transform_access_string(state), state
        elif how == 1:
            got, exp = model.transform_access_string(), model.initial_state
        else:
            model.reset_to_initial()
            got, exp = model.transform_access_string(state=state, stack_content=stack), state
        mon.check(isinstance(got, list), 'type', f'{got}', **wit)
        model.execute_sequence(model.initial_state, got)
        mon.check(not model.error_state_reached and model.current_state is exp and model.stack == stack, 'access-string',
                  f'{got} leads to {model.current_state.state_id}, {model.stack} instead of {exp.state_id}, {stack}', **wit)
        mon.ev('access_strings')
    mon.check(content(model) == before, 'mutated', 'access strings changed the automaton', **wit)
    mon.seen('access', rv.describe())


def do_daisy(rng, mon, idx):
    I, C, R = ([f'{x}{j}' for j in range(rng.randint(lo, 3))] for x, lo in (('i', 0), ('c', 1), ('r', 1)))
    if rng.random() < .3:
        C, R = [], []
    al = SevpaAlphabet(list(I), list(C), list(R))
    acc = rng.random() < .5
    s = SevpaState('q0', acc)
    model = Sevpa.create_daisy_hypothesis(s, al)
    wit = dict(internal=I, call=C, ret=R, accepting=acc)
    got = from_sevpa(model, I, C, R, 'daisy')
    ref = RV(I, C, R, [{a: 0 for a in I}], [{c: (0, (0, c)) for c in C}], [{((0, c), r): 0 for c in C for r in R}], [acc])
    mon.check(model.initial_state is s and model.states == [s], 'states', f'{model.states}', **wit)
    w = cex(ref, got)
    mon.check(w is None, 'language', f'{w}', **wit)
    for _ in range(4):
        w = gen_word(rng, ref, 0, 8)
        mon.check([bool(x) for x in model.execute_sequence(s, w)] == ref.run(w), 'execution', f'{w}', **wit)
    mon.check(al.get_merged_alphabet() == I + C + R and (al.internal_alphabet, al.call_alphabet, al.return_alphabet) == (I, C, R),
              'alphabet', f'{al.get_merged_alphabet()}', **wit)
    mon.check(model.get_error_state() is None, 'not-an-error-state', 'initial state taken for an error state', **wit)
    mon.ev('daisies')
    mon.seen('daisy', I, C, R, acc)
