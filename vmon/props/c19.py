"""Learning abstracted observable non-deterministic machines."""
import copy

from aalpy.learning_algs import run_abstracted_ONFSM_Lstar
from aalpy.oracles import RandomWalkEqOracle, RandomWordEqOracle

from ..core import Skip, StepBudget
from ..ref import same
from ..stoch import bisim_sm, gen_sm, read_sm
from .c18 import NdSUL, Spy, TraceOracle, minimal, observed, quiet, row, seen_row

ID = 'C19'
RULE = ('A case learns one random observable non-deterministic machine under a random output abstraction; the monitor '
        'records every step of the system and compares the returned model with the recorded traces and with the '
        'abstracted output sets of the true states. Distinct = (machine, abstraction, parameters).')
FLOORS = {'models': 800, 'all_weather': 300, 'identity_exact': 120, 'traces_in_model': 10000, 'rows_compared': 4000,
          'coarse': 200}


def plan(tier):
    q = tier == 'quick'
    return [('exact', 5000 if q else 30000), ('random', 1000 if q else 6000)]


def post(h, cur, a, o):
    return frozenset(t for x in cur for p, t, _ in h.options(x, a) if same(p, o))


def missing_abs(m, h):
    todo = [(m.init, frozenset([h.init]), ())]
    seen = {todo[0][:2]}
    for x, y, w in todo:
        for a in m.A:
            for o, t, p in m.options(x, a):
                z = post(h, y, a, o)
                if not z:
                    return w + ((a, o),)
                if (t, z) not in seen:
                    seen.add((t, z))
                    todo.append((t, z, w + ((a, o),)))
    return None


def ambiguous(h):
    """some output of the model leads to two states: oracles of AALpy follow only the first"""
    return any(same(l[i][0], l[j][0]) for x in range(h.n_reach) for a in h.A for l in [h.options(x, a)]
               for i in range(len(l)) for j in range(i))


class AbsOracle(TraceOracle):
    def find_cex(self, hypothesis):
        self.calls += 1
        self.mark = len(self.inner.log)
        if self.calls > 150:
            raise StepBudget('150 equivalence queries')
        h = read_sm(hypothesis)
        self.hyps.append(h)
        w = missing_abs(self.m, h)
        if w is None:
            return None
        self.inner.force = [o for _, o in w]
        self.sul.pre()
        for a, _ in w:
            self.sul.step(a)
        self.sul.post()
        self.inner.force = None
        self.num_queries += 1
        self.num_steps += len(w)
        i, o = [a for a, _ in w], [o for _, o in w]
        return (i, o) if self.style else (tuple(i), tuple(o))


class AbsSpy(Spy):
    def find_cex(self, hypothesis):
        self.o.sul = self.sul
        self.calls += 1
        self.mark = len(self.inner.log)
        if self.calls > 150:
            raise StepBudget('150 equivalence queries')
        self.hyps.append(read_sm(hypothesis))
        r, s, n = self.inner.resets, self.inner.steps, len(self.inner.log)
        cex = self.o.find_cex(hypothesis)
        self.num_queries, self.num_steps = self.o.num_queries, self.o.num_steps
        self.qs += self.inner.resets - r
        self.ss += self.inner.steps - s
        if cex is None:
            traces_in(self.mon, self.hyps[-1], self.inner.log[n:], self.wit, 'oracle found nothing')
        return cex


def traces_in(mon, h, log, wit, ctx):
    done = set()
    for tr in log:
        k = tuple((repr(a), repr(o)) for a, o in tr)
        if k in done:
            continue
        done.add(k)
        cur = frozenset([h.init])
        for a, o in tr:
            cur = post(h, cur, a, o)
            mon.check(cur, 'trace-lost', f'{ctx}: the system did {tr}, the model cannot do {(a, o)!r}', **wit)
        mon.ev('traces_in_model')


def cut(m, rng):
    """few non-deterministic choices, so that sampling sees all of them"""
    for r in m.t:
        for a in r:
            if rng.random() < .6:
                o, t, p = r[a][0]
                r[a] = [(o, t, 1.0)]
    return m


def all_weather(m, obs, E):
    """every row that could be in the table saw all outputs: the rows of all observed histories that were sampled for all
    suffixes"""
    truth = {q: row(m, q, E) for q in range(m.n)}
    todo = [(m.init, ())]
    for q, hh in todo:
        r = seen_row(obs, hh, E)
        if all(r) and r != truth[q]:
            return False
        for a in m.A:
            if (hh, repr(a)) in obs:
                for o, t, p in m.options(q, a):
                    if repr(o) in obs[hh, repr(a)]:
                        todo.append((t, hh + ((repr(a), repr(o)),)))
    return True


def learn(rng, mon, idx, exact):
    size = dict(nmax=rng.choice([6, 8]), amax=2, omax=6, kmax=3) if rng.random() < .5 else \
        dict(nmax=rng.choice([2, 3, 4, 5]), amax=3, omax=4, kmax=2)
    if exact and rng.random() < .03:
        size = dict(nmax=2, amax=1, omax=10, kmax=10, broad=0)
    m = gen_sm(rng, 'onfsm', bushy=0, **size,
               outs=rng.choice(['str', 'int', 'falsy', 'tuple', 'mixed', 'bool']))
    if rng.random() < .7:
        cut(m, rng)
    m.t = [{a: [(('none',) if o is None else o, t, p) for o, t, p in l] for a, l in r.items()} for r in m.t]
    O = []
    for r in m.t:
        for l in r.values():
            for o, _, _ in l:
                if o not in O:
                    O.append(o)
    style = rng.choice(['identity', 'identity', 'partial', 'coarse', 'rename'])
    if style == 'identity':
        ab = {}
    elif style == 'rename':
        ab = {o: ('abs', i) for i, o in enumerate(O)}
    else:
        cl = ['', 'A', 'B'][:rng.randint(1, 3)]
        ab = {o: rng.choice(cl) for o in O if style == 'coarse' or rng.random() < .6}
    amap = lambda o: ab[o] if o in ab else o
    n = rng.choice([8, 16, 32]) if exact else rng.choice([3, 10, 30])
    limit = rng.choice([None, None, None, None, 1, 2])
    sul = NdSUL(m, rng, exact, 60000 if exact else 30000)
    mon.slow = None if exact else lambda: sul.resets > 2000 or max(map(len, sul.log)) > 15     # sampled sets of traces may explode
    wit = dict(target=m.describe(), abstraction=ab, n_sampling=n, limit=limit)
    if exact:
        orc = AbsOracle(m, sul, mon, wit, rng.random() < .5)
    else:
        inner = RandomWordEqOracle(m.A, sul, num_walks=rng.randint(1, 60), min_walk_len=1, max_walk_len=rng.randint(1, 6)) \
            if rng.random() < .5 else RandomWalkEqOracle(m.A, sul, num_steps=rng.randint(1, 200), reset_prob=.25)
        orc = AbsSpy(inner, sul, mon, wit)
    alph, given = copy.deepcopy(m.A), dict(ab)
    try:
        model, info = quiet(run_abstracted_ONFSM_Lstar, alph, sul, orc, given, n_sampling=n, max_learning_rounds=limit,
                            return_data=True, print_level=rng.choice([0, 0, 1, 2, 3]))
    except StepBudget:
        if sul.resets > sul.budget or sul.steps > 4 * sul.budget:
            raise Skip('traces too rare for the number of samples')
        if not exact and ambiguous(orc.hyps[-1]):
            raise Skip('counterexamples of an oracle that follows only one of several paths')
        raise
    mon.ev('models')
    mon.check(alph == m.A and given == ab, 'caller-data', 'alphabet or mapping of the caller were changed', **wit)
    mon.check(type(model).__name__ == 'Onfsm', 'type', type(model).__name__, **wit)
    h = read_sm(model)
    mon.check(len({s.state_id for s in model.states}) == len(model.states) and set(range(h.n_reach)) <= set(h.listed),
              'states', f'{len(model.states)} states listed, {h.n_reach} reachable', **wit)
    mon.check(info['automaton_size'] == len(model.states), 'info', f'{info["automaton_size"]} states reported', **wit)
    oq, os_ = (orc.num_queries, orc.num_steps) if exact else (orc.qs, orc.ss)
    mon.check(info['queries_learning'] == sul.resets - oq and info['steps_learning'] == sul.steps - os_, 'info',
              f'{info["queries_learning"]} queries / {info["steps_learning"]} steps reported, the system saw '
              f'{sul.resets - oq} / {sul.steps - os_}', **wit)
    mon.check(info['queries_eq_oracle'] == orc.num_queries and info['steps_eq_oracle'] == orc.num_steps, 'info',
              'numbers of the equivalence oracle', **wit)
    limited = limit is not None and orc.calls >= limit
    if limit:
        mon.check(orc.calls <= limit, 'rounds', f'{orc.calls} equivalence queries, limit {limit}', **wit)
    if limited:
        return
    mon.check(info['learning_rounds'] == orc.calls, 'info', f'{info["learning_rounds"]} rounds reported, {orc.calls} '
                                                           f'equivalence queries', **wit)
    if exact:
        mon.check(missing_abs(m, h) is None, 'trace-lost', f'the model lacks the trace {missing_abs(m, h)}', **wit)
        traces_in(mon, h, sul.log, wit, 'model')
    # transitions of the states
    E = [tuple(e) for e in model.characterization_set]
    obs = observed(sul.log[:orc.mark])  # what the table knew when it built the model
    real = {repr(o): o for o in O}
    absrow = lambda r: tuple(frozenset(tuple(repr(amap(real[o])) for o in w) for w in cell) for cell in r)
    ix = {id(s): i for i, s in enumerate(h.order)}
    hist, at, rows, lost = {}, {}, {}, False
    for s in model.states:
        cur, cand = m.init, frozenset([h.init])
        for a, o in zip(*s.prefix):
            e = [e for e in m.options(cur, a) if same(e[0], o)]
            mon.check(len(e) == 1, 'prefix', f'prefix {s.prefix} of {s.state_id} is no trace of the system', **wit)
            cur, cand = e[0][1], post(h, cand, a, o)
        x = ix[id(s)]
        lost |= x not in cand
        hist[x] = tuple((repr(a), repr(o)) for a, o in zip(*s.prefix))
        at[x] = cur
        r = seen_row(obs, hist[x], E)
        rows[x] = absrow(r)
    weather = all_weather(m, obs, E) and all(rows[x] == absrow(row(m, at[x], E)) for x in hist) and \
        all(seen_row(obs, hist[x] + ((repr(a), repr(o)),), E) == row(m, t, E)
            for x in hist for a in m.A for o, t, p in m.options(at[x], a))
    if not weather:
        mon.ev('not_all_weather')
        return
    mon.ev('all_weather')
    mon.check(not lost, 'prefix', 'the prefix of a state does not lead to it', **wit)
    mon.check(len(set(rows.values())) == len(rows), 'rows', 'two states have the same abstracted row', **wit)
    truth = {}
    cls = minimal(m)
    for q in cls:
        truth.setdefault(absrow(row(m, q, E)), []).append(q)
    mon.check(len(model.states) <= len(truth), 'too-large', f'{len(model.states)} states, the system has {len(truth)} abstracted '
                                                            f'rows', **wit)
    if style in ('coarse', 'partial'):
        mon.ev('coarse')
    for x in hist:
        for a in m.A:
            got = h.options(x, a)
            for o, t, p in m.options(at[x], a):
                r = absrow(row(m, t, E))
                mon.ev('rows_compared')
                mon.check(any(same(e[0], o) and rows.get(e[1]) == r for e in got), 'transition',
                          f'{(a, o)!r} after {hist[x]} leads to no state with its abstracted row', **wit)
            for o, t, p in got:
                mon.check(any(same(e[0], o) and absrow(row(m, e[1], E)) == rows.get(t) for q in truth[rows[x]]
                              for e in m.options(q, a)), 'transition',
                          f'no system state with the abstracted row of {h.order[x].state_id} does {(a, o)!r} to a state with the '
                          f'row of the target', **wit)
            mon.check(len({(repr(o), t) for o, t, p in got}) == len(got), 'transition', 'a transition occurs twice', **wit)
    if style in ('identity', 'rename') and len(truth) == len(set(cls.values())):
        mon.ev('identity_exact')
        msg = bisim_sm(m, h, probs=False)
        mon.check(msg is None and len(model.states) == len(truth), 'model', f'{len(model.states)} states, minimal machine has '
                                                                           f'{len(truth)}; {msg}', **wit)
    mon.seen('model', wit)
    mon.sample(target=m.describe(), abstraction=ab, states=len(model.states), rounds=orc.calls)


def run(family, idx, rng, mon):
    learn(rng, mon, idx, family == 'exact')
