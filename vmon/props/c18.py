"""Learning observable non-deterministic machines: observed traces, rows, transitions, sizes, numbers."""
import contextlib
import copy
import io

from aalpy.base import SUL, Oracle
from aalpy.learning_algs import run_non_det_Lstar
from aalpy.oracles import RandomWalkEqOracle, RandomWordEqOracle

from ..core import Skip, StepBudget, Violation
from ..ref import fresh, same
from ..stoch import bisim_sm, gen_sm, read_sm

ID = 'C18'
RULE = ('A case learns one random observable non-deterministic machine; the monitor records every input/output step of '
        'the system and compares the returned model with the recorded traces, with the true output sets of the states '
        'and with the minimal machine. Distinct = (machine, parameters).')
FLOORS = {'models': 1000, 'all_weather': 400, 'exact_models': 300, 'traces_in_model': 20000, 'rows_compared': 5000,
          'stochastic': 200, 'limited': 100}


def plan(tier):
    q = tier == 'quick'
    return [('exact', 2600 if q else 16000), ('random', 1600 if q else 10000)]


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


class NdSUL(SUL):
    """Non-deterministic system; the choice is random or fair (least used continuation of the same history first)."""

    def __init__(self, m, rng, fair, budget=None):
        super().__init__()
        self.m, self.rng, self.fair, self.budget = m, rng, fair, budget or (400000 if fair else 60000)
        self.use = {}
        self.log = []
        self.resets = self.steps = 0
        self.force = None
        self.open = False

    def pre(self):
        if self.open:
            raise Violation('protocol', 'reset while the previous interaction is still open')
        self.open = True
        self.s, self.h = self.m.init, ()
        self.log.append([])
        self.resets += 1
        if self.resets > self.budget:
            if not self.fair:       # random choices may take arbitrarily long to reach a trace
                raise Skip('too rare traces')
            raise StepBudget(f'{self.resets} resets of the system')

    def post(self):
        self.open = False

    def step(self, letter):
        if not self.open:
            raise Violation('protocol', f'step({letter!r}) outside pre()/post()')
        self.steps += 1
        if self.steps > 4 * self.budget and self.fair:
            raise StepBudget(f'{self.steps} steps of the system')
        opts = self.m.options(self.s, letter)
        if self.force:
            want = self.force.pop(0)
            o, t, p = next(e for e in opts if same(e[0], want))
        elif self.fair:
            c = [(self.use.get((self.h, letter, i), 0), i) for i in range(len(opts))]
            lo = min(c)[0]
            i = self.rng.choice([i for n, i in c if n == lo])
            o, t, p = opts[i]
        else:
            i = self.rng.randrange(len(opts))
            o, t, p = opts[i]
        i = opts.index((o, t, p))
        if self.fair:
            self.use[self.h, letter, i] = self.use.get((self.h, letter, i), 0) + 1
        self.h += ((letter, i),)
        self.s = t
        self.log[-1].append((letter, o))
        return fresh(o)


def missing_trace(m, h):
    """shortest trace of m that h does not have, and whether h has a trace that m lacks"""
    todo, seen, i = [(m.init, h.init, ())], {(m.init, h.init)}, 0
    while i < len(todo):
        x, y, w = todo[i]
        i += 1
        for a in m.A:
            for o, t, p in m.options(x, a):
                e = [e for e in h.options(y, a) if same(e[0], o)]
                if not e:
                    return w + ((a, o),)
                if (t, e[0][1]) not in seen:
                    seen.add((t, e[0][1]))
                    todo.append((t, e[0][1], w + ((a, o),)))
    return None


class TraceOracle(Oracle):
    """Exact: executes (forces) a shortest trace of the system that the hypothesis lacks."""

    def __init__(self, m, inner, mon, wit, style):
        super().__init__(m.A, inner)
        self.m, self.inner, self.mon, self.wit, self.style = m, inner, mon, wit, style
        self.calls, self.hyps, self.marks = 0, [], []

    def find_cex(self, hypothesis):
        self.calls += 1
        if self.calls > 400:
            raise StepBudget('400 equivalence queries')
        check_traces(self.mon, hypothesis, self.inner.log, self.wit, f'hypothesis {self.calls}')
        h = read_sm(hypothesis)
        self.hyps.append(h)
        before = self.inner.resets
        w = missing_trace(self.m, h)
        if w is not None:
            self.inner.force = [o for _, o in w]
            self.sul.pre()
            for a, _ in w:
                self.sul.step(a)
            self.sul.post()
            self.inner.force = None
            self.num_queries += 1
            self.num_steps += len(w)
        self.marks.append(self.inner.resets - before)
        if w is None:
            return None
        i, o = [a for a, _ in w], [o for _, o in w]
        return (i, o) if self.style else (tuple(i), tuple(o))


class Spy(Oracle):
    """Delegates to a library oracle."""

    def __init__(self, orc, inner, mon, wit):
        super().__init__(orc.alphabet, orc.sul)
        self.o, self.inner, self.mon, self.wit = orc, inner, mon, wit
        self.calls, self.hyps = 0, []
        self.qs = self.ss = 0

    def find_cex(self, hypothesis):
        self.o.sul = self.sul
        self.calls += 1
        if self.calls > 400:
            raise StepBudget('400 equivalence queries')
        check_traces(self.mon, hypothesis, self.inner.log, self.wit, f'hypothesis {self.calls}')
        h = read_sm(hypothesis)
        self.hyps.append(h)
        n, r, s = len(self.inner.log), self.inner.resets, self.inner.steps
        cex = self.o.find_cex(hypothesis)
        self.num_queries, self.num_steps = self.o.num_queries, self.o.num_steps
        self.qs += self.inner.resets - r
        self.ss += self.inner.steps - s
        if cex is not None:
            io_ = list(zip(*cex)) if not isinstance(hypothesis, str) else None
            self.mon.check(len(cex) == 2 and len(cex[0]) == len(cex[1]) > 0, 'cex', f'counterexample {cex}', **self.wit)
            self.mon.check(any(t[:len(io_)] == io_ for t in self.inner.log[n:]), 'cex',
                           f'counterexample {cex} was not observed in this search', **self.wit)
            cur = h.init
            for k, (a, o) in enumerate(io_):
                e = [e for e in h.options(cur, a) if same(e[0], o)]
                if k < len(io_) - 1:
                    self.mon.check(len(e) == 1, 'cex', f'{cex} differs before its last step', **self.wit)
                    cur = e[0][1]
                else:
                    self.mon.check(not e, 'cex', f'the model has the trace {cex}', **self.wit)
            self.mon.ev('library_cex')
        else:
            check_traces(self.mon, hypothesis, self.inner.log[n:], self.wit, 'oracle found nothing')
        return cex


def check_traces(mon, model, log, wit, ctx):
    h = read_sm(model)
    done = set()
    for tr in log:
        k = tuple((repr(a), repr(o)) for a, o in tr)
        if k in done:
            continue
        done.add(k)
        s = h.init
        for a, o in tr:
            e = [e for e in h.options(s, a) if same(e[0], o)]
            mon.check(len(e) == 1, 'trace-lost', f'{ctx}: the system did {tr}, the model has {len(e)} transitions for '
                                                 f'{(a, o)!r}', **wit)
            s = e[0][1]
        mon.ev('traces_in_model')


def minimal(m):
    """partition of the reachable states by trace equivalence (observable machine)"""
    reach, todo = {m.init}, [m.init]
    while todo:
        x = todo.pop()
        for a in m.A:
            for o, t, p in m.options(x, a):
                if t not in reach:
                    reach.add(t)
                    todo.append(t)
    cls = {s: 0 for s in reach}
    while True:
        sig = {s: (cls[s],) + tuple(tuple(sorted((repr(o), cls[t]) for o, t, p in m.options(s, a))) for a in m.A)
               for s in reach}
        ids = {x: i for i, x in enumerate(sorted(set(sig.values()), key=repr))}
        new = {s: ids[sig[s]] for s in reach}
        if len(ids) == len(set(cls.values())):
            return new
        cls = new


def row(m, s, E):
    res = []
    for e in E:
        cell, todo = set(), [(s, ())]
        for a in e:
            todo = [(t, w + (repr(o),)) for x, w in todo for o, t, p in m.options(x, a)]
        res.append(frozenset(w for _, w in todo))
    return tuple(res)


def observed(log):
    """trie of observed output traces: history -> letter -> outputs"""
    obs = {}
    for tr in log:
        h = ()
        for a, o in tr:
            k = (h, repr(a))
            obs.setdefault(k, set()).add(repr(o))
            h += ((repr(a), repr(o)),)
    return obs


def seen_row(obs, h, E):
    res = []
    for e in E:
        cell = [(h, ())]
        for a in e:
            cell = [(x + ((repr(a), o),), w + (o,)) for x, w in cell for o in obs.get((x, repr(a)), ())]
        res.append(frozenset(w for _, w in cell))
    return tuple(res)


def learn(rng, mon, idx, exact):
    m = gen_sm(rng, 'onfsm', nmax=rng.choice([2, 4, 6]), amax=3, omax=4, kmax=rng.choice([1, 2, 2, 3]),
               outs=rng.choice(['str', 'int', 'falsy', 'tuple', 'mixed', 'bool']))
    if any(o is None for r in m.t for l in r.values() for o, _, _ in l):
        m.t = [{a: [(('none',) if o is None else o, t, p) for o, t, p in l] for a, l in r.items()} for r in m.t]
    k = max(len(l) for r in m.t for l in r.values())
    if k > 4:       # many outcomes: the number of traces grows fast with their length
        exact = exact and len(m.A) == 1 and m.n == 1
    n = rng.choice([k * k, k * k * 2, k ** 3] if k > 4 else [k * k, k * k * 2, k ** 3, k ** 4]) if exact else rng.choice([1, 2, 5, 20])
    limit = rng.choice([None, None, None, 1, 2, 3])
    stoch = rng.random() < .3
    sul = NdSUL(m, rng, exact, 400000 if exact else 60000)
    mon.slow = None if exact else lambda: sul.resets > 2000 or max(map(len, sul.log)) > 15     # sampled sets of traces may explode
    wit = dict(target=m.describe(), n_sampling=n, limit=limit, stochastic=stoch)
    samples = None
    given = []
    if rng.random() < .3:
        for _ in range(rng.randint(1, 12)):
            s, i, o = m.init, [], []
            for _ in range(rng.randint(1, 6)):
                a = rng.choice(m.A)
                e = rng.choice(m.options(s, a))
                i.append(a)
                o.append(e[0])
                s = e[1]
            given.append(list(zip(i, o)))
        samples = [(tuple(x for x, _ in t), tuple(y for _, y in t)) for t in given]
        wit['samples'] = samples
    if exact:
        orc = TraceOracle(m, sul, mon, wit, rng.random() < .5)
    else:
        inner = RandomWordEqOracle(m.A, sul, num_walks=rng.randint(1, 60), min_walk_len=1, max_walk_len=rng.randint(1, 8)) \
            if rng.random() < .5 else RandomWalkEqOracle(m.A, sul, num_steps=rng.randint(1, 200), reset_prob=.2)
        orc = Spy(inner, sul, mon, wit)
    alph, smp = copy.deepcopy(m.A), copy.deepcopy(samples)
    model, info = quiet(run_non_det_Lstar, alph, sul, orc, n_sampling=n, samples=smp, stochastic=stoch,
                        max_learning_rounds=limit, return_data=True, print_level=rng.choice([0, 0, 1, 2]))
    mon.ev('models')
    mon.check(alph == m.A and smp == samples, 'caller-data', 'alphabet or samples of the caller were changed', **wit)
    mon.check(type(model).__name__ == ('StochasticMealyMachine' if stoch else 'Onfsm'), 'type', type(model).__name__, **wit)
    log = sul.log + given
    h = read_sm(model)
    # structure
    mon.check(sorted(h.listed) == list(range(h.n_reach)) and len({s.state_id for s in model.states}) == len(model.states),
              'states', f'{len(model.states)} states listed, {h.n_reach} reachable', **wit)
    mon.check(info['automaton_size'] == len(model.states), 'info', f'{info["automaton_size"]} states reported', **wit)
    mon.check(info['learning_rounds'] == orc.calls, 'info', f'{info["learning_rounds"]} rounds reported, {orc.calls} '
                                                           f'equivalence queries', **wit)
    limited = limit is not None and orc.calls >= limit
    if limit:
        mon.check(orc.calls <= limit, 'rounds', f'{orc.calls} equivalence queries, limit {limit}', **wit)
    if limited:
        mon.ev('limited')
        mon.check(h.n_reach == orc.hyps[-1].n_reach and bisim_sm(h, orc.hyps[-1], probs=False) is None, 'rounds',
                  'the model is not the last hypothesis', **wit)
    if exact:
        oq, os_ = orc.num_queries, orc.num_steps
    else:
        oq, os_ = orc.qs, orc.ss
    mon.check(info['queries_learning'] == sul.resets - oq and info['steps_learning'] == sul.steps - os_, 'info',
              f'{info["queries_learning"]} queries / {info["steps_learning"]} steps reported, the system saw '
              f'{sul.resets - oq} / {sul.steps - os_}', **wit)
    mon.check(info['queries_eq_oracle'] == orc.num_queries and info['steps_eq_oracle'] == orc.num_steps, 'info',
              'numbers of the equivalence oracle', **wit)
    # every observed trace (the last counterexample of a limited run may be missing)
    if not limited:
        check_traces(mon, model, log, wit, 'model')
    # states, prefixes, transitions
    cls = minimal(m)
    E = [tuple(e) for e in model.characterization_set]
    obs = observed(log)
    ix = {id(s): i for i, s in enumerate(h.order)}
    true_rows, seen_rows, at = {}, {}, {}
    for s in model.states:
        pi, po = s.prefix
        cur, x = m.init, h.init
        for a, o in zip(pi, po):
            e = [e for e in m.options(cur, a) if same(e[0], o)]
            f = [f for f in h.options(x, a) if same(f[0], o)]
            mon.check(len(e) == 1 and len(f) == 1, 'prefix', f'prefix {s.prefix} of {s.state_id} is not executable', **wit)
            cur, x = e[0][1], f[0][1]
        mon.check(x == ix[id(s)], 'prefix', f'prefix {s.prefix} leads to another state than {s.state_id}', **wit)
        at[x] = cur
        hist = tuple((repr(a), repr(o)) for a, o in zip(pi, po))
        for a in m.A:
            exp = obs.get((hist, repr(a)), set())
            got = [repr(o) for o, t, p in h.options(x, a)]
            mon.check(sorted(got) == sorted(exp) or limited and set(got) <= exp, 'outputs', f'outputs of {s.state_id} on {a!r}: {got}, observed after its '
                                                             f'prefix: {sorted(exp)}', **wit)
            if stoch and not limited:
                fr = {}
                for tr in log:
                    if len(tr) > len(hist) and tuple((repr(b), repr(o)) for b, o in tr[:len(hist)]) == hist and \
                            same(tr[len(hist)][0], a):
                        fr[repr(tr[len(hist)][1])] = fr.get(repr(tr[len(hist)][1]), 0) + 1
                for o, t, p in h.options(x, a):
                    mon.ev('stochastic')
                    mon.check(abs(p - fr[repr(o)] / sum(fr.values())) < 1e-9, 'probability',
                              f'probability of {o!r} on {a!r} in {s.state_id} is {p}, observed {fr}', **wit)
        true_rows[x], seen_rows[x] = row(m, cur, E), seen_row(obs, hist, E)
    if limited:
        return
    mon.check(len(set(seen_rows.values())) == len(seen_rows), 'rows', 'two states have the same observed row', **wit)
    weather = all(true_rows[x] == seen_rows[x] for x in at)
    for s in model.states:
        x = ix[id(s)]
        hist = tuple((repr(a), repr(o)) for a, o in zip(*s.prefix))
        for a in m.A:
            for o, t, p in h.options(x, a):
                tgt = next(e[1] for e in m.options(at[x], a) if same(e[0], o))
                r, q = row(m, tgt, E), seen_row(obs, hist + ((repr(a), repr(o)),), E)
                weather &= r == q
                mon.ev('rows_compared')
                mon.check(q == seen_rows[t], 'rows', f'{(a, o)!r} from {s.state_id} leads to a state with another row', **wit)
    if exact:
        mon.check(missing_trace(m, h) is None, 'trace-lost', 'a trace of the system is missing in the model', **wit)
    if not weather:
        mon.ev('not_all_weather')
        return
    mon.ev('all_weather')
    nmin = len(set(cls.values()))
    mon.check(len(model.states) <= nmin, 'too-large', f'{len(model.states)} states, minimal machine has {nmin}', **wit)
    reps = {}
    for s, c in cls.items():
        reps.setdefault(c, row(m, s, E))
    if len(set(reps.values())) == nmin:
        mon.ev('exact_models')
        msg = bisim_sm(m, h, probs=False)
        mon.check(msg is None and len(model.states) == nmin, 'model', f'{len(model.states)} states, minimal machine has {nmin}; '
                                                                      f'{msg}', **wit)
    mon.seen('model', wit)
    mon.sample(target=m.describe(), n_sampling=n, states=len(model.states), rounds=orc.calls)


def run(family, idx, rng, mon):
    learn(rng, mon, idx, family == 'exact')
