"""Stochastic L*: frequencies, compatible targets, chaos state, stopping, exactness for fair samples, difference checkers."""
import copy
import math
import os
import shutil
import tempfile

import aalpy.paths
from aalpy.base import SUL, Oracle
from aalpy.learning_algs import run_stochastic_Lstar
from aalpy.learning_algs.stochastic.DifferenceChecker import (AdvancedHoeffdingChecker, ChiSquareChecker,
                                                             DifferenceChecker, HoeffdingChecker)
from aalpy.oracles import (BreadthFirstExplorationEqOracle, CacheBasedEqOracle, PacOracle, RandomWalkEqOracle,
                           RandomWMethodEqOracle, RandomWordEqOracle, StatePrefixEqOracle, WMethodEqOracle)

from ..core import Skip, StepBudget, Violation
from ..ref import fresh, same
from ..stoch import SM, bisim_sm, gen_sm, read_sm
from .c18 import minimal, quiet

ID = 'C20'
RULE = ('A case runs stochastic L* on one random MDP or stochastic Mealy machine; the monitor records every step of the '
        'system and compares the returned model with the recorded frequencies, with the statistical test and with the '
        'true machine. Distinct = (machine, parameters).')
FLOORS = {'models': 800, 'distributions': 2500, 'targets': 4000, 'fair_models': 400, 'exact_models': 150, 'cells': 15000,
          'chaos_models': 20, 'library_oracles': 400, 'refused': 60, 'model_checks': 300, 'property_stops': 15}


def plan(tier):
    q = tier == 'quick'
    return [('fair', 1400 if q else 12000), ('random', 1200 if q else 10000), ('checker', 500 if q else 5000),
            ('refused', 60), ('property', 160 if q else 1500)]


# ---- statistical tests, written from their definition: 'yes' | 'no' | None (too close to judge)
def close(x, y):
    return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))


def hoeffding(c1, c2, alpha=.05):
    if set(c1) != set(c2):
        return True
    n1, n2 = sum(c1.values()), sum(c2.values())
    if not n1 or not n2:
        return False
    bound = (math.sqrt(1 / n1) + math.sqrt(1 / n2)) * math.sqrt(.5 * math.log(2 / alpha))
    return over([abs(c1[o] / n1 - c2[o] / n2) for o in c1], bound)


def over(vals, bound):
    if any(v > bound and not close(v, bound) for v in vals):
        return True
    return None if any(close(v, bound) for v in vals) else False


def normal(c1, c2, alpha=.05):
    n1, n2 = sum(c1.values()), sum(c2.values())
    if not n1 or not n2:
        return False
    bound = math.sqrt(math.log(2 / alpha) / (2 * n1)) + math.sqrt(math.log(2 / alpha) / (2 * n2))
    return over([abs(c1.get(o, 0) / n1 - c2.get(o, 0) / n2) for o in set(c1) | set(c2)], bound)


CHI = {1: 10.827566170662733, 2: 13.815510557964274, 3: 16.26623619623813, 4: 18.46682695290317, 5: 20.515005652432873,
       6: 22.457744484825323, 7: 24.321886347856854, 8: 26.12448155837614, 9: 27.877164871256568, 10: 29.58829844507442,
       11: 31.264133620239985, 12: 32.90949040736021}


def chi2(c1, c2, alpha=.001):
    n1, n2 = sum(c1.values()), sum(c2.values())
    keys = set(c1) | set(c2)
    if not n1 or not n2 or len(keys) < 2:
        return False
    if not set(c1) & set(c2):
        return normal(c1, c2)
    res = set()
    for corr in ([0, .5] if len(keys) == 2 else [0]):     # with and without continuity correction
        q = 0
        for k in keys:
            p = (c1.get(k, 0) + c2.get(k, 0)) / (n1 + n2)
            q += (abs(c1.get(k, 0) - n1 * p) - corr) ** 2 / (n1 * p) + (abs(c2.get(k, 0) - n2 * p) - corr) ** 2 / (n2 * p)
        res.add(None if close(q, CHI[len(keys) - 1]) else q > CHI[len(keys) - 1])
    return res.pop() if len(res) == 1 else None


class TV(DifferenceChecker):
    """A user's own test."""

    def __init__(self, d=.3, n=10):
        self.d, self.n = d, n

    def are_cells_different(self, c1, c2, **kw):
        n1, n2 = sum(c1.values()), sum(c2.values())
        return n1 >= self.n and n2 >= self.n and any(abs(c1.get(o, 0) / n1 - c2.get(o, 0) / n2) > self.d
                                                     for o in set(c1) | set(c2))


# ---- system and oracles
class StSUL(SUL):
    """choice: random, or proportional for every history (fair)"""

    def __init__(self, m, rng, fair, budget):
        super().__init__()
        self.m, self.rng, self.fair, self.budget = m, rng, fair, budget
        self.log, self.use = [], {}
        self.resets = self.steps = self.empty = 0
        self.force = None
        self.open = False

    def pre(self):
        if self.open:
            raise Violation('protocol', 'reset while the previous interaction is still open')
        self.open = True
        self.s, self.h = self.m.init, ()
        self.log.append([])
        self.resets += 1
        if self.resets > self.budget:
            raise StepBudget(f'{self.resets} resets')

    def post(self):
        self.open = False

    def step(self, letter):
        if not self.open:
            raise Violation('protocol', f'step({letter!r}) outside pre()/post()')
        if letter is None:
            self.empty += 1
            return fresh(self.m.so[self.s])
        self.steps += 1
        opts = self.m.options(self.s, letter)
        if self.force:
            w = self.force.pop(0)
            i = next(i for i, e in enumerate(opts) if same(e[0], w))
        elif self.fair:
            c = self.use.setdefault((self.h, letter), [0] * len(opts))
            n = sum(c) + 1
            i = max(range(len(opts)), key=lambda i: opts[i][2] * n - c[i])
        else:
            i = self.rng.choices(range(len(opts)), [e[2] for e in opts])[0]
        if self.fair:
            self.use.setdefault((self.h, letter), [0] * len(opts))[i] += 1
        o, t, p = opts[i]
        self.h += ((letter, i),)
        self.s = t
        self.log[-1].append((letter, o))
        return fresh(o)


class Spy(Oracle):
    """Exact oracle (a shortest trace that the hypothesis lacks) or a watched oracle of the library."""

    def __init__(self, m, inner, mon, wit, oracle=None):
        super().__init__(m.A, inner)
        self.m, self.inner, self.mon, self.wit, self.o = m, inner, mon, wit, oracle
        self.calls, self.hyps, self.answers, self.marks = 0, [], [], []
        self.r = self.st = 0
        self.given = None

    def reset_counter(self):
        if self.o is not None and hasattr(self.o, 'reset_counter'):
            self.o.reset_counter()

    def find_cex(self, hypothesis):
        self.calls += 1
        self.marks.append(len(self.inner.log))
        h = read_sm(hypothesis)
        self.hyps.append(h)
        r, s = self.inner.resets, self.inner.steps
        if self.o is not None:
            if self.o is not self.given:
                self.o.sul = self.sul
            cex = type(self.o).find_cex(self.o, hypothesis)
            self.num_queries, self.num_steps = self.o.num_queries, self.o.num_steps
        else:
            cex = self.exact(h)
        self.r += self.inner.resets - r
        self.st += self.inner.steps - s
        self.answers.append(cex)
        return None if cex is None else list(cex)

    def exact(self, h):
        m = self.m
        todo, seen = [(m.init, h.init, ())], {(m.init, h.init)}
        for x, y, w in todo:
            for a in m.A:
                for o, t, p in m.options(x, a):
                    e = [e for e in h.options(y, a) if same(e[0], o)]
                    if not e:
                        w += ((a, o),)
                        self.inner.force = [o for _, o in w]
                        self.sul.pre()
                        for b, _ in w:
                            self.sul.step(b)
                        self.sul.post()
                        self.inner.force = None
                        self.num_queries += 1
                        self.num_steps += len(w)
                        cex = [] if m.so is None else [m.so[m.init]]
                        for b, o2 in w:
                            cex += [b, o2]
                        return cex
                    if (t, e[0][1]) not in seen:
                        seen.add((t, e[0][1]))
                        todo.append((t, e[0][1], w + ((a, o),)))
        return None


def target(rng, kind, fair, outs=None):
    m = gen_sm(rng, kind, nmax=rng.choice([2, 3, 4, 4, 6]), amax=rng.choice([2, 2, 3]), omax=rng.choice([3, 4]), kmax=2,
               outs=outs or rng.choice(['str', 'int', 'falsy', 'tuple']), **(dict(alph='str') if outs else {}))
    if any(o is None for r in m.t for l in r.values() for o, _, _ in l):
        raise Skip('None as output')
    # frequent outputs, reachable states only
    m.t = [{a: [(o, t, [1.0] if len(l) == 1 else None) for o, t, p in l] for a, l in r.items()} for r in m.t]
    for r in m.t:
        for a, l in r.items():
            p = rng.choice([.5, .25, .8, .9]) if len(l) == 2 else 1.0
            if len(l) > 2:      # many outcomes
                r[a] = [(o, t, 1 / len(l)) for o, t, _ in l]
                continue
            r[a] = [(l[i][0], l[i][1], p if i == 0 else 1 - p) for i in range(len(l))]
    order, ix = [m.init], {m.init: 0}
    for s in order:
        for a in m.A:
            for o, t, p in m.t[s][a]:
                if t not in ix:
                    ix[t] = len(order)
                    order.append(t)
    return SM(kind, m.A, [{a: [(o, ix[t], p) for o, t, p in m.t[s][a]] for a in m.A} for s in order],
              None if m.so is None else [m.so[s] for s in order])


def pclasses(m):
    """states with the same probabilistic behaviour"""
    cls = {s: repr(m.so[s]) if m.so else '' for s in range(m.n)}
    while True:
        sig = {s: (cls[s], tuple(tuple(sorted((repr(o), round(p, 9), cls[t]) for o, t, p in m.options(s, a))) for a in m.A))
               for s in cls}
        ids = {k: i for i, k in enumerate(sorted(set(sig.values()), key=repr))}
        new = {s: ids[sig[s]] for s in cls}
        if len(set(new.values())) == len(set(cls.values())):
            return new
        cls = new


PRISM = '''#!/bin/sh
d="$(dirname "$0")"
n=$(cat "$d/n")
echo $((n + 1)) > "$d/n"
cat "$d/out$n"
'''


class Checked:
    """a stand-in for PRISM whose results, call after call, are drawn beforehand"""

    def __init__(self, rng, calls):
        self.good = [rng.uniform(.3, .7) for _ in range(rng.randint(1, 3))]
        self.bound = rng.choice([.02, .1])
        hit = rng.choice([0, 1, 2, 4, calls, calls])
        self.ok = []
        self.d = tempfile.mkdtemp(prefix='vmon_c20_')
        for i in range(calls + 3):
            vals = [g + rng.choice([-1, 1]) * self.bound * rng.uniform(0, .8) for g in self.good]
            if i < hit or rng.random() < .4:
                for k in rng.sample(range(len(vals)), rng.randint(1, len(vals))):
                    vals[k] = self.good[k] + rng.choice([-1, 1]) * self.bound * rng.uniform(1.3, 2.5)
            self.ok.append(all(abs(v - g) <= self.bound for v, g in zip(vals, self.good)))
            with open(os.path.join(self.d, f'out{i}'), 'w') as f:
                f.write(''.join(f'Result: {v} (exact)\n' for v in vals))
        with open(os.path.join(self.d, 'n'), 'w') as f:
            f.write('0\n')
        self.exe = os.path.join(self.d, 'prism')
        with open(self.exe, 'w') as f:
            f.write(PRISM)
        os.chmod(self.exe, 0o755)
        self.props = os.path.join(self.d, 'p.props')
        with open(self.props, 'w') as f:
            f.write('Pmax=?[F "x"]\n')

    def __enter__(self):
        self.old = aalpy.paths.path_to_prism, os.getcwd()
        aalpy.paths.path_to_prism = self.exe
        os.mkdir(os.path.join(self.d, 'w'))
        os.chdir(os.path.join(self.d, 'w'))
        return self

    def __exit__(self, *e):
        with open(os.path.join(self.d, 'n')) as f:
            self.calls = int(f.read())
        aalpy.paths.path_to_prism = self.old[0]
        os.chdir(self.old[1])
        shutil.rmtree(self.d, ignore_errors=True)


def learn(rng, mon, idx, fair, prop=False):
    kind = rng.choice(['mdp', 'smm'])
    m = target(rng, kind, fair, 'str' if prop else None)
    strategy = rng.choice(['normal', 'normal', 'classic', 'chi2', 'own', 'normal-diff', 'chi2-diff'])
    strat = {'own': TV(), 'normal-diff': AdvancedHoeffdingChecker(use_diff=True),
             'chi2-diff': ChiSquareChecker(use_diff_value=True)}.get(strategy, strategy)
    minr = rng.choice([1, 2, 4, 10])
    maxr = minr + rng.choice([0, 1, 4, 8])
    n_c, n_re = rng.choice([5, 20]), rng.choice([50, 300])
    if len(m.A) > 3 or max(len(l) for r in m.t for l in r.values()) > 2:        # many cells
        minr, n_c, n_re = min(minr, 2), 5, 50
        maxr = min(maxr, minr + 4)
    cexp = rng.choice([None, None, 'longest_prefix'])
    samp = rng.choice([None, None, 'bfs', 'random:50:0.2'])
    stopping = rng.choice(['strict', 'relaxed', {2: .5, 3: .01}])
    amb = rng.choice([.99, .8])
    sul = StSUL(m, rng, fair, 60000)
    wit = dict(target=m.describe(), strategy=strategy, rounds=(minr, maxr), n_c=n_c, n_resample=n_re, cex_processing=cexp,
               samples_cex=samp, stopping=stopping)
    inner = None
    if not fair or rng.random() < .3:
        inner = RandomWordEqOracle(m.A, sul, num_walks=rng.randint(1, 80), min_walk_len=1, max_walk_len=8) \
            if rng.random() < .5 else RandomWalkEqOracle(m.A, sul, num_steps=rng.randint(1, 300), reset_prob=.2)
    orc = Spy(m, sul, mon, wit, inner)
    alph = copy.deepcopy(m.A)
    given, custom = orc, True
    if inner is not None and rng.random() < .6:
        # the oracle of the library itself, watched
        given = orc.given = inner
        inner.find_cex = orc.find_cex
        custom = rng.random() < .2
        mon.ev('library_oracles')
    def go(**kw):
        return quiet(run_stochastic_Lstar, alph, sul, given, target_unambiguity=amb, min_rounds=minr, max_rounds=maxr,
                     automaton_type=fresh(kind), strategy=fresh(strat), cex_processing=fresh(cexp), samples_cex_strategy=samp,
                     stopping_range_dict=stopping, custom_oracle=custom, return_data=True, n_c=n_c, n_resample=n_re,
                     print_level=rng.choice([0, 0, 1, 2, 3]), **kw)
    if prop:
        with Checked(rng, maxr - minr + 1) as pc:
            model, info = go(property_based_stopping=(pc.props, list(pc.good), pc.bound))
        mon.ev('model_checks', pc.calls)
        n = info['learning_rounds']
        wit['good_enough'] = pc.ok
        if strategy != 'classic':
            want = minr + next((i for i, x in enumerate(pc.ok[:maxr - minr]) if x), maxr - minr)
            mon.check(n == want, 'rounds', f'stopped in round {n}; the model checker is first satisfied or the limit reached in '
                                           f'round {want}', **wit)
            mon.ev('property_stops', want < maxr)
        mon.check(n <= maxr, 'rounds', f'{n} rounds, limit {maxr}', **wit)
        mon.check(not any(pc.ok[:max(0, n - minr)]), 'rounds', f'learning went on to round {n} after all properties were within bounds',
                  **wit)
    else:
        model, info = go()
    mon.ev('models')
    mon.check(alph == m.A, 'caller-data', 'alphabet of the caller was changed', **wit)
    mon.check(type(model).__name__ == {'mdp': 'Mdp', 'smm': 'StochasticMealyMachine'}[kind], 'type', type(model).__name__, **wit)
    h = read_sm(model)
    ids = [s.state_id for s in model.states]
    mon.check(len(set(ids)) == len(ids) and set(range(h.n_reach)) <= set(h.listed), 'states',
              f'{len(model.states)} states listed, {h.n_reach} reachable', **wit)
    # numbers
    mon.check(info['automaton_size'] == len(model.states), 'info', f'{info["automaton_size"]} states reported, '
                                                                  f'{len(model.states)} returned', **wit)
    first = 1 if kind == 'mdp' else 0
    mon.check(info['queries_eq_oracle'] == orc.num_queries and info['steps_eq_oracle'] == orc.num_steps, 'info',
              'numbers of the equivalence oracle', **wit)
    mon.check(info['queries_learning'] == sul.resets - first - orc.r, 'info', f'{info["queries_learning"]} queries of the learner '
              f'reported, the system saw {sul.resets - first - orc.r}', **wit)
    mon.check(info['steps_learning'] == sul.steps - orc.st, 'info', f'{info["steps_learning"]} steps of the learner reported, '
              f'the system saw {sul.steps - orc.st}', **wit)
    rounds = info['learning_rounds']
    mon.check(rounds <= maxr, 'rounds', f'{rounds} rounds, limit {maxr}', **wit)
    if strategy != 'classic':
        mon.check(rounds >= minr, 'rounds', f'{rounds} rounds, at least {minr} requested', **wit)
    mon.check(orc.calls <= rounds, 'rounds', f'{orc.calls} equivalence queries in {rounds} rounds', **wit)
    # chaos
    chaos = [s for s in model.states if (s.output if kind == 'mdp' else s.state_id) == 'chaos']
    order = [s for s in h.order if s not in chaos]
    real = [s for s in model.states if s not in chaos]
    reach_chaos = any(s in h.order[:h.n_reach] for s in chaos)
    leads = any((e[0].output if kind == 'mdp' else e[1]) == 'chaos' for s in real for a in m.A for e in s.transitions[a])
    mon.check(len(chaos) == (1 if leads else 0), 'chaos', f'{len(chaos)} chaos states listed, transition to it: {leads}', **wit)
    if reach_chaos:
        mon.ev('chaos_models')
    if rounds < maxr and strategy != 'classic' and not prop:
        mon.check(not leads, 'chaos', 'stopped early although the behaviour on some inputs is unknown', **wit)
        if samp is None:
            mon.check(orc.answers and orc.answers[-1] is None, 'rounds', 'stopped early although the equivalence oracle found a '
                                                                        'counterexample', **wit)
    if orc.calls and orc.answers[-1] is None and not leads and len(orc.hyps[-1].order) == len(h.order) \
            and orc.hyps[-1].order == h.order:
        mon.check(bisim_sm(orc.hyps[-1], h) is None, 'changed', 'the model changed after the last equivalence query', **wit)
    # structure and frequencies
    hist = {}
    for s in real:
        p = s.prefix
        if kind == 'mdp':
            mon.check(same(p[0], m.so[m.init]) and same(p[-1], s.output), 'prefix', f'prefix {p} of {s.state_id}', **wit)
            p = p[1:]
        hist[s] = tuple((p[i], p[i + 1]) for i in range(0, len(p), 2))
    mon.check(len(set(repr(x) for x in hist.values())) == len(hist), 'prefix', 'two states have the same prefix', **wit)
    if kind == 'mdp':
        mon.check(same(model.initial_state.output, m.so[m.init]), 'initial', 'output of the initial state', **wit)
    def options(s, a):
        return [(e[0].output, e[0], e[1]) if kind == 'mdp' else (e[1], e[0], e[2]) for e in s.transitions[a]]

    for s in real:
        mon.check(sorted(map(repr, s.transitions)) == sorted(map(repr, m.A)), 'inputs', f'inputs of {s.state_id}', **wit)
        for a in m.A:
            l = options(s, a)
            mon.check(l and abs(sum(p for o, t, p in l) - 1) < 1e-9 and all(p > 0 for o, t, p in l), 'distribution',
                      f'{s.state_id} on {a!r}: {[p for o, t, p in l]}', **wit)
            mon.check(len({repr(o) for o, t, p in l}) == len(l), 'distribution', f'{s.state_id} on {a!r}: an output occurs twice',
                      **wit)
    test = {'classic': hoeffding, 'normal': normal, 'normal-diff': normal, 'chi2': chi2, 'chi2-diff': chi2,
            'own': lambda c, d: strat.are_cells_different(c, d)}[strategy]
    freq, k, example, enough = find_cut(m, sul.log, hist, real, options, n_c if strategy == 'classic' else 1, test)
    mon.check(freq, 'frequencies', 'the distributions are not the relative frequencies after the prefixes of the states '
              'at any moment of the run', model=h.describe(), **wit)
    mon.ev('distributions', len(real) * len(m.A))
    mon.check(k is not None, 'target', 'at no moment of the run, the targets of all transitions had compatible observations: '
              f'{example}', model=h.describe(), **wit)
    mon.ev('targets', sum(len(options(s, a)) for s in real for a in m.A))
    enough &= not leads
    # fair sampling: no spurious states; with enough samples the true machine
    if not fair:
        return
    cls = pclasses(m)
    mon.ev('fair_models')
    # (the classic test calls rows different if an output was not observed in one of them yet)
    mon.check(strategy == 'classic' or len(real) <= len(set(cls.values())), 'too-large', f'{len(real)} states, the minimal machine has '
                                                               f'{len(set(cls.values()))}', **wit)
    sep = all(cls[x] == cls[y] or m.so is not None and m.so[x] != m.so[y] or
              any(abs(dict((repr(o), p) for o, t, p in m.options(x, a)).get(q, 0) -
                      dict((repr(o), p) for o, t, p in m.options(y, a)).get(q, 0)) > .55
                  for a in m.A for q in {repr(e[0]) for e in m.options(x, a) + m.options(y, a)})
              for x in range(m.n) for y in range(m.n))
    if enough and sep and not leads and strategy != 'classic':
        mon.ev('exact_models')
        msg = bisim_sm(m, h, tol=.12)
        mon.check(msg is None, 'model', f'fair samples of at least 30 per cell: {msg}', model=h.describe(), **wit)
    mon.seen('model', wit)
    mon.sample(target=m.describe(), strategy=strategy, states=len(model.states), rounds=rounds)


def rp(hh):
    return tuple((repr(a), repr(o)) for a, o in hh)


def find_cut(m, log, hist, real, options, n_min, test):
    """last moment (number of recorded traces) at which the frequencies after the prefixes were those of the model and all
    transition targets were compatible with what was observed after the transition"""
    want, pairs, by = {}, [], {}
    for s in real:
        for a in m.A:
            l = options(s, a)
            key = (rp(hist[s]), repr(a))
            chaos = any(same(o, 'chaos') for o, t, p in l)
            want[key] = None if chaos else {repr(o): p for o, t, p in l}
            for o, t, p in () if chaos else l:
                for b in m.A:
                    x, y = (rp(hist[s] + ((a, o),)), repr(b)), (rp(hist[t]), repr(b))
                    for z in {x, y}:
                        by.setdefault(z, []).append(len(pairs))
                    pairs.append((x, y))
    cnt = {k: {} for k in list(want) + list(by)}

    def good(k):
        c, w = cnt[k], want[k]
        n = sum(c.values())
        if n < n_min:
            return w is None
        return w is not None and set(c) == set(w) and all(abs(c[o] / n - w[o]) < 1e-9 for o in c)

    def compatible(i):
        c, d = cnt[pairs[i][0]], cnt[pairs[i][1]]
        return c is d or min(sum(c.values()), sum(d.values())) < n_min or test(c, d) is not True

    bad, odd = {k for k in want if not good(k)}, {i for i in range(len(pairs)) if not compatible(i)}
    depth = max((len(k[0]) for k in cnt), default=0)
    freq, best, example, enough = False, None, None, False
    for tr in log + [None]:
        if not bad:
            freq = True
            if not odd:
                best = True
                enough = all(min(sum(cnt[x].values()), sum(cnt[y].values())) >= 30 for x, y in pairs)
            else:
                x, y = pairs[min(odd)]
                example = f'{x}: {cnt[x]}, {y}: {cnt[y]}'
        hh = ()
        for a, o in (tr or ())[:depth + 1]:
            k = (hh, repr(a))
            if k in cnt:
                cnt[k][repr(o)] = cnt[k].get(repr(o), 0) + 1
                if k in want:
                    (bad.discard if good(k) else bad.add)(k)
                for i in by.get(k, ()):
                    (odd.discard if compatible(i) else odd.add)(i)
            hh += ((repr(a), repr(o)),)
    return freq, best, example, enough


def checker(rng, mon):
    """the difference checkers on random and on systematically near-threshold frequencies"""
    O = rng.choice([['a', 'b', 'c', 'd'], [0, 1, 2, 3], [('x',), '', 'y', 0]])[:rng.randint(1, 4)]
    alpha = rng.choice([.05, .01, .2])
    pairs = [(HoeffdingChecker(alpha), lambda c, d: hoeffding(c, d, alpha)), (HoeffdingChecker(), hoeffding),
             (AdvancedHoeffdingChecker(alpha), lambda c, d: normal(c, d, alpha)), (AdvancedHoeffdingChecker(), normal),
             (ChiSquareChecker(), chi2)]
    for _ in range(20):
        big = rng.choice([3, 10, 60, 1000])
        c = {o: rng.randint(1, big) for o in O if rng.random() < .8}
        d = {o: rng.randint(1, big) if rng.random() < .5 else c.get(o, 1) * rng.randint(1, 2) for o in O if rng.random() < .8}
        if rng.random() < .4:
            d = {o: max(1, c[o] + rng.randint(-big // 3, big // 3)) for o in c}
        for ch, ref in pairs:
            want = ref(c, d)
            c0, d0 = dict(c), dict(d)
            got, rev = ch.are_cells_different(c, d), ch.are_cells_different(d, c)
            mon.check(c == c0 and d == d0, 'checker', 'frequencies were changed', test=type(ch).__name__, c=c, d=d)
            mon.ev('cells')
            if want is not None:
                mon.check(bool(got) == want and bool(rev) == want, 'checker', f'{type(ch).__name__}({getattr(ch, "alpha", "")}) says '
                          f'{got}/{rev} for {c} and {d}, by its definition {want}', c=c, d=d)
            mon.check(not ch.are_cells_different(c, dict(c)), 'checker', f'{type(ch).__name__}: {c} differs from itself', c=c)
    mon.seen('checker', O, alpha, mon.events.get('cells'))


def refused(rng, mon):
    """oracles that are not made for stochastic systems"""
    m = target(rng, rng.choice(['mdp', 'smm']), False)
    sul = StSUL(m, rng, False, 1000)
    A = list(m.A)
    o = rng.choice([lambda: WMethodEqOracle(A, sul, 3), lambda: StatePrefixEqOracle(A, sul), lambda: CacheBasedEqOracle(A, sul),
                    lambda: PacOracle(A, sul), lambda: BreadthFirstExplorationEqOracle(A, sul), lambda: Spy(m, sul, mon, {}),
                    lambda: RandomWMethodEqOracle(A, sul)])()
    try:
        quiet(run_stochastic_Lstar, A, sul, o, automaton_type=m.kind, max_rounds=2, min_rounds=1, print_level=0)
        ok = False
    except SystemExit:
        ok = True
    mon.check(ok, 'not-refused', f'{type(o).__name__} was accepted', oracle=type(o).__name__)
    mon.check(sul.resets == sul.steps == 0, 'not-refused', 'the system was used before the oracle was refused')
    mon.ev('refused')


def run(family, idx, rng, mon):
    if family == 'refused':
        refused(rng, mon)
    elif family == 'checker':
        checker(rng, mon)
    else:
        learn(rng, mon, idx, family == 'fair', family == 'property')
