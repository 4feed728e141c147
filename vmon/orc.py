"""Equivalence-oracle sessions observed at the boundary of the system under learning."""
import math

from aalpy import run_KV, run_Lstar
from aalpy.base import SUL
from aalpy.base.SUL import CacheSUL
from aalpy.learning_algs import run_Lsharp
from aalpy.oracles import (BreadthFirstExplorationEqOracle, CacheBasedEqOracle, KWayStateCoverageEqOracle,
                           KWayTransitionCoverageEqOracle, PacOracle, PerfectKnowledgeEqOracle,
                           ProvidedSequencesOracleWrapper, RandomWalkEqOracle, RandomWMethodEqOracle,
                           RandomWordEqOracle, RandomWpMethodEqOracle, StatePrefixEqOracle,
                           TransitionFocusOracle, WMethodEqOracle, WpMethodEqOracle)

from .aal import RefSUL, build
from .core import Skip, Violation
from .gen import gen_dm, mutate, permuted, word
from .ref import extract, fresh, same
from .stoch import SM, build_sm, gen_sm, read_sm

NAMES = ['W', 'Wp', 'RandomW', 'RandomWp', 'BFS', 'RandomWalk', 'RandomWord', 'StatePrefix', 'TransitionFocus',
         'Cache', 'Pac', 'Perfect', 'Provided', 'KWayState', 'KWayTransition']
DEEP = .004
RANDOM = [x for x in NAMES if x not in ('W', 'Wp', 'BFS', 'Perfect', 'Provided')]


def make(rng, name, A, sul, t, n, inner=None):
    """(oracle, parameters) with small random parameters"""
    A = list(A)
    x = 10 if rng.random() < .02 else 1         # now and then a campaign of many or long tests
    y = 8 if rng.random() < .02 else 1
    if rng.random() < DEEP:                     # very rarely longer than the recursion limit
        x, y = 1, 150
    if name == 'W':
        p = dict(max_number_of_states=n + rng.randint(0, 1), shuffle_test_set=rng.random() < .5)
        return WMethodEqOracle(A, sul, **p), p
    if name == 'Wp':
        p = dict(max_number_of_states=n + rng.randint(0, 1))
        return WpMethodEqOracle(A, sul, **p), p
    if name == 'RandomW':
        p = dict(walks_per_state=x * rng.randint(1, 6), walk_len=y * rng.randint(1, 8))
        return RandomWMethodEqOracle(A, sul, **p), p
    if name == 'RandomWp':
        p = dict(min_length=rng.randint(0, 3), expected_length=y * rng.randint(1, 6), num_tests=x * rng.randint(1, 40))
        return RandomWpMethodEqOracle(A, sul, **p), p
    if name == 'BFS':
        p = dict(depth=rng.randint(1, {1: 8, 2: 5, 3: 4, 4: 3}.get(len(A), 2)))
        return BreadthFirstExplorationEqOracle(A, sul, **p), p
    if name == 'RandomWalk':
        p = dict(num_steps=x * rng.randint(1, 200), reset_after_cex=rng.random() < .5,
                 reset_prob=rng.choice([0.05, 0.09, 0.3, 0.0, 1.0]))
        return RandomWalkEqOracle(A, sul, **p), p
    if name == 'RandomWord':
        lo = rng.randint(1, 6)
        p = dict(num_walks=x * rng.randint(1, 40), min_walk_len=lo, max_walk_len=lo + y * rng.randint(0, 8),
                 reset_after_cex=rng.random() < .5)
        return RandomWordEqOracle(A, sul, **p), p
    if name == 'StatePrefix':
        p = dict(walks_per_state=x * rng.randint(1, 6), walk_len=y * rng.randint(1, 10),
                 max_tests=rng.choice([None, None, rng.randint(1, 25)]), depth_first=rng.random() < .5)
        return StatePrefixEqOracle(A, sul, **p), p
    if name == 'TransitionFocus':
        p = dict(num_random_walks=x * rng.randint(1, 30), walk_len=y * rng.randint(1, 12),
                 same_state_prob=rng.choice([0.2, 0.5, -1, 1]))
        return TransitionFocusOracle(A, sul, **p), p
    if name == 'Cache':
        p = dict(num_walks=x * rng.randint(1, 20), depth_increase=y * rng.randint(0, 6), reset_after_cex=rng.random() < .5)
        return CacheBasedEqOracle(A, sul, **p), p
    if name == 'Pac':
        lo = rng.randint(1, 6)
        p = dict(epsilon=rng.choice([0.05, 0.1, 0.3]), delta=rng.choice([0.01, 0.1, 0.5]), min_walk_len=lo,
                 max_walk_len=lo + y * rng.randint(0, 8))
        return PacOracle(A, sul, **p), p
    if name == 'Perfect':
        return PerfectKnowledgeEqOracle(A, sul, build(t)), {}
    if name == 'Provided':
        seqs = [word(rng, A, 1, 8 * y) for _ in range(rng.randint(0, 6))]
        if rng.random() < .5:
            seqs = [list(s) for s in seqs]
        inner_name = inner or rng.choice(RANDOM + ['W', 'BFS'])
        if len(A) > 4 and (inner_name == 'W' or inner_name.startswith('KWay')):
            inner_name = 'RandomWord'
        io, ip = make(rng, inner_name, A, sul, t, n)
        p = dict(seqs=[tuple(s) for s in seqs], given=seqs, inner=inner_name, inner_params=ip)
        return ProvidedSequencesOracleWrapper(A, sul, io, seqs), p
    if name == 'KWayState':
        p = dict(k=rng.choice([2, 2, 3]), random_walk_len=rng.randint(1, 8),
                 method=rng.choice(['permutations', 'combinations']))
        return KWayStateCoverageEqOracle(A, sul, **p), p
    p = dict(k=rng.choice([2, 2, 3]), method=rng.choice(['random', 'random', 'prefix']),
             num_generate_paths=rng.randint(1, 40), max_path_len=rng.randint(4, 20),
             optimize=rng.choice(['steps', 'queries']), random_walk_len=rng.randint(0, 6),
             max_number_of_steps=rng.choice([0, 0, 0, rng.randint(5, 60)]))
    return KWayTransitionCoverageEqOracle(A, sul, **p), p


class Ask:
    """what one equivalence query did: hypothesis as given, tests executed, answer"""

    def __init__(self, hm, hyp, windows, cex, dq, ds, counters):
        self.hm, self.hyp, self.tests, self.cex, self.dq, self.ds, self.counters = hm, hyp, windows, cex, dq, ds, counters


def shape(h):
    """identity-level structure of a hypothesis, to notice corruption"""
    return (id(h.initial_state), [(id(s), repr(s.state_id), repr(s.prefix),
                                   sorted((repr(a), id(x)) for a, x in s.transitions.items()),
                                   repr(getattr(s, 'is_accepting', None)) if hasattr(s, 'is_accepting')
                                   else repr(getattr(s, 'output', None)) if hasattr(s, 'output')
                                   else sorted((repr(a), repr(o)) for a, o in s.output_fun.items()))
                                  for s in sorted(h.states, key=id)])


def spy(oracle, kind, A, rsul, asks):
    """record every find_cex call of the oracle at the boundary of the system"""
    inner = oracle.find_cex

    def find_cex(hypothesis):
        hm = extract(hypothesis, kind, None, 'hypothesis')
        before = shape(hypothesis)
        order = [s.prefix for s in hypothesis.states]
        l0, r0, s0 = len(rsul.log), rsul.real_resets, rsul.real_steps
        q0, n0 = oracle.num_queries, oracle.num_steps
        a = Ask(hm, hypothesis, None, None, None, None, None)
        a.prefixes = order
        a.cached = isinstance(oracle.sul, CacheSUL)
        cex = inner(hypothesis)
        a.cex = cex
        a.tests = [tuple(w) for w in rsul.log[l0:]]
        a.dq, a.ds = oracle.num_queries - q0, oracle.num_steps - n0
        a.counters = (rsul.real_resets - r0, rsul.real_steps - s0)
        a.start = l0
        a.charset = hypothesis.characterization_set
        if shape(hypothesis) != before:
            raise Violation('hypothesis-corrupted', f'{type(oracle).__name__} changed the hypothesis it was asked about')
        asks.append(a)
        return cex

    oracle.find_cex = find_cex
    return oracle


def maximal_words(words):
    ws = set(words)
    return {w for w in ws if not any(len(v) > len(w) and v[:len(w)] == w for v in ws)}


def pac_tests(p, rnd):
    return math.ceil(1 / p['epsilon'] * (math.log(1 / p['delta']) + rnd * math.log(2)))


LEARNERS = ['lstar', 'lstar_rs', 'lstar_none', 'kv', 'kv_lin', 'lsharp']


def learn(learner, k, rng, A, sul, eq, ca, **kw):
    kw = dict(print_level=0, cache_and_non_det_check=ca, **kw)
    if learner == 'lstar_none':
        return run_Lstar(A, sul, eq, k, cex_processing=None, **kw)
    if learner == 'lstar':
        return run_Lstar(A, sul, eq, k, cex_processing=rng.choice(['longest_prefix', 'linear_fwd', 'exponential_bwd']),
                         all_prefixes_in_obs_table=rng.random() < .5, e_set_suffix_closed=rng.random() < .5, **kw)
    if learner == 'lstar_rs':
        return run_Lstar(A, sul, eq, k, cex_processing='rs', e_set_suffix_closed=rng.random() < .5, **kw)
    if learner == 'kv':
        return run_KV(A, sul, eq, k, cex_processing='rs', **kw)
    if learner == 'kv_lin':
        return run_KV(A, sul, eq, k, cex_processing=rng.choice(['linear_fwd', 'linear_bwd', 'exponential_fwd',
                                                                'exponential_bwd']), **kw)
    return run_Lsharp(A, sul, eq, k, extension_rule=rng.choice([None, 'SepSeq', 'ADS']),
                      separation_rule=rng.choice(['SepSeq', 'ADS']), **kw)


def small(rng, k, nmax=6, amax=3, broad=.02):
    t = gen_dm(rng, k, nmax=nmax, amax=amax, broad=broad, styles=['random', 'lock', 'cycle', 'sink', 'nearmin', 'dense', 'single'])
    return permuted(rng, t)


def hyp_of(rng, m):
    """hypothesis object as learners hand it over: minimal, listed states reachable, access sequences set"""
    m = m.minimize()
    order = list(range(m.n))
    if rng.random() < .3:
        rest = order[1:]
        rng.shuffle(rest)
        order = [0] + rest
    h = build(m, order=order)
    acc = m.reach()
    for i, s in zip(order, h.states):
        s.prefix = acc[i]
    return m, h


def near(rng, t):
    """hypothesis machines close to the system: itself, mutants, versions with redirected transitions"""
    r = rng.random()
    if r < .15:
        return t
    if r < .75:
        return mutate(rng, t, rng.choice([1, 1, 2, 4]))
    d = [dict(x) for x in t.d]
    a, b = rng.randrange(t.n), rng.randrange(t.n)
    for row in d:
        for x in row:
            if row[x] == a:
                row[x] = b
    return type(t)(t.kind, t.A, d, t.so, t.eo, t.init)


def same_init(t, h):
    return t.kind == 'mealy' or same(t.so[t.init], h.so[h.init])


def affordable(name, n, k, bound):
    if name in ('W', 'Wp'):
        return n * k * n * sum(k ** d for d in range(bound)) < 3000
    return True


class Session:
    """One oracle object, asked directly about several hypotheses or driven by a learner."""

    def __init__(self, rng, mon, name, k, direct, strict='lax', nmax=6, amax=3, limit=None):
        self.k, self.name, self.direct, self.asks = k, name, direct, []
        if nmax in (5, 6) and rng.random() < .15:
            nmax = 10
        for _ in range(50):
            t = small(rng, k, nmax, amax, 0 if name.startswith('KWay') else .02)
            n = t.minimal_size()
            if affordable(name, 1 if not direct else n, len(t.A), n + 1):
                break
        self.t, self.n = t, n
        self.rsul = rsul = RefSUL(t, mon, strict=strict, log=True)
        self.sul = rsul
        needs_cache = name == 'Cache'
        self.learner = None
        if direct:
            primed = needs_cache or rng.random() < .3
            if primed:
                self.sul = CacheSUL(rsul)
                for _ in range(rng.randint(1, 6)):
                    self.sul.query(word(rng, t.A, 1, 6))
                if rng.random() < DEEP:
                    self.sul.query(word(rng, t.A, 1010, 1100))
            self.cache = primed
        else:
            self.cache = needs_cache or rng.random() < .6
        inner = rng.choice([x for x in RANDOM + ['BFS', 'Perfect'] if x != 'Cache' or self.cache])
        self.oracle, self.p = make(rng, name, t.A, self.sul, t, n, inner)
        self.setup_resets, self.setup_steps = rsul.real_resets, rsul.real_steps
        spy(self.oracle, k, t.A, rsul, self.asks)
        self.model = self.info = None
        if direct:
            for _ in range(rng.randint(1, 4)):
                hm, h = hyp_of(rng, near(rng, t))
                if same_init(t, hm) and affordable(name, hm.n, len(t.A), self.p.get('max_number_of_states', 0) + 1 - hm.n
                                                   if 'max_number_of_states' in self.p else 1):
                    self.oracle.find_cex(h)
        else:
            self.learner = rng.choice(LEARNERS)
            self.alphabet = list(t.A)
            kw = {} if limit is None else dict(max_learning_rounds=limit)
            self.model, self.info = learn(self.learner, k, rng, self.alphabet, rsul, self.oracle, self.cache,
                                          return_data=True, **kw)

    def what(self, i=None):
        return (f'{self.name}{self.p} ' + (f'with {self.learner} cache={self.cache}' if self.learner else
                                           f'direct cache={self.cache}') + f' {self.k}'
                + (f' question {i + 1}' if i is not None else ''))

    def wit(self, a):
        return dict(system=self.t.describe(), hypothesis=a.hm.describe(), tests=a.tests[-6:], cex=a.cex)


class NdLog(SUL):
    """non-deterministic or stochastic system that logs every executed (input, output) trace"""

    def __init__(self, m, rng, budget=None):
        super().__init__()
        self.m, self.rng, self.log, self.open, self.budget = m, rng, [], False, budget

    def pre(self):
        if self.open:
            raise Violation('protocol', 'pre() while the previous interaction is still open')
        self.open, self.s = True, self.m.init
        self.log.append([])
        if self.budget and len(self.log) > self.budget:     # random choices may take arbitrarily long to reach a trace
            raise Skip('too rare traces')

    def post(self):
        self.open = False

    def step(self, letter):
        if not self.open:
            raise Violation('protocol', f'step({letter!r}) outside pre()/post()')
        if letter is None:
            return self.m.so[self.s] if self.m.so is not None else None
        if letter not in self.m.t[self.s]:
            raise Violation('protocol', f'step with letter {letter!r} outside the alphabet')
        opts = self.m.t[self.s][letter]
        o, self.s, _ = self.rng.choices(opts, [p for _, _, p in opts])[0]
        self.log[-1].append((letter, o))
        return fresh(o)


def mutate_sm(rng, m, k):
    """m with k changes (transitions redirected, dropped or given another output); still complete and observable"""
    t = [{a: list(l) for a, l in row.items()} for row in m.t]
    outs = list({repr(o): o for row in m.t for l in row.values() for o, _, _ in l}.values())
    for _ in range(k):
        s = rng.randrange(m.n)
        a = rng.choice(list(t[s]))
        l = t[s][a]
        i = rng.randrange(len(l))
        o, x, p = l[i]
        r = rng.random()
        if r < .35 and len(l) > 1:
            l.pop(i)
        elif r < .7:
            y = rng.randrange(m.n)
            if m.so is None or (m.so[y] == o and type(m.so[y]) is type(o)):
                l[i] = (o, y, p)
        else:
            y = rng.randrange(m.n)
            q = m.so[y] if m.so is not None else rng.choice(outs)
            if all(e[0] != q for j, e in enumerate(l) if j != i):
                l[i] = (q, y, p)
        w = sum(e[2] for e in l)
        t[s][a] = [(e[0], e[1], e[2] / w) for e in l]
    return SM(m.kind, m.A, t, m.so, m.init)


class NdSession:
    """A random walk or random word oracle asked about ONFSM, MDP and SMM hypotheses of a non-deterministic system."""

    def __init__(self, rng, name, kind):
        self.name, self.kind, self.asks = name, kind, []
        self.m = gen_sm(rng, kind, nmax=5, amax=3)
        self.sul = NdLog(self.m, rng)
        self.oracle, self.p = make(rng, name, self.m.A, self.sul, self.m, self.m.n)
        q = s = 0
        for _ in range(rng.randint(1, 4)):
            hm = mutate_sm(rng, self.m, rng.choice([0, 1, 1, 2, 4]))
            h = build_sm(hm, order=rng.sample(range(hm.n), hm.n))
            before = read_sm(h).describe()
            l0 = len(self.sul.log)
            cex = self.oracle.find_cex(h)
            a = Ask(hm, h, [list(w) for w in self.sul.log[l0:]], cex, self.oracle.num_queries - q, self.oracle.num_steps - s, None)
            q, s = self.oracle.num_queries, self.oracle.num_steps
            a.corrupted = read_sm(h).describe() != before
            a.reset = rng.random() < .4
            if a.reset:
                self.oracle.reset_counter()
            self.asks.append(a)

    def what(self, i):
        return f'{self.name}{self.p} {self.kind} question {i + 1}'

    def wit(self, a):
        return dict(system=self.m.describe(), hypothesis=a.hm.describe(), tests=[repr(w) for w in a.tests[-6:]], cex=repr(a.cex))


def possible(hm, trace):
    """length of the longest prefix of the trace that the (observable) machine can do"""
    cur = {hm.init}
    for i, (a, o) in enumerate(trace):
        cur = hm.post(cur, a, o)
        if not cur:
            return i
    return len(trace)
