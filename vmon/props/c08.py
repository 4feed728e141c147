"""Bounded-complete equivalence oracles: W, Wp, breadth-first and perfect-knowledge."""
from aalpy import run_KV, run_Lstar
from aalpy.learning_algs import run_Lsharp
from aalpy.oracles import (BreadthFirstExplorationEqOracle, PerfectKnowledgeEqOracle, WMethodEqOracle,
                           WpMethodEqOracle)

from ..aal import RefSUL, build
from ..gen import gen_dm, mutate, permuted
from ..ref import diff, extract, same

ID = 'C08'
RULE = ('A case is one equivalence oracle (W, Wp, breadth first or perfect knowledge) asked about one or several '
        'hypotheses, directly or during learning, with the true answer decided by an independent product search. '
        'Distinct = (oracle, bound, canonical system, canonical hypothesis); non-trivial = hypothesis and system '
        'differ, or the oracle answered "none" after at least one test.')
FLOORS = {'answers_none': 1500, 'answers_cex': 1500, 'learned': 600, 'history_steps': 1500}


def plan(tier):
    q = tier == 'quick'
    return [('fresh', 40000 if q else 120000), ('history', 20000 if q else 50000), ('learn', 19200 if q else 50000),
            ('bfs', 9000 if q else 30000), ('perfect', 6000 if q else 60000)]


def small(rng, k, nmax=6, amax=3):
    """complete minimal reachable machine"""
    t = gen_dm(rng, k, nmax=nmax, amax=amax, broad=0, styles=['random', 'lock', 'cycle', 'sink', 'nearmin', 'dense', 'single'])
    return permuted(rng, t)


def hyp_of(rng, m):
    """hypothesis object as learners hand it over: minimal, listed states reachable, access sequences set"""
    m = m.minimize()
    ids = [f's{i}' for i in range(m.n)]
    order = list(range(m.n))
    if rng.random() < .3:
        rest = order[1:]
        rng.shuffle(rest)
        order = [0] + rest
    h = build(m, ids=ids, order=order)
    acc = m.reach()
    for i, s in zip(order, h.states):
        s.prefix = acc[i]
    return m, h


def cost(n_h, k, depth):
    return n_h * k * n_h * sum(k ** d for d in range(max(depth, 0)))


def make(rng, name, t, sul, n, nh, limit=6000):
    """oracle whose bound covers the system; the bound exceeds it when that stays affordable"""
    m = n
    while rng.random() < .5 and cost(nh, len(t.A), m + 2 - nh) < limit:
        m += 1
    if name == 'W':
        return WMethodEqOracle(list(t.A), sul, m, shuffle_test_set=rng.random() < .5), m
    return WpMethodEqOracle(list(t.A), sul, m), m


def near(rng, t):
    """hypothesis machines: prefixes of knowledge about t -- mutants and merged versions"""
    r = rng.random()
    if r < .15:
        return t
    if r < .75:
        return mutate(rng, t, rng.choice([1, 1, 2, 4]))
    # collapse a few states
    d = [dict(x) for x in t.d]
    a, b = rng.randrange(t.n), rng.randrange(t.n)
    for row in d:
        for x in row:
            if row[x] == a:
                row[x] = b
    return type(t)(t.kind, t.A, d, t.so, t.eo, t.init)


def larger(rng, t):
    """a hypothesis with more states than the system: some states get copies, some of which then change"""
    d, so, eo = [dict(x) for x in t.d], t.so and list(t.so), t.eo and [dict(x) for x in t.eo]
    for _ in range(rng.randint(1, 3)):
        q = rng.randrange(t.n)
        d.append(dict(d[q]))
        if so:
            so.append(so[q])
        if eo:
            eo.append(dict(eo[q]))
        into = [(p, a) for p in range(len(d)) for a in t.A if d[p][a] == q]
        if into:
            p, a = rng.choice(into)
            d[p][a] = len(d) - 1
    m = type(t)(t.kind, t.A, d, so, eo, t.init)
    return mutate(rng, m, rng.choice([1, 1, 2, 3]))


def same_init(t, h):
    return t.kind == 'mealy' or same(t.so[t.init], h.so[h.init])


def judge(mon, what, t, hm, cex, sul, must, wit):
    """must: the oracle has to find a difference (one exists within its bound)"""
    if cex is None:
        mon.check(not must, 'missed-counterexample', f'{what} answered "no counterexample" but hypothesis and system '
                                                     f'differ on {must!r}', **wit)
        mon.ev('answers_none')
        return
    mon.ev('answers_cex')
    w = tuple(cex)
    mon.check(len(w) > 0 and all(a in t.A for a in w), 'bad-counterexample', f'{what} returned {cex!r}', **wit)
    a, b = t.answer(w), hm.answer(w)
    mon.check(not all(x == y for x, y in zip(a, b)), 'bad-counterexample',
              f'{what} returned {list(w)} on which system and hypothesis agree: {a}', **wit)


def run(family, idx, rng, mon):
    k = ('dfa', 'moore', 'mealy')[idx % 3]
    if family == 'perfect':
        return perfect(k, idx, rng, mon)
    if family == 'bfs':
        return bfs(k, idx, rng, mon)
    name = ('W', 'Wp')[idx // 3 % 2]
    t = small(rng, k)
    n = t.minimal_size()
    if family == 'learn':
        return learn(name, k, idx, rng, mon, t, n)
    for _ in range(40):
        hyps = [hyp_of(rng, near(rng, t)) for _ in range(1 if family == 'fresh' else rng.randint(2, 4))]
        hyps = [x for x in hyps if x[0].n <= n and same_init(t, x[0]) and cost(x[0].n, len(t.A), n + 1 - x[0].n) < 4000]
        if hyps:
            break
        t = small(rng, k)
        n = t.minimal_size()
    else:
        return mon.ev('too_expensive')
    sul = RefSUL(t, mon, budget=4_000_000)
    eq, m = make(rng, name, t, sul, n, min(x[0].n for x in hyps))
    for i, (hm, h) in enumerate(hyps):
        must = diff(t, hm, t.A, comp=lambda a, b: a == b)
        wit = dict(system=t.describe(), hypothesis=hm.describe(), bound=m, position=i)
        before = sul.real_resets
        cex = eq.find_cex(h)
        judge(mon, f'{name} oracle (bound {m}, system {n} states, hypothesis {hm.n} states, question {i + 1})',
              t, hm, cex, sul, must, wit)
        if must is None:
            mon.check(cex is not None or sul.real_resets > before or i > 0, 'no-tests',
                      f'{name} oracle with bound {m} ran no test for a hypothesis of {hm.n} states', **wit)
        mon.seen(name, m, t.canon(), hm.canon())
        mon.ev('history_steps', family == 'history')
    mon.ev('tests', sul.real_resets)
    mon.sample(oracle=name, bound=m, system_states=n, hypothesis_states=[x[0].n for x in hyps], tests=sul.real_resets)


LEARNERS = ['lstar', 'lstar_rs', 'lstar_none', 'kv', 'kv_lin', 'lsharp']


def call(learner, k, rng, A, sul, eq, ca):
    kw = dict(print_level=0, cache_and_non_det_check=ca)
    if learner == 'lstar_none':
        return run_Lstar(A, sul, eq, k, cex_processing=None, **kw)
    if learner == 'lstar':
        return run_Lstar(A, sul, eq, k, cex_processing=rng.choice(['longest_prefix', 'linear_fwd', 'exponential_bwd']),
                         all_prefixes_in_obs_table=rng.random() < .5, e_set_suffix_closed=rng.random() < .5, **kw)
    if learner == 'lstar_rs':
        return run_Lstar(A, sul, eq, k, cex_processing='rs', e_set_suffix_closed=rng.random() < .5, **kw)
    if learner == 'kv':
        return run_KV(A, sul, eq, k, cex_processing='rs', **kw)
    if learner == 'kv_lin':
        return run_KV(A, sul, eq, k, cex_processing=rng.choice(['linear_fwd', 'linear_bwd', 'exponential_fwd',
                                                                'exponential_bwd']), **kw)
    return run_Lsharp(A, sul, eq, k, **kw)


def learn(name, k, idx, rng, mon, t, n):
    learner = LEARNERS[idx // 6 % len(LEARNERS)]
    for _ in range(40):
        if cost(1, len(t.A), n) < 5000 and n > 1:
            break
        t = small(rng, k)
        n = t.minimal_size()
    sul = RefSUL(t, mon, budget=4_000_000)
    eq, m = make(rng, name, t, sul, n, 1, 3000)
    ca = rng.random() < .6
    model = call(learner, k, rng, list(t.A), sul, eq, ca)
    h = extract(model, k, None, 'learned model')
    w = diff(t, h, t.A, comp=lambda a, b: a == b)
    mon.check(w is None, 'missed-counterexample',
              f'{learner} with the {name} oracle (bound {m}, system {n} states, cache {ca}) ended with a model of '
              f'{h.n_reach} states that differs from the system on {w!r}', system=t.describe(), model=h.describe())
    mon.ev('learned')
    mon.seen('learn', learner, name, m, ca, t.canon())


def bfs(k, idx, rng, mon):
    t = small(rng, k, nmax=8)
    d = rng.randint(1, {1: 9, 2: 7, 3: 5}[len(t.A)])
    sul = RefSUL(t, mon, budget=4_000_000)
    eq = BreadthFirstExplorationEqOracle(list(t.A), sul, depth=d)
    what = f'breadth-first oracle of depth {d}'
    if idx // 3 % 2:
        learner = LEARNERS[idx // 6 % len(LEARNERS)]
        model = call(learner, k, rng, list(t.A), sul, eq, rng.random() < .6)
        h = extract(model, k, None, 'learned model')
        w = diff(t, h, t.A, comp=lambda a, b: a == b)
        mon.check(w is None or len(w) > d, 'missed-counterexample',
                  f'{learner} with the {what} ended with a model that differs from the system on {w!r}',
                  system=t.describe(), model=h.describe())
        mon.ev('learned')
        mon.seen('bfs-learn', learner, d, t.canon())
        return
    hyps = [x for x in (hyp_of(rng, near(rng, t)) for _ in range(rng.randint(1, 4))) if same_init(t, x[0])]
    for i, (hm, h) in enumerate(hyps):
        w = diff(t, hm, t.A, comp=lambda a, b: a == b)
        must = w if w is not None and len(w) <= d else None
        cex = eq.find_cex(h)
        judge(mon, what + f' (question {i + 1})', t, hm, cex, sul, must,
              dict(system=t.describe(), hypothesis=hm.describe(), position=i))
        mon.ev('history_steps', i > 0)
        mon.seen('bfs', d, t.canon(), hm.canon())


def perfect(k, idx, rng, mon):
    t = small(rng, k, nmax=12, amax=4)
    known = build(t, order=None)
    sul = RefSUL(t, mon)
    eq = PerfectKnowledgeEqOracle(list(t.A), sul, known)
    if idx // 3 % 2:
        learner = LEARNERS[idx // 6 % len(LEARNERS)]
        model = call(learner, k, rng, list(t.A), sul, eq, rng.random() < .6)
        h = extract(model, k, None, 'learned model')
        w = diff(t, h, t.A, comp=lambda a, b: a == b)
        mon.check(w is None, 'missed-counterexample', f'{learner} with perfect knowledge ended with a model that '
                                                      f'differs from the system on {w!r}', system=t.describe(),
                  model=h.describe())
        mon.ev('learned')
        mon.seen('pk-learn', learner, t.canon())
        return
    for i in range(rng.randint(1, 3)):
        hm, h = hyp_of(rng, larger(rng, t) if rng.random() < .3 else near(rng, t))
        w = diff(t, hm, t.A, comp=lambda a, b: a == b)
        if w == ():
            continue
        mon.ev('larger_hypotheses', hm.n > t.n)
        cex = eq.find_cex(h)
        judge(mon, f'perfect knowledge oracle (question {i + 1})', t, hm, cex, sul, w,
              dict(system=t.describe(), hypothesis=hm.describe()))
        mon.ev('history_steps', i > 0)
        mon.seen('pk', t.canon(), hm.canon())
