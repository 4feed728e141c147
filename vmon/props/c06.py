"""Learners: every round makes progress, round limits are respected, reported statistics match the system boundary."""
from aalpy import run_Lstar, run_KV
from aalpy.learning_algs import run_adaptive_Lsharp, run_Lsharp

from ..aal import ExactOracle, RefSUL, build
from ..gen import gen_dm, mutate, permuted, word
from ..ref import check_learned, diff, extract, same

ID = 'C06'
RULE = ('A case is one run of L*, KV, L# or adaptive L# (random configuration) with an exact equivalence oracle, '
        'observed at the system boundary and at every hypothesis handed to the oracle. Distinct = (learner, '
        'configuration, canonical target); non-trivial = at least two hypotheses.')
FLOORS = {'hypotheses': 6000, 'limited_runs': 900, 'counterexamples': 4000, 'accounting_checks': 2500, 'observations': 100000}
CEX = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']


def plan(tier):
    q = tier == 'quick'
    return [('progress', 6000 if q else 100000), ('limit', 3000 if q else 50000), ('samples', 1500 if q else 20000)]


def start(rng, t, sul, eq, learner, k, ca, limit=None, samples=None):
    kw = dict(cache_and_non_det_check=ca, print_level=0, return_data=True, max_learning_rounds=limit)
    if samples is not None:
        kw['samples'] = samples
    if learner == 'lstar':
        cx = rng.choice([None, 'longest_prefix'] + CEX)
        cl = rng.choice(['shortest_first', 'longest_first', 'single'])
        ap, sc = rng.random() < .5, rng.random() < .5
        return (cx, cl, ap, sc), run_Lstar(list(t.A), sul, eq, k, closing_strategy=cl, cex_processing=cx,
                                           all_prefixes_in_obs_table=ap, e_set_suffix_closed=sc, **kw)
    if learner == 'kv':
        cx = rng.choice(CEX)
        return (cx,), run_KV(list(t.A), sul, eq, k, cex_processing=cx, **kw)
    er, sr = rng.choice([None, 'SepSeq', 'ADS']), rng.choice(['SepSeq', 'ADS'])
    if learner == 'lsharp':
        return (er, sr), run_Lsharp(list(t.A), sul, eq, k, extension_rule=er, separation_rule=sr, **kw)
    refs = [build(mutate(rng, t, rng.choice([1, 2, 3]))) for _ in range(rng.randint(0, 2))]
    rb, sm = rng.choice([(True, 'Approximate'), (True, None), (False, 'Total'), (True, 'Total')])
    return (er, sr, rb, sm, len(refs)), run_adaptive_Lsharp(list(t.A), sul, refs, eq, k, extension_rule=er,
                                                           separation_rule=sr, rebuilding=rb, state_matching=sm, **kw)


class Watching(ExactOracle):
    """remembers how much of the system had been observed when a hypothesis was presented"""

    def find_cex(self, hypothesis):
        self.observed.append(len(self.system.log))
        return super().find_cex(hypothesis)


def run(family, idx, rng, mon):
    learner = ('lstar', 'kv', 'lsharp', 'adaptive')[idx % 4]
    k = ('dfa', 'moore', 'mealy')[idx // 4 % 3]
    ca = idx // 12 % 2 == 0
    t = permuted(rng, gen_dm(rng, k, nmax=14, amax=3))
    n = t.minimal_size()
    samples = None
    if family == 'samples' and learner != 'kv':
        samples = [(w, tuple(t.run(w))) for w in (word(rng, t.A, 1, 8) for _ in range(rng.randint(0, 12)))]
    sul = RefSUL(t, mon, strict=True, log=True)
    eq = Watching(t, sul, rng, rng.choice(['short', 'random', 'long']), max_rounds=2 * n + 6, mon=mon)
    eq.system, eq.observed = sul, []
    limit = rng.randint(1, 5) if family == 'limit' else None
    cfg, (m, info) = start(rng, t, sul, eq, learner, k, ca, limit, samples)
    what = f'{learner}{cfg} {k} cache={ca}'
    wit = dict(target=t.describe(), cexs=eq.cexs[:6], sizes=eq.sizes)

    # every counterexample is repaired by the next hypothesis, which has more states
    hyps = list(eq.hyps)
    for i in range(1, len(hyps)):
        w = eq.cexs[i - 1]
        a, b = t.answer(w), hyps[i].answer(w)
        if learner in ('lstar', 'kv'):
            a, b = a[-1:], b[-1:]     # the differing output of the counterexamples given here is the last one
        mon.check(len(a) == len(b) and all(map(same, a, b)), 'counterexample-ignored',
                  f'{what}: hypothesis {i + 1} still answers {b} on the counterexample {list(w)} it was built from '
                  f'(system {a})', **wit)
        mon.check(len(hyps[i].listed) > len(hyps[i - 1].listed), 'no-progress',
                  f'{what}: hypothesis {i + 1} has {len(hyps[i].listed)} states after {len(hyps[i - 1].listed)}', **wit)
    for i, h in enumerate(hyps):
        mon.check(len(h.listed) <= n, 'too-many-states', f'{what}: hypothesis {i + 1} has {len(h.listed)} states, the '
                                                     f'minimal machine {n}', **wit)
    if learner in ('lsharp', 'adaptive') and hyps:
        # the observation tree keeps every observation: later hypotheses stay consistent with all counterexamples
        for w in eq.cexs[:len(hyps) - 1]:
            a, b = t.answer(w), hyps[-1].answer(w)
            mon.check(all(map(same, a, b)), 'counterexample-forgotten',
                      f'{what}: final hypothesis contradicts the earlier counterexample {list(w)}', **wit)
        # and with everything else the learner has asked the system
        for i, h in enumerate(hyps):
            for w in sul.log[:eq.observed[i]]:
                a, b = t.answer(w), h.answer(w)
                mon.check(all(map(same, a, b)), 'observation-contradicted',
                          f'{what}: hypothesis {i + 1} answers {b} on the executed query {list(w)} (system {a})', **wit)
            mon.ev('observations', eq.observed[i])

    if limit is None:
        check_learned(mon, m, t)
        mon.check(eq.rounds <= n + (1 if learner == 'kv' else 0), 'too-many-rounds',
                  f'{what}: {eq.rounds} equivalence queries for {n} states', **wit)
    else:
        extra = 1 if learner == 'kv' else 0       # KV asks about its one-state hypothesis before the first round
        mon.check(eq.rounds <= limit + extra, 'round-limit', f'{what}: {eq.rounds} equivalence queries under '
                                                             f'max_learning_rounds={limit}', **wit)
        mon.check(learner == 'kv' or eq.last is None or eq.rounds == limit, 'round-limit',
                  f'{what}: stopped after {eq.rounds} rounds although {limit} were allowed and the last hypothesis '
                  f'had a counterexample', **wit)
        h = extract(m, k, None, 'returned model')
        for s in range(h.n_reach):
            mon.check(set(h.d[s]) == set(t.A), 'not-input-complete', f'{what}: limited run returned a partial model')
        if eq.last is None:
            check_learned(mon, m, t)
        elif learner != 'kv':
            w = diff(h, hyps[-1], t.A)
            mon.check(w is None, 'round-limit', f'{what}: the limited run returned a model that differs from its '
                                                f'last hypothesis on {w}', **wit)
        mon.ev('limited_runs')

    # reported numbers
    mon.check(info['automaton_size'] == len(m.states), 'statistics', f'{what}: automaton_size {info["automaton_size"]} '
                                                                    f'but {len(m.states)} states')
    mon.check(info['queries_learning'] == sul.real_resets and info['steps_learning'] == sul.real_steps, 'statistics',
              f'{what}: reported {info["queries_learning"]} queries / {info["steps_learning"]} steps, the system saw '
              f'{sul.real_resets} resets / {sul.real_steps} steps', **wit)
    mon.check(sul.real_posts == sul.real_resets, 'protocol', f'{what}: {sul.real_resets} pre() but {sul.real_posts} post()')
    mon.check(info['queries_eq_oracle'] == 0 and info['steps_eq_oracle'] == 0, 'statistics',
              f'{what}: oracle numbers reported for an oracle that asked nothing')
    if limit is None:
        # bounded work: polynomial in the size of the target, the alphabet and the counterexamples
        A, mx = len(t.A), max([len(w) for w in eq.cexs] + [1])
        bound = 60 + 12 * (A * (n + 1) ** 2 + (n + 1) * (n + mx) * (A + 1))
        if samples is None:
            mon.check(sul.real_resets <= bound, 'excessive-queries',
                      f'{what}: {sul.real_resets} membership queries, bound {bound} (n={n}, k={A}, m={mx})', **wit)
    mon.ev('accounting_checks')
    if len(hyps) > 1:
        mon.seen(learner, cfg, k, ca, t.canon())
    mon.sample(learner=learner, config=cfg, n=n, sizes=eq.sizes, queries=sul.real_resets, steps=sul.real_steps)
