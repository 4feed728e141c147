"""Interaction protocol and accounting of queries and steps at the boundary of the system under learning."""
from aalpy.learning_algs import (run_abstracted_ONFSM_Lstar, run_active_Alergia, run_active_RPNI, run_adaptive_Lsharp,
                                 run_non_det_Lstar, run_stochastic_Lstar)
from aalpy.learning_algs.deterministic_passive.active_RPNI import RandomWordSampler as WordSampler
from aalpy.learning_algs.stochastic_passive.ActiveAleriga import RandomWordSampler as TraceSampler

from ..aal import RefSUL, build
from ..gen import mutate, word
from ..orc import NAMES, NdLog, Session, make, spy, small
from ..stoch import gen_sm

ID = 'C11'
RULE = ('A case is one session of one equivalence oracle (direct or driven by a learner) against a system that checks '
        'the pre/step/post discipline at every call and counts every reset and step. Distinct = (oracle, learner, '
        'cache, parameters, system); non-trivial = at least one test executed.')
FLOORS = {'windows_compared': 15000, 'runs_compared': 4000, 'resets': 400000, 'other_learners': 2000}


def plan(tier):
    q = tier == 'quick'
    return [('direct', 18000 if q else 150000), ('learning', 27000 if q else 150000), ('limited', 8000 if q else 40000),
            ('adaptive', 8000 if q else 40000), ('others', 3000 if q else 15000)]


def windows(mon, s):
    for i, a in enumerate(s.asks):
        mon.check((a.dq, a.ds) == a.counters, 'statistics',
                  f'{s.what(i)}: the oracle counted {a.dq} queries / {a.ds} steps, the system saw {a.counters[0]} '
                  f'resets / {a.counters[1]} steps', **s.wit(a))
        mon.ev('windows_compared')


def totals(mon, what, info, oracle, rsul):
    mon.check(info['queries_eq_oracle'] == oracle.num_queries and info['steps_eq_oracle'] == oracle.num_steps,
              'statistics', f'{what}: oracle numbers {info["queries_eq_oracle"]}/{info["steps_eq_oracle"]} reported, '
                            f'oracle has {oracle.num_queries}/{oracle.num_steps}')
    q = info['queries_learning'] + info['queries_eq_oracle']
    n = info['steps_learning'] + info['steps_eq_oracle']
    mon.check((q, n) == (rsul.real_resets, rsul.real_steps), 'statistics',
              f'{what}: {q} queries / {n} steps reported in total, the system saw {rsul.real_resets} resets / '
              f'{rsul.real_steps} steps')
    mon.ev('runs_compared')


def others(idx, rng, mon):
    """learners of non-deterministic and stochastic systems and active passive learning"""
    learner = ('onfsm', 'smm-onfsm', 'abstracted', 'mdp', 'smm', 'alergia', 'rpni')[idx % 7]
    if learner == 'rpni':
        k = rng.choice(['dfa', 'moore', 'mealy'])
        t = small(rng, k)
        rsul = RefSUL(t, mon, strict='lax', log=True)
        data = [(tuple(w), t.run(w)[-1]) for w in (word(rng, t.A, 1, 5) for _ in range(rng.randint(1, 10)))]
        n, per = rng.randint(1, 3), rng.randint(1, 8)
        run_active_RPNI(data, rsul, WordSampler(per, 1, 7), n, k, print_info=False)
        mon.check(rsul.real_resets == n * per, 'statistics', f'{rsul.real_resets} interactions in {n} samplings of {per}')
        mon.ev('resets', rsul.real_resets)
        mon.seen('rpni', n, per, t.canon())
        return
    kind = {'alergia': rng.choice(['mdp', 'smm'])}.get(learner, learner if learner in ('mdp', 'smm') else 'onfsm')
    m = gen_sm(rng, kind, nmax=4, amax=2, bushy=0, broad=0, **(dict(outs='str', alph='str') if learner == 'alergia' else {}))
    sul = NdLog(m, rng, budget=5000)
    mon.slow = lambda: len(sul.log) > 2000 or max(map(len, sul.log), default=0) > 15      # sampled sets of traces may explode
    alph = list(m.A)
    name = rng.choice(['RandomWalk', 'RandomWord'])
    lim = rng.randint(1, 4)
    what, seen = f'{learner} with {name}', []
    if learner == 'alergia':
        data = []
        for _ in range(rng.randint(1, 5)):
            sul.pre()
            data.append(([sul.step(None)] if kind == 'mdp' else []) + [(a, sul.step(a)) for a in word(rng, m.A, 1, 6)])
            sul.post()
        del sul.log[:]
        n, per = rng.randint(1, 3), rng.randint(1, 8)
        run_active_Alergia(data, sul, TraceSampler(per, 1, 7), n, automaton_type=kind, print_info=False)
        mon.check(len(sul.log) == n * per, 'statistics', f'{len(sul.log)} interactions in {n} samplings of {per}')
    else:
        eq, p = make(rng, name, m.A, sul, m, m.n)
        find = eq.find_cex

        def watched(h):
            # the system as seen during the search
            q, s, l0 = eq.num_queries, eq.num_steps, len(sul.log)
            r = find(h)
            l = sul.log[l0:]
            mon.check((eq.num_queries - q, eq.num_steps - s) == (len(l), sum(map(len, l))), 'statistics',
                      f'{what}{p}: the oracle counted {eq.num_queries - q} queries / {eq.num_steps - s} steps, the system saw '
                      f'{len(l)} resets / {sum(map(len, l))} steps')
            mon.ev('windows_compared')
            return r
        eq.find_cex = watched
        kw = dict(return_data=True, print_level=0)
        if learner in ('onfsm', 'smm-onfsm'):
            _, info = run_non_det_Lstar(alph, sul, eq, n_sampling=rng.randint(1, 12), stochastic=learner != 'onfsm',
                                        max_learning_rounds=lim, **kw)
        elif learner == 'abstracted':
            outs = sorted({repr(o): o for row in m.t for l in row.values() for o, _, _ in l}.items())
            ab = {o: rng.choice(['x', 'y']) for _, o in outs}
            _, info = run_abstracted_ONFSM_Lstar(alph, sul, eq, ab, n_sampling=rng.randint(1, 12), max_learning_rounds=lim, **kw)
        else:
            _, info = run_stochastic_Lstar(alph, sul, eq, automaton_type=kind, min_rounds=rng.randint(1, 4),
                                           max_rounds=rng.randint(4, 12), strategy=rng.choice(['normal', 'classic', 'chi2']),
                                           samples_cex_strategy=rng.choice([None, 'bfs', 'random:10:0.2']),
                                           cex_processing=rng.choice([None, 'longest_prefix', 'rs']),
                                           n_c=rng.randint(2, 8), n_resample=rng.randint(4, 20), **kw)
        # the query for the initial output of an MDP is asked before learning starts
        first = 1 if kind == 'mdp' else 0
        q = info['queries_learning'] + info['queries_eq_oracle'] + first
        n = info['steps_learning'] + info['steps_eq_oracle']
        mon.check((q, n) == (len(sul.log), sum(map(len, sul.log))), 'statistics',
                  f'{what}{p}: {q} queries / {n} steps reported in total, the system saw {len(sul.log)} resets / '
                  f'{sum(map(len, sul.log))} steps', system=m.describe())
        mon.check(alph == list(m.A), 'alphabet-changed', f'{what}: the alphabet given by the caller became {alph}')
        mon.ev('runs_compared')
    mon.ev('other_learners')
    mon.ev('resets', len(sul.log))
    mon.seen(learner, name, lim, m.describe())


def run(family, idx, rng, mon):
    if family == 'others':
        return others(idx, rng, mon)
    k = ('dfa', 'moore', 'mealy')[idx // len(NAMES) % 3]
    name = NAMES[idx % len(NAMES)]
    if family == 'adaptive':
        t = small(rng, k)
        rsul = RefSUL(t, mon, strict='lax', log=True)
        while name in ('Cache', 'W', 'Wp'):
            name = rng.choice(NAMES)
        inner = rng.choice(['RandomWalk', 'RandomWord', 'BFS', 'StatePrefix', 'KWayState', 'Perfect'])
        eq, p = make(rng, name, t.A, rsul, t, t.minimal_size(), inner)
        asks = []
        spy(eq, k, t.A, rsul, asks)
        refs = [build(mutate(rng, t, rng.choice([1, 2, 3]))) for _ in range(rng.randint(0, 2))]
        rb, sm = rng.choice([(True, 'Approximate'), (True, None), (False, 'Total'), (True, 'Total')])
        ca = rng.random() < .5
        m, info = run_adaptive_Lsharp(list(t.A), rsul, refs, eq, k, rebuilding=rb, state_matching=sm, print_level=0,
                                      return_data=True, cache_and_non_det_check=ca)
        what = f'adaptive L# ({rb}, {sm}) with {name}{p} {k} cache={ca}'
        for a in asks:
            mon.check((a.dq, a.ds) == a.counters, 'statistics', f'{what}: the oracle counted {a.dq} queries / {a.ds} '
                      f'steps, the system saw {a.counters[0]} resets / {a.counters[1]} steps')
            mon.ev('windows_compared')
        totals(mon, what, info, eq, rsul)
        mon.ev('resets', rsul.real_resets)
        mon.seen('adaptive', name, repr(p), ca, t.canon())
        return
    s = Session(rng, mon, name, k, family == 'direct', limit=rng.randint(1, 3) if family == 'limited' else None)
    windows(mon, s)
    if s.info is not None:
        totals(mon, s.what(), s.info, s.oracle, s.rsul)
        mon.check(s.info['automaton_size'] == len(s.model.states), 'statistics', f'{s.what()}: automaton_size')
        mon.check(s.alphabet == list(s.t.A), 'alphabet-changed', f'{s.what()}: the alphabet given by the caller became '
                                                                 f'{s.alphabet}')
        if s.learner not in ('kv', 'kv_lin'):
            mon.check(s.info['learning_rounds'] == len(s.asks), 'statistics',
                      f'{s.what()}: {s.info["learning_rounds"]} rounds reported, {len(s.asks)} equivalence queries asked')
    mon.ev('resets', s.rsul.real_resets)
    if s.rsul.real_resets:
        mon.seen(name, s.learner, s.cache, repr(sorted(s.p.items(), key=repr)), s.t.canon())
    mon.sample(oracle=name, learner=s.learner, cache=s.cache, params=s.p, resets=s.rsul.real_resets,
               steps=s.rsul.real_steps, windows=[a.counters for a in s.asks][:6])
