"""L#: exact equivalence oracle => terminates with the complete, minimal, equivalent model."""
from aalpy.learning_algs import run_Lsharp

from ..aal import ExactOracle, RefSUL
from ..gen import gen_dm, permuted, word
from ..ref import check_learned, fresh

ID = 'C03'
RULE = ('A case is one run of L# on a generated target with one configuration (model type x extension rule x '
        'separation rule x cache x counterexample shape x samples). Distinct = (configuration, canonical minimal '
        'target); non-trivial = at least one counterexample was processed, or a one-state target.')
CONFIGS = [(k, er, sr, ca) for er in (None, 'SepSeq', 'ADS') for sr in ('SepSeq', 'ADS')
           for k in ('dfa', 'moore', 'mealy') for ca in (True, False)]
FLOORS = {'models_judged': 6000, 'counterexamples': 10000}


def plan(tier):
    q = tier == 'quick'
    return [('configs', len(CONFIGS) * (500 if q else 4000)), ('large', 2500 if q else 25000),
            ('samples', 1500 if q else 20000), ('deep', 36 if q else 360)]


def run(family, idx, rng, mon):
    k, er, sr, ca = CONFIGS[idx % len(CONFIGS)]
    if family == 'large':
        t = gen_dm(rng, k, nmin=8, nmax=16, amax=3, styles=['random', 'lock', 'cycle', 'twin', 'tree', 'nearmin', 'dense'])
    elif family == 'deep':
        t = gen_dm(rng, k, nmin=3, nmax=5, broad=0, styles=['cycle', 'lock', 'nearmin', 'random', 'sink'])
    else:
        t = gen_dm(rng, k, nmax=9)
    t = permuted(rng, t)
    style = rng.choice(['short', 'random', 'long']) if family != 'deep' else 'deep'
    sul = RefSUL(t, mon, budget=20_000_000)
    n = t.minimal_size()
    eq = ExactOracle(t, sul, rng, style, max_rounds=4 * n + 10, mon=mon)
    kw = {}
    if family == 'samples':
        kw['samples'] = [(w, tuple(t.run(w))) for w in (word(rng, t.A, 1, 8) for _ in range(rng.randint(1, 12)))]
    m = run_Lsharp(list(t.A), sul, eq, fresh(k), extension_rule=er, separation_rule=sr, cache_and_non_det_check=ca,
                   print_level=0, **kw)
    check_learned(mon, m, t)
    mon.ev('steps_observed', sul.real_steps)
    if eq.cexs or n == 1:
        mon.seen(family, k, er, sr, ca, style, t.canon())
    mon.sample(config=[k, er, sr, ca, style], states=n, hypothesis_sizes=eq.sizes, cexs=eq.cexs[:3])
