"""KV: exact equivalence oracle => terminates with the complete, minimal, equivalent model."""
from aalpy import run_KV

from ..aal import ExactOracle, RefSUL
from ..gen import gen_dm, permuted
from ..ref import check_learned, fresh

ID = 'C02'
RULE = ('A case is one run of KV on a generated target with one configuration (model type x counterexample '
        'processing x cache x counterexample shape). Distinct = (configuration, canonical minimal target); '
        'non-trivial = at least one counterexample was processed, or a one-state target.')
CEX = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
CONFIGS = [(k, cx, ca) for cx in CEX for k in ('dfa', 'moore', 'mealy') for ca in (True, False)]
FLOORS = {'models_judged': 6000, 'counterexamples': 10000}


def plan(tier):
    q = tier == 'quick'
    return [('configs', len(CONFIGS) * (500 if q else 6000)), ('large', 2500 if q else 40000), ('deep', 30 if q else 300)]


def run(family, idx, rng, mon):
    k, cx, ca = CONFIGS[idx % len(CONFIGS)]
    if family == 'large':
        t = gen_dm(rng, k, nmin=10, nmax=40, amax=5, styles=['random', 'lock', 'cycle', 'twin', 'tree', 'nearmin', 'dense'])
    elif family == 'deep':
        t = gen_dm(rng, k, nmin=3, nmax=4, amax=3, broad=0, styles=['cycle', 'lock', 'nearmin', 'random', 'sink'])
    else:
        t = gen_dm(rng, k, nmax=9)
    t = permuted(rng, t)
    style = rng.choice(['short', 'random', 'long']) if family != 'deep' else 'deep'
    sul = RefSUL(t, mon, budget=20_000_000)
    n = t.minimal_size()
    eq = ExactOracle(t, sul, rng, style, max_rounds=4 * n + 10, mon=mon)
    m = run_KV(list(t.A), sul, eq, fresh(k), cex_processing=cx, cache_and_non_det_check=ca, print_level=0)
    check_learned(mon, m, t)
    mon.ev('steps_observed', sul.real_steps)
    if eq.cexs or n == 1:
        mon.seen(family, k, cx, ca, style, t.canon())
    mon.sample(config=[k, cx, ca, style], states=n, hypothesis_sizes=eq.sizes, cexs=eq.cexs[:3])
