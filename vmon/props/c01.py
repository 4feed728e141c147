"""L*: exact equivalence oracle => terminates with the complete, minimal, equivalent model."""
from aalpy import run_Lstar

from ..aal import ExactOracle, RefSUL
from ..gen import gen_dm, word, permuted
from ..ref import check_learned, fresh

ID = 'C01'
RULE = ('A case is one run of L* on a generated target machine with one point of the configuration space '
        '(model type x closing strategy x counterexample processing x suffix closedness x table mode x cache x '
        'counterexample shape x initial samples). Distinct = (configuration, canonical minimal target); non-trivial = '
        'the run needed at least one counterexample or the target has one state.')
CEX = [None, 'rs', 'longest_prefix', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
CONFIGS = [(k, cl, cx, sc, ap, ca)
           for cx in CEX for k in ('dfa', 'moore', 'mealy') for cl in ('shortest_first', 'longest_first', 'single')
           for sc in (False, True) for ap in (True, False) for ca in (True, False)]
FLOORS = {'models_judged': 8000, 'counterexamples': 10000}


def plan(tier):
    q = tier == 'quick'
    return [('configs', 504 * (40 if q else 600)), ('large', 2500 if q else 40000), ('samples', 4000 if q else 60000),
            ('deep', 30 if q else 300)]


def run(family, idx, rng, mon):
    k, cl, cx, sc, ap, ca = CONFIGS[idx % len(CONFIGS)] if family == 'configs' else rng.choice(CONFIGS)
    if family == 'deep':      # the other settings make tables of thousands of long suffixes or rows
        cx, sc = rng.choice(['rs', 'exponential_bwd', 'linear_bwd', 'linear_fwd']), False
    if family == 'large':
        t = gen_dm(rng, k, nmin=10, nmax=40, amax=5, styles=['random', 'lock', 'cycle', 'twin', 'tree', 'nearmin', 'dense'])
    elif family == 'deep':
        t = gen_dm(rng, k, nmin=3, nmax=4, amax=3, broad=0, styles=['cycle', 'lock', 'nearmin', 'random', 'sink'])
    else:
        t = gen_dm(rng, k, nmax=9)
    t = permuted(rng, t)
    style = rng.choice(['short', 'random', 'long']) if family != 'deep' else 'deep'
    sul = RefSUL(t, mon, budget=20_000_000)
    n = t.minimal_size()
    eq = ExactOracle(t, sul, rng, style, max_rounds=4 * n + 10, mon=mon)
    eq.aslist = rng.random() < .2
    kw = {}
    if family == 'samples':
        kw['samples'] = [(w, tuple(t.run(w))) for w in (word(rng, t.A, 1, 8) for _ in range(rng.randint(1, 12)))]
    alphabet = list(t.A)
    m = run_Lstar(alphabet, sul, eq, fresh(k), closing_strategy=cl, cex_processing=cx, e_set_suffix_closed=sc,
                  all_prefixes_in_obs_table=ap, cache_and_non_det_check=ca, print_level=0, **kw)
    check_learned(mon, m, t)
    mon.ev('steps_observed', sul.real_steps)
    if eq.cexs or n == 1:
        mon.seen(family, k, cl, cx, sc, ap, ca, style, t.canon())
    mon.sample(config=[k, cl, cx, sc, ap, ca, style], states=n, target_style=t.describe()['states'][:3],
               hypothesis_sizes=eq.sizes, cexs=eq.cexs[:3])
