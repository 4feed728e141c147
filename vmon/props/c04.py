"""Adaptive L#: whatever the references are, the result is the exact minimal model."""
from aalpy.learning_algs import run_adaptive_Lsharp

from ..aal import ExactOracle, RefSUL, build
from ..gen import gen_dm, permuted, mutate
from ..ref import DM, check_learned, diff, extract, fresh

ID = 'C04'
RULE = ('A case is one adaptive L# run on a generated target with 0-3 reference models (identical, mutated, '
        'unrelated, larger/smaller/disjoint alphabet, non-minimal, with unreachable states) under one configuration '
        '(model type x extension x separation x rebuilding x matching x cache). Distinct = (configuration, canonical '
        'target, canonical references); non-trivial = at least one reference and one counterexample or a rebuilt model.')
CONFIGS = [(k, er, sr, rb, sm, ca) for er in (None, 'SepSeq', 'ADS') for sr in ('SepSeq', 'ADS')
           for rb, sm in ((True, 'Approximate'), (True, 'Total'), (True, None), (False, 'Approximate'), (False, 'Total'))
           for k in ('dfa', 'moore', 'mealy') for ca in (True, False)]
FLOORS = {'models_judged': 3000, 'references': 3000, 'equal_references': 1500}


def plan(tier):
    q = tier == 'quick'
    c = len(CONFIGS)
    return [('related', c * (50 if q else 600)), ('alphabets', c * (35 if q else 400)),
            ('unrelated', c * (20 if q else 300)), ('disjoint', c * (8 if q else 100)), ('none', c * (3 if q else 20)),
            ('equal', c * (20 if q else 300)), ('deep', 150 if q else 1500)]


def relabel(rng, t, letters):
    """t with its letters renamed / restricted / extended to `letters`"""
    d, eo = [], []
    src = {a: rng.choice(t.A) if a not in t.A else a for a in letters}
    for s in range(t.n):
        d.append({a: t.d[s][src[a]] for a in letters})
        if t.eo is not None:
            eo.append({a: t.eo[s][src[a]] for a in letters})
    return DM(t.kind, letters, d, t.so, eo if t.eo is not None else None, t.init)


def make_ref(rng, t, family):
    r = rng.random()
    if family == 'unrelated':
        base = gen_dm(rng, t.kind, nmax=7, alph='chr')
        base = relabel(rng, base, t.A)
    else:
        base = mutate(rng, t, rng.choice([0, 1, 1, 2, 4]))
    if family == 'alphabets':
        keep = [a for a in t.A if rng.random() < .6] or [rng.choice(t.A)]
        extra = [f'new{j}' for j in range(rng.randint(0, 2))]
        base = relabel(rng, base, keep + extra)
    if family == 'disjoint' and r < .6:
        base = relabel(rng, base, [f'new{j}' for j in range(rng.randint(1, 3))])
    return permuted(rng, base) if rng.random() < .3 else base


def run(family, idx, rng, mon):
    k, er, sr, rb, sm, ca = CONFIGS[idx % len(CONFIGS)]
    if family == 'deep':
        k, er, sr, rb, sm, ca = rng.choice(CONFIGS)
        t = gen_dm(rng, k, nmin=3, nmax=5, broad=0, styles=['cycle', 'lock', 'nearmin', 'random', 'sink'])
    else:
        t = gen_dm(rng, k, nmax=10 if family == 'equal' else 8, amax=3)
    refs = [permuted(rng, t.minimize())] if family == 'equal' else [] if family == 'none' else [make_ref(rng, t, 'unrelated' if family == 'deep' else family) for _ in range(rng.randint(1, 3))]
    refs = refs if family == 'equal' else [r.minimize() if rng.random() < .5 else r for r in refs]
    models = [build(r) for r in refs]
    style = rng.choice(['short', 'random']) if family != 'deep' else 'deep'
    sul = RefSUL(t, mon)
    n = t.minimal_size()
    eq = ExactOracle(t, sul, rng, style, max_rounds=4 * n + 10, mon=mon)
    given, alph = list(models), list(t.A)
    m = run_adaptive_Lsharp(alph, sul, given, eq, fresh(k), extension_rule=er, separation_rule=sr, rebuilding=rb,
                            state_matching=sm, cache_and_non_det_check=ca, print_level=0)
    check_learned(mon, m, t)
    mon.check(len(given) == len(models) and all(x is y for x, y in zip(given, models)) and alph == list(t.A),
              'arguments-changed', 'the list of references or the alphabet of the caller was changed')
    if family == 'equal' and rb:
        mon.check(not eq.cexs, 'reference-ignored', f'hypotheses of {eq.sizes} states although the only reference equals the '
                  f'system', target=t.describe(), reference=refs[0].describe(), config=[k, er, sr, rb, sm, ca], cexs=eq.cexs)
        mon.ev('equal_references')
    for r, model in zip(refs, models):
        after = extract(model, k, r.A, 'reference')
        mon.check(after.n == r.n and diff(r, after, r.A) is None, 'reference-modified',
                  'a reference model no longer behaves as it did before learning')
    mon.ev('references', len(refs))
    if refs and (eq.cexs or max(eq.sizes) > 1):
        mon.seen(family, k, er, sr, rb, sm, ca, t.canon(), [r.canon() for r in refs])
    mon.sample(config=[k, er, sr, rb, sm, ca], states=n, references=[r.n for r in refs], sizes=eq.sizes)
