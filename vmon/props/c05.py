"""KV on visibly pushdown languages: the learned single-entry automaton accepts exactly the target language."""
from aalpy import run_KV, SevpaAlphabet
from aalpy.base import Oracle

from ..core import Skip, Violation
from ..vpl import RV, VSUL, cex as vcex, congruent_pairs, from_sevpa, gen_rv, gen_word, relettered, structured

ID = 'C05'
RULE = ('A case is one KV run (counterexample processing x cache) on a generated visibly pushdown language, with an '
        'exact equivalence oracle (summary search over the product). Distinct = (configuration, target); non-trivial = '
        'the language is neither empty nor trivial for the one-state hypothesis (>= 1 counterexample).')
CEX = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
FLOORS = {'models_judged': 800, 'counterexamples': 800, 'words_run': 10000}


def plan(tier):
    q = tier == 'quick'
    return [('single_entry', 9000 if q else 150000), ('general', 6000 if q else 100000), ('structured', 600 if q else 6000),
            ('exclusive', 6000 if q else 100000)]


class VOracle(Oracle):
    def __init__(self, rv, alphabet, sul, rng, mon, style, max_rounds):
        super().__init__(alphabet, sul)
        self.rv, self.rng, self.mon, self.style, self.max_rounds = rv, rng, mon, style, max_rounds
        self.rounds, self.cexs, self.sizes, self.skip_at = 0, [], [], None

    def find_cex(self, hypothesis):
        self.rounds += 1
        self.mon.ev('hypotheses')
        h = from_sevpa(hypothesis, self.rv.I, self.rv.C, self.rv.R, 'hypothesis')
        self.sizes.append(len(h.acc))
        if self.skip_at and len(h.acc) > self.skip_at:
            # the single-entry form of a general automaton can be exponentially larger: out of scope here
            raise Skip('single-entry form too large')
        if self.rounds > self.max_rounds:
            raise Violation('no-progress', f'{self.rounds} equivalence queries, hypothesis sizes {self.sizes[-8:]}',
                            target=self.rv.describe(), cexs=self.cexs[-4:])
        w = vcex(self.rv, h, None if self.style == 'short' else self.rng)
        if w is not None:
            self.cexs.append(w)
            self.mon.ev('counterexamples')
        return w


def run(family, idx, rng, mon):
    if family == 'structured':
        t = structured(rng)
    else:
        se = family != 'general'
        if se:
            t = gen_rv(rng, nmax=rng.choice([2, 3, 4]), single_entry=True, cmax=2)
        else:
            c = rng.choice([1, 1, 2])
            t = gen_rv(rng, nmax=3 if c == 1 and rng.random() < .3 else 2, single_entry=False, cmax=c)
    if rng.random() < .4:
        t = relettered(rng, t)
    cx, ca = CEX[idx % 5], (idx // 5) % 2 == 0
    pairs = None
    if family == 'exclusive':
        # every call letter has its own return letter; all other returns are dead in the target
        k = min(len(t.C), len(t.R))
        t.C, t.R = t.C[:k], t.R[:k]
        pairs = dict(zip(t.C, t.R))
        t.cc = [{c: v for c, v in row.items() if c in pairs} for row in t.cc]
        t.rr = [{(g, r): v for (g, r), v in row.items() if pairs.get(g[1]) == r} for row in t.rr]
    sul = VSUL(t, budget=40_000_000)
    alpha = SevpaAlphabet(list(t.I), list(t.C), list(t.R), pairs)
    style = rng.choice(['short', 'random'])
    eq = VOracle(t, alpha.get_merged_alphabet(), sul, rng, mon, style, 400)
    eq.skip_at = 25 if family == 'general' else None
    m = run_KV(alpha, sul, eq, 'vpa', cex_processing=cx, cache_and_non_det_check=ca, print_level=0)
    h = from_sevpa(m, t.I, t.C, t.R, 'learned model')
    w = vcex(t, h)
    if w is not None:
        mon.fail('wrong-model', f'learned model and target disagree on {list(w)}: target '
                                f'{t.accepts(w)}, model {h.accepts(w)}', target=t.describe(), model=h.describe())
    twins, _ = congruent_pairs(h)
    if twins:
        mon.fail('not-minimal', f'states {[[h.ids[x] for x in p if x >= 0] for p in twins]} are interchangeable in '
                                f'every context', target=t.describe(), model=h.describe())
    # the model as an executable object
    for _ in range(12):
        w = gen_word(rng, t)
        m.reset_to_initial()
        got = [m.step(a) for a in w]
        mon.check([bool(x) for x in got] == t.run(w), 'wrong-execution',
                  f'executing the learned model on {list(w)} gives {got}, target {t.run(w)}', target=t.describe())
        mon.ev('words_run')
    mon.ev('models_judged')
    if eq.cexs:
        mon.seen(family, cx, ca, style, t.describe())
    mon.sample(config=[cx, ca, style], target=t.describe(), sizes=eq.sizes, cexs=eq.cexs[:3])
