"""Child of C28: runs seeded experiments with AALpy and prints what happened, one JSON line per experiment.

usage: python -m vmon.repro FAMILY FIRST COUNT SEED [full]
"""
import contextlib
import hashlib
import io
import json
import os
import random
import sys

import aalpy.paths  # noqa
from aalpy import run_KV, run_Lstar
from aalpy.SULs import AutomatonSUL
from aalpy.automata import SevpaAlphabet, VpaAlphabet
from aalpy.base import SUL
from aalpy.learning_algs import (run_abstracted_ONFSM_Lstar, run_active_RPNI, run_adaptive_Lsharp, run_Alergia,
                                 run_Alergia_EDSM, run_EDSM, run_GSM, run_k_tails, run_Lsharp, run_non_det_Lstar,
                                 run_PAPNI, run_RPNI, run_stochastic_Lstar)
from aalpy.learning_algs.deterministic_passive.active_RPNI import RandomWordSampler
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation
from aalpy.learning_algs.stochastic_passive.ActiveAleriga import RandomWordSampler as StochasticSampler, run_active_Alergia
from aalpy.oracles import RandomWalkEqOracle, RandomWordEqOracle
from aalpy.utils import (compare_automata, generate_input_output_data_from_automata, generate_input_output_data_from_vpa,
                         generate_random_deterministic_automata, generate_random_markov_chain, generate_random_mdp,
                         generate_random_dfa, generate_random_mealy_machine, generate_random_moore_machine, generate_random_ONFSM,
                        statistical_model_checking, generate_random_sevpa, generate_random_smm, generate_test_cases,
                         mdp_2_prism_format, save_automaton_to_file)
from aalpy.utils.HelperFunctions import dfa_from_moore
from aalpy.utils.Sampling import get_complete_sample, sample_with_length_limits
from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion

from . import orc
from .aal import RefSUL, build
from .core import StepBudget
from .gen import gen_dm, mutate, permuted, word
from .props.c14 import view
from .props.c21 import build_sevpa, build_vpa
from .stoch import build_sm, gen_sm
from .vpl import VSUL, gen_rv, gen_word, structured

BUDGET = 30000
ALPH = ['str', 'chr', 'tuple', 'mixed', 'int']


class Logged(SUL):
    """records everything another system is asked and answers"""

    def __init__(self, sul):
        super().__init__()
        self.sul, self.log, self.left = sul, [], BUDGET

    def pre(self):
        self.log.append([])
        self.left -= 1
        if self.left < 0:
            raise StepBudget('queries')
        self.sul.pre()

    def post(self):
        self.sul.post()

    def step(self, a):
        o = self.sul.step(a)
        self.left -= 1
        self.log[-1].append((a, o))
        return o


def show(model, kind):
    v, i = view(model, kind)
    return [('initial', repr(i))] + [(repr(s), repr(p), repr(t)) for s, (p, t) in v.items()]


def info(d):
    return sorted((k, repr(v)) for k, v in d.items() if 'time' not in k and k != 'characterization_set')


def det(rng, alg, idx):
    kind = ['dfa', 'moore', 'mealy'][idx % 3]
    t = gen_dm(rng, kind, nmax=7, amax=3, alph=rng.choice(ALPH))
    sul = Logged(AutomatonSUL(build(t)))
    name = orc.NAMES[(idx // 3) % len(orc.NAMES)]
    eq, p = orc.make(rng, name, t.A, sul, t, t.n)
    kw = dict(print_level=0, return_data=True, max_learning_rounds=12, cache_and_non_det_check=rng.random() < .7 or 'Cache' in name + repr(p))
    cx = rng.choice(['rs', 'longest_prefix', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd', None])
    if alg == 'lstar':
        model, data = run_Lstar(list(t.A), sul, eq, kind, cex_processing=cx,
                                closing_strategy=rng.choice(['shortest_first', 'longest_first', 'single', 'single_longest']), **kw)
    elif alg == 'kv':
        model, data = run_KV(list(t.A), sul, eq, kind, cex_processing=rng.choice(['rs', 'linear_fwd', 'exponential_bwd']), **kw)
    elif alg == 'lsharp':
        model, data = run_Lsharp(list(t.A), sul, eq, kind, extension_rule=rng.choice([None, 'SepSeq', 'ADS']),
                                 separation_rule=rng.choice(['SepSeq', 'ADS']), **kw)
    else:
        refs = [build(mutate(rng, t, rng.choice([0, 1, 3])).minimize()) for _ in range(rng.randint(1, 2))]
        model, data = run_adaptive_Lsharp(list(t.A), sul, refs, eq, kind, extension_rule=rng.choice([None, 'SepSeq', 'ADS']),
                                          separation_rule=rng.choice(['SepSeq', 'ADS']), rebuilding=rng.random() < .7,
                                          state_matching=rng.choice(['Approximate', 'Total']), **kw)
    return [('config', alg, kind, name, repr(p), repr(cx))] + [('query', repr(q)) for q in sul.log] + \
        [('cset', repr(model.characterization_set))] + info(data) + show(model, kind)


def do_lstar(rng, idx):
    return det(rng, 'lstar', idx)


def do_kv(rng, idx):
    return det(rng, 'kv', idx)


def do_lsharp(rng, idx):
    return det(rng, 'lsharp', idx)


def do_adaptive(rng, idx):
    return det(rng, 'adaptive', idx)


def do_vpa(rng, idx):
    rv = structured(rng) if rng.random() < .5 else gen_rv(rng, nmax=3)
    sul = Logged(VSUL(rv))
    al = SevpaAlphabet(list(rv.I), list(rv.C), list(rv.R))
    eq = RandomWordEqOracle(al.get_merged_alphabet(), sul, num_walks=60, min_walk_len=2, max_walk_len=8)
    model, data = run_KV(al, sul, eq, 'vpa', cex_processing=rng.choice(['rs', 'linear_fwd']), max_learning_rounds=10,
                         return_data=True, print_level=0)
    return [('query', repr(q)) for q in sul.log] + info(data) + show(model, 'sevpa') + \
        [('word', repr(w)) for w in ([model.get_random_accepting_word() for _ in range(3)]
                                     if any(s.is_accepting for s in model.states) and False else [])]


def passive_data(rng, kind, m):
    data = []
    for _ in range(rng.randint(3, 40)):
        w = word(rng, m.A, 0, 8)
        if w or kind != 'mealy':
            data.append((w, m.run(w)[-1] if w else m.so[m.init]))
    return data


def do_rpni(rng, idx):
    kind = ['dfa', 'moore', 'mealy'][idx % 3]
    m = gen_dm(rng, kind, nmax=6, amax=3, alph=rng.choice(ALPH), outs='str')
    data = passive_data(rng, kind, m)
    if not data:
        return []
    alg = ['gsm', 'classic', 'edsm', 'active'][idx // 3 % 4]
    if alg == 'edsm':
        model = run_EDSM(data, kind, print_info=False)
    elif alg == 'active':
        sul = Logged(AutomatonSUL(build(m)))
        model = run_active_RPNI(data, sul, RandomWordSampler(5, 1, 6), 3, kind, print_info=False)
        return [('query', repr(q)) for q in sul.log] + (show(model, kind) if model else [])
    else:
        model = run_RPNI(data, kind, algorithm=alg, print_info=False)
    return [('config', alg, kind)] + (show(model, kind) if model else ['none'])


def do_papni(rng, idx):
    rv = structured(rng) if rng.random() < .4 else gen_rv(rng, nmax=4)
    al = VpaAlphabet(list(rv.I), list(rv.C), list(rv.R))
    data = [(w, rv.accepts(w)) for w in (gen_word(rng, rv, 0, 10) for _ in range(rng.randint(1, 30)))]
    model = run_PAPNI(data, al, algorithm=('gsm', 'edsm', 'classic')[idx % 3], print_info=False)
    return show(model, 'vpa') if model else ['none']


def traces(rng, m, kind, n):
    res = []
    for _ in range(n):
        s = m.init
        t = [m.so[s]] if m.so is not None else []
        for _ in range(rng.randint(1, 7)):
            a = rng.choice(m.A) if kind != 'mc' else None
            l = m.options(s, a)
            o, s, p = rng.choices(l, [x[2] for x in l])[0]
            t.append(o if kind == 'mc' else (a, o))
        res.append(t)
    return res


def do_alergia(rng, idx):
    kind = ['mc', 'mdp', 'smm'][idx % 3]
    m = gen_sm(rng, kind, nmax=4, amax=2, outs='str', alph=rng.choice(['str', 'chr', 'int', 'tuple']))
    data = traces(rng, m, kind, rng.randint(5, 80))
    if idx % 5 == 4 and kind != 'mc':
        sul = Logged(AutomatonSUL(build_sm(m)))
        model = run_active_Alergia(data, sul, StochasticSampler(5, 1, 6), 3, automaton_type=kind, print_info=False)
        return [('query', repr(q)) for q in sul.log] + show(model, kind)
    if idx % 2 or kind == 'mc':
        model = run_Alergia(data, kind, eps=rng.choice([.05, .5, .005]), print_info=False)
    else:
        model = run_Alergia_EDSM(data, kind, eps=.05, print_info=False)
    return show(model, kind)


def do_gsm(rng, idx):
    kind = ['moore', 'mealy'][idx % 2]
    m = gen_sm(rng, 'smm' if kind == 'mealy' else 'mdp', nmax=4, amax=2, outs='str', alph=rng.choice(ALPH))
    data = traces(rng, m, 'x', rng.randint(3, 40))
    beh = ['nondeterministic', 'stochastic'][idx // 2 % 2]
    if idx // 4 % 3 == 0:
        model = run_k_tails(data, kind, rng.randint(0, 2), print_info=False)
        beh = 'nondeterministic' if type(model).__name__ in ('Onfsm', 'NDMooreMachine') else 'deterministic'
    else:
        model = run_GSM(data, output_behavior=kind, transition_behavior=beh,
                        **(dict(score_calc=ScoreCalculation(local_compatibility=lambda a, b: True)) if beh == 'nondeterministic' else {}))
    names = {'Onfsm': 'onfsm', 'NDMooreMachine': 'ndmoore', 'Mdp': 'mdp', 'StochasticMealyMachine': 'smm',
             'MooreMachine': 'moore', 'MealyMachine': 'mealy', 'Dfa': 'dfa'}
    return show(model, names[type(model).__name__])


def do_stochastic(rng, idx):
    kind = ['mdp', 'smm'][idx % 2]
    m = gen_sm(rng, kind, nmax=3, amax=2, outs='str', alph=rng.choice(ALPH))
    sul = Logged(AutomatonSUL(build_sm(m)))
    o = RandomWalkEqOracle(list(m.A), sul, num_steps=60, reset_prob=.2) if rng.random() < .5 else \
        RandomWordEqOracle(list(m.A), sul, num_walks=20, min_walk_len=1, max_walk_len=6)
    model, data = run_stochastic_Lstar(list(m.A), sul, o, target_unambiguity=.9, min_rounds=2, max_rounds=6,
                                       automaton_type=kind, strategy=['normal', 'chi2', 'classic'][idx // 2 % 3],
                                       cex_processing=rng.choice([None, 'longest_prefix']),
                                       samples_cex_strategy=rng.choice([None, 'bfs', 'random:20:0.3']),
                                       n_c=10, n_resample=40, return_data=True, print_level=0)
    return [('query', repr(q)) for q in sul.log] + info(data) + show(model, kind)


def do_onfsm(rng, idx):
    m = gen_sm(rng, 'onfsm', nmax=3, amax=2, omax=3, outs='str', alph=rng.choice(ALPH))
    sul = Logged(AutomatonSUL(build_sm(m)))
    o = RandomWalkEqOracle(list(m.A), sul, num_steps=100, reset_prob=.2) if rng.random() < .5 else \
        RandomWordEqOracle(list(m.A), sul, num_walks=30, min_walk_len=1, max_walk_len=6)
    if idx % 2:
        model, data = run_non_det_Lstar(list(m.A), sul, o, n_sampling=8, stochastic=idx % 4 == 3, max_learning_rounds=6,
                                        return_data=True, print_level=0)
    else:
        O = sorted({x[0] for r in m.t for l in r.values() for x in l})
        ab = {x: rng.choice('AB') for x in O if rng.random() < .5}
        model, data = run_abstracted_ONFSM_Lstar(list(m.A), sul, o, ab, n_sampling=8, max_learning_rounds=5,
                                                 return_data=True, print_level=0)
    return [('config', idx % 2)] + [('query', repr(q)) for q in sul.log] + info(data) + \
        show(model, 'onfsm' if type(model).__name__ == 'Onfsm' else 'smm')


def do_generators(rng, idx):
    k = idx % 12
    A, O = rng.choice([(list('abc'), list('xyz')), (['i1', 'i2'], ['o1', 'o2'])])
    if k < 3:
        kind = ['dfa', 'moore', 'mealy'][k]
        m = generate_random_deterministic_automata(kind, rng.randint(2, 8), rng.randint(1, 3), rng.randint(2, 3),
                                                   **({'num_accepting_states': 1} if k == 0 else {}),
                                                   compute_prefixes=rng.random() < .5)
        return show(m, kind) + [repr(s.prefix) for s in m.states]
    if k == 3:
        return show(generate_random_mdp(5, 2, 3), 'mdp')
    if k == 4:
        return show(generate_random_smm(5, 2, 3), 'smm')
    if k == 5:
        return show(generate_random_ONFSM(5, 2, 3), 'onfsm')
    if k == 6:
        return show(generate_random_markov_chain(5), 'mc')
    if k == 8:
        return show(generate_random_mealy_machine(rng.randint(1, 9), A, O), 'mealy')
    if k == 9:
        return show(generate_random_moore_machine(rng.randint(1, 9), A, O), 'moore')
    if k == 10:
        return show(generate_random_dfa(rng.randint(2, 9), A, 1), 'dfa')
    if k == 11:
        return [repr(statistical_model_checking(build_sm(gen_sm(rng, 'mdp', nmax=4, amax=3, outs='str')), {'A', 'o1', 'x'}, 4, 200))] * 2
    return show(generate_random_sevpa(4, 2, 2, 2, .3, .5), 'sevpa')


def reach(a):
    """does the automaton accept at least ten different words of up to six letters"""
    al = a.input_alphabet.get_merged_alphabet()
    n = 0
    todo = [()]
    for w in todo:
        a.reset_to_initial()
        for x in w:
            a.step(x)
        if a.error_state_reached:
            continue
        n += len(w) > 1 and bool(a.current_state.is_accepting) and len(a.stack) == 1
        if n >= 10:
            return True
        if len(w) < 6:
            todo += [w + (x,) for x in al]
    return False


def do_tools(rng, idx):
    k = idx % 11
    if k in (0, 1, 2, 3):
        kind = ['dfa', 'moore', 'mealy'][rng.randrange(3)]
        m = permuted(rng, gen_dm(rng, kind, nmax=7, amax=3, alph=rng.choice(ALPH),
                                 styles=['random', 'lock', 'cycle', 'sink', 'tree'])).minimize()
        a = build(m)
        if k == 0:
            cs = a.compute_characterization_set(split_all_blocks=rng.random() < .5, online_suffix_closure=rng.random() < .5,
                                                raise_warning=False)
            a.compute_prefixes()
            return [repr(cs)] + [repr(s.prefix) for s in a.states]
        if k == 1:
            return [repr(x) for x in generate_input_output_data_from_automata(a, 20, 1, 6)] + \
                [repr(x) for x in (get_complete_sample(a) if m.n > 1 else [])] + \
                [repr(x) for x in sample_with_length_limits(a, 5, 1, 5)]
        if k == 2:
            a2 = build(mutate(rng, m, 1))
            a.compute_prefixes()
            a2.compute_prefixes()
            if m.n < 2 or any(s.prefix is None for s in a2.states) or not a2.is_minimal():
                return []
            return [repr(x) for x in compare_automata(a, a2, 5)]
        if m.n < 2:
            return []
        a.compute_prefixes()
        name = rng.choice(['W', 'Wp', 'RandomW', 'RandomWp', 'TransitionFocus', 'KWayState', 'KWayTransition', 'StatePrefix'])
        o, p = orc.make(rng, name, m.A, None, m, m.n)
        return [('config', name, repr(p))] + [repr(x) for x in generate_test_cases(a, o)]
    if k == 4:
        m = gen_sm(rng, 'smm', nmax=4, amax=2, outs='str', alph=rng.choice(ALPH))
        return show(smm_to_mdp_conversion(build_sm(m)), 'mdp')
    if k == 5:
        m = gen_sm(rng, 'mdp', nmax=5, amax=2, outs='str', alph='chr')
        return [mdp_2_prism_format(build_sm(m), 'm')]
    if k == 6:
        rv = structured(rng) if rng.random() < .3 else gen_rv(rng, nmax=4)
        a = build_vpa(rv)
        a.input_alphabet = a.get_input_alphabet()
        return [repr(x) for x in generate_input_output_data_from_vpa(a, 20, 8)] if a.input_alphabet.get_merged_alphabet() else []
    if k == 8:
        rv = gen_rv(rng, nmax=4, single_entry=True)
        C = {g[1] for row in rv.rr for (g, r) in row}
        rv.C = [c for c in rv.C if c in C]
        rv.cc = [{c: v for c, v in row.items() if c in C} for row in rv.cc]
        rv.init = 0
        a = build_sevpa(rv)
        return [repr(sorted(a.get_allowed_call_transitions()))] + show(a, 'sevpa')
    if k == 9:
        m = gen_dm(rng, rng.choice(['dfa', 'moore', 'mealy']), nmax=6, alph='str')
        return [save_automaton_to_file(build(m), 'x', 'string')]
    if k == 10:
        a = generate_random_sevpa(rng.randint(2, 4), 2, 1, 1, .5, .5)
        res = show(a, 'sevpa')
        return res + [repr(a.get_accepting_words_bfs(2, 3))] if reach(a) else res
    m = gen_dm(rng, 'moore', nmax=6, outs='bool', omax=2)
    return show(dfa_from_moore(build(m)), 'dfa')


def one(family, idx, seed):
    rng = random.Random(f'C28|{family}|{idx}|{seed}')
    junk = [object() for _ in range(int(os.environ.get('REPRO_JUNK', '0')) + idx % 7)]
    random.seed(rng.getrandbits(30))
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            log = globals()['do_' + family](rng, idx)
        except StepBudget:
            log = ['budget']
        except Exception as e:
            log = [('exception', type(e).__name__, str(e)[:200])]
    del junk
    return [x if isinstance(x, str) else repr(x) for x in log]


def main():
    import warnings
    warnings.simplefilter('ignore')
    family, first, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    full = len(sys.argv) > 5
    todo = range(first, first + count)
    for i in reversed(todo) if os.environ.get('REPRO_REVERSE') else todo:
        log = one(family, i, seed)
        d = [i, len(log), hashlib.sha256('\n'.join(log).encode()).hexdigest()]
        if full:
            d.append(log)
        elif log and log[0].startswith("('exception'"):
            d.append(log)
        print(json.dumps(d), flush=True)


if __name__ == '__main__':
    main()
