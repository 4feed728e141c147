"""Requests outside the documented options are refused; after a refusal the valid request is answered."""
import contextlib
import copy
import io
import os
import random
import shutil
import tempfile

from aalpy.SULs import TomitaSUL
from aalpy.automata import VpaAlphabet
from aalpy.base import SUL
from aalpy.learning_algs import (run_adaptive_Lsharp, run_Alergia, run_Alergia_EDSM, run_EDSM, run_GSM, run_JAlergia, run_k_tails,
                                 run_KV, run_Lsharp, run_Lstar, run_PAPNI, run_RPNI, run_stochastic_Lstar)
from aalpy.learning_algs.general_passive.GsmNode import GsmNode
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation
from aalpy.learning_algs.stochastic.DifferenceChecker import ChiSquareChecker
from aalpy.oracles import (BreadthFirstExplorationEqOracle, KWayStateCoverageEqOracle, KWayTransitionCoverageEqOracle,
                           RandomWalkEqOracle, RandomWMethodEqOracle, RandomWordEqOracle, StatePrefixEqOracle,
                           WMethodEqOracle)
from aalpy.utils import (bisimilar, convert_i_o_traces_for_RPNI, generate_input_output_data_from_automata,
                         generate_random_deterministic_automata, generate_random_markov_chain, load_automaton_from_file,
                         make_input_complete, save_automaton_to_file)
from aalpy.utils.HelperFunctions import dfa_from_moore, mc_from_mdp
from aalpy.utils.Sampling import get_data_from_input_sequence, get_labeled_sequences, sample_with_length_limits

from ..aal import ExactOracle, RefSUL, build
from ..gen import gen_dm, permuted, word
from ..ref import diff, extract
from ..orc import hyp_of, small
from ..stoch import build_sm, gen_sm
from . import c17
from .c16 import as_input, gen_traces

ID = 'C34'
RULE = ('A case makes one request with one option outside the documented set (or data that contradict the requested kind) and '
        'then the same request with a valid option on the same objects: the first must be refused, as documented before the '
        'system was used, the second answered. Distinct = (function, option, value, setup).')
FLOORS = {'refused': 6000, 'answered': 4000, 'untouched': 2500}

STR = ['x', '', 'None', 'default', 'random', 'auto']


def plan(tier):
    q = tier == 'quick'
    return [('learners', 3000 if q else 20000), ('stochastic', 500 if q else 3000), ('passive', 3000 if q else 20000),
            ('gsm', 2400 if q else 16000), ('oracles', 800 if q else 5000), ('utils', 2400 if q else 16000)]


def bad_string(rng, valid):
    """a string that is no documented option: unrelated, or a documented one slightly misspelled"""
    names = [v for v in valid if isinstance(v, str)]
    while True:
        r = rng.random()
        if r < .3 or not names:
            s = rng.choice(STR)
        else:
            s = rng.choice(names)
            i = rng.randrange(len(s))
            s = rng.choice([s.upper(), s.capitalize(), s + ' ', ' ' + s, s[:-1], s[1:], s[:i] + s[i + 1:], s.replace('_', '-'),
                            s.replace('_', ' '), s + s[-1], s.lower()])
        if s not in valid:
            return s


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


# an error that says so; others (KeyError, AttributeError, ...) are crashes further down
REFUSALS = (AssertionError, ValueError, NotImplementedError, SystemExit)


def refuse(mon, what, option, value, f, wit, sul=None):
    before = (sul.real_resets, sul.real_steps) if sul is not None else None
    try:
        r = quiet(f)
    except REFUSALS:
        pass
    except Exception as e:
        mon.check(type(e) in (Exception, TypeError), 'crash', f'{what} with {option}={value!r} fails with {type(e).__name__}: {e}', **wit)
    else:
        mon.check(False, 'not-refused', f'{what} with {option}={value!r} returned {type(r).__name__}', **wit)
    mon.ev('refused')
    if before is not None:
        mon.check((sul.real_resets, sul.real_steps) == before, 'used', f'{what} with {option}={value!r} was refused after '
                  f'{sul.real_resets} resets and {sul.real_steps} steps of the system', **wit)
        mon.ev('untouched')


# ------------------------------------------------------------------------ learners

KINDS = ['dfa', 'moore', 'mealy']
CEX_LS = [None, 'longest_prefix', 'rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
LEVELS = [0, 1, 2, 3]
OPTIONS = {
    'run_Lstar': dict(automaton_type=KINDS, cex_processing=CEX_LS, print_level=LEVELS,
                      closing_strategy=['shortest_first', 'longest_first', 'single', 'single_longest']),
    'run_KV': dict(automaton_type=KINDS + ['vpa'], cex_processing=CEX_LS[2:], print_level=LEVELS),
    'run_Lsharp': dict(automaton_type=KINDS, extension_rule=[None, 'SepSeq', 'ADS'], separation_rule=['SepSeq', 'ADS']),
    'run_adaptive_Lsharp': dict(automaton_type=KINDS, extension_rule=[None, 'SepSeq', 'ADS'], separation_rule=['SepSeq', 'ADS'],
                                state_matching=[None, 'Total', 'Approximate'], references=[]),
}
LEARNERS = dict(run_Lstar=run_Lstar, run_KV=run_KV, run_Lsharp=run_Lsharp, run_adaptive_Lsharp=run_adaptive_Lsharp)


def learners(rng, mon):
    name = rng.choice(list(LEARNERS))
    option = rng.choice(list(OPTIONS[name]))
    valid = OPTIONS[name][option]
    if option == 'print_level':
        bad = rng.choice([-1, 4, 7, '2', 1.5])
    elif option == 'references':
        bad = None
    else:
        bad = bad_string(rng, valid) if None in valid or rng.random() < .8 else None
        if name == 'run_KV' and option == 'automaton_type' and rng.random() < .2:
            bad = 'vpa'     # needs another alphabet
        elif name != 'run_KV' and option == 'automaton_type' and rng.random() < .2:
            bad = rng.choice(['vpa', 'mdp', 'onfsm', 'smm'])
    k = rng.choice(KINDS)
    m = permuted(rng, gen_dm(rng, k, nmax=6, amax=3))
    sul = RefSUL(m)
    A = list(m.A)
    ca = rng.random() < .5
    kw = dict(automaton_type=k, print_level=0, cache_and_non_det_check=ca)
    f = LEARNERS[name]
    for o, vs in OPTIONS[name].items():
        if o not in ('automaton_type', 'print_level', 'references'):
            kw[o] = rng.choice(vs)
    if name == 'run_adaptive_Lsharp':
        refs = [build(permuted(rng, gen_dm(rng, k, nmax=4, amax=3))) for _ in range(rng.randint(0, 2))]
        kw['rebuilding'] = True
        if rng.random() < .25:
            option, bad = 'rebuilding', False
            kw['state_matching'] = None

    def call(**over):
        p = dict(kw)
        p.update(over)
        eq = ExactOracle(m, sul, rng, max_rounds=4 * m.n + 20)
        if name == 'run_adaptive_Lsharp':
            r = p.pop('references', refs)
            return f(A, sul, r, eq, **p)
        return f(A, sul, eq, **p)

    wit = dict(learner=name, options={a: repr(b) for a, b in kw.items()}, target=m.describe())
    late = (name, option) == ('run_Lstar', 'closing_strategy')      # seen by the table, after the first queries
    refuse(mon, name, option, bad, lambda: call(**{option: bad}), wit, None if late else sul)
    r = quiet(call)
    mon.check(diff(m, extract(r, k, None, 'model'), m.A) is None, 'not-answered', f'{name} after a refusal: wrong model', **wit)
    mon.ev('answered')
    mon.seen(name, option, repr(bad), wit)
    mon.sample(function=name, option=option, refused=repr(bad))


class CountedSUL(SUL):
    def __init__(self, m, rng):
        super().__init__()
        self.m, self.rng = m, rng
        self.real_resets = self.real_steps = 0

    def pre(self):
        self.s = self.m.init
        self.real_resets += 1

    def post(self):
        pass

    def step(self, a):
        if a is None:
            return self.m.so[self.s]
        self.real_steps += 1
        l = self.m.t[self.s][a]
        o, self.s, _ = self.rng.choices(l, [e[2] for e in l])[0]
        return o


def stochastic(rng, mon):
    k = rng.choice(['mdp', 'smm'])
    m = gen_sm(rng, k, nmax=3, amax=2)
    sul = CountedSUL(m, rng)
    opts = dict(automaton_type=['mdp', 'smm'], strategy=['normal', 'classic', 'chi2'], samples_cex_strategy=[None, 'bfs', 'random:20:0.3'],
                cex_processing=[None, 'longest_prefix', 'rs'], stopping_range_dict=['strict', 'relaxed'],
                property_based_stopping=[None], eq_oracle=[], min_rounds=[], alpha=[])
    option = rng.choice(list(opts))
    valid = opts[option]
    wit = dict(kind_=k, option=option, target=m.describe())
    eq = RandomWordEqOracle if rng.random() < .5 else RandomWalkEqOracle

    def call(**over):
        p = dict(automaton_type=k, min_rounds=1, max_rounds=2, n_c=4, n_resample=20, print_level=0)
        p.update(over)
        e = p.pop('eq_oracle', None) or eq
        return run_stochastic_Lstar(list(m.A), sul, e(list(m.A), sul), **p)

    if option == 'alpha':
        a = rng.choice([.1, .5, .04, 0, 1, 2, -.05, .0001])
        refuse(mon, 'ChiSquareChecker', 'alpha', a, lambda: ChiSquareChecker(a), wit)
        a = rng.choice([.01, .001, .05])
        mon.check(ChiSquareChecker(a).alpha == a, 'not-answered', f'alpha {a}', **wit)
        mon.ev('answered')
        mon.seen('alpha', a)
        return
    late = False
    if option == 'eq_oracle':
        bad = rng.choice([lambda A, s: WMethodEqOracle(A, s, 4), lambda A, s: StatePrefixEqOracle(A, s),
                          lambda A, s: BreadthFirstExplorationEqOracle(A, s, 3), lambda A, s: RandomWMethodEqOracle(A, s),
                          lambda A, s: KWayStateCoverageEqOracle(A, s)])
        over = dict(eq_oracle=bad)
    elif option == 'min_rounds':
        bad, late = rng.randint(3, 9), True
        over = dict(min_rounds=bad)
    elif option == 'property_based_stopping':
        bad = rng.choice([('a',), ('a', 'b'), ('a', 'b', 'c', 'd')])
        over = dict(property_based_stopping=bad)
    else:
        bad = bad_string(rng, valid) if option in ('samples_cex_strategy', 'cex_processing') or rng.random() < .85 else None
        if option == 'samples_cex_strategy' and bad.startswith('random'):
            bad = 'dfs'
        over = {option: bad}
    refuse(mon, 'run_stochastic_Lstar', option, bad if option != 'eq_oracle' else type(bad(list(m.A), sul)).__name__, lambda: call(**over), wit,
           None if late else sul)
    r = quiet(call)
    mon.check(type(r).__name__ == ('Mdp' if k == 'mdp' else 'StochasticMealyMachine'), 'not-answered', type(r).__name__, **wit)
    mon.ev('answered')
    mon.seen('stochastic', option, repr(bad) if option != 'eq_oracle' else '', wit)


# ------------------------------------------------------------------------ passive learning

COMPL = [None, 'sink_state', 'self_loop']


def passive(rng, mon):
    name = rng.choice(['run_RPNI', 'run_RPNI', 'run_EDSM', 'run_PAPNI', 'run_k_tails', 'run_Alergia', 'run_Alergia', 'run_Alergia_EDSM',
                       'run_JAlergia'])
    k = rng.choice(KINDS)
    if name in ('run_RPNI', 'run_EDSM'):
        m = gen_dm(rng, k, nmax=4, amax=2)
        data = []
        for _ in range(rng.randint(1, 25)):
            w = word(rng, m.A, 0 if k != 'mealy' else 1, 6)
            s, o = m.init, m.so[m.init] if k != 'mealy' else None
            for a in w:
                o, s = m.out(s, a), m.d[s][a]
            data.append((tuple(w), o))
        opts = dict(automaton_type=KINDS, input_completeness=COMPL)
        kw = dict(automaton_type=k, input_completeness=rng.choice(COMPL) if k != 'moore' else None, print_info=False)
        f = run_RPNI if name == 'run_RPNI' else run_EDSM
        if name == 'run_RPNI':
            opts['algorithm'] = ['gsm', 'classic']
            kw['algorithm'] = rng.choice(opts['algorithm'])
    elif name == 'run_PAPNI':
        al = VpaAlphabet(internal_alphabet=['i'], call_alphabet=['c'], return_alphabet=['r'])
        data = [(('c', 'r'), True), (('c', 'i', 'r'), True), (('i',), False), ((), False)][:rng.randint(1, 4)]
        opts = dict(algorithm=['gsm', 'classic', 'edsm'])
        kw = dict(vpa_alphabet=al, algorithm=rng.choice(opts['algorithm']), print_info=False)
        f = run_PAPNI
    elif name == 'run_k_tails':
        ob = rng.choice(['moore', 'mealy'])
        m, A, out0, tr, _ = gen_traces(rng, ob, nmax=3)
        data = as_input(tr, ob, out0)
        opts = dict(automaton_type=['mealy', 'moore'], input_completeness=COMPL)
        kw = dict(automaton_type=ob, k=rng.randint(0, 3), input_completeness=None, print_info=False)
        f = run_k_tails
    else:
        k = rng.choice(['mdp', 'smm', 'mc'])
        m = c17.machine(rng, k)
        data = c17.as_input(m, c17.traces(rng, m))
        opts = dict(automaton_type=['mdp', 'smm', 'mc'])
        kw = dict(automaton_type=k, print_info=False)
        f = run_Alergia if name == 'run_Alergia' else run_Alergia_EDSM
        if name == 'run_Alergia':
            opts['eps'] = [.05, 'auto']
            if k != 'smm':
                opts['data'] = []
            kw['eps'] = rng.choice(opts['eps'])
        if name == 'run_JAlergia':
            t = bad_string(rng, opts['automaton_type'])
            d = tempfile.mkdtemp(prefix='vmon_c34_')
            try:
                refuse(mon, name, 'automaton_type', t, lambda: run_JAlergia(data, t, os.path.join(d, 'no.jar')), dict(data=data[:10]))
                mon.check(os.listdir(d) == [], 'used', f'files were written: {os.listdir(d)}')
            finally:
                shutil.rmtree(d)
            mon.seen(name, t)
            return
    option = rng.choice(list(opts))
    wit = dict(algorithm=name, settings={a: repr(b) for a, b in kw.items()}, data=data[:20])
    keep = repr(data)
    if option == 'eps':
        bad = rng.choice([0, -1, 2.0001, 3, -.05, bad_string(rng, ['auto']), None])
    elif option == 'data':
        other = [list(t) for t in data] + [[('another', 'output')] + list(data[0][1:])]
        i = rng.randrange(len(other))
        other = other[i:] + other[:i]
        if len(other) > 1:
            refuse(mon, name, 'data', 'different initial outputs', lambda: f(other, **kw), dict(wit, data=other[:20]))
        bad = None
    else:
        bad = bad_string(rng, opts[option])
        if option == 'automaton_type' and rng.random() < .3:
            bad = rng.choice([x for x in KINDS + ['mdp', 'smm', 'mc', 'vpa', 'onfsm'] if x not in opts[option]])
    if option != 'data':
        refuse(mon, name, option, bad, lambda: f(data, **{**kw, option: bad}), wit)
    mon.check(repr(data) == keep, 'data-changed', 'a refused request changed the data', **wit)
    r = quiet(lambda: f(copy.deepcopy(data), **kw))
    mon.check(r is not None, 'not-answered', f'{name} after a refusal', **wit)
    mon.ev('answered')
    mon.seen(name, option, repr(bad), wit)
    mon.sample(function=name, option=option, refused=repr(bad))


def gsm(rng, mon):
    ob = rng.choice(['moore', 'mealy'])
    what = rng.choice(['option', 'option', 'nondet', 'score', 'labels', 'contradiction', 'tree', 'convert'])
    det = what in ('contradiction', 'convert') and rng.random() < .5
    m, A, out0, tr, _ = gen_traces(rng, ob, nmax=4, det=det)
    data = as_input(tr, ob, out0)
    wit = dict(output=ob, data=data[:20])
    kw = dict(output_behavior=ob, transition_behavior='stochastic', data_format='io_traces')
    if what == 'option':
        o = rng.choice(['output_behavior', 'transition_behavior', 'data_format'])
        valid = dict(output_behavior=['moore', 'mealy'], transition_behavior=['deterministic', 'nondeterministic', 'stochastic'],
                     data_format=['io_traces', 'labeled_sequences', 'traces', 'tree'])[o]
        bad = bad_string(rng, valid)
        if o == 'data_format' and bad is None:
            return
        refuse(mon, 'run_GSM', o, bad, lambda: run_GSM(data, **{**kw, o: bad}), wit)
    elif what == 'nondet':
        # two continuations of one prefix by one input with different outputs
        seen, clash = {}, False
        for t in tr:
            for i, (a, o) in enumerate(t):
                clash |= seen.setdefault((tuple(t[:i]), a), o) != o
        if not clash:
            return
        refuse(mon, 'run_GSM', 'transition_behavior', 'deterministic', lambda: run_GSM(data, **{**kw, 'transition_behavior': 'deterministic'}),
               wit)
    elif what == 'score':
        refuse(mon, 'run_GSM', 'score_calc', None, lambda: run_GSM(data, **{**kw, 'transition_behavior': 'nondeterministic'}), wit)
    elif what == 'labels':
        lab = [(tuple(a for a, _ in t), t[-1][1]) for t in tr if t]
        tb = rng.choice(['nondeterministic', 'stochastic'])
        if not lab:
            return
        fmt = 'labeled_sequences'
        refuse(mon, 'run_GSM', 'data_format', fmt, lambda: run_GSM(lab, output_behavior=ob, transition_behavior=tb, data_format=fmt,
                                                                     score_calc=ScoreCalculation(lambda a, b: True)), dict(wit, data=lab[:20]))
    elif what == 'contradiction':
        if not det:
            return
        lab = [(tuple(a for a, _ in t[:i]), t[i - 1][1]) for t in tr for i in range(1, len(t) + 1)]
        if ob == 'moore':
            lab.append(((), out0))
        if not lab:
            return
        rng.shuffle(lab)
        ok = quiet(lambda: run_GSM(list(lab), output_behavior=ob, transition_behavior='deterministic', data_format='labeled_sequences'))
        mon.check(ok is not None, 'not-answered', 'consistent samples', **wit)
        mon.ev('answered')
        w, l = rng.choice(lab)
        lab.insert(rng.randint(0, len(lab)), (w, ('another', 'label')))
        refuse(mon, 'run_GSM', 'data', f'{w} with two labels', lambda: run_GSM(lab, output_behavior=ob, transition_behavior='deterministic',
               data_format='labeled_sequences'), dict(wit, data=lab[:20]))
    elif what == 'tree':
        root = quiet(lambda: run_GSM(data, convert=False, score_calc=ScoreCalculation(lambda a, b: True), **kw))
        if root.is_tree():
            return
        refuse(mon, 'run_GSM', 'data', 'a graph that is no tree', lambda: run_GSM(root, **{**kw, 'data_format': 'tree'}), wit)
        refuse(mon, 'createPTA', 'data', 'a graph that is no tree', lambda: GsmNode.createPTA(root, ob, 'tree'), wit)
    else:
        root = GsmNode.createPTA([list(t) for t in data], ob, 'io_traces')
        d = all(len(t) <= 1 for n in root.get_all_nodes() for t in n.transitions.values())
        if not d:
            refuse(mon, 'to_automaton', 'transition_behavior', 'deterministic', lambda: root.to_automaton(ob, 'deterministic'), wit)
        else:
            mon.check(root.to_automaton(ob, 'deterministic') is not None, 'not-answered', 'deterministic tree', **wit)
            mon.ev('answered')
        if ob == 'mealy':
            merged = quiet(lambda: run_GSM([list(t) for t in data], convert=False, score_calc=ScoreCalculation(lambda a, b: True), **kw))
            into = {}
            for n in merged.get_all_nodes():
                for t in n.transitions.values():
                    for o, i in t.items():
                        into.setdefault(id(i.target), set()).add(repr(o))
            if any(len(v) > 1 for v in into.values()):
                refuse(mon, 'to_automaton', 'output_behavior', 'moore', lambda: merged.to_automaton('moore', 'stochastic'), wit)
    r = quiet(lambda: run_GSM([list(t) for t in data], **kw))
    mon.check(r is not None, 'not-answered', 'valid request', **wit)
    mon.ev('answered')
    mon.seen('gsm', what, wit)


# ------------------------------------------------------------------------ oracles, utilities

def oracles(rng, mon):
    k = rng.choice(KINDS)
    m, hyp = hyp_of(rng, small(rng, k, nmax=4, amax=2))
    sul = RefSUL(m)
    A = list(m.A)
    o = rng.choice(['states', 'transitions'])
    if o == 'states':
        cls, opts = KWayStateCoverageEqOracle, dict(k=[2, 3], method=['combinations', 'permutations'])
    else:
        cls, opts = KWayTransitionCoverageEqOracle, dict(k=[2, 3], method=['random', 'prefix'], optimize=['steps', 'queries'])
    option = rng.choice(list(opts))
    bad = rng.choice([1, 0, -1, -3]) if option == 'k' else bad_string(rng, opts[option])
    wit = dict(oracle=cls.__name__, target=m.describe())
    refuse(mon, cls.__name__, option, bad, lambda: cls(A, sul, **{option: bad}), wit, sul)
    for v in opts[option]:
        e = cls(A, sul, **{option: v})
        mon.check(e.find_cex(hyp) is None, 'not-answered', f'{option}={v!r}: a counterexample to the system itself', **wit)
        mon.ev('answered')
    mon.seen(cls.__name__, option, repr(bad), wit)


def utils(rng, mon):
    k = rng.choice(KINDS)
    m = gen_dm(rng, k, nmax=5, amax=3, nmin=2, alph=rng.choice(['str', 'int', 'chr']), outs='str')
    a = build(m)
    wit = dict(kind_=k, target=m.describe())
    before = extract(a, k).describe()
    u = rng.choice(['complete', 'save', 'load', 'random', 'data', 'sequences', 'convert', 'mc', 'bisim', 'moore', 'mdp', 'outputs', 'empty',
                    'tomita', 'input'])
    if u == 'complete':
        bad = bad_string(rng, COMPL)
        refuse(mon, 'make_input_complete', 'missing_transition_go_to', bad, lambda: make_input_complete(a, bad), wit)
        refuse(mon, 'make_input_complete', 'missing_transition_go_to', bad, lambda: a.make_input_complete(bad), wit)
    elif u in ('save', 'load'):
        d = tempfile.mkdtemp(prefix='vmon_c34_')
        try:
            p = os.path.join(d, 'm')
            types = ['dot', 'png', 'svg', 'pdf', 'string']
            if u == 'save':
                bad = rng.choice(['x', '', 'jpg', 'dott', 'pn', 'txt', 'do t', 'json', 'ps'])
                refuse(mon, 'save_automaton_to_file', 'file_type', bad, lambda: save_automaton_to_file(a, p, bad), wit)
                mon.check(os.listdir(d) == [], 'used', f'files were written: {os.listdir(d)}', **wit)
            else:
                names = ['dfa', 'moore', 'mealy', 'mdp', 'smm', 'mc', 'onfsm', 'ndmoore', 'sevpa', 'vpa']
                save_automaton_to_file(a, p, 'dot')
                bad = bad_string(rng, names)
                refuse(mon, 'load_automaton_from_file', 'automaton_type', bad, lambda: load_automaton_from_file(p + '.dot', bad), wit)
        finally:
            shutil.rmtree(d)
    elif u == 'random':
        bad = bad_string(rng, KINDS) if rng.random() < .7 else rng.choice(['mdp', 'smm', 'mc', 'onfsm', 'vpa', 'sevpa'])
        refuse(mon, 'generate_random_deterministic_automata', 'automaton_type', bad,
               lambda: generate_random_deterministic_automata(bad, 3, 2, 2), wit)
    elif u == 'data':
        bad = bad_string(rng, ['io_traces', 'labeled_sequences'])
        refuse(mon, 'generate_input_output_data_from_automata', 'sequance_type', bad,
               lambda: generate_input_output_data_from_automata(a, 5, 1, 3, bad), wit)
    elif u == 'sequences':
        bad = bad_string(rng, ['io_sequences', 'labeled_sequences'])
        refuse(mon, 'get_data_from_input_sequence', 'data_format', bad,
               lambda: get_data_from_input_sequence(a, [list(m.A)], bad), wit)
    elif u == 'convert':
        bad = bad_string(rng, KINDS)
        refuse(mon, 'convert_i_o_traces_for_RPNI', 'automaton_type', bad,
               lambda: convert_i_o_traces_for_RPNI([[('a', 1)]], automaton_type=bad), wit)
    elif u == 'mc':
        bad = rng.choice([0, 1, 2, -1])
        refuse(mon, 'generate_random_markov_chain', 'num_states', bad, lambda: generate_random_markov_chain(bad), wit)
    elif u == 'bisim':
        k2 = rng.choice([x for x in KINDS if x != k])
        b = build(gen_dm(rng, k2, nmax=3, amax=2))
        refuse(mon, 'bisimilar', 'a2', k2, lambda: bisimilar(a, b), wit)
    elif u == 'moore':
        mm = gen_dm(rng, 'moore', nmax=4, amax=2, outs='str')
        if all(o in (True, False, None) for o in mm.so):
            return
        refuse(mon, 'dfa_from_moore', 'moore_model', 'other outputs', lambda: dfa_from_moore(build(mm)), dict(target=mm.describe()))
    elif u == 'mdp':
        sm = gen_sm(rng, 'mdp', nmax=3, amax=3)
        if len(sm.A) < 2:
            return
        refuse(mon, 'mc_from_mdp', 'input_symbol', None, lambda: mc_from_mdp(build_sm(sm)), dict(target=sm.describe()))
        x = rng.choice(sm.A)
        if x is not None:
            mon.check(mc_from_mdp(build_sm(sm), x) is not None, 'not-answered', 'mc_from_mdp')
            mon.ev('answered')
    elif u == 'outputs':
        refuse(mon, 'sample_with_length_limits', 'include_outputs', True,
               lambda: sample_with_length_limits(list(m.A), 3, 1, 3, include_outputs=True), wit)
        mon.check(len(sample_with_length_limits(a, 3, 1, 3, include_outputs=True)) == 3, 'not-answered', 'sample with outputs', **wit)
        mon.ev('answered')
    elif u == 'empty':
        if k != 'mealy':
            return
        ws = [word(rng, m.A, 1, 3) for _ in range(rng.randint(0, 3))]
        ws.insert(rng.randint(0, len(ws)), [])
        refuse(mon, 'get_labeled_sequences', 'input_traces', ws, lambda: get_labeled_sequences(a, ws), wit)
    elif u == 'tomita':
        bad = rng.choice([0, 8, -1, 100])
        refuse(mon, 'TomitaSUL', 'tomita_level_fun', bad, lambda: TomitaSUL(bad), {})
        mon.check(TomitaSUL(rng.randint(1, 7)) is not None, 'not-answered', 'TomitaSUL')
        mon.ev('answered')
    else:
        bad = rng.choice([x for x in ('no such input', 99, ('q', 1)) if x not in m.A])
        a.reset_to_initial()
        try:
            r = a.step(bad)
        except KeyError:
            mon.ev('refused')
        else:
            mon.check(False, 'not-refused', f'step({bad!r}) outside the alphabet returned {r!r}', **wit)
        mon.check(a.current_state is a.initial_state, 'used', 'the refused input moved the automaton', **wit)
    mon.check(extract(a, k).describe() == before, 'changed', f'a refused request changed the automaton ({u})', **wit)
    mon.seen('utils', u, wit)


def run(family, idx, rng, mon):
    random.seed(rng.getrandbits(32))
    globals()[family](rng, mon)
