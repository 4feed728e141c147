"""Reporting does not change what is learned, and what is reported is true."""
import ast
import builtins
import contextlib
import io
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import webbrowser

from aalpy import run_Lstar
from aalpy.learning_algs import run_GSM
from aalpy.learning_algs.general_passive.GeneralizedStateMerging import Instrumentation
from aalpy.learning_algs.general_passive.GsmNode import GsmNode, TransitionInfo
from aalpy.learning_algs.general_passive.Instrumentation import MergeViolationDebugger, ProgressReport
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import EDSM_score, ScoreCalculation, hoeffding_compatibility
from aalpy.oracles import UserInputEqOracle

from .. import repro
from ..aal import ExactOracle, RefSUL, build
from ..core import Skip, StepBudget
from ..gen import gen_dm, mutate, permuted, word
from ..ref import DM, same
from ..stoch import SM
from .c16 import as_input, gen_traces

ID = 'C31'
RULE = ('A case runs a learner without reports and again with them, on the same seed, and compares queries, results and statistics; '
        'the printed numbers are compared with what the harness counted, the log of the merge debugger with the ground truth, '
        'and the course of the interactive oracle with the typed dialogue. Distinct = (experiment, level).')
FLOORS = {'pairs': 1500, 'pairs_det': 500, 'pairs_passive': 500, 'without_statistics': 300, 'gsm_runs': 800, 'debugged_runs': 800, 'wrong_merges': 300,
          'wrong_promotions': 50, 'dialogues': 800, 'dialogue_inputs': 8000, 'table_cells': 5000}

ACTIVE = {'lstar': 'run_Lstar', 'kv': 'run_KV', 'lsharp': 'run_Lsharp', 'adaptive': 'run_adaptive_Lsharp', 'vpa': 'run_KV',
          'stochastic': 'run_stochastic_Lstar', 'onfsm': 'run_non_det_Lstar run_abstracted_ONFSM_Lstar'}
PASSIVE = {'rpni': 'run_RPNI run_EDSM run_active_RPNI', 'papni': 'run_PAPNI',
           'alergia': 'run_Alergia run_Alergia_EDSM run_active_Alergia', 'gsm': 'run_k_tails run_GSM'}


def plan(tier):
    q = tier == 'quick'
    return [('levels', 2800 if q else 20000), ('gsm', 1600 if q else 12000), ('debug', 2000 if q else 15000),
            ('table', 900 if q else 6000), ('user', 2000 if q else 12000)]


@contextlib.contextmanager
def scratch():
    d, old = tempfile.mkdtemp(prefix='vmon_c31_'), os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------ levels

class Report:
    """stands in for the learners of the experiments: same call, another level of reporting"""

    def __init__(self, names, bare=None, **over):
        self.names, self.over = names, over
        self.bare, self.wrong = bare, []      # statistics of the silent run, if this run is not to ask for them
        self.text, self.infos, self.asked, self.old = [], [], [], {}

    def __enter__(self):
        for n in self.names:
            f = getattr(repro, n)
            self.old[n] = f
            setattr(repro, n, lambda *a, _f=f, **kw: self.call(_f, a, kw))
        return self

    def __exit__(self, *e):
        for n, f in self.old.items():
            setattr(repro, n, f)

    def call(self, f, args, kw):
        for k, v in self.over.items():
            kw[k] = v() if callable(v) else v
        for o in args:
            if hasattr(o, 'find_cex'):
                self.spy(o)
        bare = self.bare is not None and kw.get('return_data') and len(self.infos) < len(self.bare)
        if bare:
            del kw['return_data']
        with contextlib.redirect_stdout(io.StringIO()) as out:
            try:
                r = f(*args, **kw)
            finally:
                self.text.append(out.getvalue())
        if bare:
            if isinstance(r, tuple):
                self.wrong.append(r)
                r = r[0]
            r = (r, self.bare[len(self.infos)])
            self.infos.append(r[1])
        elif kw.get('return_data'):
            self.infos.append(r[1])
        return r

    def spy(self, oracle):
        real = oracle.find_cex

        def find_cex(h):
            rec = [len(h.states), None]
            self.asked.append(rec)
            rec[1] = real(h)
            return rec[1]
        oracle.find_cex = find_cex


NUMBERS = {'Learning Rounds': ['learning_rounds'], 'Number of states': ['automaton_size'],
           '# MQ Saved by Caching': ['cache_saved'], '# Membership Queries': ['queries_learning', 'queries_eq_oracle'],
           '# Steps': ['steps_learning', 'steps_eq_oracle'], '# Found by Rebuilding': ['rebuild_states']}


def subsequence(xs, ys):
    it = iter(ys)
    return all(any(x == y for y in it) for x in xs)


def do_levels(rng, mon, idx):
    fams = list(ACTIVE) + list(PASSIVE)
    fam = fams[idx % len(fams)]
    seed, i = rng.getrandbits(30), rng.randrange(10 ** 6)
    if fam in ACTIVE:
        names, lo, hi = ACTIVE[fam].split(), dict(print_level=0), dict(print_level=rng.choice([1, 2, 3, 3]))
        if hi['print_level'] == 3 and fam in ('kv', 'vpa') and rng.random() > .2:
            hi['print_level'] = 2       # level 3 draws the classification tree with graphviz
    else:
        names, lo, hi = PASSIVE[fam].split(), dict(print_info=False), dict(print_info=True)
        if fam == 'gsm':
            names = ['run_GSM'] if rng.random() < .7 else ['run_k_tails']
            if names == ['run_GSM']:
                lvl = rng.choice([1, 2])
                lo, hi = dict(instrumentation=None), dict(instrumentation=lambda: ProgressReport(lvl))
    wit = dict(family=fam, idx=i, seed=seed, reports={k: getattr(v, '__name__', v) for k, v in hi.items()})
    with scratch():
        with Report(names, **lo) as off:
            a = repro.one(fam, i, seed)
        bare = fam in ACTIVE and rng.random() < .4
        if bare:
            wit['return_data'] = False
            mon.ev('without_statistics')
        with Report(names, off.infos if bare else None, **hi) as on:
            b = repro.one(fam, i, seed)
    if a == ['budget']:
        raise Skip('the experiment exceeds its query budget')
    if a[:1] and a[0].startswith("('exception'"):
        mon.check(b == a, 'changed', f'without reports the run raises {a[0]}, with reports {b[:1]}', **wit)
        raise Skip('the experiment raises')
    mon.check(not on.wrong, 'statistics', f'statistics were not asked for, returned: {on.wrong[:1]}', **wit)
    d = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    mon.check(a == b, 'changed', f'the run with reports differs from the run without at entry {d}: {b[d:d + 2]}, without reports '
                                 f'{a[d:d + 2]}', **wit)
    if not off.text:
        raise Skip('no learner ran')
    mon.ev('pairs')
    mon.ev('pairs_passive' if fam in PASSIVE else 'pairs_det' if fam in ('lstar', 'kv', 'lsharp', 'adaptive') else 'pairs_other')
    loud = [l for t in off.text for l in t.splitlines() if l.strip() and not re.match(r'Warning', l.strip())]
    if lo.get('print_level') == 0:
        mon.check(not loud, 'not-silent', f'printed although the print level is 0: {loud[:3]}', **wit)
    if fam in ACTIVE:
        check_numbers(mon, on, hi['print_level'], fam, wit)
    mon.seen(fam, i, seed, str(wit['reports']))
    mon.sample(**wit, printed=on.text[0][-300:] if on.text else '')


def check_numbers(mon, on, level, fam, wit):
    for text, inf in zip(on.text, on.infos):
        got = {}
        for l in text.split('Learning Finished', 1)[-1].splitlines():
            k, _, v = l.partition(':')
            if k.strip() in NUMBERS and re.fullmatch(r'-?\d+', v.strip()):
                got.setdefault(k.strip(), []).append(int(v))
        for k, vs in got.items():
            for name, v in zip(NUMBERS[k], vs):
                if name in inf:
                    mon.ev('numbers')
                    mon.check(v == inf[name], 'printed', f'{k} printed as {v}, the returned information has {name} = {inf[name]}',
                              **wit)
        if level < 2:
            continue
        sizes = [(int(x), int(y)) for x, y in re.findall(r'Hypothesis:? (\d+)(?::| has) (\d+) states', text)]
        if sizes:
            mon.ev('hypothesis_lines', len(sizes))
            mon.check([x for x, _ in sizes] == sorted({x for x, _ in sizes}), 'printed', f'rounds printed: {sizes}', **wit)
            asked = [n for n, _ in on.asked]
            if fam == 'lstar':
                mon.check([y for _, y in sizes] == asked, 'printed',
                          f'printed hypothesis sizes {sizes}, the oracle was asked about {asked}', **wit)
            elif fam in ('kv', 'vpa'):      # the first hypothesis, with one state, is not announced
                mon.check(subsequence(asked[1:], [y for _, y in sizes]), 'printed',
                          f'printed hypothesis sizes {sizes}, the oracle was asked about {asked}', **wit)
            else:
                mon.check(subsequence(asked, [y for _, y in sizes]), 'printed',
                          f'printed hypothesis sizes {sizes}, the oracle was asked about {asked}', **wit)
        if level == 3 and fam in ('lstar', 'kv', 'lsharp', 'adaptive', 'vpa'):
            shown = re.findall(r'^Counterexample:? (.*)$', text, re.M)
            real = [c for _, c in on.asked if c is not None][fam in ('kv', 'vpa'):]
            if shown:
                mon.ev('cex_lines', len(shown))
                mon.check(subsequence([str(tuple(c)) for c in real], [str(tuple(ast.literal_eval(s))) if s.startswith('[') else s
                                                                     for s in shown]), 'printed',
                          f'printed counterexamples {shown[:6]}, the oracle returned {real[:6]}', **wit)


# ------------------------------------------------------------------------ progress report

class Tee(Instrumentation):
    """passes every event on and records what it was about when it happened"""

    def __init__(self, inner):
        super().__init__()
        self.inner, self.events, self.pta = inner, [], None

    def reset(self, gsm):
        self.inner.reset(gsm)

    def pta_construction_done(self, root):
        self.inner.pta_construction_done(root)

    def log_promote(self, node):
        self.events.append(('promote', list(node.get_prefix())))
        self.inner.log_promote(node)

    def log_merge(self, part):
        self.events.append(('merge', list(part.red.get_prefix()), list(part.blue.get_prefix())))
        self.inner.log_merge(part)

    def learning_done(self, root):
        self.inner.learning_done(root)


def merger(rng, ob, tb):
    kw = dict(output_behavior=ob, transition_behavior=tb, consider_only_min_blue=rng.random() < .3, depth_first=rng.random() < .3)
    k = rng.choice(['default', 'any', 'edsm', 'some'])
    if k == 'edsm':
        kw['score_calc'] = ScoreCalculation(score_function=EDSM_score())
    elif k == 'some':
        kw['score_calc'] = ScoreCalculation(lambda a, b: len(a.transitions) == len(b.transitions))
    elif k == 'any' or tb == 'nondeterministic':
        k = 'any'
        kw['score_calc'] = ScoreCalculation(lambda a, b: True)
    elif tb == 'stochastic':
        kw['score_calc'] = ScoreCalculation(hoeffding_compatibility(rng.choice([.05, .5, 1.5])))
    if tb != 'deterministic':
        kw['compatibility_on_futures'] = rng.random() < .3
    return k, kw


def shape(root):
    """the result as a graph, independent of object identity"""
    ids, todo, res = {id(root): 0}, [root], []
    for n in todo:
        row = []
        for a, t in n.transitions.items():
            for o, i in t.items():
                if id(i.target) not in ids:
                    ids[id(i.target)] = len(ids)
                    todo.append(i.target)
                row.append((repr(a), repr(o), i.count, ids[id(i.target)]))
        res.append((repr(n.prefix_access_pair), row))
    return res


def gsm_case(rng, mon, idx):
    ob = ('moore', 'mealy')[idx % 2]
    tb = ('deterministic', 'stochastic', 'nondeterministic')[idx // 2 % 3]
    m, A, out0, data, truth = gen_traces(rng, ob, det=tb == 'deterministic')
    k, kw = merger(rng, ob, tb)
    inp = as_input(data, ob, out0)
    wit = dict(output=ob, transition=tb, score=k, settings={x: str(v) for x, v in kw.items() if x != 'score_calc'}, data=data[:40])
    return m, A, out0, data, truth, inp, kw, wit


def run_with(inp, kw, ins):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        root = run_GSM([list(t) for t in inp], convert=False, data_format='io_traces', instrumentation=ins, **kw)
    return root, out.getvalue()


def do_gsm(rng, mon, idx):
    m, A, out0, data, truth, inp, kw, wit = gsm_case(rng, mon, idx)
    lvl = 3 if rng.random() < .04 else rng.choice([0, 1, 2, 2])
    wit['level'] = lvl
    plain, _ = run_with(inp, kw, None)
    rep = ProgressReport(lvl)
    tee = Tee(rep)
    with scratch():
        root, text = run_with(inp, kw, tee)
    mon.check(shape(root) == shape(plain), 'changed', 'the result with a progress report differs from the result without', **wit)
    mon.ev('gsm_runs')
    mon.ev('reported_merges', sum(e[0] == 'merge' for e in tee.events))
    log = [(e[0], *map(list, e[1])) for e in rep.log]
    mon.check(log == tee.events, 'log', f'the log of the report is {log[:8]}, the events were {tee.events[:8]}', **wit)
    reds = sum(e[0] == 'promote' for e in tee.events)
    merges = len(tee.events) - reds
    mon.check(rep.nr_red_states == reds and rep.nr_merged_states == merges, 'log',
              f'{rep.nr_red_states} states and {rep.nr_merged_states} merges reported, {reds} and {merges} happened', **wit)
    r = re.search(r'Learned (\d+) state automaton via (\d+) merges', text)
    if r:
        mon.ev('numbers')
        mon.check([int(x) for x in r.groups()] == [len(plain.get_all_nodes()), merges], 'printed',
                  f'{r.group(0)!r}: the result has {len(plain.get_all_nodes())} states after {merges} merges', **wit)
    inner = {tuple(map(repr, t[:i])) for t in data for i in range(len(t))}
    words = {tuple(map(repr, t[:i])) for t in data for i in range(len(t) + 1)} | {()}
    leaves = [len(w) for w in words if w not in inner]
    if lvl >= 2:
        r = re.search(r'PTA has (\d+) states leading to (\d+) leafs', text)
        if r:
            mon.ev('numbers')
            mon.check([int(x) for x in r.groups()] == [len(words), len(leaves)], 'printed',
                      f'{r.group(0)!r}: the data have {len(words)} prefixes, {len(leaves)} of them maximal', **wit)
        r = re.search(r'min / avg / max depth : (\S+) / (\S+) / (\S+)', text)
        if r and leaves:
            exp = (min(leaves), sum(leaves) / len(leaves), max(leaves))
            mon.ev('numbers')
            mon.check(all(abs(float(x) - y) < 1e-6 for x, y in zip(r.groups(), exp)), 'printed', f'{r.group(0)!r} for {exp}', **wit)
        left = [int(x) for x in re.findall(r'Remaining: (-?\d+)', text)]
        if left:
            mon.check(min(left) >= 0 and left[-1] == 0 and left == sorted(left, reverse=True), 'printed',
                      f'remaining states were reported as {left[:20]}, finally {left[-1]}', **wit)
    mon.seen('gsm', wit)


# ------------------------------------------------------------------------ merge debugger

def truth_nodes(m, out0, det):
    """the ground truth as the node graph the debugger takes; (root, state -> node)"""
    def succ(s):
        for a in m.A:
            if det:
                if a not in m.d[s]:
                    continue
                yield a, m.out(s, a), m.d[s][a]
            else:
                for o, t, _ in m.t[s].get(a, []):
                    yield a, o, t
    node = {m.init: GsmNode((None, out0), None)}
    todo = [m.init]
    for s in todo:
        for a, o, t in succ(s):
            if t not in node:
                node[t] = GsmNode((a, o), node[s])
                todo.append(t)
            node[s].transitions[a][o] = TransitionInfo(node[t], 1, None, 0)
    return node[m.init], node


def do_debug(rng, mon, idx):
    m, A, out0, data, truth, inp, kw, wit = gsm_case(rng, mon, idx)
    det = kw['transition_behavior'] == 'deterministic'
    if det:
        m = m.minimize()
    if rng.random() < .3:
        # nothing is known about what comes after some states
        dead = set(rng.sample(range(m.n), rng.randint(1, max(1, m.n - 1)))) - {m.init}
        if det:
            m = DM(m.kind, m.A, [{} if s in dead else r for s, r in enumerate(m.d)], m.so, m.eo, m.init)
        else:
            m = SM(m.kind, m.A, [{} if s in dead else r for s, r in enumerate(m.t)], m.so, m.init)
        mon.ev('partial_truths')
    gt, nodes = truth_nodes(m, out0, det)
    plain, _ = run_with(inp, kw, None)
    dbg = MergeViolationDebugger(gt)
    tee = Tee(dbg)
    for _ in range(2 if rng.random() < .2 else 1):      # a debugger serves several runs
        tee.events.clear()
        root, text = run_with(inp, kw, tee)
        mon.check(shape(root) == shape(plain), 'changed', 'the result with a debugger differs from the result without', **wit)
        exp, rep = [], set()

        def state(p):
            s = m.init
            for a, o in p:
                e = ([(m.out(s, a), m.d[s][a])] if a in m.d[s] else []) if det else [(x, t) for x, t, _ in m.t[s].get(a, [])]
                s = next((t for x, t in e if same(x, o)), None)
                if s is None:
                    return None
            return s
        for e in tee.events:
            ss = [state(p) for p in e[1:]]
            if None in ss:
                exp.append('broken ' + e[0])
            elif e[0] == 'promote':
                exp.append('wrong promote' if ss[0] in rep else 'promote')
                rep.add(ss[0])
            else:
                exp.append('merge' if ss[0] == ss[1] else 'wrong merge')
        mon.check([(e[0], *map(list, e[1:])) for e in dbg.log] == [(x, *e[1:]) for x, e in zip(exp, tee.events)], 'debugger',
                  f'the debugger logged {dbg.log[:8]}, the ground truth says {exp[:8]}', **wit)
        mon.ev('debugged_runs')
        mon.ev('wrong_merges', exp.count('wrong merge'))
        mon.ev('wrong_promotions', exp.count('wrong promote'))
        mon.ev('broken_events', exp.count('broken merge') + exp.count('broken promote'))
        mon.ev('right_merges', exp.count('merge'))
    mon.seen('debug', wit)
    mon.sample(events=len(exp), verdicts=exp[:10], settings=wit['settings'])


# ------------------------------------------------------------------------ observation table

def do_table(rng, mon, idx):
    kind = ('dfa', 'moore', 'mealy')[idx % 3]
    t = gen_dm(rng, kind, nmax=6, amax=3, alph=rng.choice(['chr', 'int']), outs=rng.choice(['str', 'int', 'bool', 'mixed']))
    t = t.minimize()
    sul = RefSUL(t)
    eq = ExactOracle(t, sul, rng, rng.choice(['short', 'random', 'long']))
    wit = dict(target=t.describe())
    with contextlib.redirect_stdout(io.StringIO()) as out:
        run_Lstar(list(t.A), sul, eq, kind, cex_processing=rng.choice(['rs', 'longest_prefix', None]), print_level=3,
                  cache_and_non_det_check=rng.random() < .5)
    cols, part, rounds = None, None, []
    for l in out.getvalue().splitlines():
        if l.startswith('Prefixes / E set'):
            cols = [x.strip() for x in l.split('|')[1:]]
            part = [[], []]
            rounds.append((cols, part))
            cur = 0
        elif l.startswith('==='):
            cur = 1
        elif cols is not None and '|' in l:
            part[cur].append([x.strip() for x in l.split('|')])
        elif l.startswith(('Hypothesis', 'Counterexample', 'Learning')):
            cols = None
    for h, (cols, (S, X)) in zip(eq.hyps, rounds):
        for row in S + X:
            s = ast.literal_eval(row[0])
            for e, cell in zip(cols, row[1:]):
                e = ast.literal_eval(e)
                o = t.run(list(s) + list(e))[len(s):] if e else [t.run(list(s))[-1] if s else t.so[t.init]]
                exp = str(o[0]) if len(o) == 1 else str(tuple(o))
                mon.ev('table_cells')
                mon.check(cell == exp, 'table', f'the table shows {cell} for prefix {s} and suffix {e}, the system says {exp}', **wit)
        mon.ev('tables')
        labels = {r[0] for r in S}
        ext = {str(ast.literal_eval(s) + (a,)) for s in labels for a in t.A}
        mon.check({r[0] for r in X} == ext - labels or {r[0] for r in X} == ext, 'table',
                  f'extended rows {sorted(r[0] for r in X)} for rows {sorted(labels)}', **wit)
        mon.check(len({tuple(r[1:]) for r in S}) == h.n_reach, 'table',
                  f'{len({tuple(r[1:]) for r in S})} distinct rows shown for a hypothesis with {h.n_reach} states', **wit)
    mon.seen('table', t.canon())


# ------------------------------------------------------------------------ interactive oracle

class Typed:
    def __init__(self, lines):
        self.lines, self.n = lines, 0

    def __call__(self, prompt=''):
        if self.n >= len(self.lines):
            raise StepBudget('the oracle asks for more than the dialogue has')
        self.n += 1
        return self.lines[self.n - 1]


def do_user(rng, mon, idx):
    kind = ('dfa', 'moore', 'mealy')[idx % 3]
    t = gen_dm(rng, kind, nmax=6, amax=4, alph='chr', outs=rng.choice(['str', 'int', 'bool'])).minimize()
    A = list(t.A)
    if any(a in ('help', 'cex', 'end', 'reset') for a in A):
        raise Skip('a letter is a command')
    sul = RefSUL(t, mon, log=True)
    oracle = UserInputEqOracle(list(A), sul)
    mod = sys.modules['aalpy.oracles.UserInputEqOracle']
    shown = []
    old_vis, old_in, old_open = getattr(mod, 'visualize_automaton', None), builtins.input, webbrowser.open
    steps = 0
    wit = dict(target=t.describe())
    for rnd in range(rng.randint(1, 3)):
        hm = mutate(rng, t, rng.choice([0, 1, 2, 4])).minimize()
        hyp = build(hm)
        for a in word(rng, A, 0, 4):        # the oracle starts from the initial state, wherever the hypothesis is
            hyp.step(a)
        lines, cur, exp_out, expected = [], [], [], None
        end = rng.choice(['cex', 'end'])
        exp_hyp, exp_sul = [], []
        hs, ts = hm.init, t.init
        queries = [[]]
        for _ in range(rng.randint(0, 14)):
            r = rng.random()
            if r < .7:
                a = rng.choice(A)
                lines.append(a)
                cur.append(a)
                queries[-1].append(a)
                steps += 1
                mon.ev('dialogue_inputs')
                exp_hyp.append(str(hm.out(hs, a)))
                exp_sul.append(str(t.out(ts, a)))
                hs, ts = hm.d[hs][a], t.d[ts][a]
            elif r < .8:
                lines.append(rng.choice(['help', 'print alphabet', 'current inputs']))
                exp_out.append(lines[-1])
            elif r < .9:
                lines.append('reset')
                cur = []
                queries.append([])
                hs, ts = hm.init, t.init
            else:
                lines.append(rng.choice(['nonsense', '', '?', 'Reset']))
        if end == 'cex' and not cur:
            if rng.random() < .5:
                lines.append('cex')     # nothing entered: no counterexample yet
            a = rng.choice(A)
            lines.append(a)
            cur.append(a)
            queries[-1].append(a)
            steps += 1
            exp_hyp.append(str(hm.out(hs, a)))
            exp_sul.append(str(t.out(ts, a)))
        lines.append(end)
        wit['dialogue'], wit['hypothesis'] = lines, hm.describe()
        sul.log.clear()
        n0 = oracle.num_steps
        with scratch(), contextlib.redirect_stdout(io.StringIO()) as out:
            typed = Typed(lines)
            builtins.input = typed
            webbrowser.open = lambda *a, **kw: True
            threads = set(threading.enumerate())
            if old_vis is not None:
                mod.visualize_automaton = lambda *a, **kw: shown.append(a)
            try:
                got = oracle.find_cex(hyp)
            finally:
                builtins.input, webbrowser.open = old_in, old_open
                for th in set(threading.enumerate()) - threads:
                    th.join(60)
                if old_vis is not None:
                    mod.visualize_automaton = old_vis
        mon.check(typed.n == len(lines), 'dialogue', f'the oracle stopped after {typed.n} of {len(lines)} lines', **wit)
        if end == 'end':
            mon.check(got is None, 'dialogue', f'the user ended the search, the oracle returned {got}', **wit)
        else:
            mon.check(got is not None and list(got) == cur, 'dialogue', f'counterexample {got}, the inputs since the reset are {cur}',
                      **wit)
        mon.check([x for x in sul.log if x] == [x for x in queries if x], 'dialogue',
                  f'the system executed {sul.log}, the dialogue asks for {queries}', **wit)
        mon.check(oracle.num_steps == steps, 'dialogue', f'{oracle.num_steps} steps counted, {steps} executed', **wit)
        for lab, exp in (('Hypothesis', exp_hyp), ('SUL', exp_sul)):
            have = re.findall(rf'^{lab} Output\s*:\s?(.*)$', out.getvalue(), re.M)
            if have:
                mon.check(have == exp, 'dialogue', f'{lab} outputs shown {have}, real {exp}', **wit)
        diffs = sum(x != y for x, y in zip(exp_hyp, exp_sul))
        told = len(re.findall(r'^Counterexample found', out.getvalue(), re.M))
        mon.check(told == diffs, 'dialogue', f'{told} counterexamples announced, outputs differ {diffs} times', **wit)
        mon.ev('dialogues')
        mon.seen('user', str(lines))


def run(family, idx, rng, mon):
    {'levels': do_levels, 'gsm': do_gsm, 'debug': do_debug, 'table': do_table, 'user': do_user}[family](rng, mon, idx)
