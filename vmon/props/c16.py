"""Generalised state merging: merges are justified, counts are conserved, the model reproduces the data."""
import contextlib
import io
import math

from aalpy.learning_algs import run_GSM, run_k_tails
from aalpy.learning_algs.general_passive.GeneralizedStateMerging import Instrumentation
from aalpy.learning_algs.general_passive.GsmNode import GsmNode, unknown_output
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import (AIC_score, EDSM_frequency_score, EDSM_score,
                                                                   ScoreCalculation, ScoreCombinator, ScoreWithKTail,
                                                                   ScoreWithSinks, differential_info,
                                                                   hoeffding_compatibility, local_to_global_compatibility,
                                                                   lower_threshold, make_greedy)

from ..gen import gen_dm, permuted, word
from ..ref import diff, extract, fresh, same
from ..stoch import bisim_sm, gen_sm, read_sm

ID = 'C16'
RULE = ('A case draws traces of a machine, merge settings and score functions, runs the merging with monitors on '
        'compatibility, score, merge and promotion events, replays the traces on the result and compares every '
        'transition count; ground-truth compatibility and an independent merger decide the exact result. '
        'Distinct = (settings, data).')
FLOORS = {'processing_hooks': 500, 'traces_replayed': 30000, 'counts_compared': 20000, 'merges': 8000, 'promotions': 3000, 'truth_models': 800,
          'reference_models': 800, 'partitions': 6000, 'k_tails': 800}


def plan(tier):
    q = tier == 'quick'
    return [('counts', 6000 if q else 40000), ('det', 4000 if q else 25000), ('truth', 3000 if q else 20000),
            ('ref', 4000 if q else 25000), ('ktails', 2400 if q else 15000), ('pta', 2000 if q else 10000)]


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


# ------------------------------------------------------------------------ data

def gen_traces(rng, ob, nmax=4, det=False, n=None):
    """(moore|mealy) io traces of a random machine; the truth maps a trace prefix to a state"""
    if det:
        m = permuted(rng, gen_dm(rng, ob, nmax=nmax, amax=3, outs=rng.choice(['str', 'int', 'falsy', 'tuple', 'mixed'])))

        def step(s, a):
            return m.out(s, a), m.d[s][a]
        init, out0, A = m.init, (m.so[m.init] if ob == 'moore' else None), m.A
    else:
        m = gen_sm(rng, 'mdp' if ob == 'moore' else 'smm', nmax=nmax, amax=3, omax=4,
                   outs=rng.choice(['str', 'int', 'falsy', 'tuple', 'mixed']))

        def step(s, a):
            o, t, p = rng.choices(m.t[s][a], [e[2] for e in m.t[s][a]])[0]
            return o, t
        init, out0, A = m.init, (m.so[m.init] if ob == 'moore' else None), m.A
    data, truth = [], {(): init}
    hi = rng.choice([3, 6, 10])
    for _ in range(rng.randint(1, rng.choice([5, 30, 80])) if n is None else n):
        s, tr = init, []
        for a in word(rng, A, 1 if rng.random() < .95 else 0, hi):
            o, s = step(s, a)
            tr.append((a, fresh(o)))
            truth[tuple(tr)] = s
        data.append(tr)
    return m, A, out0, data, truth


def as_input(data, ob, out0):
    return [([out0] + list(t)) if ob == 'moore' else list(t) for t in data]


def expected_counts(root, data, mon, wit):
    """Replays the traces over the public nodes; (node, in, out) -> traversals"""
    cnt = {}
    for tr in data:
        node = root
        for a, o in tr:
            t = node.transitions.get(a, {})
            e = [(k, v) for k, v in t.items() if same(k, o)]
            mon.check(len(e) == 1, 'trace-lost', f'trace {tr} is not a trace of the model at {(a, o)!r}', **wit)
            key = (id(node), repr(a), repr(o))
            cnt[key] = cnt.get(key, 0) + 1
            node = e[0][1].target
        mon.ev('traces_replayed')
    return cnt


def check_counts(mon, root, data, wit):
    cnt = expected_counts(root, data, mon, wit)
    nodes, todo = [root], [root]
    seen = {id(root)}
    while todo:
        n = todo.pop()
        for a, t in n.transitions.items():
            for o, info in t.items():
                mon.ev('counts_compared')
                c = cnt.get((id(n), repr(a), repr(o)), 0)
                mon.check(info.count == c, 'count', f'transition {a!r}/{o!r} has count {info.count}, the data take it {c} '
                                                    f'times', **wit)
                if id(info.target) not in seen:
                    seen.add(id(info.target))
                    nodes.append(info.target)
                    todo.append(info.target)
    return nodes


def check_prefixes(mon, root, nodes, wit):
    for n in nodes:
        p = n.get_prefix()
        x = root.get_by_prefix(p)
        mon.check(x is n, 'prefix', f'the prefix {p} of a state does not lead to it', **wit)
        mon.check(n.get_prefix_length() == len(p), 'prefix', f'prefix length of {p}', **wit)


# ------------------------------------------------------------------------ monitors

class Watch(Instrumentation):
    def __init__(self, mon, wit, rec=None):
        super().__init__()
        self.mon, self.wit, self.rec = mon, wit, rec
        self.red, self.merges = [], 0
        self.root = None
        self.done = 0

    def pta_construction_done(self, root):
        self.root = root
        self.mon.check(root.is_tree(), 'pta', 'the prefix tree is no tree', **self.wit)

    def log_promote(self, node):
        self.mon.ev('promotions')
        self.mon.check(all(node is not r for r in self.red), 'promote', 'a state was promoted twice', **self.wit)
        if self.rec is not None and self.red:
            for blue, verdict in self.rec.cands:
                if blue is node:
                    self.mon.check(verdict is False, 'promote', f'a state was promoted although a merge scored {verdict!r}',
                                   **self.wit)
        self.red.append(node)

    def log_merge(self, part):
        self.mon.ev('merges')
        self.merges += 1
        self.mon.check(any(part.red is r for r in self.red), 'merge', 'merge into a state that was not promoted', **self.wit)
        self.mon.check(all(part.blue is not r for r in self.red), 'merge', 'a promoted state was merged away', **self.wit)
        self.mon.check(part.score is not False, 'merge', 'a rejected merge was performed', **self.wit)
        if self.rec is not None:
            vals = [v for _, v in self.rec.cands if v is not False]
            if part.score is not True:
                self.mon.check(all(not (part.score < v) for v in vals), 'merge',
                               f'merge with score {part.score} performed, best candidate {max(vals)}', **self.wit)
            self.rec.cands = []

    def learning_done(self, root):
        self.done += 1


class Rec(ScoreCalculation):
    """Records what compatibility and score functions said; delegates the decision."""

    def __init__(self, mon, wit, compat, score):
        self.mon, self.wit, self.compat, self.score = mon, wit, compat, score
        self.cands = []     # (blue, verdict) of the candidates since the last merge
        self.open = None
        super().__init__()

    def reset(self):
        self.close()
        self.open = [None, None]
        if hasattr(self.compat, 'reset'):
            self.compat.reset()

    def close(self):
        if self.open and self.open[0] is not None and self.open[1] is not None:
            self.cands.append(tuple(self.open))
        self.open = None

    def local_compatibility(self, a, b):
        if self.open[0] is None:
            self.open[0] = b
        self.mon.check(self.open[1] is not False, 'merge', 'compatibility asked on after a rejection', **self.wit)
        r = self.compat.local_compatibility(a, b) if hasattr(self.compat, 'local_compatibility') else self.compat(a, b)
        if r is False:
            self.open[1] = False
            self.close_rejected()
        return r

    def close_rejected(self):
        self.cands.append((self.open[0], False))

    def score_function(self, part):
        self.mon.ev('partitions')
        self.mon.check(self.open[1] is not False, 'merge', 'a rejected candidate was scored', **self.wit)
        check_partition(self.mon, part, self.wit)
        r = self.score(part)
        self.open[1] = r
        self.cands.append((self.open[0], r))
        self.open = [None, None]
        return r


def tot(node):
    return {repr(a): sum(i.count for i in t.values()) for a, t in node.transitions.items() if t}


def check_partition(mon, part, wit):
    groups = {}
    for old, new in part.items():
        groups.setdefault(id(new), (new, []))[1].append(old)
    for new, olds in groups.values():
        exp = {}
        for o in olds:
            for a, c in tot(o).items():
                exp[a] = exp.get(a, 0) + c
        mon.check(tot(new) == exp, 'partition', f'counts of a merged state are {tot(new)}, its parts have {exp}', **wit)


def llc(node):
    r = 0
    for t in node.transitions.values():
        n = sum(i.count for i in t.values())
        if n:
            r += sum(i.count * math.log(i.count / n) for i in t.values())
    return r


def scorer(rng, mon, wit):
    """(name, score function checked against its definition)"""
    k = rng.choice(['true', 'edsm', 'edsm_min', 'freq', 'aic', 'greedy', 'custom', 'global'])

    def edsm(part):
        return len(part) - len({id(v) for v in part.values()})

    if k == 'true':
        return k, lambda part: True
    if k in ('edsm', 'edsm_min'):
        lo = -1 if k == 'edsm' else rng.randint(0, 3)
        f = EDSM_score(lo) if k == 'edsm_min' else EDSM_score()

        def g(part):
            r, e = f(part), edsm(part)
            mon.check(r == (e if lo < e else False) and (r is False) == (not lo < e), 'score',
                      f'evidence {e}, threshold {lo}, score {r}', **wit)
            return r
        return k, g
    if k == 'freq':
        lo = rng.choice([None, -1, 0, 1, 5, 20])
        f = EDSM_frequency_score() if lo is None else EDSM_frequency_score(lo)
        lo = -1 if lo is None else lo

        def g(part):
            r = f(part)
            exp = {}
            for old, new in part.items():
                for a, t in old.transitions.items():
                    for o, i in t.items():
                        if i.count:
                            exp.setdefault((id(new), repr(a), repr(o)), []).append(i.count)
            e = sum(sum(c) for c in exp.values() if len(c) > 1)
            if any(o is unknown_output for n in part for t in n.transitions.values() for o in t):
                mon.check(r is False or r is not True and r > lo, 'score', f'{r} with threshold {lo}', **wit)
                return r        # what an unlabelled transition is evidence for is left open
            mon.check((r is False) == (not lo < e) and (r is False or r == e) and r is not True, 'score',
                      f'frequency evidence {r}, transitions that are merged were taken {e} times, threshold {lo}', **wit)
            return r
        return k, g
    if k == 'aic':
        alpha = rng.choice([-1000, -2, 0])
        f = AIC_score(alpha)

        def g(part):
            r = f(part)
            news = {id(v): v for v in part.values()}.values()
            dl = sum(map(llc, part)) - sum(map(llc, news))
            dp = sum(len(t) for n in part for t in n.transitions.values()) - \
                sum(len(t) for n in news for t in n.transitions.values())
            x, y = differential_info(part)
            mon.check(abs(x - dl) < 1e-6 and y == dp, 'score', f'differential_info gives {(x, y)}, expected {(dl, dp)}', **wit)
            v = dp - dl
            if abs(v - alpha) > 1e-6:
                mon.check((r is False) == (not alpha < v) and (r is False or abs(r - v) < 1e-6), 'score',
                          f'AIC score {r}, expected {v} with threshold {alpha}', **wit)
            return r
        return k, g
    if k == 'greedy':
        f = make_greedy(lower_threshold(edsm, 0))

        def g(part):
            r = f(part)
            mon.check(r is (edsm(part) > 0), 'score', f'greedy score {r} for evidence {edsm(part)}', **wit)
            return r
        return k, g
    if k == 'global':
        seen = []

        def loc(a, b):
            seen.append((a, b))
            return None if len(part_now[0]) % 2 else True
        f = local_to_global_compatibility(loc)
        part_now = [None]

        def g(part):
            part_now[0] = part
            seen.clear()
            r = f(part)
            mon.check(r is True and len(seen) == len(part), 'score', f'global compatibility {r} after {len(seen)} of '
                      f'{len(part)} local tests', **wit)
            bad = next(iter(part))
            mon.check(local_to_global_compatibility(lambda a, b: b is not bad)(part) is False, 'score',
                      'a local incompatibility was ignored', **wit)
            return r
        return k, g
    vals = {}

    def g(part):
        # arbitrary but reproducible
        k = (edsm(part) * 7919 + len(part) * 31) % 5
        return False if k == 4 else k
    return k, g


def settings(rng, tb):
    s = dict(consider_only_min_blue=rng.random() < .4, depth_first=rng.random() < .4)
    if tb != 'deterministic':
        s['compatibility_on_futures'] = rng.random() < .4
        s['compatibility_on_pta'] = rng.random() < .5
    r = rng.random()
    if r < .25:
        s['node_order'] = lambda a, b: key(a) < key(b)
    elif r < .4:
        s['node_order'] = lambda a, b: a < b
    elif r < .5:
        s['node_order'] = lambda a, b: key(a, rev=True) < key(b, rev=True)
    return s


def key(n, rev=False):
    p = [repr(x) for x in n.get_prefix()]
    return (len(p), [tuple(-ord(c) for c in x) for x in p]) if rev else (len(p), p)


def compat_for(rng, tb, pta):
    r = rng.random()
    if tb == 'deterministic':
        c = lambda a, b: True
        return ('any', c)
    if r < .35:
        k = rng.randint(0, 4)
        return (f'ktail{k}', ScoreWithKTail(ScoreCalculation(GsmNode.deterministic_compatible), k))
    if r < .75:
        eps = rng.choice([.005, .05, .5, 1.5])
        return (f'hoeff{eps}', hoeffding_compatibility(eps, pta))
    if r < .85:
        return ('all', lambda a, b: True)
    return ('some', lambda a, b: len(a.transitions) == len(b.transitions))


def do_counts(rng, mon, idx):
    ob = ('moore', 'mealy')[idx % 2]
    tb = ('nondeterministic', 'stochastic')[idx // 2 % 2]
    m, A, out0, data, truth = gen_traces(rng, ob)
    st = settings(rng, tb)
    cn, compat = compat_for(rng, tb, st.get('compatibility_on_pta', False))
    wit = dict(output=ob, transition=tb, compat=cn, settings={k: str(v) for k, v in st.items()}, data=data[:40])
    mode = rng.choice(['rec', 'rec', 'plain', 'default'])
    rec = None
    if mode == 'rec':
        sn, sc = scorer(rng, mon, wit)
        wit['score'] = sn
        rec = Rec(mon, wit, compat, sc)
        calc = rec
    elif mode == 'plain' or tb == 'nondeterministic':
        calc = compat if isinstance(compat, ScoreCalculation) else ScoreCalculation(compat)
    else:
        calc = None
    w = Watch(mon, wit, rec)
    inp = as_input(data, ob, out0)
    kw = dict(output_behavior=fresh(ob), transition_behavior=fresh(tb), score_calc=calc, instrumentation=w, data_format='io_traces', **st)
    hooks = []
    if rng.random() < .3:       # the tree is replaced before merging: the result is that of the other tree
        def pre(tree):
            hooks.append('pre')
            mon.check(tree.is_tree() and w.root is None and tree.get_prefix() == [], 'preprocessing', 'not given the prefix tree', **wit)
            return GsmNode.createPTA([list(t) for t in inp], ob, 'io_traces')
        feed = inp[:max(1, len(inp) // 2)]
        kw['pta_preprocessing'] = pre
    else:
        feed = inp
    extra = None
    if rng.random() < .3:       # and what postprocessing returns is what is returned and converted
        def post(res):
            hooks.append('post')
            mon.check(w.done == 1, 'postprocessing', 'called before learning was done', **wit)
            return extra or res
        if rng.random() < .3:
            extra = GsmNode.createPTA([list(t) for t in inp], ob, 'io_traces')
        kw['postprocessing'] = post
    root = quiet(run_GSM, [list(t) for t in feed], convert=False, **kw)
    asked = [v for k, v in (('pta_preprocessing', 'pre'), ('postprocessing', 'post')) if kw.pop(k, None)]
    mon.check(hooks == asked, 'processing', f'calls {hooks}, expected {asked}', **wit)
    mon.ev('processing_hooks', len(hooks))
    if extra is not None:
        mon.check(root is extra, 'postprocessing', 'another result was returned', **wit)
        root = w.root
    mon.check(w.done == 1, 'instrumentation', f'learning_done reported {w.done} times', **wit)
    nodes = check_counts(mon, root, data, wit)
    check_prefixes(mon, root, nodes, wit)
    mon.check(sorted(map(id, nodes)) == sorted(map(id, w.red)) and sorted(map(id, root.get_all_nodes())) == sorted(map(id, nodes)),
              'states', f'{len(nodes)} states in the result, {len(w.red)} promoted', **wit)
    if ob == 'moore':
        mon.check(same(root.get_prefix_output(), out0), 'output', f'initial output {root.get_prefix_output()!r}', **wit)
        for n in nodes:
            for a, t in n.transitions.items():
                for o, i in t.items():
                    mon.check(same(i.target.get_prefix_output(), o), 'output',
                              f'transition with output {o!r} leads to a state with output {i.target.get_prefix_output()!r}', **wit)
    model = root.to_automaton(ob, tb)
    check_model(mon, model, root, nodes, ob, tb, wit)
    if rng.random() < .3:
        check_access(mon, root.to_automaton(ob, tb, check_behavior=rng.random() < .5, set_prefix=True), root, nodes, ob, tb, wit)
    if mode != 'rec' and rng.random() < .3:
        again = quiet(run_GSM, [list(t) for t in inp], **{**kw, 'instrumentation': None})
        msg = bisim_sm(read_sm(model), read_sm(again), tol=0)
        mon.check(msg is None and len(again.states) == len(model.states), 'convert', f'converted model differs: {msg}', **wit)
    mon.seen('counts', wit)
    mon.sample(**{k: v for k, v in wit.items() if k != 'data'}, traces=data[:2], states=len(nodes))


CLS = {('moore', 'deterministic'): 'MooreMachine', ('moore', 'nondeterministic'): 'NDMooreMachine',
       ('moore', 'stochastic'): 'Mdp', ('mealy', 'deterministic'): 'MealyMachine', ('mealy', 'nondeterministic'): 'Onfsm',
       ('mealy', 'stochastic'): 'StochasticMealyMachine'}


def check_model(mon, model, root, nodes, ob, tb, wit):
    """the automaton object is the node graph, with relative frequencies as probabilities"""
    mon.check(type(model).__name__ == CLS[ob, tb], 'type', f'{type(model).__name__} for {ob}/{tb}', **wit)
    mon.check(len(model.states) == len(nodes) and len({s.state_id for s in model.states}) == len(nodes), 'states',
              f'{len(model.states)} states for {len(nodes)} nodes', **wit)
    sm = read_sm(model)
    ix = {id(root): sm.init}
    todo = [root]
    while todo:
        n = todo.pop()
        s = ix[id(n)]
        if ob == 'moore':
            mon.check(same(sm.so[s], n.get_prefix_output()), 'output', f'state output {sm.so[s]!r}', **wit)
        mon.check(sorted(repr(a) for a, t in n.transitions.items() if t) == sorted(map(repr, sm.t[s])), 'transitions',
                  f'inputs {list(sm.t[s])} for {list(n.transitions)}', **wit)
        for a, t in n.transitions.items():
            total = sum(i.count for i in t.values())
            opts = sm.t[s].get(a, [])
            mon.check(len(opts) == len(t), 'transitions', f'{len(opts)} transitions on {a!r} for {len(t)}', **wit)
            for o, i in t.items():
                e = [x for x in opts if same(x[0], o)]
                mon.check(len(e) == 1, 'transitions', f'{len(e)} transitions with {a!r}/{o!r}', **wit)
                if tb == 'stochastic':
                    mon.check(abs(e[0][2] - i.count / total) < 1e-9, 'probability',
                              f'{a!r}/{o!r}: probability {e[0][2]}, {i.count} of {total} samples', **wit)
                if id(i.target) in ix:
                    mon.check(ix[id(i.target)] == e[0][1], 'transitions', f'{a!r}/{o!r} leads to the wrong state', **wit)
                else:
                    ix[id(i.target)] = e[0][1]
                    todo.append(i.target)
    mon.check(len(set(ix.values())) == len(ix), 'states', 'two nodes share a state', **wit)


def check_access(mon, model, root, nodes, ob, tb, wit):
    """requested prefixes are those of the nodes and lead to the states that carry them"""
    check_model(mon, model, root, nodes, ob, tb, wit)
    sm = read_sm(model)
    det = tb == 'deterministic'
    for n in nodes:
        mon.check(list(n.get_prefix(include_output=False)) == [a for a, _ in n.get_prefix()], 'prefix', 'inputs of a prefix', **wit)
    want = sorted(repr([a for a, _ in n.get_prefix()] if det else list(n.get_prefix())) for n in nodes)
    mon.check(sorted(repr(list(s.prefix)) for s in model.states) == want, 'prefix', f'prefixes {[s.prefix for s in model.states]}, '
                                                                                    f'expected {want}', **wit)
    ids = {s.state_id: s for s in model.states}
    for s in model.states:
        cur = sm.init
        for x in s.prefix:
            opts = [e for e in sm.t[cur].get(x if det else x[0], []) if det or same(e[0], x[1])]
            mon.check(len(opts) == 1, 'prefix', f'prefix {s.prefix} cannot be followed', **wit)
            cur = opts[0][1]
        mon.check(sm.order[cur] is ids[s.state_id], 'prefix', f'prefix {s.prefix} does not lead to {s.state_id}', **wit)
        mon.ev('state_prefixes')


def do_det(rng, mon, idx):
    ob = ('moore', 'mealy')[idx % 2]
    fmt = rng.choice(['labeled_sequences', 'io_traces'])
    m, A, out0, data, truth = gen_traces(rng, ob, nmax=6, det=True)
    st = settings(rng, 'deterministic')
    wit = dict(output=ob, format=fmt, settings={k: str(v) for k, v in st.items()}, data=data[:40])
    if fmt == 'io_traces':
        inp = as_input(data, ob, out0)
        samples = [([a for a, _ in t[:i]], t[i - 1][1]) for t in data for i in range(1, len(t) + 1)]
        if ob == 'moore':
            samples.append(([], out0))
    else:
        samples = []
        for t in data:
            ks = range(1, len(t) + 1) if ob == 'mealy' or rng.random() < .3 else [len(t)]
            samples += [([a for a, _ in t[:i]], t[i - 1][1] if i else out0) for i in ks if i or ob == 'moore']
        if not samples:
            return
        rng.shuffle(samples)
        inp = [(tuple(w) if rng.random() < .5 else w, l) for w, l in samples]
    sn, sc = scorer(rng, mon, wit)
    wit['score'] = sn
    mode = rng.choice(['rec', 'plain', 'sinks', 'combine', 'greedy-calc', 'threshold-calc'])
    wit['mode'] = mode
    rec, calc, sink = None, None, None
    if mode == 'rec':
        calc = rec = Rec(mon, wit, lambda a, b: True, sc)
    elif mode == 'sinks':
        sink = lambda n: len([1 for t in n.transitions.values() if t]) == 0
        allow = rng.random() < .5
        calc = ScoreWithSinks(ScoreCalculation(), sink, allow)
    elif mode == 'combine':
        calls = []
        f1 = lambda a, b: calls.append(1) or None
        f2 = lambda a, b: calls.append(2) or True
        f3 = lambda a, b: calls.append(3) or False
        agg = {}
        if rng.random() < .5:       # all have to agree; scores are added up; nothing is evaluated that is not asked for
            agg = dict(aggregate_compatibility=lambda it: all(x is not False for x in (next(it), next(it))))
            if rng.random() < .7:
                agg['aggregate_score'] = lambda it: sum(it)
        calc = ScoreCombinator([ScoreCalculation(f1, lambda p: 1), ScoreCalculation(f2, lambda p: 2),
                                ScoreCalculation(f3, lambda p: 3)], **agg)
    elif mode in ('greedy-calc', 'threshold-calc'):
        inner = ScoreCalculation(score_function=lambda p: len(p) - len({id(x) for x in p.values()}))
        calc = make_greedy(inner) if mode == 'greedy-calc' else lower_threshold(inner, 0)

    class W(Watch):
        def log_merge(self, part):
            super().log_merge(part)
            if sink:
                pass
            if mode == 'combine':
                mon.check(part.score == (6 if 'aggregate_score' in agg else [1, 2, 3]), 'score', f'combined score {part.score}', **wit)
            if mode == 'threshold-calc':
                mon.check(part.score > 0, 'score', f'merge below the threshold: {part.score}', **wit)
            if mode == 'greedy-calc':
                mon.check(part.score is True, 'score', f'greedy score {part.score}', **wit)
    if sink:
        orig = calc.local_compatibility
        state = dict(first=True)

        def loc(a, b):
            r = orig(a, b)
            if state['first']:
                state['first'] = False
                x, y = sink(a), sink(b)
                if x != y or (x and y and not allow):
                    mon.check(r is False, 'score', 'sink condition ignored', **wit)
                    mon.ev('sink_rejections')
                else:
                    mon.check(r is not False, 'score', 'merge rejected although the sink condition allows it', **wit)
            return r
        reset0 = calc.reset

        def reset():
            state['first'] = True
            reset0()
        calc.local_compatibility, calc.reset = loc, reset
    w = W(mon, wit, rec)
    kw = dict(output_behavior=fresh(ob), transition_behavior=fresh('deterministic'), score_calc=calc, data_format=fmt, **st)
    if mode == 'plain':
        kw.pop('score_calc')
    root = quiet(run_GSM, inp, instrumentation=w, convert=False, **kw)
    nodes = root.get_all_nodes()
    mon.check(sorted(map(id, nodes)) == sorted(map(id, w.red)), 'states', f'{len(nodes)} states, {len(w.red)} promoted', **wit)
    if fmt == 'io_traces':
        check_counts(mon, root, data, wit)
        check_prefixes(mon, root, nodes, wit)
    mon.check(root.is_deterministic() and (ob == 'mealy' or root.is_moore()), 'type', 'result is not deterministic', **wit)
    model = root.to_automaton(ob, 'deterministic')
    mon.check(type(model).__name__ == CLS[ob, 'deterministic'], 'type', type(model).__name__, **wit)
    h = extract(model, ob, None)
    for wd, l in samples:
        mon.ev('traces_replayed')
        s, out = h.init, (h.so[h.init] if ob == 'moore' else None)
        for a in wd:
            mon.check(a in h.d[s], 'undefined', f'sample {wd} is not defined in the model', **wit)
            out = h.out(s, a)
            s = h.d[s][a]
        mon.check(same(out, l), 'sample-violated', f'sample {wd} labelled {l!r}, model says {out!r}', **wit)
    mon.check(h.n_reach == len(model.states) == len(nodes), 'states', f'{len(model.states)} states listed, {h.n_reach} reachable', **wit)
    mon.seen('det', wit)


def do_truth(rng, mon, idx):
    """with a compatibility function that knows the true states the result is the true machine, restricted to the data"""
    ob = ('moore', 'mealy')[idx % 2]
    tb = ('deterministic', 'nondeterministic', 'stochastic')[idx // 2 % 3]
    det = tb == 'deterministic'
    m, A, out0, data, truth = gen_traces(rng, ob, nmax=5, det=det)
    st = settings(rng, tb)
    if det:
        st.pop('compatibility_on_futures', None)
    wit = dict(output=ob, transition=tb, settings={k: str(v) for k, v in st.items()}, data=data[:40])

    def state(n):
        s = m.init
        for a, o in n.get_prefix():
            if det:
                s = m.d[s][a]
            else:
                s, = m.post({s}, a, o)
        return s

    def compat(a, b):
        return state(a) == state(b)

    mode = rng.choice(['default', 'score'])
    calc = ScoreCalculation(compat) if mode == 'default' else \
        ScoreCalculation(compat, lambda p: len(p) - len({id(x) for x in p.values()}))
    root = quiet(run_GSM, as_input(data, ob, out0), output_behavior=ob, transition_behavior=tb, score_calc=calc,
                 data_format='io_traces', convert=False, **st)
    mon.ev('truth_models')
    nodes = check_counts(mon, root, data, wit)
    check_prefixes(mon, root, nodes, wit)
    states = [state(n) for n in nodes]
    visited = {truth[tuple(t[:i])] for t in data for i in range(len(t) + 1)}
    mon.check(sorted(states) == sorted(visited), 'merge', f'with true compatibility the result has states {sorted(states)}, '
                                                          f'the data visit {sorted(visited)}', **wit)
    mon.seen('truth', wit)


# ------------------------------------------------------------------------ independent merger

def reference(data, out0, ob, local, futures, order, original_prefix=False, fold=0):
    """Red-blue merging of prefix trees, first accepted merge in the given order.
    Node: [output, {(a, o): [target, count, original target, original count]}]; returns red nodes."""
    G = {0: dict()}
    outp = {0: out0}
    pre = {0: ()}

    def k(a, o):
        return (a, o)
    for t in data:
        x = 0
        for a, o in t:
            e = G[x].get(k(a, o))
            if e is None:
                y = len(G)
                G[y] = {}
                outp[y] = o
                pre[y] = pre[x] + ((a, o),)
                e = G[x][k(a, o)] = [y, 0, y, 0]
            e[1] += 1
            e[3] += 1
            x = e[0]
    red = [0]
    while True:
        red.sort(key=lambda r: order(pre[r]))
        blue = [(e[0], r, io) for r in red for io, e in G[r].items() if e[0] not in red]
        if not blue:
            return G, outp, red, pre
        if not original_prefix:
            for b, r, io in blue:
                pre[b] = pre[r] + (io,)
        b, parent, pio = min(blue, key=lambda t: order(pre[t[0]]))
        merged = False
        for r in red:
            if futures:
                ok, q = True, [(r, b, 0)]
                while q and ok:
                    x, y, d = q.pop()
                    if ob == 'moore' and not same(outp[x], outp[y]) or local(G[x], G[y], d) is False:
                        ok = False
                        break
                    for io in G[x]:
                        if io in G[y]:
                            ex, ey = G[x][io], G[y][io]
                            if futures == 'pta':
                                if ex[3] and ey[3]:
                                    q.append((ex[2], ey[2], d + 1))
                            else:
                                q.append((ex[0], ey[0], d + 1))
                if not ok:
                    continue
            H = {}

            def get(x):
                if x not in H:
                    H[x] = {io: list(e) for io, e in G[x].items()}
                return H[x]
            get(parent)[pio][0] = r
            def visit(x, y, d):
                return futures or not (ob == 'moore' and not same(outp[x], outp[y]) or local(get(x), G[y], d) is False)

            def edges(x, y, d):
                return [(x, io, e, d) for io, e in (list(G[y].items())[::-1] if fold == 2 else G[y].items())]
            if fold == 0:       # node by node, breadth first
                ok, q = True, [(r, b, 0)]
                while q and ok:
                    x, y, d = q.pop(0)
                    ok = visit(x, y, d)
                    for x, io, e, d in edges(x, y, d) if ok else []:
                        f = get(x).get(io)
                        if f is None:
                            get(x)[io] = [e[0], e[1], None, 0]
                        else:
                            q.append((f[0], e[0], d + 1))
                            f[1] += e[1]
            else:               # edge by edge, depth first
                ok, q = visit(r, b, 0), edges(r, b, 0)
                while q and ok:
                    x, io, e, d = q.pop(0)
                    f = get(x).get(io)
                    if f is None:
                        get(x)[io] = [e[0], e[1], None, 0]
                    else:
                        f[1] += e[1]
                        ok = visit(f[0], e[0], d + 1)
                        q = edges(f[0], e[0], d + 1) + q
            if ok:
                G.update(H)
                merged = True
                break
        if not merged:
            red.append(b)


def by_input(tr):
    r = {}
    for (a, o), e in tr.items():
        r.setdefault(a, {})[o] = e
    return r


def ref_hoeffding(eps, original=True):
    f = math.sqrt(.5 * math.log(2 / eps))
    ci = 3 if original else 1
    margin = [1.0]

    def local(x, y, d):
        X, Y = by_input(x), by_input(y)
        for a in X:
            if a not in Y:
                continue
            n, m = sum(e[ci] for e in X[a].values()), sum(e[ci] for e in Y[a].values())
            if not n or not m:
                continue
            lim = f * (math.sqrt(1 / n) + math.sqrt(1 / m))
            for o in set(X[a]) | set(Y[a]):
                p = X[a][o][ci] / n if o in X[a] else 0
                q = Y[a][o][ci] / m if o in Y[a] else 0
                margin[0] = min(margin[0], abs(abs(p - q) - lim))
                if abs(p - q) > lim:
                    return False
        return True
    local.margin = margin
    return local


def ref_ktail(k):
    def local(x, y, d):
        if d >= k:
            return True
        X, Y = by_input(x), by_input(y)
        return all(set(X[a]) == set(Y[a]) for a in X if a in Y)
    return local


def compare(mon, root, ref, wit):
    G, outp, red, pre = ref
    ix, todo = {id(root): 0}, [root]
    while todo:
        n = todo.pop()
        x = ix[id(n)]
        got = {(repr(a), repr(o)): i for a, t in n.transitions.items() for o, i in t.items()}
        exp = {(repr(a), repr(o)): e for (a, o), e in G[x].items()}
        mon.check(set(got) == set(exp), 'reference', f'after {pre[x]} the model has transitions {sorted(got)}, expected '
                                                     f'{sorted(exp)}', **wit)
        for io in got:
            y = exp[io][0]
            mon.check(got[io].count == exp[io][1], 'reference', f'count of {io} after {pre[x]}: {got[io].count}, expected '
                                                                f'{exp[io][1]}', **wit)
            t = id(got[io].target)
            if t in ix:
                mon.check(ix[t] == y, 'reference', f'{io} after {pre[x]} leads to the state of {pre[ix[t]]}, expected that of '
                                                   f'{pre[y]}', **wit)
            else:
                mon.check(y not in ix.values(), 'reference', f'{io} after {pre[x]} leads to an extra state, expected that of '
                                                             f'{pre[y]}', **wit)
                ix[t] = y
                todo.append(got[io].target)


def same_merger(r1, r2):
    ix, todo = {0: 0}, [0]
    while todo:
        x = todo.pop()
        g, h = r1[0][x], r2[0][ix[x]]
        if set(g) != set(h):
            return False
        for io in g:
            if g[io][1] != h[io][1]:
                return False
            if g[io][0] not in ix:
                ix[g[io][0]] = h[io][0]
                todo.append(g[io][0])
            elif ix[g[io][0]] != h[io][0]:
                return False
    return len(r1[2]) == len(r2[2])


def do_ref(rng, mon, idx):
    ob = ('moore', 'mealy')[idx % 2]
    tb = ('nondeterministic', 'stochastic')[idx // 2 % 2]
    m, A, out0, data, truth = gen_traces(rng, ob)
    order = lambda p: (len(p), [repr(x) for x in p])
    kind = rng.choice(['ktail', 'hoeff', 'hoeff', 'all'])
    futures = rng.choice([False, 'hyp', 'pta'])
    if kind == 'ktail':
        k = rng.randint(0, 4)
        if futures:
            futures = False
        loc, calc = ref_ktail(k), ScoreWithKTail(ScoreCalculation(GsmNode.deterministic_compatible), k)
        kind += str(k)
    elif kind == 'hoeff':
        eps = rng.choice([.005, .05, .3, 1, 1.9])
        orig = True if futures is False or rng.random() < .7 else False
        loc, calc = ref_hoeffding(eps, orig), ScoreCalculation(hoeffding_compatibility(eps, orig))
        kind += f'{eps}{orig}'
    else:
        loc, calc = (lambda x, y, d: True), ScoreCalculation(lambda a, b: True)
    wit = dict(output=ob, transition=tb, compat=kind, futures=futures, data=data[:40])
    ref = reference(data, out0, ob, loc, futures, order)
    if hasattr(loc, 'margin') and loc.margin[0] < 1e-9:
        return      # on the border of the test: rounding decides
    if any(not same_merger(ref, reference(data, out0, ob, loc, futures, order, fold=f)) for f in (1, 2)):
        mon.ev('order_dependent')       # the order of folding decides which counts a test sees
        return
    root = quiet(run_GSM, as_input(data, ob, out0), output_behavior=ob, transition_behavior=tb, score_calc=calc,
                 data_format='io_traces', convert=False, compatibility_on_futures=bool(futures),
                 compatibility_on_pta=futures == 'pta' or (not futures and rng.random() < .3),
                 node_order=lambda a, b: key(a) < key(b), consider_only_min_blue=rng.random() < .5)
    mon.ev('reference_models')
    compare(mon, root, ref, wit)
    mon.seen('ref', wit)


def do_ktails(rng, mon, idx):
    ob = ('moore', 'mealy')[idx % 2]
    det = rng.random() < .6
    m, A, out0, data, truth = gen_traces(rng, ob, nmax=5, det=det)
    inp = as_input(data, ob, out0)
    depth = max(len(t) for t in data)
    k = rng.choice([0, 0, 1, 2, 3, depth, depth + 2])
    compl = rng.choice([None, None, None, 'sink_state', 'self_loop']) if ob == 'mealy' else None
    wit = dict(output=ob, k=k, completeness=compl, data=data[:40])
    model = quiet(run_k_tails, [list(t) for t in inp], ob, k, input_completeness=compl, print_info=False)
    mon.ev('k_tails')
    mon.check(type(model).__name__ == CLS[ob, 'nondeterministic'], 'type', type(model).__name__, **wit)
    sm = read_sm(model)
    for tr in data:
        cur = {sm.init}
        if ob == 'moore':
            mon.check(same(sm.so[sm.init], out0), 'output', f'initial output {sm.so[sm.init]!r}', **wit)
        for a, o in tr:
            cur = sm.post(cur, a, o)
            mon.check(cur, 'trace-lost', f'trace {tr} is not a trace of the k-tails model at {(a, o)!r}', **wit)
            mon.check(len(cur) == 1, 'not-observable', f'trace {tr} does not determine the state', **wit)
        mon.ev('traces_replayed')
    if compl:
        al = {repr(a) for t in data for a, _ in t}
        for s in range(len(sm.t)):
            mon.check({repr(a) for a in sm.t[s]} == al, 'not-input-complete', f'inputs {list(sm.t[s])} of {al}', **wit)
    elif k == 0:
        outs = {repr(out0)} | {repr(o) for t in data for _, o in t}
        exp = 1 if ob == 'mealy' else len(outs)
        mon.check(len(model.states) == exp, 'k-tails', f'0-tails model has {len(model.states)} states, expected {exp}', **wit)
    elif k >= depth and det:
        for s in range(len(sm.t)):
            for a, l in sm.t[s].items():
                mon.check(len(l) == 1, 'k-tails', f'deterministic data, k={k}, depth {depth}: {len(l)} outputs on {a!r}', **wit)
    mon.seen('ktails', wit)


def do_pta(rng, mon, idx):
    ob = ('moore', 'mealy')[idx % 2]
    m, A, out0, data, truth = gen_traces(rng, ob)
    fmt = rng.choice(['io_traces', 'traces'])
    wit = dict(output=ob, format=fmt, data=data[:40])
    if fmt == 'traces':
        data = [[('step', o) for _, o in t] for t in data]
        inp = [([out0] if ob == 'moore' else []) + [o for _, o in t] for t in data]
    else:
        inp = as_input(data, ob, out0)
    root = GsmNode.createPTA(inp, ob, fmt)
    cnt = {}
    for t in data:
        for i in range(len(t) + 1):
            p = tuple(t[:i])
            cnt[p] = cnt.get(p, 0) + 1
    nodes = root.get_all_nodes()
    mon.check(len(nodes) == len(cnt) and root.is_tree(), 'pta', f'{len(nodes)} nodes for {len(cnt)} prefixes', **wit)
    check_counts(mon, root, data, wit)
    for n in nodes:
        p = tuple(n.get_prefix())
        mon.check(p in cnt and root.get_by_prefix(p) is n, 'prefix', f'prefix {p}', **wit)
        mon.check(n.get_root() is root, 'prefix', f'root of {p}', **wit)
        for a, t in n.transitions.items():
            for o, i in t.items():
                mon.check(i.original_count == i.count and i.original_target is i.target, 'pta', 'original count differs', **wit)
        out = sum(cnt[q] for q in cnt if len(q) == len(p) + 1 and q[:-1] == p) if len(cnt) < 200 else n.count()
        mon.check(n.count() == out, 'count', f'count {n.count()} of {p}, expected {out}', **wit)
        lo = n.is_locally_deterministic()
        mon.check(lo == all(len(t) == 1 for t in n.transitions.values()), 'pta', f'determinism of {p}', **wit)
    mon.check(root.get_by_prefix([('no such input', 'x')]) is None, 'prefix', 'unknown prefix found', **wit)
    # running on a given tree equals running on the data
    kw = dict(output_behavior=ob, transition_behavior='stochastic', score_calc=ScoreCalculation(hoeffding_compatibility(.05)))
    m1 = quiet(run_GSM, root, data_format='tree', **kw)
    m2 = quiet(run_GSM, inp, data_format=fmt, **kw)
    msg = bisim_sm(read_sm(m1), read_sm(m2))
    mon.check(msg is None, 'pta', f'learning from the tree and from the data differs: {msg}', **wit)
    mon.seen('pta', wit)


def run(family, idx, rng, mon):
    globals()['do_' + family](rng, mon, idx)
