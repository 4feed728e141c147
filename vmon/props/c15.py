"""Passive learning of deterministic machines (RPNI, EDSM, PAPNI, active RPNI): the model conforms to the data."""
import contextlib
import copy
import io

from aalpy.automata import Dfa, MealyMachine, MooreMachine, Vpa
from aalpy.automata.Vpa import VpaAlphabet
from aalpy.learning_algs import run_EDSM, run_PAPNI, run_RPNI
from aalpy.learning_algs.deterministic_passive.active_RPNI import (RandomWordSampler, RpniActiveSampler,
                                                                   run_active_RPNI)

from ..aal import RefSUL
from ..gen import ALPHABETS, OUTPUTS, gen_dm, permuted, word
from ..ref import check_learned, extract, fresh, same
from ..vpl import gen_rv, gen_word, relettered, structured

ID = 'C15'
RULE = ('A case draws a target (or arbitrary labels), a sample set, an algorithm and settings, runs the learner and '
        'replays every sample on the returned model; samples that determine the target must yield the minimal target; '
        'contradictory samples must be refused. Distinct = (algorithm, settings, data).')
FLOORS = {'samples_replayed': 60000, 'exact_models': 150, 'contradictions': 300, 'papni_words': 8000, 'active_runs': 150,
          'arbitrary_label_sets': 300}
KIND = {'dfa': Dfa, 'moore': MooreMachine, 'mealy': MealyMachine}
ALGS = ['gsm', 'classic', 'edsm']


def plan(tier):
    q = tier == 'quick'
    return [('conform', 13500 if q else 90000), ('exact', 1350 if q else 9000), ('arbitrary', 6000 if q else 40000),
            ('contra', 3600 if q else 20000), ('papni', 4500 if q else 30000), ('active', 1350 if q else 9000),
            ('deep', 24 if q else 120)]


def learn(data, kind, alg, compl=None):
    with contextlib.redirect_stdout(io.StringIO()):
        if alg == 'edsm':
            return run_EDSM(data, fresh(kind), input_completeness=compl, print_info=False)
        return run_RPNI(data, fresh(kind), algorithm=fresh(alg), input_completeness=compl, print_info=False)


def walk(model, w, kind):
    """(last output, visited state) read off the public structure; None if undefined"""
    s = model.initial_state
    out = None if kind == 'mealy' else (s.is_accepting if kind == 'dfa' else s.output)
    for a in w:
        if a not in s.transitions:
            return None
        if kind == 'mealy':
            out = s.output_fun.get(a)
        s = s.transitions[a]
        if kind == 'dfa':
            out = s.is_accepting
        elif kind == 'moore':
            out = s.output
    return out, s


def check_model(mon, model, kind, data, wit, ctx, extra=0):
    mon.check(type(model) is KIND[kind], 'type', f'{ctx} returned {type(model).__name__}', **wit)
    for w, l in data:
        mon.ev('samples_replayed')
        r = walk(model, w, kind)
        mon.check(r is not None, 'undefined', f'{ctx}: the sample {w} is not defined in the model', **wit)
        mon.check(same(r[0], l), 'sample-violated', f'{ctx}: sample {w} labelled {l!r}, model says {r[0]!r}', **wit)
        mon.check(any(r[1] is s for s in model.states), 'state-list', f'{ctx}: a reached state is not listed', **wit)
        if w:
            with contextlib.redirect_stdout(io.StringIO()):
                got = model.execute_sequence(model.initial_state, list(w))[-1]
            mon.check(same(got, l), 'sample-violated', f'{ctx}: executing {w} gives {got!r}, label {l!r}', **wit)
    m = extract(model, kind, None, ctx)
    prefixes = {tuple(w[:i]) for w, _ in data for i in range(len(w) + 1)} | {()}
    mon.check(m.n_reach <= len(prefixes) + extra, 'too-large', f'{ctx}: {m.n_reach} states for {len(prefixes)} prefixes', **wit)
    mon.check(sorted(m.listed) == list(range(m.n_reach)), 'state-list',
              f'{ctx}: lists {len(m.listed)} states, {m.n_reach} reachable', **wit)
    ids = [s.state_id for s in model.states]
    mon.check(len(set(ids)) == len(ids), 'state-ids', f'{ctx}: state ids {ids}', **wit)
    return m


def sample(rng, m, nw=None, hi=12):
    nw = rng.randint(1, 40) if nw is None else nw
    ws = [word(rng, m.A, 0, rng.choice([2, 5, hi])) for _ in range(nw)]
    if m.kind == 'mealy':
        ws = [w[:i] for w in ws for i in range(1, len(w) + 1)]
    if rng.random() < .3 and m.kind != 'mealy':
        ws = [w[:i] for w in ws for i in range(len(w) + 1)]
    if rng.random() < .3:
        ws += rng.sample(ws, len(ws) // 2)
    data = [(w, fresh(m.answer(w)[-1])) for w in ws]
    rng.shuffle(data)
    if rng.random() < .3:
        data = [(list(w), l) for w, l in data]
    return data


def describe(data):
    return [(list(w), l) for w, l in data][:60]


def do_conform(rng, mon, idx):
    kind = ('dfa', 'moore', 'mealy')[idx % 3]
    alg = ALGS[idx // 3 % 3]
    m = permuted(rng, gen_dm(rng, kind, none=False, nmax=8))
    data = sample(rng, m, hi=10 if alg == 'classic' else 16, nw=rng.randint(1, 12) if alg == 'classic' else rng.choice([None, None, None, 120]))
    if not data:
        return
    compl = rng.choice([None, None, 'sink_state', 'self_loop'])
    wit = dict(algorithm=alg, kind_=kind, completeness=compl, data=describe(data))
    mine = copy.deepcopy(data)
    model = learn(mine, kind, alg, compl)
    mon.check(mine == data, 'data-changed', f'{alg}: the data of the caller was changed', **wit)
    h = check_model(mon, model, kind, data, wit, alg, compl == 'sink_state')
    if compl:
        A = set(map(repr, {a for w, _ in data for a in w}))
        for s in model.states:
            mon.check(set(map(repr, s.transitions)) == A, 'not-input-complete',
                      f'{alg}: state {s.state_id} has transitions on {list(s.transitions)} after {compl}', **wit)
    mon.seen(alg, compl, kind, describe(data))
    mon.sample(algorithm=alg, kind=kind, data=describe(data)[:5], states=h.n_reach)


def do_exact(rng, mon, idx):
    """all words up to length 2n: the only consistent answer of state merging in this order is the minimal machine"""
    kind = ('dfa', 'moore', 'mealy')[idx % 3]
    alg = ALGS[idx // 3 % 3]
    n = rng.randint(1, 3 if alg == 'classic' else 4)
    m = permuted(rng, gen_dm(rng, kind, none=False, nmax=n, nmin=min(n, 2), amax=2, broad=0))
    mm = m.minimize()
    L = 2 * mm.n
    if alg == 'classic' and len(m.A) > 1:
        L = min(L, 6)
        if mm.n > 3:
            return
    words, layer = [()], [()]
    for _ in range(L):
        layer = [w + (a,) for w in layer for a in m.A]
        words += layer
    data = [(w, m.answer(w)[-1]) for w in words if w or kind != 'mealy']
    rng.shuffle(data)
    wit = dict(algorithm=alg, target=m.describe())
    model = learn(list(data), kind, alg)
    mon.ev('exact_models')
    check_learned(mon, model, m, ctx=f'{alg} from all words up to length {L}')
    mon.seen('exact', alg, m.canon())


def do_arbitrary(rng, mon, idx):
    """labels that come from no small machine"""
    kind = ('dfa', 'moore', 'mealy')[idx % 3]
    alg = ALGS[idx // 3 % 3]
    A = ALPHABETS[rng.choice(['str', 'chr', 'int', 'tuple', 'neg'])](rng.randint(1, 3))
    O = [False, True] if kind == 'dfa' else OUTPUTS[rng.choice(['str', 'int', 'falsy', 'tuple', 'mixed', 'bool'])](
        rng.randint(2, 4))
    ws = {word(rng, A, 0, rng.choice([3, 7])) for _ in range(rng.randint(1, 14))}
    if kind == 'mealy':
        ws = {w[:i] for w in ws for i in range(1, len(w) + 1)}
    data = [(w, rng.choice(O)) for w in sorted(ws, key=repr)]
    rng.shuffle(data)
    if not data:
        return
    wit = dict(algorithm=alg, kind_=kind, data=describe(data))
    mine = copy.deepcopy(data)
    model = learn(mine, kind, alg)
    mon.ev('arbitrary_label_sets')
    mon.check(mine == data, 'data-changed', f'{alg}: the data of the caller was changed', **wit)
    check_model(mon, model, kind, data, wit, alg)
    mon.seen(alg, kind, describe(data))


def do_contra(rng, mon, idx):
    kind = ('dfa', 'moore', 'mealy')[idx % 3]
    alg = ALGS[idx // 3 % 3]
    m = permuted(rng, gen_dm(rng, kind, none=False, nmax=6))
    data = sample(rng, m, nw=rng.randint(1, 10), hi=8)
    O = [False, True] if kind == 'dfa' else OUTPUTS['str'](3) + [0, 1]
    if not data:
        return
    w, l = rng.choice(data)
    o = rng.choice([x for x in O if x != l])
    data.insert(rng.randrange(len(data) + 1), (tuple(w), o))
    wit = dict(algorithm=alg, kind_=kind, word=w, data=describe(data))
    model = learn(list(data), kind, alg)
    mon.ev('contradictions')
    mon.check(model is None, 'contradiction-accepted', f'{alg}: {w} is labelled {l!r} and {o!r}, yet a model was returned',
              **wit)
    mon.seen(alg, kind, describe(data))


def do_deep(rng, mon, idx):
    """a few samples longer than the recursion limit of the interpreter"""
    kind = ('dfa', 'moore', 'mealy')[idx % 3]
    alg = ALGS[idx // 3 % 3]
    m = permuted(rng, gen_dm(rng, kind, none=False, nmax=3, amax=2))
    n = rng.randint(1050, 1300)
    ws = [word(rng, m.A, n, n) for _ in range(rng.randint(1, 2))] + [word(rng, m.A, 1, 6) for _ in range(rng.randint(0, 6))]
    data = [(w, fresh(m.answer(w)[-1])) for w in ws]
    wit = dict(algorithm=alg, kind_=kind, target=m.describe(), lengths=[len(w) for w in ws])
    model = learn(list(data), kind, alg)
    check_model(mon, model, kind, data, wit, alg)
    mon.ev('long_samples')
    mon.seen('deep', alg, kind, describe(data))


def do_papni(rng, mon, idx):
    alg = ('gsm', 'classic', 'edsm')[idx % 3]
    rv = structured(rng) if rng.random() < .4 else gen_rv(rng, nmax=4)
    if rng.random() < .4:
        rv = relettered(rng, rv)
    al = VpaAlphabet(list(rv.I), list(rv.C), list(rv.R))
    ws = [gen_word(rng, rv, 0, 10 if alg == 'classic' else 14) for _ in range(rng.randint(1, 14 if alg == 'classic' else 60))]
    data = [((w if rng.random() < .5 else list(w)), rv.accepts(w)) for w in ws]

    def balanced(w):
        d = 0
        for a in w:
            d += (a in rv.C) - (a in rv.R)
            if d < 0:
                return False
        return d == 0

    wit = dict(algorithm=alg, alphabet=str(al), data=describe(data))
    mine = copy.deepcopy(data)
    with contextlib.redirect_stdout(io.StringIO()):
        model = run_PAPNI(mine, al, algorithm=alg, print_info=False)
    mon.check(mine == data, 'data-changed', f'PAPNI({alg}): the data of the caller was changed', **wit)
    mon.check(type(model) is Vpa, 'type', f'PAPNI({alg}) returned {type(model).__name__}', **wit)
    for w, l in data:
        if not balanced(w):
            continue
        mon.ev('papni_words')
        # own interpreter over the public transitions
        s, st, ok = model.initial_state, [], True
        for a in w:
            nxt = None
            for t in s.transitions.get(a, []):
                if t.action == 'push':
                    nxt = t
                elif t.action == 'pop':
                    if st and st[-1] == t.stack_guard:
                        nxt = t
                else:
                    nxt = t
            if nxt is None:
                ok = False
                break
            if nxt.action == 'push':
                st.append(nxt.stack_guard)
            elif nxt.action == 'pop':
                st.pop()
            s = nxt.target_state
        got = bool(ok and s.is_accepting and not st)
        mon.check(ok, 'undefined', f'PAPNI({alg}): sample {w} is not defined in the model', **wit)
        mon.check(got == l, 'sample-violated', f'PAPNI({alg}): sample {w} labelled {l}, model says {got}', **wit)
        if w:
            model.reset_to_initial()
            got = [model.step(a) for a in w][-1]
            mon.check(bool(got) == l, 'sample-violated', f'PAPNI({alg}): executing {w} gives {got}, label {l}', **wit)
    mon.seen(alg, describe(data))


def do_active(rng, mon, idx):
    kind = ('dfa', 'moore', 'mealy')[idx % 3]
    m = permuted(rng, gen_dm(rng, kind, none=False, nmax=6))
    data = sample(rng, m, nw=rng.randint(1, 10), hi=8)
    if not any(w for w, _ in data):
        return
    sul = RefSUL(m, mon, strict=True, log=True)
    n = rng.randint(1, 4)
    walks, lo = rng.randint(1, 10), rng.randint(1, 4)
    hi = lo + rng.randint(0, 6)
    inner = RandomWordSampler(walks, lo, hi)
    batches, models = [], []

    class Spy(RpniActiveSampler):
        def sample(self, s, model):
            models.append(model)
            known = {a for w, _ in data for a in w} | {a for b in batches for w, _ in b for a in w}
            before = len(sul.log)
            r = inner.sample(s, model)
            runs = sul.log[before:]
            mon.check(len(runs) == walks and all(lo <= len(x) <= hi and all(a in known for a in x) for x in runs),
                      'sampler', f'{walks} walks of length {lo}..{hi} over {known} requested, executed {runs}')
            batches.append(copy.deepcopy(r))
            return r

    wit = dict(target=m.describe(), data=describe(data), iterations=n)
    with contextlib.redirect_stdout(io.StringIO()):
        model = run_active_RPNI(copy.deepcopy(data), sul, Spy(), n, kind, print_info=False)
    mon.ev('active_runs')
    mon.check(len(batches) == n, 'iterations', f'{len(batches)} samplings in {n} iterations', **wit)
    mon.check(model is models[-1], 'iterations', 'the returned model is not that of the last iteration', **wit)
    have = list(data)
    for mod, b in zip(models, batches):
        check_model(mon, mod, kind, have, wit, 'active RPNI')
        for w, l in b:
            mon.check(same(m.answer(tuple(w))[-1] if w or kind != 'mealy' else None, l), 'sampler',
                      f'sample {w} labelled {l!r}, the system says {m.answer(tuple(w))}', **wit)
        got = {tuple(w) for w, _ in b}
        have += b
    for run_ in sul.log:
        mon.check(any(tuple(run_) in {tuple(w) for w, _ in b} for b in batches), 'sampler', f'walk {run_} is not in the '
                  f'samples', **wit)
    mon.seen('active', m.canon(), n, describe(data))


def run(family, idx, rng, mon):
    globals()['do_' + family](rng, mon, idx)
