"""Alergia: the learned stochastic model is the one determined by the data and the compatibility test."""
import contextlib
import copy
import io
import random

from aalpy.SULs import AutomatonSUL
from aalpy.learning_algs import run_Alergia, run_Alergia_EDSM
from aalpy.learning_algs.stochastic_passive.ActiveAleriga import RandomWordSampler, Sampler, run_active_Alergia
from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import CompatibilityChecker

from ..gen import word
from ..ref import fresh, same
from ..stoch import SM, bisim_sm, build_sm, gen_sm, read_sm
from .c16 import ref_hoeffding, reference

ID = 'C17'
RULE = ('A case samples traces of a stochastic machine, runs Alergia (or EDSM Alergia, or active Alergia) and compares '
        'the model with an independent merger, and every probability with the frequency obtained by replaying the data '
        'on the model. Distinct = (kind, parameters, data).')
FLOORS = {'alergia_models': 1500, 'traces_replayed': 30000, 'probabilities': 10000, 'edsm_models': 600, 'active_models': 300,
          'merged_models': 600}
KINDS = ('mdp', 'smm', 'mc')
CLS = {'mdp': 'Mdp', 'smm': 'StochasticMealyMachine', 'mc': 'MarkovChain'}


def plan(tier):
    q = tier == 'quick'
    return [('alergia', 7500 if q else 45000), ('custom', 1500 if q else 9000), ('edsm', 3000 if q else 18000),
            ('active', 1500 if q else 9000), ('deep', 24 if q else 120)]


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def machine(rng, k, nmax=4):
    alph = rng.choice(['str', 'chr', 'int'])
    outs = rng.choice(['str', 'int'])
    return gen_sm(rng, k, nmax=nmax, amax=3, omax=4, outs=outs, alph=alph)


def traces(rng, m, n=None, hi=None):
    hi = hi or rng.choice([2, 5, 9])
    n = n or rng.randint(1, rng.choice([5, 40, 150]))
    res = []
    for _ in range(n):
        s, tr = m.init, []
        for _ in range(rng.randint(0 if rng.random() < .1 else 1, hi)):
            a = None if m.kind == 'mc' else rng.choice(m.A)
            opts = m.options(s, a)
            if not opts:
                break
            o, s, p = rng.choices(opts, [e[2] for e in opts])[0]
            tr.append((fresh(a), fresh(o)))
        res.append(tr)
    return res


def as_input(m, trs):
    o0 = m.so[m.init] if m.so is not None else None
    if m.kind == 'mc':
        return [[o0] + [o for _, o in t] for t in trs]
    if m.kind == 'mdp':
        return [[o0] + list(t) for t in trs]
    return [list(t) for t in trs]


def replay(mon, sm, trs, kind, wit):
    """every probability is the relative frequency in the data"""
    cnt, tot = {}, {}
    for tr in trs:
        s = sm.init
        for a, o in tr:
            e = [x for x in sm.options(s, None if kind == 'mc' else a) if same(x[0], o)]
            mon.check(len(e) == 1, 'trace-lost', f'{kind}: {len(e)} transitions for {(a, o)!r} while replaying {tr}', **wit)
            k = (s, None if kind == 'mc' else a)
            tot[k] = tot.get(k, 0) + 1
            cnt[k + (e[0][1], repr(o))] = cnt.get(k + (e[0][1], repr(o)), 0) + 1
            s = e[0][1]
        mon.ev('traces_replayed')
    for s in range(len(sm.t)):
        for a, l in sm.t[s].items():
            for o, t, p in l:
                mon.ev('probabilities')
                c, n = cnt.get((s, a, t, repr(o)), 0), tot.get((s, a), 0)
                mon.check(n and abs(p - c / n) < 1e-9, 'probability',
                          f'{kind}: probability of {a!r}/{o!r} is {p}, the data say {c}/{n}', **wit)


def check(mon, model, m, trs, wit):
    kind = m.kind
    mon.check(type(model).__name__ == CLS[kind], 'type', f'{type(model).__name__} for {kind}', **wit)
    sm = read_sm(model)
    if m.so is not None:
        mon.check(same(sm.so[0], m.so[m.init]), 'output', f'initial output {sm.so[0]!r}', **wit)
    mon.check(sorted(sm.listed) == list(range(sm.n_reach)) and len({s.state_id for s in model.states}) == len(model.states),
              'states', f'{len(model.states)} states listed, {sm.n_reach} reachable', **wit)
    replay(mon, sm, trs, kind, wit)
    return sm


def ref_model(m, ref):
    G, outp, red, pre = ref
    ix = {r: i for i, r in enumerate(red)}
    t = []
    for r in red:
        row = {}
        for (a, o), e in G[r].items():
            row.setdefault(a, []).append((o, e[0], e[1]))
        t.append({a: [(o, ix[x], c / sum(y[2] for y in l)) for o, x, c in l] for a, l in row.items()})
    return SM(m.kind, m.A, t, [outp[r] for r in red] if m.so is not None else None, ix[0])


def ref_alergia(m, trs, local):
    """None if the outcome depends on rounding, or on the order in which subtrees are folded into a state (that decides
    which of several tree nodes lends its original counts to a new state)"""
    res = []
    for fold in (0, 1, 2):
        ref = reference(trs, m.so[m.init] if m.so is not None else None, 'mealy' if m.kind == 'smm' else 'moore', local, 'pta',
                        lambda p: (len(p), p), True, fold)
        res.append(ref_model(m, ref))
        if res[0].n != res[-1].n or bisim_sm(res[0], res[-1], tol=1e-9) is not None:
            return None
    return None if hasattr(local, 'margin') and local.margin[0] < 1e-9 else res[0]


def own_checker(rng, mon):
    """a compatibility checker of the user, and the same as a local test of the reference"""
    style = rng.choice(['never', 'always', 'count', 'keys'])
    fun = {'never': lambda a, b: False, 'always': lambda a, b: True, 'count': lambda a, b: sum(a.values()) % 3 != sum(b.values()) % 3,
           'keys': lambda a, b: len(a) != len(b)}[style]

    class Checker(CompatibilityChecker):
        def are_states_different(self, a, b, **kwargs):
            mon.ev('custom_tests')
            return fun(a.original_input_frequency, b.original_input_frequency)

    def local(x, y, d):
        X = {io: e[3] for io, e in x.items() if e[3]}
        Y = {io: e[3] for io, e in y.items() if e[3]}
        return True if not X or not Y else not fun(X, Y)

    return Checker(), local, style


def do_alergia(rng, mon, idx, custom=False):
    m = machine(rng, KINDS[idx % 3])
    trs = traces(rng, m)
    data = as_input(m, trs)
    steps = sum(map(len, trs))
    eps = rng.choice([.005, .05, .05, .3, 1, 1.9, 2, 'auto'])
    wit = dict(model_kind=m.kind, eps=eps, data=data[:60])
    mine = copy.deepcopy(data)
    kw = {}
    if custom:
        kw['compatibility_checker'], local, wit['checker'] = own_checker(rng, mon)
    else:
        local = ref_hoeffding(min(10 / max(1, steps), 2) if eps == 'auto' else eps, True)
    if rng.random() < .9 or custom:
        kw['eps'] = eps if not custom else .05
    else:
        wit['eps'] = 'default'
        if not custom:
            local = ref_hoeffding(.05, True)
    model = quiet(run_Alergia, mine, fresh(m.kind), **kw)
    mon.ev('alergia_models')
    mon.check(mine == data, 'data-changed', 'the data of the caller was changed', **wit)
    sm = check(mon, model, m, trs, wit)
    exp = ref_alergia(m, trs, local)
    if exp is None:
        mon.ev('order_dependent')
        return
    if exp.n < len({p for t in trs for p in [tuple(t[:i]) for i in range(len(t) + 1)]}):
        mon.ev('merged_models')
    msg = bisim_sm(exp, sm, tol=1e-9)
    mon.check(msg is None and exp.n == len(model.states), 'model', f'{m.kind}: {len(model.states)} states, reference {exp.n}; '
                                                                   f'{msg}', reference=exp.describe(), **wit)
    mon.seen('alergia', wit)
    mon.sample(**{k: v for k, v in wit.items() if k != 'data'}, traces=data[:2], states=exp.n)


def do_custom(rng, mon, idx):
    do_alergia(rng, mon, idx, True)


def do_deep(rng, mon, idx):
    """traces longer than the recursion limit of the interpreter"""
    m = machine(rng, KINDS[idx % 3])
    trs = []
    for _ in range(rng.randint(1, 3)):
        st, tr, want = m.init, [], rng.randint(1050, 1300)
        while len(tr) < want:
            a = None if m.kind == 'mc' else rng.choice(m.A)
            opts = m.options(st, a)
            if not opts:
                break
            o, st, p = rng.choices(opts, [e[2] for e in opts])[0]
            tr.append((fresh(a), fresh(o)))
        trs.append(tr)
    trs += traces(rng, m, rng.randint(1, 10))
    edsm = idx // 3 % 3 == 2 and m.kind != 'mc'
    eps = rng.choice([0.05, 0.005] + ['auto'] * (not edsm))
    wit = dict(kind_=m.kind, eps=eps, lengths=[len(t) for t in trs], machine=m.describe())
    data = as_input(m, trs)
    model = quiet(run_Alergia_EDSM, data, fresh(m.kind), eps=eps) if edsm else quiet(run_Alergia, data, fresh(m.kind), eps=eps)
    check(mon, model, m, trs, wit)
    mon.ev('long_traces')
    mon.seen('deep', m.kind, edsm, eps, [len(t) for t in trs], repr(trs[0][:40]))


def do_edsm(rng, mon, idx):
    m = machine(rng, KINDS[idx % 3])
    trs = traces(rng, m)
    if rng.random() < .03:      # nothing was done: a model of one state
        trs = [[] for _ in trs]
    data = as_input(m, trs)
    eps = rng.choice([.005, .05, .3, 1])
    wit = dict(model_kind=m.kind, eps=eps, data=data[:60])
    mine = copy.deepcopy(data)
    model = quiet(run_Alergia_EDSM, mine, fresh(m.kind), eps=eps, print_info=False)
    mon.ev('edsm_models')
    mon.check(mine == data, 'data-changed', 'the data of the caller was changed', **wit)
    check(mon, model, m, trs, wit)
    mon.seen('edsm', wit)


def do_active(rng, mon, idx):
    k = ('mdp', 'smm')[idx % 2]
    m = machine(rng, k, nmax=3)
    trs = traces(rng, m, n=rng.randint(1, 15), hi=4)
    if not any(trs):
        return
    data = as_input(m, trs)
    known = {repr(a) for t in trs for a, _ in t}
    target = build_sm(m)
    log = []

    class Sul(AutomatonSUL):
        def pre(self):
            super().pre()
            log.append([])

        def step(self, letter=None):
            o = super().step(letter)
            if letter is not None:
                log[-1].append((letter, o))
            return o

    sul = Sul(target)
    n, walks, lo = rng.randint(1, 4), rng.randint(1, 8), rng.randint(1, 4)
    hi = lo + rng.randint(0, 4)
    inner = RandomWordSampler(walks, lo, hi)
    models, batches = [], []

    class Spy(Sampler):
        def sample(self, s, model):
            models.append(model)
            before = len(log)
            r = inner.sample(s, model)
            runs = [t for t in log[before:] if t]
            batches.append(runs)
            mon.check(len(runs) == walks and all(lo <= len(t) <= hi and all(repr(a) in known for a, _ in t) for t in runs),
                      'sampler', f'{walks} walks of length {lo}..{hi} over {known} requested, executed {runs}', **wit)
            exp = as_input(m, runs)
            key = lambda t: [repr(x) for x in t]
            mon.check(sorted(map(key, [list(x) for x in r])) == sorted(map(key, exp)), 'sampler',
                      f'sampled {list(r)[:4]}, the system did {exp[:4]}', **wit)
            return r

    eps = rng.choice([.05, .3, 1, 'auto'])
    kw, local = {}, None
    wit = dict(model_kind=k, eps=eps, iterations=n, walks=(walks, lo, hi), data=data, target=m.describe())
    if rng.random() < .4:
        kw['compatibility_checker'], local, wit['checker'] = own_checker(rng, mon)
        mon.ev('active_custom')
    model = quiet(run_active_Alergia, copy.deepcopy(data), sul, Spy(), n, eps=eps, automaton_type=k, print_info=False, **kw)
    mon.ev('active_models')
    mon.check(len(models) == n and model is models[-1], 'iterations', f'{len(models)} samplings in {n} iterations', **wit)
    have = list(trs)
    for mod, b in zip(models, batches):
        sm = check(mon, mod, m, have, wit)
        test = local or ref_hoeffding(min(10 / max(1, sum(map(len, have))), 2) if eps == 'auto' else eps, True)
        exp = ref_alergia(m, have, test)
        if exp is not None:
            msg = bisim_sm(exp, sm, tol=1e-9)
            mon.check(msg is None and exp.n == len(mod.states), 'model', f'active {k}: {len(mod.states)} states, reference '
                                                                         f'{exp.n}; {msg}', **wit)
        have += b
    mon.seen('active', wit)


def run(family, idx, rng, mon):
    globals()['do_' + family](rng, mon, idx)
