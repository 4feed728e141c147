"""Equivalence oracles do not lie: counterexamples are real, "none" means nothing was seen, hypotheses stay intact."""
from ..orc import NAMES, NdSession, Session, possible
from ..ref import same

ID = 'C07'
RULE = ('A case is one session of one equivalence oracle (15 oracles, random parameters), asked directly about 1-4 '
        'hypotheses or driven by L*, KV or L#; every executed test is logged at the system. Distinct = (oracle, '
        'parameters, system, hypothesis); non-trivial = at least one test was executed or a counterexample returned.')
FLOORS = {'answers_none': 8000, 'answers_cex': 12000, 'tests_compared': 200000, 'nd_cex': 3000, 'nd_none': 3000, 'nd_tests': 40000}


def plan(tier):
    q = tier == 'quick'
    return [('direct', 36000 if q else 180000), ('learning', 24000 if q else 120000), ('nondet', 8000 if q else 60000)]


def nondet(idx, rng, mon):
    name = ('RandomWalk', 'RandomWord')[idx % 2]
    kind = ('onfsm', 'mdp', 'smm')[idx // 2 % 3]
    s = NdSession(rng, name, kind)
    for i, a in enumerate(s.asks):
        what = s.what(i)
        mon.check(not a.corrupted, 'hypothesis-corrupted', f'{what}: the hypothesis was changed', **s.wit(a))
        for j, w in enumerate(a.tests):
            n = possible(a.hm, w)
            mon.ev('nd_tests')
            mon.check(n == len(w) or a.cex is not None and j == len(a.tests) - 1 and n == len(w) - 1, 'difference-ignored',
                      f'{what}: {w} was executed, the hypothesis can do {n} steps of it', **s.wit(a))
        if a.cex is None:
            mon.ev('nd_none')
        else:
            mon.ev('nd_cex')
            mon.check(bool(a.tests), 'bad-counterexample', f'{what}: {a.cex!r} without a test', **s.wit(a))
            w = a.tests[-1]
            if kind == 'onfsm':
                ok = isinstance(a.cex, tuple) and len(a.cex) == 2 and len(a.cex[0]) == len(a.cex[1])
                got = list(zip(*a.cex)) if ok else None
            else:
                c = list(a.cex)
                if kind == 'mdp':
                    mon.check(bool(c) and same(c[0], a.hm.so[a.hm.init]), 'bad-counterexample',
                              f'{what}: {a.cex!r} does not start with the initial output', **s.wit(a))
                    c = c[1:]
                got = list(zip(c[::2], c[1::2])) if len(c) % 2 == 0 else None
            mon.check(got is not None and len(got) == len(w) and all(same(x, y) and same(o, p) for (x, o), (y, p) in zip(got, w)),
                      'bad-counterexample', f'{what}: returned {a.cex!r} after executing {w}', **s.wit(a))
            mon.check(possible(a.hm, w) == len(w) - 1, 'bad-counterexample', f'{what}: {a.cex!r} is no first difference', **s.wit(a))
        mon.check((a.dq, a.ds) == (len(a.tests), sum(map(len, a.tests))), 'statistics',
                  f'{what}: counted {a.dq} queries, {a.ds} steps', **s.wit(a))
        if a.tests:
            mon.seen(name, kind, repr(a.hm.describe()), repr(s.m.describe()))
    mon.sample(oracle=name, hypothesis=kind, asks=len(s.asks), cexs=[repr(a.cex)[:200] for a in s.asks])


def run(family, idx, rng, mon):
    if family == 'nondet':
        return nondet(idx, rng, mon)
    name = NAMES[idx % len(NAMES)]
    k = ('dfa', 'moore', 'mealy')[idx // len(NAMES) % 3]
    s = Session(rng, mon, name, k, family == 'direct')
    t = s.t
    for i, a in enumerate(s.asks):
        what = s.what(i)
        for j, w in enumerate(a.tests):
            x, y = t.run(w), a.hm.run(w)
            d = next((p for p in range(len(w)) if x[p] != y[p]), None)
            mon.ev('tests_compared')
            if a.cex is None:
                mon.check(d is None, 'difference-ignored', f'{what}: answered "no counterexample" although its own '
                                                           f'test {list(w)} showed {x} against {y}', **s.wit(a))
            else:
                mon.check(d is None or j == len(a.tests) - 1, 'difference-ignored',
                          f'{what}: the test {list(w)} already showed a difference, but testing went on', **s.wit(a))
        if a.cex is None:
            mon.ev('answers_none')
        else:
            mon.ev('answers_cex')
            w = tuple(a.cex)
            mon.check(isinstance(a.cex, (tuple, list)) and len(w) > 0 and all(b in t.A for b in w),
                      'bad-counterexample', f'{what}: returned {a.cex!r}', **s.wit(a))
            x, y = t.run(w), a.hm.run(w)
            mon.check(x[-1] != y[-1] and all(p == q for p, q in zip(x[:-1], y[:-1])), 'bad-counterexample',
                      f'{what}: returned {list(w)}; system answers {x}, hypothesis {y}; not a word whose last output '
                      f'is the first difference', **s.wit(a))
        if a.tests or a.cex is not None:
            mon.seen(name, repr(sorted(s.p.items(), key=repr)), t.canon(), a.hm.canon())
    mon.check(s.oracle.alphabet == list(t.A), 'alphabet-changed', f'{s.what()}: alphabet became {s.oracle.alphabet}')
    mon.sample(oracle=name, learner=s.learner, params=s.p, asks=len(s.asks), tests=sum(len(a.tests) for a in s.asks),
               cexs=[a.cex for a in s.asks][:4])
