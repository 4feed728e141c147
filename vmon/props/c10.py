"""Query cache: transparent, never re-asks, counts correctly; contradictory answers stop learning at once."""
from aalpy import run_KV, run_Lstar
from aalpy.base import SUL
from aalpy.base.SUL import CacheSUL
from aalpy.learning_algs import run_adaptive_Lsharp, run_Lsharp

from ..aal import ExactOracle, RefSUL, build
from ..core import Skip, Violation
from ..gen import gen_dm, mutate, permuted, word
from ..orc import learn, make, small
from ..ref import check_learned, same

ID = 'C10'
RULE = ('A case is (a) a random operation sequence on a cached system against a dictionary model, (b) a complete '
        'learning run whose executed queries are logged, or (c) a learning run on a system with an injected fault '
        '(transient or permanent output fault, missed reset, wrong sample). Distinct = (family, configuration, system, '
        'fault point); non-trivial = a cached word was asked again, or a contradiction was observed.')
FLOORS = {'cache_hits': 20000, 'cache_misses': 10000, 'contradictions_stopped': 1500, 'clean_runs': 1500,
          'queries_compared': 20000}


def plan(tier):
    q = tier == 'quick'
    return [('ops', 24000 if q else 120000), ('learning', 12000 if q else 48000), ('fault', 30000 if q else 120000),
            ('fault_ops', 12000 if q else 60000)]


def run(family, idx, rng, mon):
    globals()[family](idx, rng, mon)


def bump(x):
    return not x if isinstance(x, bool) else (x, '!')


def ops(idx, rng, mon):
    k = ('dfa', 'moore', 'mealy')[idx % 3]
    ct = ('tree', 'dict')[idx // 3 % 2]
    t = small(rng, k, nmax=8, amax=4)
    rsul = RefSUL(t, mon, strict=True, log=True)
    sul = CacheSUL(rsul, cache_type=ct)
    known, q, n, hit = {}, 0, 0, 0
    hist = []
    for _ in range(rng.randint(2, 40)):
        r = rng.random()
        base = rng.choice(hist) if hist and rng.random() < .6 else ()
        w = (base[:rng.randint(0, len(base))] if rng.random() < .6 else base) + word(rng, t.A, 0, 3)
        hist.append(w)
        before = (rsul.real_resets, rsul.real_steps)
        if r < .6:
            if k == 'mealy' and not w:
                continue
            res = list(sul.query(w))
            want = t.answer(w) if k != 'mealy' or w else [None]
            ask = w not in known or not w
            if w or k != 'mealy':
                mon.check(len(res) == len(want) and all(map(same, res, want)), 'wrong-answer',
                          f'{ct} cache: query {list(w)} answered {res}, the system says {want}', system=t.describe(),
                          history=hist[-8:])
            d = (rsul.real_resets - before[0], rsul.real_steps - before[1])
            mon.check(d == ((1, len(w)) if ask else (0, 0)), 're-asked', f'{ct} cache: query {list(w)} caused {d} resets '
                      f'and steps, known={not ask}', history=hist[-8:])
            if ask:
                q, n = q + 1, n + len(w)
                mon.ev('cache_misses')
            else:
                hit += 1
                mon.ev('cache_hits')
            for i in range(1, len(w) + 1):
                known[w[:i]] = t.run(w[:i])[-1]
        elif r < .8:
            sul.pre()
            outs = [sul.step(a) for a in w]
            sul.post()
            mon.check(all(map(same, outs, t.run(w))), 'wrong-answer', f'{ct} cache: steps {list(w)} answered {outs}')
            mon.check(rsul.real_steps - before[1] == len(w), 're-asked', f'{ct} cache: interactive steps not executed')
            for i in range(1, len(w) + 1):
                known[w[:i]] = t.run(w[:i])[-1]
        elif r < .9:
            sul.cache.add_to_cache(w, tuple(t.run(w)))
            for i in range(1, len(w) + 1):
                known[w[:i]] = t.run(w[:i])[-1]
        else:
            res = sul.cache.in_cache(w)
            if w:
                if w in known:
                    mon.check(res is not None and list(res) == t.run(w), 'wrong-answer',
                              f'{ct} cache holds {res} for {list(w)}, observed {t.run(w)}')
                else:
                    mon.check(res is None, 'wrong-answer', f'{ct} cache invents {res} for {list(w)}')
        mon.check((sul.num_queries, sul.num_steps, sul.num_cached_queries) == (q, n, hit), 'statistics',
                  f'{ct} cache counts {sul.num_queries} queries, {sul.num_steps} steps, {sul.num_cached_queries} hits; '
                  f'observed {q}, {n}, {hit}')
        mon.ev('queries_compared')
    if hit:
        mon.seen('ops', ct, t.canon(), tuple(map(repr, hist)))


LEARN = ['lstar', 'lstar_rs', 'lstar_none', 'kv', 'kv_lin']


def learning(idx, rng, mon):
    k = ('dfa', 'moore', 'mealy')[idx % 3]
    t = permuted(rng, gen_dm(rng, k, nmax=10, amax=3))
    learner = LEARN[idx // 3 % len(LEARN)]
    rsul = RefSUL(t, mon, strict=True, log=True)
    eq = ExactOracle(t, rsul, rng, 'short', max_rounds=4 * t.n + 10, mon=mon)
    m, info = learn(learner, k, rng, list(t.A), rsul, eq, True, return_data=True)
    check_learned(mon, m, t)
    seen = set()
    for w in map(tuple, rsul.log):
        if w:
            mon.check(w not in seen, 're-asked', f'{learner} with the cache executed {list(w)} although its answer was '
                                                 f'known', system=t.describe())
        for i in range(1, len(w) + 1):
            seen.add(w[:i])
        mon.ev('cache_misses')
    mon.ev('queries_compared', len(rsul.log))
    if info['cache_saved']:
        mon.seen('learning', learner, t.canon())


class FaultySUL(SUL):
    """A system with an injected fault; records every observation and notices contradictions itself."""

    def __init__(self, t, rng, fault, at, mon):
        super().__init__()
        self.t, self.rng, self.fault, self.at, self.mon = t, rng, fault, at, mon
        self.alt = mutate(rng, t, 2)
        self.m = t
        self.s = t.init
        self.cur = ()
        self.obs = {}
        self.obs0 = t.so[t.init] if t.kind != 'mealy' else None
        self.contradiction = None
        self.resets = self.steps = 0
        self.injected = False
        self.flips = 0

    def pre(self):
        if self.contradiction:
            raise Violation('contradiction-missed', f'the answer to {self.contradiction[0]} contradicted an earlier one '
                            f'({self.contradiction[1]!r} after {self.contradiction[2]!r}) and learning went on with '
                            f'another interaction', fault=self.fault, at=self.at, system=self.t.describe())
        self.resets += 1
        if self.resets > 1500 or self.steps > 8000:
            # no two answers contradict each other: the faults make up a different, larger system
            raise Skip('consistent fault, exploration stopped')
        self.cur = ()
        if self.fault == 'noreset' and not self.injected and self.steps >= self.at:
            self.injected = True
        else:
            self.s = self.m.init

    def post(self):
        pass

    def step(self, letter):
        if letter is None:
            if self.t.kind != 'mealy' and self.m.so[self.s] != self.obs0:
                # contradictory answers to the empty word: outside the property
                raise Skip('initial output changed')
            return self.m.so[self.s] if self.t.kind != 'mealy' else None
        self.steps += 1
        if self.fault == 'drift' and self.steps == self.at:
            self.m, self.injected = self.alt, True
        o = self.m.out(self.s, letter)
        self.s = self.m.d[self.s][letter]
        self.cur += (letter,)
        if (self.fault == 'flip' and self.steps == self.at) or (
                self.fault == 'rare' and self.flips < 3 and self.rng.random() < 2 / (1 + self.at)):
            self.flips += 1
            o = bump(o)
            self.injected = True
        if self.cur in self.obs:
            if self.obs[self.cur] != o and self.contradiction is None:
                self.contradiction = (self.cur, o, self.obs[self.cur])
        else:
            self.obs[self.cur] = o
        return o


FAULTS = ['flip', 'drift', 'noreset', 'rare', 'sample', 'none']
FLEARN = ['lstar', 'lstar_rs', 'lstar_none', 'kv', 'lsharp', 'adaptive']


def fault(idx, rng, mon):
    k = ('dfa', 'moore', 'mealy')[idx % 3]
    f = FAULTS[idx // 3 % len(FAULTS)]
    learner = FLEARN[idx // 18 % len(FLEARN)]
    if f == 'sample' and learner == 'kv':
        learner = 'lstar'
    t = small(rng, k, nmax=7)
    at = rng.choice([rng.randint(1, 30), rng.randint(1, 150), rng.randint(1, 300)])
    sul = FaultySUL(t, rng, f, at, mon)
    A = list(t.A)
    name = rng.choice(['RandomWord', 'StatePrefix', 'KWayState', 'BFS', 'Cache', 'RandomW', 'TransitionFocus', 'Pac'])
    eq, p = make(rng, name, A, sul, t, t.n)
    kw = dict(max_learning_rounds=12)
    if f == 'sample' or (learner != 'kv' and rng.random() < .2):
        kw['samples'] = []
        for _ in range(rng.randint(1, 5)):
            w = word(rng, t.A, 1, 6)
            o = t.run(w)
            for i in range(len(w)):
                o[i] = sul.obs.setdefault(w[:i + 1], o[i])
            if f == 'sample' and not sul.injected:
                i = next((i for i in range(rng.randrange(len(w)), len(w)) if True), 0)
                fresh = [j for j in range(i, len(w))]
                j = fresh[0]
                if not any(v == w[:j + 1] for s, _ in kw['samples'] for v in (s[:x] for x in range(1, len(s) + 1))):
                    o[j] = bump(o[j])
                    sul.obs[w[:j + 1]] = o[j]
                    sul.injected = True
            kw['samples'].append((w, tuple(o)))
    what = f'{learner} with {name} oracle, fault {f} at step {at}'
    try:
        if learner == 'adaptive':
            run_adaptive_Lsharp(A, sul, [build(mutate(rng, t, 1))], eq, k, print_level=0, **kw)
        else:
            learn(learner, k, rng, A, sul, eq, True, **kw)
    except SystemExit as e:
        mon.check(sul.contradiction is not None, 'false-alarm', f'{what}: learning aborted ({str(e)[:80]!r}...) although '
                  f'no two answers contradicted each other', system=t.describe())
        mon.ev('contradictions_stopped')
        mon.seen('fault', learner, f, at, name, t.canon())
    else:
        mon.check(sul.contradiction is None, 'contradiction-missed', f'{what}: learning finished although the answer to '
                  f'{sul.contradiction} contradicted an earlier one', system=t.describe())
        mon.ev('clean_runs')
    mon.ev('fault_injected', sul.injected)
    mon.sample(learner=learner, oracle=name, fault=f, at=at, contradiction=sul.contradiction, resets=sul.resets)


def fault_ops(idx, rng, mon):
    """operation sequences on a cached faulty system: an exception exactly when an answer contradicts an earlier one"""
    k = ('dfa', 'moore', 'mealy')[idx % 3]
    ct = ('tree', 'dict')[idx // 3 % 2]
    t = small(rng, k, nmax=6)
    f = rng.choice(['flip', 'drift', 'noreset', 'rare'])
    inner = FaultySUL(t, rng, f, rng.randint(1, 60), mon)
    sul = CacheSUL(inner, cache_type=ct)
    what = f'{ct} cache, fault {f}'
    try:
        for _ in range(rng.randint(2, 40)):
            w = word(rng, t.A, 1, 5)
            r = rng.random()
            if r < .5:
                sul.query(w)
            elif r < .85:
                sul.pre()
                for a in w:
                    sul.step(a)
                    mon.check(inner.contradiction is None, 'contradiction-missed', f'{what}: step {a!r} contradicted '
                              f'{inner.contradiction}, no error', system=t.describe())
                sul.post()
            else:
                o = t.run(w)
                for i in range(len(w)):
                    if w[:i + 1] in inner.obs and inner.obs[w[:i + 1]] != o[i]:
                        inner.contradiction = (w[:i + 1], o[i], inner.obs[w[:i + 1]])
                        break
                    inner.obs[w[:i + 1]] = o[i]
                sul.cache.add_to_cache(w, tuple(o))
            mon.check(inner.contradiction is None, 'contradiction-missed', f'{what}: {inner.contradiction} contradicted '
                      f'an earlier answer, no error', system=t.describe())
    except SystemExit as e:
        mon.check(inner.contradiction is not None, 'false-alarm', f'{what}: {str(e)[:100]}', system=t.describe())
        mon.ev('contradictions_stopped')
        mon.seen('fault_ops', ct, f, inner.at, t.canon())
    else:
        mon.ev('clean_runs')
