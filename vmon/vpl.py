"""Reference visibly pushdown automata: interpreter, exact equivalence on well-matched
words (summary search over the product), congruence check for single-entry automata."""
import heapq

from aalpy.base import SUL

from .core import StepBudget, Violation
from .ref import fresh

DEAD = -1


class RV:
    """Deterministic VPA. ii[s][a]->t ; cc[s][c]->(t, gamma) ; rr[s][(gamma, r)]->t ; missing = dead.
    A word is accepted iff it ends in an accepting state with an empty stack."""

    def __init__(self, I, C, R, ii, cc, rr, acc, init=0):
        self.I, self.C, self.R = list(I), list(C), list(R)
        self.ii, self.cc, self.rr, self.acc, self.init = ii, cc, rr, acc, init

    @property
    def A(self):
        return self.I + self.C + self.R

    def fin(self, s):
        return s != DEAD and self.acc[s]

    def internal(self, s, a):
        return DEAD if s == DEAD else self.ii[s].get(a, DEAD)

    def call(self, s, c):
        return (DEAD, None) if s == DEAD else self.cc[s].get(c, (DEAD, None))

    def ret(self, s, g, r):
        return DEAD if s == DEAD or g is None else self.rr[s].get((g, r), DEAD)

    def cfg0(self):
        return (self.init, ())

    def step(self, cfg, a):
        s, st = cfg
        if s == DEAD:
            return cfg
        if a in self.ci:
            t, g = self.call(s, a)
            return (DEAD, ()) if t == DEAD else (t, st + (g,))
        if a in self.ri:
            if not st:
                return (DEAD, ())
            t = self.ret(s, st[-1], a)
            return (DEAD, ()) if t == DEAD else (t, st[:-1])
        t = self.internal(s, a)
        return (DEAD, ()) if t == DEAD else (t, st)

    @property
    def ci(self):
        if not hasattr(self, '_ci'):
            self._ci, self._ri = set(self.C), set(self.R)
        return self._ci

    @property
    def ri(self):
        self.ci
        return self._ri

    def out(self, cfg):
        return bool(cfg[0] != DEAD and self.acc[cfg[0]] and not cfg[1])

    def run(self, w):
        c, res = self.cfg0(), []
        for a in w:
            c = self.step(c, a)
            res.append(self.out(c))
        return res

    def accepts(self, w):
        c = self.cfg0()
        for a in w:
            c = self.step(c, a)
        return self.out(c)

    def describe(self):
        return dict(I=self.I, C=self.C, R=self.R, init=self.init, acc=[int(bool(x)) for x in self.acc],
                    ii=self.ii, cc=self.cc, rr=self.rr)


def cex(A, B, rng=None, limit=400000):
    """A word on which acceptance differs (shortest if rng is None), or None if languages are equal."""
    if A.fin(A.init) != B.fin(B.init):
        return ()
    init = (A.init, B.init)
    reach = {}            # entry -> {state: word}
    heap, tick = [], 0
    callers = {}          # entry -> list of (entry0, word to call site, c, gA, gB)

    def push(e, s, w):
        nonlocal tick
        tick += 1
        heapq.heappush(heap, (len(w) if rng is None else len(w) + rng.random() * 6, tick, e, s, w))

    def returns(e0, w0, c, gA, gB, s, w):
        for r in A.R:
            t = (A.ret(s[0], gA, r), B.ret(s[1], gB, r))
            if t != (DEAD, DEAD):
                push(e0, t, w0 + (c,) + w + (r,))

    push(init, init, ())
    n = 0
    while heap:
        _, _, e, s, w = heapq.heappop(heap)
        tab = reach.setdefault(e, {})
        if s in tab:
            continue
        tab[s] = w
        n += 1
        if n > limit:
            raise RuntimeError('summary search too large')
        if e == init and A.fin(s[0]) != B.fin(s[1]):
            return w
        for a in A.I:
            t = (A.internal(s[0], a), B.internal(s[1], a))
            if t != (DEAD, DEAD):
                push(e, t, w + (a,))
        for c in A.C:
            (ta, ga), (tb, gb) = A.call(s[0], c), B.call(s[1], c)
            t = (ta, tb)
            if t == (DEAD, DEAD):
                continue
            callers.setdefault(t, []).append((e, w, c, ga, gb))
            push(t, t, ())
            for s2, w2 in list(reach.get(t, {}).items()):
                returns(e, w, c, ga, gb, s2, w2)
        for (e0, w0, c, ga, gb) in callers.get(e, []):
            returns(e0, w0, c, ga, gb, s, w)
    return None


class VSUL(SUL):
    def __init__(self, rv, mon=None, budget=3_000_000):
        super().__init__()
        self.rv, self.cfg, self.budget = rv, None, budget
        self.real_steps = self.real_resets = 0

    def pre(self):
        self.cfg = self.rv.cfg0()
        self.real_resets += 1
        if self.real_resets > self.budget:
            raise StepBudget(f'{self.real_resets} resets')

    def post(self):
        pass

    def step(self, letter):
        if letter is not None:
            self.cfg = self.rv.step(self.cfg, letter)
            self.real_steps += 1
            if self.real_steps > self.budget:
                raise StepBudget(f'{self.real_steps} steps')
        return self.rv.out(self.cfg)


def from_sevpa(model, I, C, R, ctx='model'):
    """RV read off the public structure of a Sevpa object."""
    if model is None or type(model).__name__ != 'Sevpa':
        raise Violation('wrong-type', f'{ctx} is {type(model).__name__}')
    states = list(model.states)
    ids = [s.state_id for s in states]
    if len(set(ids)) != len(ids):
        raise Violation('state-ids', f'{ctx}: duplicate state ids {ids}')
    if model.initial_state not in states:
        raise Violation('malformed-model', f'{ctx}: initial state not among its states')
    idx = {i: k for k, i in enumerate(ids)}
    oid = {id(s): k for k, s in enumerate(states)}
    init = oid[id(model.initial_state)]
    ii, rr = [], []
    Cs, Rs, Is = set(C), set(R), set(I)
    for s in states:
        a_, r_ = {}, {}
        for letter, lst in s.transitions.items():
            for t in lst:
                if id(t.target_state) not in oid:
                    raise Violation('malformed-model', f'{ctx}: transition to a state that is not listed')
                tgt = oid[id(t.target_state)]
                if letter in Is:
                    if a_.setdefault(letter, tgt) != tgt:
                        raise Violation('nondeterministic', f'{ctx}: two internal transitions on {letter!r}')
                elif letter in Rs:
                    g = t.stack_guard
                    if r_.setdefault((g, letter), tgt) != tgt:
                        raise Violation('nondeterministic', f'{ctx}: two return transitions on {letter!r}, {g!r}')
                else:
                    raise Violation('malformed-model', f'{ctx}: transition on unexpected letter {letter!r}')
        ii.append(a_)
        rr.append(r_)
    live_c = Cs
    cc = [{c: (init, (ids[k], c)) for c in live_c} for k in range(len(states))]
    rv = RV(I, C, R, ii, cc, rr, [bool(s.is_accepting) for s in states], init)
    rv.ids = ids
    return rv


def congruent_pairs(rv):
    """Pairs of live states of a single-entry automaton that no context separates."""
    n = rv_n = len(rv.acc)
    S = list(range(n)) + [DEAD]
    cls = {s: rv.fin(s) for s in S}
    while True:
        sig = {}
        for s in S:
            row = [cls[s]]
            for a in rv.I:
                row.append(cls[rv.internal(s, a)])
            for c in rv.C:
                for p in range(n):
                    for r in rv.R:
                        row.append(cls[rv.ret(s, (rv.ids[p], c), r)])
                        g = (rv.ids[s], c) if s != DEAD else None
                        row.append(cls[rv.ret(p, g, r)])
            sig[s] = tuple(row)
        m = {}
        new = {s: m.setdefault(sig[s], len(m)) for s in S}
        if len(m) == len(set(cls.values())):
            break
        cls = new
    by = {}
    for s in S:
        by.setdefault(cls[s], []).append(s)
    return [b for b in by.values() if len([x for x in b if x != DEAD]) > 1], cls


def gen_rv(rng, nmax=4, single_entry=None, amax=2, cmax=None):
    """Random deterministic VPA: single-entry or general, with dead ends, several call and
    return letters, sometimes no internal letters."""
    cmax = cmax or amax
    se = rng.random() < .6 if single_entry is None else single_entry
    n = rng.randint(1, nmax + (2 if se else 0))
    broad = rng.random() < .02      # now and then many letters
    if broad:
        n = min(n, 3)
    I = [f'i{j}' for j in range(rng.randint(0, 8 if broad else amax))]
    C = [f'c{j}' for j in range(rng.randint(1, 4 if broad else cmax))]
    R = [f'r{j}' for j in range(rng.randint(1, 6 if broad else cmax))]
    dens = rng.choice([.4, .7, 1.0])
    ii = [{a: rng.randrange(n) for a in I if rng.random() < max(dens, .6)} for _ in range(n)]
    if se:
        cc = [{c: (0, (s, c)) for c in C} for s in range(n)]
        G = [(s, c) for s in range(n) for c in C]
    else:
        G = [f'g{j}' for j in range(rng.randint(1, 2))]
        cc = [{c: (rng.randrange(n), rng.choice(G)) for c in C if rng.random() < max(dens, .7)} for _ in range(n)]
    rr = [{(g, r): rng.randrange(n) for g in G for r in R if rng.random() < dens} for _ in range(n)]
    p = rng.choice([.2, .4, .6])
    acc = [rng.random() < p for _ in range(n)]
    if not any(acc) and rng.random() < .9:
        acc[rng.randrange(n)] = True
    return RV(I, C, R, ii, cc, rr, acc, 0)


POOLS = (['', 'a', 'b', '(', ')', '[', ']', 'xy'], [0, 1, 2, 3, 4, 5, 6, 7], [(), (0,), (1, 2), ('a',), ('', 0), (None,), ('b', 'c'), (3,)],
         [False, True, '', 'F', (), 7, -1, 2.5], ['', 0, (), 'a', 1, (1,), 'b', 2])


def relettered(rng, rv):
    """rv over other letters and stack symbols: numbers, tuples, empty and falsy values (all distinct)"""
    pool = rng.choice(POOLS)
    if len(rv.A) > len(pool):
        return rv
    new = dict(zip(rv.A, rng.sample(pool, len(rv.A))))
    G = sorted({g for row in rv.cc for _, g in row.values()} | {g for row in rv.rr for g, _ in row}, key=repr)
    if G and all(isinstance(g, tuple) and len(g) == 2 and g[1] in rv.C for g in G):
        sym = {g: (g[0], new[g[1]]) for g in G}
    else:
        pool = rng.choice(POOLS)
        if len(G) > len(pool):
            return rv
        sym = dict(zip(G, rng.sample(pool, len(G))))
    return RV([new[a] for a in rv.I], [new[a] for a in rv.C], [new[a] for a in rv.R],
              [{new[a]: t for a, t in row.items()} for row in rv.ii],
              [{new[c]: (t, sym[g]) for c, (t, g) in row.items()} for row in rv.cc],
              [{(sym[g], new[r]): t for (g, r), t in row.items()} for row in rv.rr], rv.acc, rv.init)


def structured(rng):
    """Hand-written shapes: Dyck languages, matched pairs with payload, counters modulo depth, palindromic brackets."""
    k = rng.choice(['dyck', 'dyck1', 'anbn', 'payload', 'parity', 'nested2'])
    if k in ('dyck', 'dyck1'):
        m = 2 if k == 'dyck' else 1
        C, R = [f'c{j}' for j in range(m)], [f'r{j}' for j in range(m)]
        I = ['i0'] if rng.random() < .5 else []
        ii = [{a: 0 for a in I if rng.random() < .7}]
        cc = [{c: (0, c) for c in C}]
        rr = [{(C[j], R[j]): 0 for j in range(m)}]
        return RV(I, C, R, ii, cc, rr, [True])
    if k == 'anbn':
        return RV([], ['c0'], ['r0'], [{}, {}], [{'c0': (0, 'x')}, {}], [{('x', 'r0'): 1}, {('x', 'r0'): 1}],
                  [rng.random() < .5, True])
    if k == 'payload':
        return RV(['i0', 'i1'], ['c0'], ['r0'], [{'i0': 1}, {'i1': 0}, {'i0': 2, 'i1': 2}],
                  [{}, {'c0': (0, 'y')}, {'c0': (0, 'z')}],
                  [{('y', 'r0'): 2}, {}, {('y', 'r0'): 2, ('z', 'r0'): 1}], [False, False, True])
    if k == 'parity':
        return RV(['i0'], ['c0'], ['r0'], [{'i0': 1}, {'i0': 0}], [{'c0': (0, 'e')}, {'c0': (0, 'o')}],
                  [{('e', 'r0'): 0, ('o', 'r0'): 1}, {('e', 'r0'): 1, ('o', 'r0'): 0}], [True, False])
    return RV([], ['c0', 'c1'], ['r0', 'r1'], [{}, {}, {}],
              [{'c0': (1, 'a')}, {'c1': (1, 'b'), 'c0': (1, 'a')}, {}],
              [{}, {('b', 'r1'): 2, ('a', 'r0'): 2}, {('b', 'r1'): 2, ('a', 'r0'): 2}], [False, False, True])


def gen_word(rng, rv, lo=0, hi=14):
    """Mostly well matched words with some noise."""
    w, d = [], 0
    for _ in range(rng.randint(lo, hi)):
        x = rng.random()
        if x < .35 and rv.C:
            w.append(rng.choice(rv.C))
            d += 1
        elif x < .65 and (d or rng.random() < .08) and rv.R:
            w.append(rng.choice(rv.R))
            d = max(0, d - 1)
        elif rv.I:
            w.append(rng.choice(rv.I))
    if rng.random() < .8:
        w += [rng.choice(rv.R) for _ in range(d)]
    return tuple(map(fresh, w))
