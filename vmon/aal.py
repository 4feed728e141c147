"""Bridges to AALpy: building automata objects, monitored systems and oracles."""
from collections import deque

from aalpy.automata import Dfa, DfaState, MealyMachine, MealyState, MooreMachine, MooreState
from aalpy.base import SUL, Oracle

from .core import StepBudget, Violation
from .ref import diff, extract, fresh, same


def build(m, ids=None, order=None, prefix=None):
    """AALpy automaton object for a DM; `order` permutes the states list."""
    ids = ids or [f's{i}' for i in range(m.n)]
    if m.kind == 'dfa':
        st = [DfaState(ids[i], m.so[i]) for i in range(m.n)]
        cls = Dfa
    elif m.kind == 'moore':
        st = [MooreState(ids[i], fresh(m.so[i])) for i in range(m.n)]
        cls = MooreMachine
    else:
        st = [MealyState(ids[i]) for i in range(m.n)]
        cls = MealyMachine
    for i in range(m.n):
        for a, t in m.d[i].items():
            a = fresh(a)
            st[i].transitions[a] = st[t]
            if m.kind == 'mealy':
                st[i].output_fun[a] = fresh(m.eo[i][a])
    lst = [st[i] for i in (order or range(m.n))]
    return cls(st[m.init], lst)


class RefSUL(SUL):
    """A system under learning driven by the reference machine.  Counts what really
    happened at the boundary and (if strict) checks the pre/step/post discipline."""

    def __init__(self, m, mon=None, budget=2_000_000, strict=False, log=False):
        super().__init__()
        self.m, self.mon, self.budget, self.strict = m, mon, budget, strict
        self.s = None
        self.open = False
        self.real_resets = self.real_posts = self.real_steps = 0
        self.trace = None
        self.log = [] if log else None

    def pre(self):
        if self.strict and self.open:
            raise Violation('protocol', 'pre() while the previous interaction is still open')
        self.open = True
        self.real_resets += 1
        self.s = self.m.init
        if self.log is not None:
            self.log.append([])
        if self.real_resets > self.budget:
            raise StepBudget(f'{self.real_resets} resets of the system')

    def post(self):
        if self.strict is True and not self.open:
            raise Violation('protocol', 'post() without an open interaction')
        self.open = False
        self.real_posts += 1

    def step(self, letter):
        if self.strict and not self.open:
            raise Violation('protocol', f'step({letter!r}) outside pre()/post()')
        if letter is None and self.m.kind != 'mealy':
            return fresh(self.m.so[self.s])
        if letter not in self.m.d[self.s]:
            raise Violation('protocol', f'step with letter {letter!r} outside the alphabet')
        self.real_steps += 1
        if self.real_steps > self.budget:
            raise StepBudget(f'{self.real_steps} steps of the system')
        if self.log is not None:
            self.log[-1].append(letter)
        o = self.m.out(self.s, letter)
        self.s = self.m.d[self.s][letter]
        return fresh(o)


class ExactOracle(Oracle):
    """Exact equivalence oracle on the reference machine, never through AALpy code.
    style: 'short' shortest difference, 'random' a random walk to a first difference,
    'long' a padded detour to a first difference, 'deep' one longer than the recursion limit.  The difference shows at the last letter."""

    def __init__(self, m, sul, rng, style='short', max_rounds=None, mon=None):
        super().__init__(m.A, sul)
        self.m, self.rng, self.style, self.mon = m, rng, style, mon
        self.rounds = 0
        self.max_rounds = max_rounds
        self.sizes = []
        self.cexs = []
        self.hyps = []
        self.last = None
        self.aslist = False

    def find_cex(self, hypothesis):
        self.rounds += 1
        h = extract(hypothesis, self.m.kind, None, 'hypothesis')
        for s in range(h.n_reach):
            if set(h.d[s]) != set(self.m.A):
                raise Violation('not-input-complete', f'hypothesis {self.rounds} is not input complete: '
                                                      f'{list(h.d[s])} vs {self.m.A}', target=self.m.describe())
        self.sizes.append(h.n_reach)
        self.hyps.append(h)
        if self.mon:
            self.mon.ev('hypotheses')
        if self.max_rounds is not None and self.rounds > self.max_rounds:
            raise Violation('no-progress', f'{self.rounds} equivalence queries for a system with '
                                           f'{self.m.minimal_size()} states (sizes {self.sizes[-6:]})',
                            target=self.m.describe(), cexs=self.cexs[-4:])
        w = diff(self.m, h, self.m.A)
        if w is None:
            self.last = None
            return None
        if self.style != 'short':
            w = self._walk(h) or w
        if not w:
            # only the initial outputs differ: any one-letter extension may agree, so report ()
            w = ()
        self.last = w
        self.cexs.append(w)
        if self.mon:
            self.mon.ev('counterexamples')
        w = [fresh(a) for a in w]
        return w if self.aslist else tuple(w)

    def _deep(self, h):
        m, rng = self.m, self.rng
        x, y, w = m.init, h.init, []
        for _ in range(rng.randint(1010, 1150)):
            ok = [a for a in m.A if same(m.out(x, a), h.out(y, a))
                  and diff(m, h, m.A, m.d[x][a], h.d[y][a]) is not None]
            if not ok:
                break
            a = rng.choice(ok)
            w.append(a)
            x, y = m.d[x][a], h.d[y][a]
        if self.mon:
            self.mon.ev('long_counterexamples', len(w) > 1000)
        return tuple(w) + diff(m, h, m.A, x, y)

    def _walk(self, h):
        m = self.m
        if self.style == 'deep':
            return self._deep(h) if self.rounds <= 2 else None
        moore = m.kind != 'mealy'
        for _ in range(30):
            x, y, w = m.init, h.init, []
            if moore and not same(m.so[x], h.so[y]):
                return ()
            lim = 8 + 4 * m.n
            a = None
            for _ in range(lim):
                if self.style == 'long' and a is not None and self.rng.random() < .5:
                    pass
                else:
                    a = self.rng.choice(m.A)
                w.append(a)
                if not same(m.out(x, a), h.out(y, a)):
                    return tuple(w)
                x, y = m.d[x][a], h.d[y][a]
        return None
