"""Independent reference semantics for deterministic machines.

Nothing here calls AALpy: extraction reads the public structure of an AALpy
automaton (initial_state, transitions, output / is_accepting / output_fun), the
rest is our own interpreter, product search and minimisation.
"""
from collections import deque

from .core import Violation


def fresh(x):
    """an equal object that is (where Python allows) not the same object, as a real system returns"""
    if type(x) is str and len(x) > 1:
        return x[:1] + x[1:]
    if type(x) is tuple and x:
        return tuple([fresh(y) for y in x])
    if type(x) is float:
        return x * 1.0
    if type(x) is int and not -6 < x < 257:
        return int(str(x))
    return x


class DM:
    """Deterministic machine. kind: dfa | moore | mealy.  States 0..n-1.
    d[s]: dict letter -> state (may be partial); so[s]: state output (dfa/moore);
    eo[s]: dict letter -> output (mealy)."""

    def __init__(self, kind, A, d, so=None, eo=None, init=0):
        self.kind, self.A, self.d, self.so, self.eo, self.init = kind, list(A), d, so, eo, init

    @property
    def n(self):
        return len(self.d)

    def out(self, s, a):
        return self.eo[s][a] if self.kind == 'mealy' else self.so[self.d[s][a]]

    def run(self, word, s=None):
        s = self.init if s is None else s
        res = []
        for a in word:
            res.append(self.out(s, a))
            s = self.d[s][a]
        return res

    def goto(self, word, s=None):
        s = self.init if s is None else s
        for a in word:
            s = self.d[s][a]
        return s

    def answer(self, word):
        """SUL.query answer: for dfa/moore the empty word yields the initial output."""
        if not word:
            return [] if self.kind == 'mealy' else [self.so[self.init]]
        return self.run(word)

    def complete(self):
        return all(set(t) == set(self.A) for t in self.d)

    def reach(self, s=None):
        s = self.init if s is None else s
        seen, q = {s: ()}, deque([s])
        while q:
            x = q.popleft()
            for a in self.A:
                if a in self.d[x]:
                    y = self.d[x][a]
                    if y not in seen:
                        seen[y] = seen[x] + (a,)
                        q.append(y)
        return seen

    def sig(self, s):
        """locally observable output of a state"""
        if self.kind == 'mealy':
            return tuple((type(self.eo[s][a]).__name__, self.eo[s][a]) if a in self.eo[s] else None for a in self.A)
        return (type(self.so[s]).__name__, self.so[s])

    def classes(self, states=None):
        """coarsest output-respecting partition over `states` (closed set): state -> class"""
        states = list(self.reach()) if states is None else list(states)
        blocks = {}
        cls = {}
        for s in states:
            cls[s] = blocks.setdefault((self.sig(s), tuple(a in self.d[s] for a in self.A)), len(blocks))
        while True:
            nb, nc = {}, {}
            for s in states:
                k = (cls[s], tuple(cls[self.d[s][a]] if a in self.d[s] else None for a in self.A))
                nc[s] = nb.setdefault(k, len(nb))
            if len(nb) == len(blocks):
                return nc
            blocks, cls = nb, nc

    def minimal_size(self):
        return len(set(self.classes().values()))

    def minimize(self):
        cls = self.classes()
        order, q, rep = {cls[self.init]: 0}, deque([self.init]), [self.init]
        while q:
            s = q.popleft()
            for a in self.A:
                if a in self.d[s]:
                    t = self.d[s][a]
                    if cls[t] not in order:
                        order[cls[t]] = len(order)
                        rep.append(t)
                        q.append(t)
        d = [{a: order[cls[self.d[s][a]]] for a in self.A if a in self.d[s]} for s in rep]
        so = [self.so[s] for s in rep] if self.so is not None else None
        eo = [dict(self.eo[s]) for s in rep] if self.eo is not None else None
        return DM(self.kind, self.A, d, so, eo, 0)

    def canon(self):
        m = self.minimize()
        return (m.kind, tuple(map(repr, m.A)),
                tuple((m.sig(s), tuple(m.d[s].get(a) for a in m.A)) for s in range(m.n)))

    def describe(self):
        return dict(kind=self.kind, init=self.init, alphabet=[repr(a) for a in self.A],
                    states=[dict(out=repr(self.so[s]) if self.so is not None else None,
                                 trans={repr(a): (self.d[s][a], repr(self.eo[s][a])) if self.kind == 'mealy'
                                        else self.d[s][a] for a in self.d[s]}) for s in range(self.n)][:40])


def same(x, y):
    """Outputs are compared by equality and by type, so that True/1/1.0 or 0/False do not pass for each other."""
    return type(x) is type(y) and x == y


def diff(m1, m2, A=None, s1=None, s2=None, comp=same):
    """Shortest word on which the machines' answers differ, or None. () = initial outputs differ."""
    A = m1.A if A is None else A
    s1 = m1.init if s1 is None else s1
    s2 = m2.init if s2 is None else s2
    moore = m1.kind != 'mealy'
    if moore and not comp(m1.so[s1], m2.so[s2]):
        return ()
    seen, q = {(s1, s2)}, deque([(s1, s2, ())])
    while q:
        x, y, w = q.popleft()
        for a in A:
            if (a in m1.d[x]) != (a in m2.d[y]):
                return w + (a,)
            if a not in m1.d[x]:
                continue
            if not comp(m1.out(x, a), m2.out(y, a)):
                return w + (a,)
            p = (m1.d[x][a], m2.d[y][a])
            if p not in seen:
                seen.add(p)
                q.append((p[0], p[1], w + (a,)))
    return None


def state_map(model):
    """AALpy state object -> index; reachable states first, then the listed ones."""
    order = []
    idx = {}

    def add(s):
        if id(s) not in idx:
            idx[id(s)] = len(order)
            order.append(s)

    add(model.initial_state)
    i = 0
    while i < len(order):
        for t in list(order[i].transitions.values()):
            add(t)
        i += 1
    reach = len(order)
    for s in model.states:
        add(s)
    while i < len(order):
        for t in list(order[i].transitions.values()):
            add(t)
        i += 1
    return order, idx, reach


KINDS = {'Dfa': 'dfa', 'MooreMachine': 'moore', 'MealyMachine': 'mealy'}


def extract(model, kind=None, A=None, ctx='model'):
    """DM read off an AALpy deterministic automaton; malformed structure is a violation."""
    if model is None:
        raise Violation('no-model', f'{ctx} is None')
    cname = type(model).__name__
    if cname not in KINDS:
        raise Violation('wrong-type', f'{ctx} has type {cname}')
    k = KINDS[cname]
    if kind is not None and k != kind:
        raise Violation('wrong-type', f'{ctx} has type {cname}, expected kind {kind}')
    if model.initial_state is None or model.states is None:
        raise Violation('malformed-model', f'{ctx} has no initial state or no states')
    order, idx, reach = state_map(model)
    d, so, eo = [], [], []
    alpha = list(A) if A is not None else []
    for s in order:
        row = {}
        for a, t in s.transitions.items():
            row[a] = idx[id(t)]
            if A is None and a not in alpha:
                alpha.append(a)
        d.append(row)
        if k == 'dfa':
            so.append(s.is_accepting)
        elif k == 'moore':
            so.append(s.output)
        else:
            for a in row:
                if a not in s.output_fun:
                    raise Violation('malformed-model', f'{ctx}: transition on {a!r} has no output')
            eo.append({a: s.output_fun[a] for a in row})
    m = DM(k, alpha, d, so if k != 'mealy' else None, eo if k == 'mealy' else None, 0)
    m.n_reach = reach
    m.order = order
    m.listed = [idx[id(s)] for s in model.states]
    return m


def check_learned(mon, model, target, minimal=True, ctx='learned model', exact_alphabet=True):
    """The oracle for exact learners: right type, complete, equivalent, minimal, well listed."""
    m = extract(model, target.kind, None, ctx)
    for s in range(m.n_reach):
        if set(m.d[s]) != set(target.A) or len(m.d[s]) != len(target.A):
            mon.fail('not-input-complete', f'{ctx}: a reachable state has transitions on '
                                           f'{list(m.d[s])}, alphabet {target.A}', target=target.describe())
    w = diff(target, m, target.A)
    if w is not None:
        mon.fail('wrong-model', f'{ctx} differs from the system on {list(w)!r}: system '
                                f'{target.answer(w)!r}, model {m.answer(w)!r}',
                 target=target.describe(), model=m.describe())
    if sorted(m.listed) != list(range(m.n_reach)):
        mon.fail('state-list', f'{ctx}: states listed {len(m.listed)} (distinct {len(set(m.listed))}), '
                               f'reachable {m.n_reach}', target=target.describe())
    ids = [s.state_id for s in model.states]
    if len(set(ids)) != len(ids):
        mon.fail('state-ids', f'{ctx}: duplicate state ids {ids}')
    if minimal:
        k = target.minimal_size()
        if m.n_reach != k:
            mon.fail('not-minimal', f'{ctx} has {m.n_reach} states, the minimal machine has {k}',
                     target=target.describe(), model=m.describe())
    mon.ev('models_judged')
    return m
