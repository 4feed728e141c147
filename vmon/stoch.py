"""Non-deterministic and stochastic reference machines and their AALpy objects."""
from collections import defaultdict

from aalpy.automata import (MarkovChain, McState, Mdp, MdpState, NDMooreMachine, NDMooreState, Onfsm, OnfsmState,
                            StochasticMealyMachine, StochasticMealyState)

from .gen import ALPHABETS, OUTPUTS


class SM:
    """kind onfsm|ndmoore|mdp|smm|mc.  t[s][a] = list of (output, target, weight) ; so[s] state outputs."""

    def __init__(self, kind, A, t, so=None, init=0):
        self.kind, self.A, self.t, self.so, self.init = kind, list(A), t, so, init

    @property
    def n(self):
        return len(self.t)

    def options(self, s, a):
        return self.t[s].get(a, [])

    def post(self, states, a, o):
        """states reachable from a set of states by input a with output o"""
        return {t for s in states for (x, t, p) in self.options(s, a) if x == o and type(x) is type(o) and p > 0}

    def describe(self):
        return dict(kind=self.kind, init=self.init, so=self.so, t=self.t)


def probs(rng, k):
    style = rng.random()
    if style < .35:
        w = [1] * k
    elif style < .7:
        w = [rng.randint(1, 9) for _ in range(k)]
    else:
        w = [1] + [rng.choice([8, 20, 50])] * (k - 1)
    s = sum(w)
    p = [x / s for x in w]
    if rng.random() < .5:
        p = [round(x, 3) for x in p[:-1]]
        p.append(round(1 - sum(p), 6))
        if p[-1] <= 0:
            p = [x / s for x in w]
    return p


def wide(rng, p=.15, **kw):
    """arguments for gen_sm: now and then larger automata with more branches"""
    if rng.random() < p:
        kw.update(nmax=kw.get('nmax', 5) + 5, omax=kw.get('omax', 4) + 3, kmax=7, amax=kw.get('amax', 3) + 2)
    if rng.random() < .08:
        kw['outs'] = 'twins'        # different outputs with the same text
    if rng.random() < .08:
        kw['alph'] = 'empty'        # '' is a letter
    if rng.random() < .1:
        kw['tiny'] = True
    return kw


def gen_sm(rng, kind, nmax=5, amax=3, omax=4, outs=None, alph=None, observable=True, partial=False, kmax=3, tiny=False, broad=.02, bushy=.02):
    """observable: input and output determine the successor (for mdp: successors of one input have distinct outputs)."""
    amin = 1
    if rng.random() < broad:        # now and then many letters
        nmax, amin, amax = min(nmax, 4), 5, 12
    elif rng.random() < bushy:      # or many outcomes
        nmax, amax, kmax, omax = (nmax + 5 if kind in ('mdp', 'mc', 'ndmoore') else min(nmax, 3)), min(amax, 2), 9, 11
    n = rng.randint(1, nmax)
    A = ALPHABETS[alph or rng.choice(['str', 'chr', 'int', 'tuple', 'mixed'])](rng.randint(amin, amax))
    O = OUTPUTS[outs or rng.choice(['str', 'int', 'falsy', 'tuple', 'mixed', 'bool'])](rng.randint(2, omax))
    t, so = [], None
    if kind in ('mdp', 'mc', 'ndmoore'):
        so = [O[s % len(O)] if s < len(O) else rng.choice(O) for s in range(n)]
        rng.shuffle(so)
    for s in range(n):
        row = {}
        for a in (A if kind != 'mc' else [None]):
            if partial and rng.random() < .3:
                continue
            k = rng.randint(1, kmax)
            opts = []
            if so is not None:
                pool = list(range(n))
                rng.shuffle(pool)
                used = []
                for x in pool:
                    if len(opts) == k:
                        break
                    if observable and any(so[x] == u for u in used):
                        continue
                    used.append(so[x])
                    opts.append((so[x], x))
            else:
                os_ = list(O)
                rng.shuffle(os_)
                if observable:
                    opts = [(o, rng.randrange(n)) for o in os_[:k]]
                else:
                    for _ in range(k):
                        p = (rng.choice(O), rng.randrange(n))
                        if p not in opts:
                            opts.append(p)
            pr = probs(rng, len(opts))
            if tiny and len(pr) > 1 and rng.random() < .5:
                e = rng.choice([1e-4, 1e-5, 1e-7])
                pr = [1 - (len(pr) - 1) * e] + [e] * (len(pr) - 1)
            row[a] = [(o, x, p) for (o, x), p in zip(opts, pr)]
        t.append(row)
    return SM(kind, A, t, so)


def build_sm(m, ids=None, order=None):
    ids = ids or [f's{i}' for i in range(m.n)]
    mk = {'onfsm': lambda i: OnfsmState(ids[i]), 'ndmoore': lambda i: NDMooreState(ids[i], m.so[i]),
          'mdp': lambda i: MdpState(ids[i], m.so[i]), 'mc': lambda i: McState(ids[i], m.so[i]),
          'smm': lambda i: StochasticMealyState(ids[i])}[m.kind]
    st = [mk(i) for i in range(m.n)]
    for i in range(m.n):
        for a, lst in m.t[i].items():
            for (o, x, p) in lst:
                if m.kind == 'onfsm':
                    st[i].transitions[a].append((o, st[x]))
                elif m.kind == 'ndmoore':
                    st[i].transitions[a].append(st[x])
                elif m.kind == 'mdp':
                    st[i].transitions[a].append((st[x], p))
                elif m.kind == 'mc':
                    st[i].transitions.append((st[x], p))
                else:
                    st[i].transitions[a].append((st[x], o, p))
    cls = {'onfsm': Onfsm, 'ndmoore': NDMooreMachine, 'mdp': Mdp, 'mc': MarkovChain, 'smm': StochasticMealyMachine}[m.kind]
    return cls(st[m.init], [st[i] for i in (order or range(m.n))])


KIND = {'Onfsm': 'onfsm', 'NDMooreMachine': 'ndmoore', 'Mdp': 'mdp', 'MarkovChain': 'mc', 'StochasticMealyMachine': 'smm'}


def read_sm(model, A=None):
    """SM read off the public structure (initial state becomes 0; listed states after the reachable ones)."""
    kind = KIND[type(model).__name__]
    order, ix = [], {}

    def add(s):
        if id(s) not in ix:
            ix[id(s)] = len(order)
            order.append(s)

    def succ(s):
        if kind == 'mc':
            return [(None, x.output, x, p) for x, p in s.transitions]
        res = []
        for a, lst in s.transitions.items():
            for e in lst:
                if kind == 'onfsm':
                    res.append((a, e[0], e[1], 1.0))
                elif kind == 'ndmoore':
                    res.append((a, e.output, e, 1.0))
                elif kind == 'mdp':
                    res.append((a, e[0].output, e[0], e[1]))
                else:
                    res.append((a, e[1], e[0], e[2]))
        return res

    add(model.initial_state)
    i = 0
    while i < len(order):
        for e in succ(order[i]):
            add(e[2])
        i += 1
    reach = len(order)
    for s in model.states:
        add(s)
    while i < len(order):
        for e in succ(order[i]):
            add(e[2])
        i += 1
    t = []
    alpha = list(A) if A is not None else []
    for s in order:
        row = {}
        for a, o, x, p in succ(s):
            row.setdefault(a, []).append((o, ix[id(x)], p))
            if A is None and a not in alpha:
                alpha.append(a)
        t.append(row)
    so = [s.output for s in order] if kind in ('mdp', 'mc', 'ndmoore') else None
    m = SM(kind, alpha, t, so, 0)
    m.order, m.n_reach, m.listed = order, reach, [ix[id(s)] for s in model.states]
    return m


def bisim_sm(m1, m2, probs=True, tol=0.0):
    """None if the machines are isomorphic on what is reachable through observable (input, output) steps, else a message.
    Requires observable machines."""
    todo, seen = [(m1.init, m2.init, ())], {(m1.init, m2.init)}
    while todo:
        x, y, w = todo.pop()
        if m1.so is not None and (m1.so[x] != m2.so[y] or type(m1.so[x]) is not type(m2.so[y])):
            return f'state outputs {m1.so[x]!r} / {m2.so[y]!r} after {w}'
        for a in set(m1.t[x]) | set(m2.t[y]):
            o1 = sorted(m1.options(x, a), key=lambda e: repr(e[0]))
            o2 = sorted(m2.options(y, a), key=lambda e: repr(e[0]))
            if [repr(e[0]) for e in o1] != [repr(e[0]) for e in o2]:
                return f'outputs on {a!r} after {w}: {o1} / {o2}'
            for e, f in zip(o1, o2):
                if probs and abs(e[2] - f[2]) > tol:
                    return f'probability of {e[0]!r} on {a!r} after {w}: {e[2]} / {f[2]}'
                if (e[1], f[1]) not in seen:
                    seen.add((e[1], f[1]))
                    todo.append((e[1], f[1], w + ((a, e[0]),)))
    return None
