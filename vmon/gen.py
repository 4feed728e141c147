"""Generators of hostile deterministic machines and words (drawn from a given rng)."""
from .ref import DM, fresh

ALPHABETS = {
    'empty': lambda k: ['a', '', ('b',), 0, 'c', 'd', 'e', -1, ('', 0), 'f', 'g', 7, 'h', 'i'][:k],
    'str': lambda k: [f'i{j}' for j in range(k)],
    'chr': lambda k: list('abcdefghijklmn')[:k],
    'int': lambda k: list(range(k)),
    'tuple': lambda k: [('x', j) for j in range(k)],
    'neg': lambda k: [j - 1 for j in range(k)],
    'mixed': lambda k: (['a', 1, ('t', 0), 'b', 7, 'i_j', 0.5, 'c', 9, 'd', 'A', ('t', 1), 11, 'e'])[:k],
}

OUTPUTS = {
    'str': lambda k: [f'o{j}' for j in range(k)],
    'int': lambda k: list(range(k)),
    'falsy': lambda k: [0, '', 'x', 3, 'y', 5, 6, 7, 'u', 'v', 8, 'w'][:k],
    'bool': lambda k: [False, True, 'z', 'w', 'u', 'v', 's', 't', 'q', 'r', 'n', 'm'][:k],
    'tuple': lambda k: [('o', j) for j in range(k)],
    'none': lambda k: [None, 'x', 0, 'z', 'w', 'v', 'u', 't', 's', 'q', 'r', 'p'][:k],
    'big': lambda k: [1000 + j for j in range(k)],
    'twins': lambda k: ['1', 1, 'None', 2, '2', (1,), '(1,)', 'o', 3, '3', 4, '4'][:k],
    'mixed': lambda k: ['o', 2, ('p', 1), 'q', 5, 6, 7, 8, 'r', ('p', 2), 's', 9][:k],
}

STYLES = ['random', 'lock', 'cycle', 'sink', 'twin', 'unreach', 'tree', 'single', 'nearmin', 'dense']


def gen_dm(rng, kind, nmax=12, amax=4, styles=STYLES, outs=None, alph=None, nmin=1, omax=4, amin=1, none=True, broad=.02):
    """A complete machine. Styles cover unreachable and equivalent states, one state,
    combination locks (long access and distinguishing words), counters, sinks and deep trees."""
    style = rng.choice(styles)
    if rng.random() < broad:        # now and then many letters and outputs
        nmax, amin, amax, omax = min(nmax, 6), 6, 14, 10 if omax > 2 else omax
        nmin = min(nmin, nmax)
    n = 1 if style == 'single' else rng.randint(max(nmin, 2), max(2, nmax))
    k = rng.randint(amin, amax)
    an = alph or rng.choice(['str', 'chr', 'chr', 'int', 'tuple', 'neg', 'mixed', 'empty'])
    A = ALPHABETS[an](k)
    on = outs or rng.choice(['str', 'str', 'int', 'falsy', 'bool', 'tuple', 'mixed', 'big', 'none'])
    if on == 'none' and not none:
        on = 'falsy'
    no = rng.randint(1 if rng.random() < .05 else 2, omax)
    O = [False, True] if kind == 'dfa' else OUTPUTS[on](max(no, 1))
    pick = lambda: rng.choice(O)

    d = [{a: rng.randrange(n) for a in A} for _ in range(n)]
    so = [pick() for _ in range(n)]
    eo = [{a: pick() for a in A} for _ in range(n)]

    if style == 'lock':
        key = [rng.choice(A) for _ in range(n)]
        for s in range(n):
            back = rng.choice([0, 0, s, max(0, s - 1)])
            for a in A:
                d[s][a] = (s + 1) % n if a == key[s] else back
                eo[s][a] = O[0]
            so[s] = O[0]
        so[n - 1] = O[-1]
        eo[n - 1][key[n - 1]] = O[-1]
    elif style == 'cycle':
        for s in range(n):
            for j, a in enumerate(A):
                d[s][a] = (s + 1) % n if j == 0 else (s if j == 1 else rng.choice([s, 0, (s + 1) % n]))
                eo[s][a] = O[0] if s else O[-1]
            so[s] = O[0] if s else O[-1]
        if rng.random() < .5:
            s = rng.randrange(n)
            so[s] = pick()
            eo[s][rng.choice(A)] = pick()
    elif style == 'sink':
        for a in A:
            d[n - 1][a] = n - 1
        for s in range(n - 1):
            for a in A:
                if rng.random() < .4:
                    d[s][a] = n - 1
        so[n - 1] = O[0]
        for a in A:
            eo[n - 1][a] = O[0]
    elif style == 'twin':
        # duplicate states of a smaller machine, edges pick a random copy
        base = max(1, n // 2)
        for s in range(n):
            b = s % base
            so[s] = so[b]
            for a in A:
                eo[s][a] = eo[b][a]
        bd = [{a: rng.randrange(base) for a in A} for _ in range(base)]
        for s in range(n):
            for a in A:
                t = bd[s % base][a]
                d[s][a] = rng.choice([x for x in range(n) if x % base == t])
    elif style == 'unreach':
        live = max(1, n // 2)
        for s in range(live):
            for a in A:
                d[s][a] = rng.randrange(live)
    elif style == 'tree':
        for s in range(n):
            for j, a in enumerate(A):
                t = s * len(A) + j + 1
                d[s][a] = t if t < n else rng.choice([0, s, n - 1])
    elif style == 'nearmin':
        # all outputs equal but one: long distinguishing sequences
        so = [O[0]] * n
        eo = [{a: O[0] for a in A} for _ in range(n)]
        so[rng.randrange(n)] = O[-1]
        eo[rng.randrange(n)][rng.choice(A)] = O[-1]
    # make most machines connected from the initial state (not the styles that mean not to be)
    if style in ('random', 'dense', 'nearmin') and n > 1:
        seen = [0]
        rest = list(range(1, n))
        rng.shuffle(rest)
        free = {(0, a) for a in A}
        for t in rest:
            if not free:
                break
            s, a = rng.choice(sorted(free, key=repr))
            free.discard((s, a))
            d[s][a] = t
            seen.append(t)
            free |= {(t, b) for b in A}
    m = DM(kind, A, d, so if kind != 'mealy' else None, eo if kind == 'mealy' else None, 0)
    m.style = style
    return m


def permuted(rng, m):
    """Isomorphic copy with shuffled state numbering (initial state not first)."""
    p = list(range(m.n))
    rng.shuffle(p)
    inv = [0] * m.n
    for i, x in enumerate(p):
        inv[x] = i
    d = [{a: p[m.d[inv[i]][a]] for a in m.d[inv[i]]} for i in range(m.n)]
    so = [m.so[inv[i]] for i in range(m.n)] if m.so is not None else None
    eo = [dict(m.eo[inv[i]]) for i in range(m.n)] if m.eo is not None else None
    return DM(m.kind, m.A, d, so, eo, p[m.init])


def word(rng, A, lo=0, hi=10):
    return tuple(fresh(rng.choice(A)) for _ in range(rng.randint(lo, hi)))


def mutate(rng, m, k=1):
    """A machine a few edits away (same alphabet and outputs pool)."""
    d = [dict(t) for t in m.d]
    so = list(m.so) if m.so is not None else None
    eo = [dict(t) for t in m.eo] if m.eo is not None else None
    pool = sorted({repr(x): x for x in (so if so is not None else [o for r in eo for o in r.values()])}.items())
    pool = [x for _, x in pool]
    if m.kind == 'dfa':
        pool = [False, True]
    for _ in range(k):
        s = rng.randrange(m.n)
        a = rng.choice(m.A)
        r = rng.random()
        if r < .5:
            d[s][a] = rng.randrange(m.n)
        elif so is not None:
            so[s] = rng.choice(pool)
        else:
            eo[s][a] = rng.choice(pool)
    return DM(m.kind, m.A, d, so, eo, m.init)
