"""Bundled systems under learning answer for exactly the word that was executed."""
import itertools
import random

from aalpy.SULs import AutomatonSUL, FunctionDecorator, PyClassSUL, RegexSUL, TomitaSUL
from aalpy.base import SUL
from aalpy.utils import BenchmarkSevpaModels as BS
from aalpy.utils import BenchmarkVpaModels as BV
from aalpy.utils import BenchmarkSULs as BM

from ..aal import build
from ..gen import gen_dm, permuted, word
from ..ref import same
from ..stoch import bisim_sm, build_sm, gen_sm, read_sm

ID = 'C25'
RULE = ('A case asks one bundled system (regular expression, Tomita grammar, Python class, automaton, balanced words, '
        'benchmark language) many words, in one query and letter by letter, and compares with an independent definition. '
        'Distinct = (system, definition).')
FLOORS = {'regex_words': 30000, 'regex_accepted': 2000, 'tomita_words': 5000, 'class_calls': 10000, 'automaton_words': 8000,
          'language_words': 10000, 'language_accepted': 500, 'balanced_words': 5000, 'empty_words': 500,
          'dates': 20000, 'valid_dates': 4000, 'bundled_models': 200}


def plan(tier):
    q = tier == 'quick'
    return [('regex', 12000 if q else 120000), ('tomita', 800 if q else 6000), ('pyclass', 8000 if q else 80000),
            ('automaton', 9000 if q else 80000), ('language', 2600 if q else 20000), ('balanced', 3000 if q else 20000),
            ('mqtt', 3000 if q else 20000), ('dates', 1500 if q else 10000), ('models', 240 if q else 1200)]


def run(family, idx, rng, mon):
    globals()[family](rng, mon, idx)


def ask(mon, rng, sul, w, wit):
    """query, io_query or the letters one by one: the list of answers; counters move by what was asked"""
    q, s = sul.num_queries, sul.num_steps
    how = rng.randrange(3)
    if how == 0 or (how == 1 and not w):
        r = list(sul.query(tuple(w)))
    elif how == 1:
        io = sul.io_query(tuple(w))
        mon.check([i for i, _ in io] == list(w), 'io-query', f'{io}', **wit)
        r = [o for _, o in io]
    else:
        sul.pre()
        r = [sul.step(a) for a in w] if w else [sul.step(None)]
        sul.post()
    if how != 2:
        mon.check(sul.num_queries == q + 1 and sul.num_steps == s + len(w), 'counters',
                  f'{sul.num_queries - q} queries and {sul.num_steps - s} steps for {w!r}', **wit)
    if not w:
        mon.ev('empty_words')
    return r


# ------------------------------------------------------------------ regular expressions

def gen_re(rng, sig, depth):
    r = rng.random()
    if depth == 0 or r < .3:
        if rng.random() < .12:
            return ('set', rng.sample(sig, rng.randint(1, len(sig))), rng.random() < .3)
        return ('c', rng.choice(sig))
    if r < .6:
        return ('cat', [gen_re(rng, sig, depth - 1) for _ in range(rng.randint(2, 3))])
    if r < .8:
        return ('alt', [gen_re(rng, sig, depth - 1) for _ in range(rng.randint(2, 3))])
    if r < .98:
        return (rng.choice(['*', '+', '?']), gen_re(rng, sig, depth - 1))
    return ('any',)


SPECIAL = '.$^*+?()[]{}|\\'


def show(n, level=0):
    """level 0: alternative allowed, 1: sequence, 2: one item"""
    k = n[0]
    esc = lambda c: '\\' + c if c in SPECIAL else c
    if k == 'c':
        return esc(n[1])
    if k == 'any':
        return '.'
    if k == 'set':
        return '[' + ('^' if n[2] else '') + ''.join(('\\' + c if c in '^]\\-' else c) for c in n[1]) + ']'
    if k == 'cat':
        s = ''.join(show(x, 1) for x in n[1])
        return s if level <= 1 else f'({s})'
    if k == 'alt':
        s = '|'.join(show(x, 1) for x in n[1])
        return s if level == 0 else f'({s})'
    return show(n[1], 3 if n[1][0] in '*+?' else 2) + k if n[1][0] not in ('*', '+', '?') else f'({show(n[1])}){k}'


def ends(n, s, i):
    """positions after a match of n from position i"""
    k = n[0]
    if k == 'c':
        return {i + 1} if i < len(s) and s[i] == n[1] else set()
    if k == 'any':
        return {i + 1} if i < len(s) and s[i] != '\n' else set()
    if k == 'set':
        return {i + 1} if i < len(s) and (s[i] in n[1]) != n[2] else set()
    if k == 'cat':
        cur = {i}
        for x in n[1]:
            cur = {e for c in cur for e in ends(x, s, c)}
        return cur
    if k == 'alt':
        return {e for x in n[1] for e in ends(x, s, i)}
    if k == '?':
        return {i} | ends(n[1], s, i)
    cur, new = set(), ends(n[1], s, i)
    while new - cur:
        cur |= new
        new = {e for c in new for e in ends(n[1], s, c)}
    return cur | {i} if k == '*' else cur


def regex(rng, mon, idx):
    sig = rng.choice([['a', 'b'], ['a', 'b', 'c'], ['0', '1'], ['a', '$'], ['.', 'a', '|'], ['x', '\n']])
    t = gen_re(rng, sig, rng.choice([1, 2, 2, 3]))
    text = show(t)
    if rng.random() < .25:
        text += '$'
    sul = RegexSUL(text)
    letters = [int(c) for c in sig] if sig == ['0', '1'] and rng.random() < .6 else sig
    wit = dict(regex=text, letters=letters)
    words = [w for l in range(4) for w in itertools.product(letters, repeat=l)]
    if len(words) > 25:
        words = [()] + rng.sample(words[1:], 24)
    words += [word(rng, letters, 4, 9) for _ in range(6)]
    for w in words:
        s = ''.join(str(a) for a in w)
        pos = [len(s[:i]) in ends(t, s[:i], 0) for i in range(len(s) + 1)]
        want = pos[1:] if w else pos[:1]
        got = ask(mon, rng, sul, w, wit)
        mon.check(got == want and all(type(x) is bool for x in got), 'regex', f'{s!r}: {got}, should be {want}', **wit)
        mon.ev('regex_words')
        mon.ev('regex_accepted', sum(want))
    mon.seen('regex', text)
    mon.sample(regex=text)


# ------------------------------------------------------------------ Tomita grammars

def runs_of(s):
    return [(c, len(list(g))) for c, g in itertools.groupby(s)]


def tomita_def(k, s):
    if k == 1:
        return all(c == '1' for c in s)
    if k == 2:
        return len(s) % 2 == 0 and all(c == '10'[i % 2] for i, c in enumerate(s))
    if k in (3, -3):
        odd1 = False
        bad = False
        for c, n in runs_of(s):
            if c == '1' and n % 2:
                odd1 = True
            if c == '0' and n % 2 and odd1:
                bad = True
        return not bad if k == 3 else bad
    if k == 4:
        return all(n < 3 for c, n in runs_of(s) if c == '0')
    if k == 5:
        return s.count('0') % 2 == 0 and s.count('1') % 2 == 0
    if k == 6:
        return (s.count('0') - s.count('1')) % 3 == 0
    return len(runs_of(s.lstrip('0'))) <= 3  # 0*1*0*1*


def tomita(rng, mon, idx):
    k = [1, 2, 3, 4, 5, 6, 7, -3][idx % 8]
    sul = TomitaSUL(k)
    letters = [0, 1] if rng.random() < .5 else ['0', '1']
    wit = dict(grammar=k, letters=letters)
    words = [w for l in range(5) for w in itertools.product(letters, repeat=l)]
    words += [word(rng, letters, 5, 14) for _ in range(10)]
    words += [tuple(letters[(j + 1) % 2] for j in range(rng.randint(2, 12)))]
    rng.shuffle(words)
    for w in words:
        s = ''.join(map(str, w))
        want = [tomita_def(k, s[:i + 1]) for i in range(len(s))] or [tomita_def(k, '')]
        got = ask(mon, rng, sul, w, wit)
        mon.check(got == want, 'tomita', f'grammar {k}, {s!r}: {got}, should be {want}', **wit)
        mon.ev('tomita_words')
    mon.seen('tomita', k, rng.random())


# ------------------------------------------------------------------ Python classes

class Recorder:
    """every call returns what was really called on which state"""
    live = 0

    def __init__(self):
        Recorder.live += 1
        self.calls = []

    def plain(self):
        self.calls.append('plain')
        return ('plain', len(self.calls))

    def one(self, x='default'):
        self.calls.append('one')
        return ('one', x, type(x).__name__, len(self.calls))

    def two(self, x, y=None):
        self.calls.append('two')
        return ('two', x, y, type(x).__name__, len(self.calls))

    def many(self, *xs):
        self.calls.append('many')
        return ('many', xs, len(self.calls))

    def last(self):
        return tuple(self.calls[-2:])


VALUES = [0, 1, '', 'x', False, True, None, 0.0, 3.5, {}, {'k': 1}, frozenset(), 'topic', b'', -1]


def pyclass(rng, mon, idx):
    letters = []
    for _ in range(rng.randint(2, 5)):
        f = rng.choice(['plain', 'one', 'two', 'many', 'last'])
        if f in ('plain', 'last'):
            letters.append((FunctionDecorator(getattr(Recorder, f)), f, ()))
            continue
        n = {'one': rng.choice([0, 1]), 'two': rng.choice([1, 2]), 'many': rng.choice([0, 1, 2, 3, 5])}[f]
        vals = tuple(rng.choice(VALUES) for _ in range(n))
        if n == 0:
            d = FunctionDecorator(getattr(Recorder, f)) if rng.random() < .5 else \
                FunctionDecorator(getattr(Recorder, f), rng.choice([[], ()]))
        elif n == 1 and rng.random() < .6 and vals[0] is not None:
            d = FunctionDecorator(getattr(Recorder, f), vals[0])
        else:
            d = FunctionDecorator(getattr(Recorder, f), rng.choice([list, tuple])(vals))
        letters.append((d, f, vals))
    wit = dict(letters=[(f, repr(v)) for _, f, v in letters])
    sul = PyClassSUL(Recorder)
    for _ in range(rng.randint(2, 5)):
        w = [rng.choice(letters) for _ in range(rng.randint(1, 6))]
        before = Recorder.live
        got = ask(mon, rng, sul, tuple(d for d, _, _ in w), wit)
        mon.check(Recorder.live == before + 1, 'class-reset', f'{Recorder.live - before} instances for one query', **wit)
        ref = Recorder()
        want = [getattr(ref, f)(*v) for _, f, v in w]
        mon.check([repr(x) for x in got] == [repr(x) for x in want], 'class-call', f'{got}, should be {want}', **wit)
        mon.ev('class_calls', len(w))
    mon.seen('pyclass', repr(wit))


def mqtt(rng, mon, idx):
    """the mock MQTT broker, through PyClassSUL, against its transition table"""
    M = BM.MockMqttExample
    sul = PyClassSUL(M)
    topics = rng.sample(['topic', 't2', '', 'bad\n', 'x\u0000y'], rng.randint(1, 3))
    acts = [('connect', None), ('disconnect', None)] + [(f, t) for f in ('subscribe', 'unsubscribe', 'publish') for t in topics]
    letters = {a: FunctionDecorator(getattr(M, a[0]), a[1]) if a[1] is not None else FunctionDecorator(getattr(M, a[0]))
               for a in acts}
    wit = dict(topics=topics)
    for _ in range(4):
        w = [rng.choice(acts) if rng.random() < .75 else ('connect', None) for _ in range(rng.randint(1, 10))]
        up, subs, want = False, set(), []
        state = 'CONCLOSED'
        for f, t in w:
            bad = t is not None and ('\n' in t or '\u0000' in t)
            if f == 'connect' and not up:
                up, state = True, 'CONNACK'
            elif f in ('connect', 'disconnect') or bad:
                up, subs, state = False, set(), 'CONCLOSED'
            elif up:
                if f == 'subscribe':
                    subs.add(t)
                    state = 'SUBACK'
                elif f == 'unsubscribe':
                    subs.discard(t)
                    state = 'UNSUBACK'
                else:
                    state = 'PUBACK_PUBACK' if t in subs else 'PUBACK'
            want.append(state)
        got = ask(mon, rng, sul, tuple(letters[a] for a in w), wit)
        mon.check(got == want, 'mqtt', f'{w}: {got}, should be {want}', **wit)
        mon.ev('class_calls', len(w))
    mon.seen('mqtt', repr(w))


# ------------------------------------------------------------------ automata

def automaton(rng, mon, idx):
    kind = rng.choice(['dfa', 'moore', 'mealy', 'onfsm', 'ndmoore', 'mdp', 'smm', 'mc'])
    if kind in ('dfa', 'moore', 'mealy'):
        m = permuted(rng, gen_dm(rng, kind, nmax=8, amax=3))
        sul = AutomatonSUL(build(m))
        wit = dict(automaton=m.describe())
        for _ in range(6):
            w = word(rng, m.A, 0 if kind != 'mealy' else 1, 9)
            got = ask(mon, rng, sul, w, wit)
            want = m.answer(w)
            mon.check(len(got) == len(want) and all(same(x, y) for x, y in zip(got, want)), 'automaton',
                      f'{w!r}: {got}, should be {want}', **wit)
            mon.ev('automaton_words')
    else:
        m = gen_sm(rng, kind, nmax=5, amax=3, omax=4, observable=True)
        m.init = rng.randrange(m.n)
        sul = AutomatonSUL(build_sm(m))
        wit = dict(automaton=m.describe())
        for _ in range(6):
            w = tuple([None] * rng.randint(1, 6)) if kind == 'mc' else word(rng, m.A, 1, 9)
            if kind in ('mdp', 'ndmoore') and rng.random() < .2:
                w = ()
            got = ask(mon, rng, sul, w, wit)
            if not w:
                mon.check(len(got) == 1 and same(got[0], m.so[m.init]), 'automaton', f'(): {got}', **wit)
                continue
            mon.check(len(got) == len(w), 'automaton', f'{w!r}: {got}', **wit)
            cur = {m.init}
            for a, o in zip(w, got):
                cur = {t for s in cur for (x, t, p) in m.options(s, a) if same(x, o) and p > 0}
                mon.check(cur, 'automaton', f'{w!r}: {got} is impossible', **wit)
            mon.ev('automaton_words')
    mon.seen(kind, repr(m.describe()))


# ------------------------------------------------------------------ balanced words and benchmark languages

PAIRS = {'(': ')', '[': ']', '{': '}', '<': '>'}


def dyck(pairs, tokens, internal=()):
    """nonempty well matched word over brackets and the internal tokens"""
    st = []
    for c in tokens:
        if c in pairs:
            st.append(pairs[c])
        elif c in pairs.values():
            if not st or st.pop() != c:
                return False
        elif c not in internal:
            return False
    return not st and bool(tokens)


def balanced(rng, mon, idx):
    n = rng.randint(1, 4)
    opens = rng.sample(list(PAIRS), n)
    closes = [PAIRS[o] for o in opens]
    if rng.random() < .3:
        rng.shuffle(closes)
    cr = dict(zip(opens, closes))
    internal = rng.choice([[], ['a'], ['x', 'y']])
    allow = rng.random() < .5
    sul = BM.get_balanced_string_sul(cr, allow)
    letters = opens + closes + internal
    wit = dict(pairs=cr, internal=internal, empty=allow)
    for _ in range(12):
        w = []
        st = []
        for _ in range(rng.randint(0, 9)):
            r = rng.random()
            if r < .4:
                o = rng.choice(opens)
                st.append(cr[o])
                w.append(o)
            elif r < .8 and st:
                w.append(st.pop())
            else:
                w.append(rng.choice(letters))
        if rng.random() < .7:
            w += reversed(st)
        want = [dyck(cr, w[:i + 1], internal) for i in range(len(w))] or [allow]
        got = ask(mon, rng, sul, tuple(w), wit)
        mon.check(got == want, 'balanced', f'{"".join(w)!r}: {got}, should be {want}', **wit)
        mon.ev('balanced_words')
    mon.seen('balanced', repr(wit))


def blocks(up, down, s):
    """up^n down^n for n >= 1, up and down: sets of equally long blocks"""
    k = len(next(iter(up)))
    if len(s) % (2 * k) or not s:
        return False
    parts = [s[i:i + k] for i in range(0, len(s), k)]
    h = len(parts) // 2
    return all(p in up for p in parts[:h]) and all(p in down for p in parts[h:])


def mirrored(pairs, s):
    """opens then closes, matching"""
    h = len(s) // 2
    return bool(s) and len(s) % 2 == 0 and all(c in pairs for c in s[:h]) and s[h:] == ''.join(pairs[c] for c in reversed(s[:h]))


def sub(k):
    return dict(list(PAIRS.items())[:k])


def dyck_abc(s):
    t = s.replace('abc', 'd')
    return 'a' not in t and 'b' not in t and 'c' not in t and dyck(sub(1), t, 'd')


def primitive(s):
    return len(s) >= 2 and s[0] == 'a' and s[-1] == 'b' and dyck({'a': 'b'}, s) and \
        not any(dyck({'a': 'b'}, s[:i]) for i in range(1, len(s)))


LANGS = {
    'vpa_L1': (BV.vpa_L1, 'ab', lambda s: blocks({'a'}, {'b'}, s)),
    'vpa_L2': (BV.vpa_L2, 'abcd', lambda s: blocks({'a', 'b'}, {'c', 'd'}, s)),
    'vpa_for_L3': (BV.vpa_for_L3, 'abcdefgh', lambda s: blocks({'ab', 'cd'}, {'ef', 'gh'}, s)),
    'vpa_L3': (BV.vpa_L3, 'abcd', lambda s: blocks({'ab'}, {'cd'}, s)),
    'vpa_L4': (BV.vpa_L4, '()[]', lambda s: dyck(sub(2), s)),
    'vpa_L6': (BV.vpa_L6, '()[]{}', lambda s: dyck(sub(3), s)),
    'vpa_L8': (BV.vpa_L8, '()[]{}<>', lambda s: dyck(sub(4), s)),
    'vpa_L9': (BV.vpa_L9, '()[]', lambda s: mirrored(sub(2), s)),
    'vpa_L10': (BV.vpa_L10, '()abc', lambda s: dyck(sub(1), s, 'abc')),
    'vpa_L11': (BV.vpa_L11, '()[]abc', lambda s: dyck(sub(2), s, 'abc')),
    'vpa_L12': (BV.vpa_L12, '()abcd', dyck_abc),
    'vpa_for_L16': (BV.vpa_for_L16, 'ab', primitive),
    'odd': (BV.vpa_for_odd_parentheses, '()', lambda s: mirrored(sub(1), s) and len(s) % 4 == 2),
    'sevpa_L1': (BS.sevpa_for_L1, 'ab', lambda s: blocks({'a'}, {'b'}, s)),
    'sevpa_L2': (BS.sevpa_for_L2, 'abcd', lambda s: blocks({'a', 'b'}, {'c', 'd'}, s)),
    'sevpa_L3': (BS.sevpa_for_L3, 'abcdefgh', lambda s: blocks({'ab', 'cd'}, {'ef', 'gh'}, s)),
    'sevpa_L4': (BS.sevpa_for_L4, 'abcd', lambda s: blocks({'ab'}, {'cd'}, s)),
    'sevpa_L5': (BS.sevpa_for_L5, 'abcdef', lambda s: blocks({'abc'}, {'def'}, s)),
    'sevpa_L7': (BS.sevpa_for_L7, '()[]', lambda s: dyck(sub(2), s)),
    'sevpa_L8': (BS.sevpa_for_L8, '()[]{}', lambda s: dyck(sub(3), s)),
    'sevpa_L9': (BS.sevpa_for_L9, '()[]{}<>', lambda s: dyck(sub(4), s)),
    'sevpa_L12': (BS.sevpa_for_L12, '()[]', lambda s: mirrored(sub(2), s)),
    'sevpa_L13': (BS.sevpa_for_L13, '()abc', lambda s: dyck(sub(1), s, 'abc')),
    'sevpa_L14': (BS.sevpa_for_L14, '()[]abc', lambda s: dyck(sub(2), s, 'abc')),
    'sevpa_L15': (BS.sevpa_for_L15, '()abcd', dyck_abc),
    'angluin': (BM.get_Angluin_dfa, 'ab', lambda s: s.count('a') % 2 == 0 and s.count('b') % 2 == 0),
}
NAMES = sorted(LANGS)


def likely(rng, name, sig):
    """words near the language"""
    r = rng.random()
    n = rng.randint(1, 4)
    if 'abcdefgh' == sig:
        u, d = ['ab', 'cd'], ['ef', 'gh']
    elif sig == 'abcdef':
        u, d = ['abc'], ['def']
    elif sig == 'abcd':
        u, d = (['ab'], ['cd']) if name in ('vpa_L3', 'sevpa_L4') else (['a', 'b'], ['c', 'd'])
    elif sig == 'ab':
        u, d = ['a'], ['b']
        if rng.random() < .4:
            w = ''
            for _ in range(n):
                w = rng.choice([f'a{w}b', w + 'ab', 'ab' + w])
            return w
    else:
        pr = [(o, c) for o, c in PAIRS.items() if o in sig]
        inner = [c for c in sig if c.isalpha()]
        w = ''
        for _ in range(rng.randint(1, 6)):
            o, c = rng.choice(pr)
            x = rng.choice(inner + ['abc'] * bool(inner) + ['']) if inner else ''
            w = rng.choice([f'{o}{w}{c}', f'{o}{w}{c}', w + o + c, w + x, x + w, f'{o}{x}{w}{c}'])
        return w
    w = ''.join(rng.choice(u) for _ in range(n)) + ''.join(rng.choice(d) for _ in range(n))
    return w


def language(rng, mon, idx):
    name = NAMES[idx % len(NAMES)]
    mk, sig, member = LANGS[name]
    sul = AutomatonSUL(mk())
    wit = dict(language=name)
    words = [''.join(w) for l in range(4) for w in itertools.product(sig, repeat=l)]
    if len(words) > 30:
        words = [''] + rng.sample(words, 29)
    for _ in range(20):
        w = likely(rng, name, sig)
        if rng.random() < .5 and w:
            i = rng.randrange(len(w))
            w = rng.choice([w[:i] + w[i + 1:], w[:i] + rng.choice(sig) + w[i:], w[:i] + rng.choice(sig) + w[i + 1:], w + w])
        words.append(w)
    for w in words:
        want = [member(w[:i + 1]) for i in range(len(w))] or [member('')]
        got = ask(mon, rng, sul, tuple(w), wit)
        mon.check([bool(x) for x in got] == want, 'language', f'{name}, {w!r}: {got}, should be {want}', **wit)
        mon.ev('language_words')
        mon.ev('language_accepted', sum(want))
    mon.seen('language', name, repr(words))


# ------------------------------------------------------------------ dates, stochastic and non-deterministic models

DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def dates(rng, mon, idx):
    v = BM.DateValidator()
    sul = PyClassSUL(BM.DateValidator)
    for _ in range(20):
        d, m, y = rng.choice([0, 1, 15, 28, 29, 30, 31, 32, rng.randint(0, 99)]), rng.choice([0, 1, 2, 2, 4, 12, 13, rng.randint(1, 12), -1]), \
            rng.choice([0, 1, 1900, 2000, 2024, 9999, 10000, rng.randint(0, 9999)])
        parts = [rng.choice(['%d', '%02d']) % d, rng.choice(['%d', '%02d']) % m, rng.choice(['%d', '%04d']) % y]
        want = 1 <= m <= 12 and 1 <= d <= DAYS[m - 1] and 0 <= y <= 9999
        r = rng.random()
        if r < .05:
            parts, want = parts[:rng.randint(0, 2)], False
        elif r < .1:
            parts, want = parts + [rng.choice(['1', '', 'x'])], False
        elif r < .2:
            i = rng.randrange(3)
            parts[i], want = rng.choice(['', 'a', parts[i] + 'x', '1.0', '1-2', '#', 'IX']), False
        text = '/'.join(parts)
        how = rng.random()
        if how < .5:
            got = v.is_date_accepted(text)
        else:
            got = ask(mon, rng, sul, (FunctionDecorator(BM.DateValidator.is_date_accepted, text),), dict(text=text))[0]
        mon.check(got is want, 'date', f'{text!r}: {got}', text=text)
        mon.ev('dates')
        mon.ev('valid_dates', want)
        mon.seen('date', text)


MODELS = {'get_faulty_coffee_machine_MDP': 'mdp', 'get_weird_coffee_machine_MDP': 'mdp', 'get_faulty_coffee_machine_SMM': 'smm',
          'get_minimal_faulty_coffee_machine_SMM': 'smm', 'get_faulty_mqtt_SMM': 'smm', 'get_small_gridworld': 'smm',
          'get_small_pomdp': 'mdp', 'get_ONFSM': 'onfsm', 'get_benchmark_ONFSM': 'onfsm'}


def models(rng, mon, idx):
    """bundled stochastic and non-deterministic models are well formed, and what their names and comments say"""
    name = list(MODELS)[idx % len(MODELS)]
    kind = MODELS[name]
    model = getattr(BM, name)()
    h = read_sm(model)
    wit = dict(model=name, states=h.describe())
    mon.check(h.kind == kind, 'kind', h.kind, **wit)
    mon.check(sorted(h.listed) == list(range(h.n)) and h.n_reach == h.n, 'states', f'{h.listed} listed, {h.n} linked', **wit)
    mon.check(len({s.state_id for s in model.states}) == h.n, 'states', 'ids', **wit)
    for s in range(h.n):
        for a in h.A:
            l = h.options(s, a)
            mon.check(bool(l), 'incomplete', f'{name}: no transition on {a!r} in {h.order[s].state_id}', **wit)
            if kind != 'onfsm':
                mon.check(abs(sum(p for _, _, p in l) - 1) < 1e-9 and all(p > 0 for _, _, p in l), 'probabilities',
                          f'{name}: {[p for _, _, p in l]} on {a!r} in {h.order[s].state_id}', **wit)
            if name != 'get_small_pomdp':
                mon.check(len({repr(o) for o, _, _ in l}) == len(l), 'not-observable', f'{name}: {l} on {a!r} in '
                          f'{h.order[s].state_id}', **wit)
    # random execution through the system under learning
    sul = AutomatonSUL(model)
    random.seed(rng.getrandbits(32))
    for _ in range(4):
        w = word(rng, h.A, 1, 10)
        cur = {h.init}
        for a, o in zip(w, ask(mon, rng, sul, w, wit)):
            cur = h.post(cur, a, o)
            mon.check(bool(cur), 'impossible-output', f'{name}: {o!r} on {a!r} in {w}', **wit)
    if 'coffee' in name and 'weird' not in name:
        # the same machine as MDP, as SMM and as minimal SMM
        smm = read_sm(BM.get_faulty_coffee_machine_SMM())
        if kind == 'mdp':
            ref, m = smm, read_sm(model)
            m.so = None
        else:
            ref, m = smm, h
        msg = bisim_sm(ref, m, tol=1e-9)
        mon.check(msg is None, 'coffee-machine', f'{name}: {msg}', **wit)
        one = m.options(m.init, 'coin')
        mon.check(len(one) == 1 and one[0][0] == 'beep', 'coffee-machine', f'{name}: {one} on coin', **wit)
        but = {o: p for o, t, p in m.options(one[0][1], 'but')}
        mon.check(set(but) == {'init', 'coffee'} and abs(but['coffee'] - .9) < 1e-9, 'coffee-machine', f'{name}: {but} on but', **wit)
    if name == 'get_small_gridworld':
        # two by two cells: grass, mud above mud, grass; moving works with probability .8 on grass, .6 on mud
        step = {'north': (-1, 0), 'south': (1, 0), 'east': (0, 1), 'west': (0, -1)}
        ground = {(0, 0): 'grass', (0, 1): 'mud', (1, 0): 'mud', (1, 1): 'grass'}
        at, todo = {h.init: (0, 0)}, [h.init]
        for s in todo:
            for a, (dr, dc) in step.items():
                cell = at[s][0] + dr, at[s][1] + dc
                if cell not in ground:
                    mon.check(h.options(s, a) == [('wall', s, 1.0)], 'gridworld', f'{a} at {at[s]}: {h.options(s, a)}', **wit)
                    continue
                p = .8 if ground[cell] == 'grass' else .6
                go = [e for e in h.options(s, a) if abs(e[2] - p) < 1e-9]
                mon.check(len(go) == 1 and go[0][0] == ground[cell], 'gridworld', f'{a} at {at[s]}: {h.options(s, a)}', **wit)
                if at.setdefault(go[0][1], cell) == cell and go[0][1] not in todo:
                    todo.append(go[0][1])
                mon.check(at[go[0][1]] == cell, 'gridworld', f'{a} at {at[s]} leads to {at[go[0][1]]}', **wit)
        mon.check(len(at) == 4, 'gridworld', f'{len(at)} cells', **wit)
    mon.ev('bundled_models')
    mon.seen('model', name)
