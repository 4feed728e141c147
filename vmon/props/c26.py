"""Data and test cases derived from automata say what the automaton does; data files are read as written."""
import itertools
import os
import random
import shutil
import tempfile

from aalpy.SULs import AutomatonSUL
from aalpy.automata import SevpaAlphabet, VpaAlphabet
from aalpy.learning_algs import run_RPNI
from aalpy.learning_algs.general_passive.GsmNode import detect_data_format
from aalpy.oracles import (BreadthFirstExplorationEqOracle, RandomWalkEqOracle, RandomWMethodEqOracle,
                           RandomWordEqOracle, StatePrefixEqOracle, TransitionFocusOracle, WMethodEqOracle)
from aalpy.utils import (CharacterTokenizer, DelimiterTokenizer, IODelimiterTokenizer, convert_i_o_traces_for_RPNI,
                         generate_input_output_data_from_automata, generate_input_output_data_from_vpa,
                         generate_test_cases, is_balanced)
from aalpy.utils.Sampling import (get_complete_sample, get_data_from_input_sequence, get_io_traces,
                                  get_labeled_sequences, sample_with_length_limits, sample_with_term_prob)

from ..aal import build
from ..core import Skip
from ..gen import gen_dm, permuted, word
from ..ref import diff, extract, fresh, same
from ..stoch import build_sm, gen_sm, wide
from ..vpl import gen_rv, structured
from .c21 import build_sevpa, build_vpa, used

ID = 'C26'
RULE = ('A case derives one data set (traces, labelled words, samples, complete sample, test cases) from a generated '
        'automaton, or writes and reads one data file; every data point is judged by the reference machine. '
        'Distinct = (kind of data, automaton or file).')
FLOORS = {'traces': 70000, 'sampled_words': 80000, 'complete_samples': 3000, 'rpni_from_sample': 3000,
          'file_rows': 20000, 'generated_points': 40000, 'vpa_points': 50000, 'formats': 5000, 'test_cases': 80000,
          'w_suites': 500, 'mutants': 3000, 'balance_words': 20000}


def plan(tier):
    q = tier == 'quick'
    return [('traces', 15000 if q else 100000), ('sample', 10000 if q else 80000), ('complete', 8000 if q else 80000),
            ('tokens', 8000 if q else 60000), ('generate', 10000 if q else 80000), ('vpadata', 5000 if q else 40000),
            ('format', 10000 if q else 60000), ('testcases', 8000 if q else 80000), ('balance', 4000 if q else 20000)]


def run(family, idx, rng, mon):
    random.seed(rng.getrandbits(32))
    globals()[family](rng, mon, idx)


DET = ('dfa', 'moore', 'mealy')
MOORE = ('dfa', 'moore', 'ndmoore', 'mdp', 'mc')


class Auto:
    """an automaton of any kind with its reference: which outputs are possible"""

    def __init__(self, rng, kind=None, **kw):
        self.kind = kind or rng.choice(['dfa', 'moore', 'mealy', 'mealy', 'onfsm', 'ndmoore', 'mdp', 'smm', 'mc'])
        if self.kind in DET:
            self.m = permuted(rng, gen_dm(rng, self.kind, none=False, nmax=8, amax=3, **kw))
            self.model = build(self.m)
        else:
            self.m = gen_sm(rng, self.kind, **wide(rng))
            self.m.init = rng.randrange(self.m.n)
            self.model = build_sm(self.m)
        self.A = self.m.A if self.kind != 'mc' else [None]

    def init(self):
        return self.m.so[self.m.init]

    def possible(self, w, outs):
        """outs can be the answer to w"""
        if len(w) != len(outs):
            return False
        if self.kind in DET:
            return all(same(x, y) for x, y in zip(self.m.run(w), outs))
        cur = {self.m.init}
        for a, o in zip(w, outs):
            cur = {t for s in cur for (x, t, p) in self.m.options(s, a) if same(x, o) and p > 0}
        return bool(cur)

    def last(self, w, o):
        """o can be the last output of the answer to w (non-empty)"""
        if self.kind in DET:
            return same(self.m.run(w)[-1], o)
        cur = {self.m.init}
        for a in w[:-1]:
            cur = {t for s in cur for (x, t, p) in self.m.options(s, a) if p > 0}
        return any(same(x, o) and p > 0 for s in cur for (x, t, p) in self.m.options(s, w[-1]))


def check_traces(mon, a, words, data, wit):
    mon.check(len(data) == len(words), 'trace-count', f'{len(data)} traces for {len(words)} words', **wit)
    for w, t in zip(words, data):
        t = list(t)
        if a.kind in MOORE:
            mon.check(bool(t) and same(t[0], a.init()), 'initial-output', f'{t} of {a.kind} after {w}', **wit)
            t = t[1:]
        mon.check(all(isinstance(p, tuple) and len(p) == 2 for p in t), 'trace-shape', f'{t}', **wit)
        mon.check([i for i, _ in t] == list(w), 'trace-inputs', f'{t} for {w}', **wit)
        mon.check(a.possible(list(w), [o for _, o in t]), 'trace-outputs', f'{t} for {w}', **wit)
        mon.ev('traces')


def traces(rng, mon, idx):
    a = Auto(rng)
    words = [rng.choice([list, tuple])(word(rng, a.A, 0, 8)) for _ in range(rng.randint(0, 8))]
    wit = dict(automaton=a.m.describe(), words=[repr(w) for w in words])
    copy = [list(w) for w in words]
    how = idx % 4
    if how == 0:
        check_traces(mon, a, words, get_io_traces(a.model, words), wit)
    elif how == 1:
        data = get_data_from_input_sequence(a.model, words, *([] if rng.random() < .5 else [fresh('io_sequences')]))
        check_traces(mon, a, words, data, wit)
    else:
        empty = a.kind not in MOORE and any(len(w) == 0 for w in words)
        try:
            data = get_labeled_sequences(a.model, words) if how == 2 else \
                get_data_from_input_sequence(a.model, words, fresh('labeled_sequences'))
        except ValueError:
            mon.check(empty, 'rejected', 'labelled sequences refused', **wit)
            mon.ev('rejected')
            return
        mon.check(not empty, 'not-rejected', f'label of the empty word of a {a.kind}: {data}', **wit)
        mon.check(len(data) == len(words), 'label-count', f'{len(data)} for {len(words)} words', **wit)
        for w, d in zip(words, data):
            mon.check(list(d[0]) == list(w) and len(d) == 2, 'label-word', f'{d} for {w}', **wit)
            ok = a.last(list(w), d[1]) if len(w) else same(d[1], a.init())
            mon.check(ok, 'label', f'{d}', **wit)
            mon.ev('traces')
    if how == 3 and rng.random() < .2:
        bad = rng.choice(['traces', '', 'io', 'labelled_sequences'])
        try:
            get_data_from_input_sequence(a.model, words, bad)
            mon.fail('not-rejected', f'data format {bad!r} accepted', **wit)
        except ValueError:
            mon.ev('rejected')
    mon.check([list(w) for w in words] == copy, 'words-changed', 'input words were modified', **wit)
    mon.seen('traces', how, repr(a.m.describe()))


def sample(rng, mon, idx):
    a = Auto(rng, kind=rng.choice(['dfa', 'moore', 'mealy', 'onfsm', 'mdp', 'smm']))
    n = rng.choice([0, 1, 7, 60, 60])
    lo = rng.randint(0, 4)
    hi = lo + rng.choice([0, 1, 3])
    p = rng.choice([.02, .15, .4, .8, 1.0])
    length = idx % 2 == 0
    outputs = rng.random() < .5
    arg = a.model if outputs or rng.random() < .5 else list(a.A)
    wit = dict(automaton=a.m.describe(), n=n, lo=lo, hi=hi, p=p, length=length)
    if rng.random() < .05:
        try:
            sample_with_length_limits(list(a.A), 2, 1, 2, include_outputs=True)
            mon.fail('not-rejected', 'outputs for a plain alphabet', **wit)
        except ValueError:
            mon.ev('rejected')
    kw = dict(include_outputs=True) if outputs else rng.choice([{}, dict(include_outputs=False)])
    data = sample_with_length_limits(arg, n, lo, hi, **kw) if length else sample_with_term_prob(arg, n, p, **kw)
    mon.check(len(data) == n, 'sample-count', f'{len(data)} samples instead of {n}', **wit)
    words = data
    if outputs:
        words = [[i for i, _ in (t[1:] if a.kind in MOORE else t)] for t in data]
        check_traces(mon, a, words, data, wit)
    seen = set()
    for w in words:
        mon.check(all(x in a.A for x in w), 'sample-letter', f'{w}', **wit)
        if length:
            mon.check(lo <= len(w) <= hi, 'sample-length', f'{len(w)} not in {lo}..{hi}', **wit)
        seen.add(len(w))
        mon.ev('sampled_words')
    if n == 60:
        tot = sum(len(w) for w in words)
        if length:
            # missing one of at most 4 lengths in 60 draws has probability below 1e-7
            mon.check(seen == set(range(lo, hi + 1)), 'sample-length', f'lengths {seen}, range {lo}..{hi}', **wit)
        else:
            # geometric with mean (1-p)/p: bound at 7 standard deviations of the sum
            mu, sd = n * (1 - p) / p, (n * (1 - p)) ** .5 / p
            mon.check(abs(tot - mu) <= 9 * sd + 20 * (p < 1), 'sample-length',
                      f'{tot} letters in {n} words, expected {mu:.0f}', **wit)
        if not length and p == .02:
            # a word of more than 60 letters has probability .29
            mon.check(max(seen) > 60, 'sample-length', f'the longest of {n} words has {max(seen)} letters', **wit)
        if tot > 60 * len(a.A):
            mon.check({x for w in words for x in w} == set(a.A), 'sample-letter', 'a letter never occurs', **wit)
    mon.seen('sample', repr(wit))


def complete(rng, mon, idx):
    m = permuted(rng, gen_dm(rng, DET[idx % 3], none=False, nmax=9, amax=3, broad=0).minimize())
    if m.n == 1:
        raise Skip()
    model = build(m)
    wit = dict(automaton=m.describe())
    words = get_complete_sample(model)
    ws = {tuple(w) for w in words}
    mon.check(all(x in m.A for w in ws for x in w), 'sample-letter', 'letter outside the alphabet', **wit)
    # a structurally complete and distinguishing sample: RPNI has to find the machine
    pre = {w[:i] for w in ws for i in range(len(w) + 1)}
    edges = {(m.goto(w[:-1]), w[-1]) for w in pre if w}
    mon.check(len(edges) == m.n * len(m.A), 'complete-sample', f'{len(edges)} of {m.n * len(m.A)} transitions', **wit)
    full = get_io_traces(model, list(ws))
    if m.kind == 'mealy':
        data = convert_i_o_traces_for_RPNI(full)
    else:
        data = get_labeled_sequences(model, [w[:i] for w in ws for i in range(len(w) + 1)])
        data = [(tuple(w), o) for w, o in data]
    res = run_RPNI(data, m.kind, print_info=False)
    r = extract(res, m.kind, None, 'RPNI result')
    for s in range(r.n_reach):
        mon.check(set(r.d[s]) == set(m.A), 'complete-sample', 'RPNI result from the complete sample is partial', **wit)
    w = diff(m, r, m.A)
    mon.check(w is None, 'complete-sample', f'RPNI from the complete sample errs on {w}', **wit)
    mon.ev('complete_samples')
    mon.ev('rpni_from_sample')
    mon.seen('complete', m.canon())


SAFE = 'abcXYZ019_ .+*#'


def token(rng, bad, style):
    if style == 'num':
        return rng.choice(['0', '7', '42', '007', '1000000'])
    while True:
        t = ''.join(rng.choice(SAFE) for _ in range(rng.randint(1, 4)))
        if rng.random() < .1:
            t = rng.choice(['-3', '1.5', '3a', 'True', 'None', '²', '①', '4²'])
        if not any(c in t for c in bad):
            return t


def intended(t):
    """the value of a token: digits are integers"""
    return int(t) if t and all(c in '0123456789' for c in t) else t


def tokens(rng, mon, idx):
    d = tempfile.mkdtemp(prefix='vmon26')
    try:
        p = os.path.join(d, 'data.txt')
        nl = rng.choice(['\n', '\n', '\r\n'])
        rows = rng.randint(0, 12)
        kind = idx % 3
        lines, want = [], []
        dl = rng.choice([',', ';', '|', ' ', '::', '\t'])
        io = rng.choice([c for c in ['/', ':', '->', '=', '-'] if c not in dl])
        if kind == 2 and dl == '::' and io == ':':
            io = '/'
        for _ in range(rows):
            if kind == 0:
                t = ''.join(rng.choice(SAFE + ',;/') for _ in range(rng.randint(1, 12)))
                lines.append(t)
                want.append(list(t))
            elif kind == 1:
                ts = [token(rng, dl, rng.choice(['num', 'x'])) for _ in range(rng.randint(1, 7) if rng.random() < .97 else rng.randint(50, 400))]
                lines.append(dl.join(ts))
                want.append(ts)
            else:
                st = rng.choice(['num', 'x'])
                init = token(rng, dl + io, st)
                prs = [(token(rng, dl + io, rng.choice(['num', 'x'])), token(rng, dl + io, rng.choice(['num', 'x'])))
                       for _ in range(rng.randint(0, 6) if rng.random() < .97 else rng.randint(50, 400))]
                lines.append(dl.join([init] + [a + io + b for a, b in prs]))
                want.append([intended(init)] + [(intended(a), intended(b)) for a, b in prs])
        text = nl.join(lines) + (nl if lines and rng.random() < .5 else '')
        with open(p, 'w', newline='') as f:
            f.write(text)
        if kind == 0:
            got = CharacterTokenizer().tokenize_data(p)
        elif kind == 1:
            got = DelimiterTokenizer().tokenize_data(p, dl) if dl != ',' else DelimiterTokenizer().tokenize_data(p)
        else:
            kw = {} if (dl, io) == (',', '/') else dict(io_delimiter=io, word_delimiter=dl)
            got = IODelimiterTokenizer().tokenize_data(p, **kw)
        mon.check(repr(got) == repr(want), 'tokens', f'{got[:3]} instead of {want[:3]}', text=text, delimiter=dl, io=io,
                  style=kind)
        mon.ev('file_rows', rows)
        mon.ev('files')
        mon.seen('tokens', text)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def generate(rng, mon, idx):
    a = Auto(rng, kind=rng.choice(['dfa', 'moore', 'mealy', 'onfsm', 'mdp', 'smm', 'ndmoore']))
    n = rng.choice([0, 1, 5, 30, 60])
    lo = rng.choice([1, 2, 3, 4, 12])
    hi = lo + rng.choice([0, 1, 2, 5, 15])
    kind = rng.choice(['io_traces', 'labeled_sequences'])
    wit = dict(automaton=a.m.describe(), n=n, lo=lo, hi=hi, type=kind)
    data = generate_input_output_data_from_automata(a.model, num_sequances=n, min_seq_len=lo, max_seq_len=hi,
                                                    sequance_type=kind)
    seen = set()
    mon.check(len(data) == n, 'data-count', f'{len(data)} instead of {n}', **wit)
    for d in data:
        if kind == 'io_traces':
            w = [i for i, _ in d]
            mon.check(a.possible(w, [o for _, o in d]), 'data-outputs', f'{d}', **wit)
        else:
            w = list(d[0])
            mon.check(a.last(w, d[1]), 'data-label', f'{d}', **wit)
        mon.check(lo <= len(w) <= hi, 'data-length', f'{len(w)} not in {lo}..{hi}', **wit)
        mon.check(all(x in a.A for x in w), 'data-letter', f'{w}', **wit)
        seen.add(len(w))
        mon.ev('generated_points')
    if n == 60 and hi - lo < 3:
        mon.check(seen == set(range(lo, hi + 1)), 'data-length', f'lengths {seen}, range {lo}..{hi}', **wit)
    mon.seen('generate', kind, repr(a.m.describe()))


def vpadata(rng, mon, idx):
    if idx % 2:
        rv = structured(rng) if rng.random() < .3 else gen_rv(rng, nmax=4, single_entry=rng.random() < .4)
        model = build_vpa(rv)
    else:
        rv = gen_rv(rng, nmax=4, single_entry=True)
        C = {g[1] for row in rv.rr for (g, r) in row}
        rv.C = [c for c in rv.C if c in C]
        rv.cc = [{c: v for c, v in row.items() if c in C} for row in rv.cc]
        model = build_sevpa(rv)
    al = model.get_input_alphabet()
    letters = set(al.internal_alphabet) | set(al.call_alphabet) | set(al.return_alphabet)
    if not letters:
        raise Skip()
    model.input_alphabet = al
    n = rng.choice([1, 10, 60])
    top = rng.randint(4, 12)
    few = sum(len(letters) ** k for k in range(1, top + 1)) < 4 * n
    att = rng.choice([None, None, 5]) if not few else 50
    wit = dict(machine=rv.describe(), n=n, max_len=top, attempts=att)
    data = generate_input_output_data_from_vpa(model, num_sequances=n, max_seq_len=top, max_attempts=att)
    if att is None:
        mon.check(n <= len(data) < n + top, 'data-count', f'{len(data)} points, asked for {n}', **wit)
    mon.check(len({w for w, _ in data}) == len(data), 'data-duplicates', 'a word occurs twice', **wit)
    for w, o in data:
        mon.check(1 <= len(w) <= top and all(x in letters for x in w), 'data-word', f'{w}', **wit)
        mon.check(bool(o) == rv.accepts(w) and isinstance(o, bool), 'data-label', f'{w}: {o}', **wit)
        mon.ev('vpa_points')
    mon.seen('vpadata', repr(rv.describe()), n, top)


def format(rng, mon, idx):
    """data sets in a known format; ambiguous ones are refused unless a guess is allowed"""
    L, O = rng.choice([('ab', 'xyz'), ([1, 2], [0, 1]), (['a', 'b'], [True, False])])
    n = rng.randint(0, 5)
    kind = idx % 4
    seqs = [[rng.choice(L) for _ in range(rng.randint(0, 4))] for _ in range(n)]
    lst = rng.choice([list, tuple])
    o = lambda: rng.choice(O)
    if kind == 0:
        name = 'io_traces'
        data = [lst([o()] + [(i, o()) for i in w]) for w in seqs]
    elif kind == 1:
        name = 'io_traces'
        data = [lst([(i, o()) for i in w]) for w in seqs]
    elif kind == 2:
        name = 'labeled_sequences'
        data = [(lst(w), o()) for w in seqs]
    else:
        name = 'traces'
        # symbols may be strings or tuples; only pairs would look like steps
        syms = rng.choice([O, ['pq', 'rs'], [('p', 1, 2), ('p', 1, 3)], [('p',), ('q',)], [(), 'x'], ['ab', ('a', 'b', 'c')]])
        data = [lst([rng.choice(syms) for _ in range(rng.randint(3, 5))]) for _ in seqs]
    data = lst(data)
    # what the data could be, by the documented shapes
    pair = lambda x: isinstance(x, (list, tuple)) and len(x) == 2
    io = all(all(pair(x) for x in d[1:]) for d in data)
    lab = all(len(d) == 2 and isinstance(d[0], (list, tuple)) for d in data)
    wit = dict(data=repr(data), case=kind)
    got = {}
    for guess in (False, True):
        try:
            got[guess] = detect_data_format(data, check_consistency=True, guess=guess)
        except ValueError:
            got[guess] = 'refused'
    if not data:
        want = ('io_traces', 'io_traces')
    elif io and lab:
        want = ('refused', None)
        mon.ev('ambiguous')
    else:
        want = (name if name != 'traces' else ('io_traces' if io else 'traces'),) * 2
    mon.check(got[False] == want[0], 'format', f'{got[False]} instead of {want[0]}', **wit)
    if want[1]:
        mon.check(got[True] == want[1], 'format', f'{got[True]} instead of {want[1]} (guess)', **wit)
    else:
        mon.check(got[True] in ('io_traces', 'labeled_sequences'), 'format', f'guess {got[True]}', **wit)
    if data and not (io and lab):
        # the first conclusive element decides if consistency is not required
        mon.check(detect_data_format(data) == want[0], 'format', 'without consistency check', **wit)
    for bad in ('abc', 5, None, {'a': 1}, [1, 2], ['ab']):
        try:
            r = detect_data_format(bad, check_consistency=True)
            mon.fail('format', f'{bad!r} was taken for {r}', **wit)
        except ValueError:
            mon.ev('rejected')
    mon.ev('formats')
    mon.seen('format', repr(data))


def testcases(rng, mon, idx):
    kind = DET[idx % 3]
    m = permuted(rng, gen_dm(rng, kind, none=False, nmax=6, amax=3, broad=0, styles=['random', 'lock', 'cycle', 'sink', 'tree']).minimize())
    if m.n == 1:
        raise Skip()
    model = build(m)
    reach = m.reach()
    for i, s in enumerate(model.states):
        s.prefix = reach[i]
    o = ['w', 'rw', 'word', 'walk', 'bfs', 'prefix', 'tf'][(idx // 3) % 7]
    model.compute_prefixes()
    al = list(m.A)
    depth = rng.choice([0, 0, 1])
    num = rng.choice([1, 7, 30])
    if o == 'w':
        eq = WMethodEqOracle(al, None, max_number_of_states=m.n + depth, shuffle_test_set=rng.random() < .5)
    elif o == 'rw':
        eq = RandomWMethodEqOracle(al, None, walks_per_state=num, walk_len=4)
    elif o == 'word':
        eq = RandomWordEqOracle(al, None, num_walks=num, min_walk_len=2, max_walk_len=6)
    elif o == 'walk':
        eq = RandomWalkEqOracle(al, None, num_steps=num * 5, reset_prob=.3)
    elif o == 'bfs':
        eq = BreadthFirstExplorationEqOracle(al, None, depth=3)
    elif o == 'prefix':
        eq = StatePrefixEqOracle(al, None, walks_per_state=num, walk_len=3)
    else:
        eq = TransitionFocusOracle(al, None, num_random_walks=num, walk_len=5)
    wit = dict(automaton=m.describe(), oracle=o, num=num, depth=depth)
    cases = generate_test_cases(model, eq)
    for w, r in cases:
        mon.check(len(w) == len(r) > 0 and all(same(x, y) for x, y in zip(m.run(w), r)), 'test-case', f'{w}: {r}', **wit)
        mon.ev('test_cases')
    tests = [w for w, _ in cases]
    if o in ('word', 'tf'):
        mon.check(len(tests) == num, 'test-count', f'{len(tests)} tests instead of {num}', **wit)
    elif o in ('rw', 'prefix'):
        mon.check(len(tests) == num * m.n, 'test-count', f'{len(tests)} tests instead of {num * m.n}', **wit)
    elif o == 'walk':
        mon.check(sum(map(len, tests)) == num * 5, 'test-count', f'{sum(map(len, tests))} steps instead of {num * 5}', **wit)
    elif o == 'bfs':
        ts = {t for t in tests}
        pre = {t[:i] for t in ts for i in range(len(t) + 1)}
        mon.check(all(t in pre for t in itertools.product(al, repeat=3)), 'test-suite', 'a word of length 3 is missing', **wit)
    else:
        # the suite distinguishes the machine from every machine obtained by one change of target or output
        pre = {t[:i] for t in tests for i in range(len(t) + 1)}
        mon.ev('w_suites')
        for s in range(m.n):
            for a in m.A:
                mon.check(any(p and m.goto(p[:-1]) == s and p[-1] == a for p in pre), 'test-suite',
                          f'transition {a!r} of state {s} is never tested', **wit)
        for _ in range(12):
            s, a, t = rng.randrange(m.n), rng.choice(m.A), rng.randrange(m.n)
            x = type(m)(m.kind, m.A, [dict(r) for r in m.d], m.so and list(m.so), m.eo and [dict(r) for r in m.eo], m.init)
            if t == m.d[s][a]:
                continue
            x.d[s][a] = t
            if diff(m, x, m.A) is None:
                continue
            mon.check(any(any(not same(p, q) for p, q in zip(x.run(w), m.run(w))) for w in tests), 'test-suite',
                      f'change of transition {a!r} of state {s} to {t} is not detected', **wit)
            mon.ev('mutants')
    mon.seen('testcases', o, m.canon())
    mon.sample(oracle=o, states=m.n, tests=[repr(c) for c in cases[:3]])


def balance(rng, mon, idx):
    I, C, R = [['i', 'j'][:rng.randint(0, 2)], ['c', 'd'][:rng.randint(1, 2)], ['r', 's'][:rng.randint(1, 2)]]
    if rng.random() < .3:
        I, C, R = [0], [1, 2], [3]
    al = rng.choice([VpaAlphabet, SevpaAlphabet])(I, C, R)
    for _ in range(10):
        w = []
        d = 0
        for _ in range(rng.randint(0, 10)):
            x = rng.choice(C + R + I)
            w.append(x)
        if rng.random() < .6:
            d = 0
            u = []
            for x in w:
                if x in R and d == 0:
                    continue
                d += (x in C) - (x in R)
                u.append(x)
            w = u + [rng.choice(R) for _ in range(d if rng.random() < .8 else max(0, d - 1))]
        d, ok = 0, True
        for x in w:
            d += (x in C) - (x in R)
            ok = ok and d >= 0
        want = ok and d == 0
        got = is_balanced(rng.choice([tuple, list])(w), al)
        mon.check(got is want, 'balanced', f'{w}: {got}', internal=I, calls=C, returns=R)
        mon.ev('balance_words')
        mon.seen('balance', repr(w))
