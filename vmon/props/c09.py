"""Randomized and coverage-guided oracles carry out the campaign their parameters describe."""
from collections import Counter
from itertools import combinations, permutations, product

from ..orc import NdSession, Session, pac_tests

ID = 'C09'
RULE = ('A case is one session of a randomized or coverage-guided equivalence oracle; the tests executed at the system '
        'are compared with the campaign documented for its parameters (number, length, shape and coverage of tests). '
        'Distinct = (oracle, parameters, system, hypothesis); non-trivial = at least one test executed.')
NAMES = ['RandomW', 'RandomWp', 'RandomWalk', 'RandomWord', 'StatePrefix', 'TransitionFocus', 'Cache', 'Pac', 'Provided',
         'KWayState', 'KWayTransition', 'KWayTransition', 'KWayState']
FLOORS = {'campaigns': 12000, 'full_campaigns': 5000, 'tests': 150000, 'kway_goals': 20000, 'nd_campaigns': 8000, 'nd_full': 3000}


def plan(tier):
    q = tier == 'quick'
    return [('direct', 26000 if q else 130000), ('learning', 18200 if q else 90000), ('nondet', 6000 if q else 40000)]


def nondet(idx, rng, mon):
    name = ('RandomWalk', 'RandomWord')[idx % 2]
    s = NdSession(rng, name, ('onfsm', 'mdp', 'smm')[idx // 2 % 3])
    st = {}
    for i, a in enumerate(s.asks):
        globals()['check_' + name](mon, s, i, a, st, lambda cond, kind, msg: mon.check(cond, kind, f'{s.what(i)}: {msg}', **s.wit(a)))
        if a.reset and s.p['reset_after_cex']:
            st.clear()
        mon.ev('nd_campaigns')
        mon.ev('nd_full', a.cex is None)
        if a.tests:
            mon.seen(name, repr(sorted(s.p.items(), key=repr)), repr(s.m.describe()), repr(a.hm.describe()))


def run(family, idx, rng, mon):
    if family == 'nondet':
        return nondet(idx, rng, mon)
    name = NAMES[idx % len(NAMES)]
    k = ('dfa', 'moore', 'mealy')[idx // len(NAMES) % 3]
    s = Session(rng, mon, name, k, family == 'direct', nmax=5)
    st = {}
    for i, a in enumerate(s.asks):
        fail = lambda cond, kind, msg: mon.check(cond, kind, f'{s.what(i)}: {msg}', **s.wit(a))
        globals()['check_' + name](mon, s, i, a, st, fail)
        mon.ev('campaigns')
        mon.ev('full_campaigns', a.cex is None)
        mon.ev('tests', len(a.tests))
        if a.tests:
            mon.seen(name, repr(sorted(s.p.items(), key=repr)), s.t.canon(), a.hm.canon())
    mon.sample(oracle=name, learner=s.learner, params=s.p, hypothesis_sizes=[len(a.hm.listed) for a in s.asks],
               tests=[len(a.tests) for a in s.asks], cexs=[a.cex for a in s.asks][:4])


def full(a):
    """tests that were run to their end"""
    return a.tests if a.cex is None else a.tests[:-1]


def count(a, st, s, fail, key, unit):
    """num_* tests or steps per search, or in total if the counter is not reset after a counterexample"""
    left = st.get('left', s.p[key])
    done = len(a.tests) if unit == 'tests' else sum(map(len, a.tests))
    if a.cex is None:
        fail(done == left, 'campaign', f'{done} {unit} executed before answering "none", expected {left}')
        st['left'] = 0
    else:
        fail(done <= left, 'campaign', f'{done} {unit} executed, allowed {left}')
        st['left'] = s.p[key] if s.p.get('reset_after_cex', True) else left - done


def check_RandomWord(mon, s, i, a, st, fail):
    count(a, st, s, fail, 'num_walks', 'tests')
    lo, hi = s.p['min_walk_len'], s.p['max_walk_len']
    fail(all(lo <= len(w) <= hi for w in full(a)) and all(len(w) <= hi for w in a.tests), 'campaign',
         f'test lengths {sorted(set(map(len, full(a))))} outside [{lo}, {hi}]')


def check_RandomWalk(mon, s, i, a, st, fail):
    count(a, st, s, fail, 'num_steps', 'steps')
    if s.p['reset_prob'] == 0.0:
        fail(len(a.tests) <= 1, 'campaign', f'{len(a.tests)} resets with reset probability 0')
    if s.p['reset_prob'] == 1.0:
        fail(all(len(w) <= 1 for w in a.tests), 'campaign', f'walks longer than one step with reset probability 1')


def check_Pac(mon, s, i, a, st, fail):
    n = pac_tests(s.p, i + 1)
    if a.cex is None:
        fail(abs(len(a.tests) - n) <= 1, 'campaign', f'{len(a.tests)} tests in round {i + 1}, the bound asks for {n}')
    else:
        fail(len(a.tests) <= n + 1, 'campaign', f'{len(a.tests)} tests in round {i + 1}, the bound asks for {n}')
    lo, hi = s.p['min_walk_len'], s.p['max_walk_len']
    fail(all(lo <= len(w) <= hi for w in full(a)), 'campaign', f'test lengths outside [{lo}, {hi}]')


def check_StatePrefix(mon, s, i, a, st, fail):
    freq, loose = st.setdefault('freq', Counter()), st.setdefault('loose', [])
    L, W, mx = s.p['walk_len'], s.p['walks_per_state'], s.p['max_tests']
    lens = []
    for w in full(a):
        p = w[:max(0, len(w) - L)]
        fail(len(w) >= L and p in a.prefixes, 'campaign', f'test {list(w)} is not an access sequence plus {L} inputs')
        freq[p] += 1
        lens.append(len(p))
    if s.p['depth_first']:
        fail(lens == sorted(lens, reverse=True), 'campaign', f'access sequences not explored deepest first: {lens}')
    if a.cex is not None and a.tests:
        loose.append(a.tests[-1])
    fail(all(freq[p] <= W for p in freq), 'campaign', f'more than {W} walks from one state: {dict(freq)}')
    st['total'] = st.get('total', 0) + len(a.tests)
    if mx is not None:
        fail(st['total'] <= mx, 'campaign', f'{st["total"]} tests executed, max_tests={mx}')
    if a.cex is None and (mx is None or st['total'] < mx):
        for p in a.prefixes:
            slack = sum(1 for w in loose if w[:len(p)] == p or p[:len(w)] == w)
            fail(freq[p] + slack >= W, 'campaign', f'state {list(p)} got {freq[p]} walks, expected {W}')


def check_RandomW(mon, s, i, a, st, fail):
    W, L = s.p['walks_per_state'], s.p['walk_len']
    st['total'] = st.get('total', 0) + len(a.tests)
    st.setdefault('prefixes', set()).update(a.prefixes)
    for w in full(a):
        fail(any(w[:len(p)] == p and len(w) > len(p) for p in a.prefixes), 'campaign',
             f'test {list(w)} does not start with an access sequence')
    fail(st['total'] <= W * len(st['prefixes']), 'campaign', f'{st["total"]} tests for {len(st["prefixes"])} states')
    if a.cex is None:
        fail(st['total'] >= W * len(set(a.prefixes)), 'campaign',
             f'{st["total"]} tests in total, {W} walks for each of {len(a.prefixes)} states expected')


def check_RandomWp(mon, s, i, a, st, fail):
    n, lo = s.p['num_tests'], s.p['min_length']
    fail(len(a.tests) <= n, 'campaign', f'{len(a.tests)} tests, num_tests={n}')
    for w in full(a):
        fail(any(w[:len(p)] == p and len(w) >= len(p) + lo for p in a.prefixes), 'campaign',
             f'test {list(w)} is not an access sequence plus at least {lo} inputs')
    if a.cex is None and s.k == 'mealy' and len(a.prefixes) > 1 and a.hm.minimal_size() == len(a.prefixes):
        fail(len(a.tests) == n, 'campaign', f'{len(a.tests)} tests, num_tests={n}')


def check_TransitionFocus(mon, s, i, a, st, fail):
    n, L, pr = s.p['num_random_walks'], s.p['walk_len'], s.p['same_state_prob']
    fail(len(a.tests) == n if a.cex is None else len(a.tests) <= n, 'campaign', f'{len(a.tests)} walks, expected {n}')
    fail(all(len(w) == L for w in full(a)), 'campaign', f'walk lengths {sorted(set(map(len, full(a))))}, expected {L}')
    if pr in (-1, 1):
        for w in a.tests:
            x = a.hm.init
            for b in w:
                loops = [c for c in a.hm.A if a.hm.d[x][c] == x]
                moves = [c for c in a.hm.A if a.hm.d[x][c] != x]
                want = loops if pr == 1 else moves
                fail(not want or b in want, 'campaign', f'walk {list(w)} leaves the focus of same_state_prob={pr}')
                x = a.hm.d[x][b]


def check_Cache(mon, s, i, a, st, fail):
    count(a, st, s, fail, 'num_walks', 'tests')
    words = {tuple(w) for w in s.rsul.log[:a.start]} or {()}
    tree = {w[:j] for w in words for j in range(len(w) + 1)}
    inner = {w[:-1] for w in tree if w}
    leaves = tree - inner
    D = max(map(len, leaves)) + s.p['depth_increase']
    for w in full(a):
        fail(len(w) == D, 'campaign', f'test of length {len(w)}, expected {D}')
        fail(any(w[:len(v)] == v for v in leaves), 'campaign', f'test {list(w)} does not extend a cached trace')


def check_Provided(mon, s, i, a, st, fail):
    left = st.setdefault('left', list(s.p['seqs']))
    tests, j = a.tests, 0
    for w in list(left):
        if j < len(tests) and tests[j] == w and all(x == y for x, y in zip(s.t.run(w), a.hm.run(w))):
            left.pop(0)
            j += 1
            continue
        if j == len(tests) - 1 and a.cex is not None and tests[j] == w[:len(tests[j])]:
            break
        fail(False, 'campaign', f'provided sequence {list(w)} was not executed in turn (tests {tests[:8]})')
    st['ran'] = st.get('ran', 0) + j
    fail([tuple(w) for w in s.p['given']] == s.p['seqs'], 'arguments-changed', 'the list given by the caller was changed')


def access_ok(a):
    """prefix -> state index, if every access sequence reaches its state (KV hypotheses may differ)"""
    res = {}
    for p, x in zip(a.prefixes, a.hm.listed):
        if a.hm.goto(p) != x:
            return None
        res[p] = x
    return res if len(res) == len(a.prefixes) else None


def check_KWayState(mon, s, i, a, st, fail):
    L, K = s.p['random_walk_len'], s.p['k']
    acc = access_ok(a)
    old = st.setdefault('old', [])
    if len(a.prefixes) == 1:
        if a.cex is None:
            fail(len(a.tests) == L and all(len(w) == L for w in a.tests), 'campaign',
                 f'{len(a.tests)} random walks for a one-state hypothesis, expected {L} of length {L}')
    elif acc is not None and a.cex is None:
        hm = a.hm
        reach = {p: hm.reach(x) for p, x in acc.items()}
        visits = []
        for w in a.tests:
            x, tr = hm.init, [hm.init]
            for b in w:
                x = hm.d[x][b]
                tr.append(x)
            visits.append((w, tr[:len(w) - L + 1]))
        fam = permutations if s.p['method'] == 'permutations' else combinations
        for goal in fam(a.prefixes, K):
            if any(set(goal) <= o for o in old):
                continue
            orders = [goal] if fam is permutations else list(permutations(goal))
            if not all(all(acc[o[j + 1]] in reach[o[j]] for j in range(K - 1)) for o in orders):
                continue
            mon.ev('kway_goals')
            fail(any(covers(w, tr, o, acc) for w, tr in visits for o in orders), 'campaign',
                 f'no test visits the states {goal} ({s.p["method"]})')
    old.append(set(a.prefixes))


def covers(w, tr, o, acc):
    p = o[0]
    if w[:len(p)] != p or len(tr) <= len(p) or tr[-1] != acc[o[-1]]:
        return False
    j = len(p)
    for q in o[1:]:
        while j < len(tr) and tr[j] != acc[q]:
            j += 1
        if j == len(tr):
            return False
    return True


def check_KWayTransition(mon, s, i, a, st, fail):
    K, hm = s.p['k'], a.hm
    acc = access_ok(a)
    mx = s.p['max_number_of_steps']
    words = list(product(hm.A, repeat=K))
    if s.p['method'] == 'prefix':
        R = s.p['random_walk_len']
        todo = Counter(p + w for p in a.prefixes for w in words)
        for w in full(a):
            g = w[:len(w) - R]
            fail(todo[g] > 0, 'campaign', f'unexpected test {list(w)}')
            todo[g] -= 1
            mon.ev('kway_goals')
        if a.cex is None:
            fail(not +todo, 'campaign', f'transitions never tested: {list((+todo))[:3]}')
        return
    if mx:
        fail(sum(map(len, a.tests)) <= mx, 'campaign', f'{sum(map(len, a.tests))} steps, max_number_of_steps={mx}')
    elif a.cex is None and acc is not None:
        got = set()
        for w in a.tests:
            x = hm.init
            tr = []
            for b in w:
                tr.append(x)
                x = hm.d[x][b]
            for j in range(len(w) - K + 1):
                got.add((tr[j], w[j:j + K]))
        for x in hm.listed:
            for w in words:
                mon.ev('kway_goals')
                fail((x, w) in got, 'campaign', f'the {K}-way transition of state {x} on {list(w)} was never executed')
