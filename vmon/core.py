"""Run-time monitoring framework: cases, monitors, verdicts, workers, evidence.

A *case* is (property, family, index, seed).  Everything random in a case is drawn
from one generator derived from these four values, so a case can be replayed from
its name alone.  A case drives real AALpy code and reports what its monitor
observed.  Verdicts are three-valued: violated (witness), held on what was
observed, inconclusive (watchdog, worker death, or too few events observed).
"""
import ctypes
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
PKG = os.path.join(REPO, 'aalpy') + os.sep

# Watchdogs are wall clock and only ever *trigger* a re-run that is judged on
# logical steps (loop back-edges and function entries inside the interpreter).
CASE_WALL = 25.0
RERUN_WALL = 240.0
LOGICAL_BUDGET = 150_000_000
MEM_LIMIT = 3 << 30


class Violation(BaseException):
    """Raised by a monitor; BaseException so that code under test cannot swallow it."""

    def __init__(self, kind, msg, **witness):
        super().__init__(kind, msg)
        self.kind, self.msg, self.witness = kind, msg, witness


class Skip(BaseException):
    """The generated case is outside the property's domain (counted, never a verdict)."""


class CaseTimeout(BaseException):
    pass


class BudgetExceeded(BaseException):
    pass


class StepBudget(BaseException):
    """Raised by monitored systems when the code under test exceeds a logical budget."""


class Mon:
    """Per-case monitor: event counters, distinct observed keys, samples."""

    def __init__(self, case, tier):
        self.case, self.tier = case, tier
        self.events = Counter()
        self.keys = set()
        self.samples = []
        self.known = []
        self.slow = None        # tells that the run so far is long for a reason other than the code under test

    def ev(self, name, n=1):
        self.events[name] += n

    def seen(self, *key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.keys.add(int.from_bytes(h, 'big'))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    def fail(self, kind, msg, **witness):
        raise Violation(kind, msg, **witness)

    def check(self, cond, kind, msg, **witness):
        self.events['checks'] += 1
        if not cond:
            raise Violation(kind, msg, **witness)


def jsonable(x, depth=0):
    if depth > 8:
        return '...'
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, str):
        return x if len(x) < 2000 else x[:2000] + '...'
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:120]]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in list(x)[:60]), key=repr)
    return repr(x)[:500]


# ----------------------------------------------------------------- running one case

def case_rng(pid, family, idx, seed):
    return random.Random(f'{pid}|{family}|{idx}|{seed}')


def _on_alarm(signum, frame):
    raise CaseTimeout()


class _Logical:
    """Counts loop back-edges and calls; raises BudgetExceeded past the budget."""

    def __init__(self, budget):
        self.budget = budget
        self.count = 0

    def __enter__(self):
        m = sys.monitoring
        self.tool = 4
        m.use_tool_id(self.tool, 'vmon')
        E = m.events

        def hit(*_):
            self.count += 1
            if self.count > self.budget:
                self.budget += 1000  # raised again if the code under test swallows it
                raise BudgetExceeded()

        m.register_callback(self.tool, E.JUMP, hit)
        m.register_callback(self.tool, E.PY_START, hit)
        m.set_events(self.tool, E.JUMP | E.PY_START)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.tool, 0)
        m.register_callback(self.tool, m.events.JUMP, None)
        m.register_callback(self.tool, m.events.PY_START, None)
        m.free_tool_id(self.tool)


def _in_repo(tb):
    for f, _ in traceback.walk_tb(tb):
        if f.f_code.co_filename.startswith(PKG):
            return True
    return False


def run_case(mod, family, idx, seed, tier, timeout=None, logical=None):
    """Returns (status, mon, info). status in ok|skip|violation|timeout|harness."""
    mon = Mon((family, idx, seed), tier)
    rng = case_rng(mod.ID, family, idx, seed)
    random.seed(rng.getrandbits(64))
    status, info = 'ok', None
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout or getattr(mod, 'CASE_WALL', CASE_WALL), 5)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if logical:
                with _Logical(logical):
                    mod.run(family, idx, rng, mon)
            else:
                mod.run(family, idx, rng, mon)
    except Violation as e:
        status, info = 'violation', dict(kind=e.kind, msg=e.msg, witness=jsonable(e.witness))
    except Skip as e:
        status, info = 'skip', str(e)
    except CaseTimeout:
        status, info = 'timeout', traceback.format_exc(limit=-6)
        if mon.slow and mon.slow():
            status, info = 'skip', 'slow'
    except BudgetExceeded:
        status = 'skip' if mon.slow and mon.slow() else 'violation'
        info = dict(kind='no-progress', msg=f'code under test still running after {logical} logical steps '
                                            f'(loop back-edges and calls)',
                    witness=dict(stack=traceback.format_exc(limit=-6)))
    except StepBudget as e:
        status = 'violation'
        info = dict(kind='no-progress', msg=f'logical budget exceeded: {e}',
                    witness=dict(stack=traceback.format_exc(limit=-6)))
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.format_exc(limit=-12)
        if _in_repo(e.__traceback__):
            status = 'violation'
            info = dict(kind=f'exception:{type(e).__name__}', msg=f'{type(e).__name__}: {str(e)[:300]}',
                        witness=dict(stack=tb))
        else:
            status, info = 'harness', tb
            if isinstance(e, (TypeError, AttributeError, KeyError, IndexError, ValueError)):
                # the monitor could not digest what the code under test handed over: not the documented shape
                status = 'violation'
                info = dict(kind=f'malformed-result:{type(e).__name__}',
                            msg=f'result could not be interpreted: {type(e).__name__}: {str(e)[:300]}',
                            witness=dict(stack=tb))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return status, mon, info


def run_case_judged(mod, family, idx, seed, tier):
    status, mon, info = run_case(mod, family, idx, seed, tier)
    if status == 'timeout':
        # wall clock is not a verdict: judge the same case on logical steps
        status, mon, info = run_case(mod, family, idx, seed, tier, timeout=RERUN_WALL,
                                     logical=getattr(mod, 'LOGICAL_BUDGET', LOGICAL_BUDGET))
    return status, mon, info


# ----------------------------------------------------------------- worker pool

def _worker(mod, todo, counter, wfd, seed, tier, stop):
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG: no worker outlives the check
    except Exception:
        pass
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except Exception:
        pass
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('VMON_STDERR'):
        os.dup2(dn, 2)
    sys.stdout = open(os.devnull, 'w')

    def send(obj):
        b = pickle.dumps(obj)
        b = len(b).to_bytes(4, 'big') + b
        view = memoryview(b)
        while view:
            n = os.write(wfd, view)
            view = view[n:]

    while not stop.value:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(todo):
            break
        fam, idx = todo[i]
        send(('start', fam, idx))
        t0 = time.monotonic()
        status, mon, info = run_case_judged(mod, fam, idx, seed, tier)
        send(('done', fam, idx, status, info, dict(mon.events), list(mon.keys), mon.samples,
              mon.known, time.monotonic() - t0))
    send(('end',))
    os._exit(0)


def interleave(plan):
    """Spread families evenly so that an early stop still touches every family."""
    items = []
    for fam, n in plan:
        for i in range(n):
            items.append(((i + 0.5) / n, fam, i))
    items.sort(key=lambda t: (t[0], t[1]))
    return [(f, i) for _, f, i in items]


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == pid]


def match_known(known, mod, fam, idx, info):
    """A known finding names the mechanism; the property module classifies the witness."""
    classify = getattr(mod, 'classify', None)
    if classify is None:
        return None
    mech = classify(fam, info)
    if mech is None:
        return None
    for k in known:
        if k['mechanism'] == mech:
            return k
    return None


def main(pid, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    only = None
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    if '--replay' in argv:
        replay = argv[argv.index('--replay') + 1]
    if '--family' in argv:
        only = argv[argv.index('--family') + 1]
    scale = float(os.environ.get('VMON_SCALE', '1'))

    mod = importlib.import_module(f'vmon.props.{pid.lower()}')
    import aalpy
    if not os.path.abspath(aalpy.__file__).startswith(PKG):
        print(f'ERROR: aalpy imported from {aalpy.__file__}, not from {PKG}')
        return 3

    if replay:
        with open(replay) as f:
            r = json.load(f)
        status, mon, info = run_case_judged(mod, r['family'], r['index'], r['seed'], r['tier'])
        print(status, json.dumps(jsonable(info), indent=1) if info else '')
        print(dict(mon.events))
        if status == 'violation':
            if match_known(load_known(pid), mod, r['family'], r['index'], info):
                print(f'KNOWN-FINDING: property={pid} {info["kind"]}')
                return 0
            print(f'VIOLATION property={pid} replay={replay}')
            return 1
        return 0 if status in ('ok', 'skip') else 3

    t0 = time.monotonic()
    plan = [(f, max(1, int(n * scale))) for f, n in mod.plan(tier)]
    if only:
        plan = [(f, n) for f, n in plan if f == only]
    todo = interleave(plan)
    known = load_known(pid)
    cap = float(os.environ.get('VMON_CAP', 600 if tier == 'quick' else 7200))

    ncpu = int(os.environ.get('VMON_JOBS', min(8, os.cpu_count() or 8)))
    ctx = mp.get_context('fork')
    counter, stop = ctx.Value('l', 0), ctx.Value('b', 0)
    procs = {}
    sys.stdout.flush()
    for _ in range(min(ncpu, len(todo))):
        r, w = os.pipe()
        p = ctx.Process(target=_worker, args=(mod, todo, counter, w, seed, tier, stop), daemon=True)
        p.start()
        os.close(w)
        procs[r] = dict(p=p, buf=b'', cur=None, ended=False)

    events, keys, samples, fam_done, status_count = Counter(), set(), {}, Counter(), Counter()
    violations, knowns, harness, timeouts, dead = [], {}, [], [], []
    maxcase = (0, None)
    first_viol = None
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        now = time.monotonic()
        if now - t0 > cap or (first_viol and now - first_viol > 8):
            stop.value = 1
        if first_viol and now - first_viol > 30:
            for st in procs.values():
                st['ended'] = True
                st['p'].kill()
        for fd in ready:
            st = procs[fd]
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                os.close(fd)
                st['p'].join()
                if not st['ended']:
                    dead.append(dict(case=st['cur'], exitcode=st['p'].exitcode))
                del procs[fd]
                continue
            st['buf'] += chunk
            while len(st['buf']) >= 4:
                n = int.from_bytes(st['buf'][:4], 'big')
                if len(st['buf']) < 4 + n:
                    break
                msg = pickle.loads(st['buf'][4:4 + n])
                st['buf'] = st['buf'][4 + n:]
                if msg[0] == 'start':
                    st['cur'] = msg[1:]
                elif msg[0] == 'end':
                    st['ended'] = True
                else:
                    _, fam, idx, status, info, ev, ks, sm, kn, dt = msg
                    st['cur'] = None
                    status_count[status] += 1
                    fam_done[fam] += 1
                    events.update(ev)
                    keys.update(ks)
                    if dt > maxcase[0]:
                        maxcase = (dt, (fam, idx))
                    if sm and len(samples.setdefault(fam, [])) < 2:
                        samples[fam] += [{**s, 'family': fam, 'index': idx} for s in sm[:1]]
                    for k in kn:
                        knowns.setdefault(k, (fam, idx))
                    if status == 'violation':
                        k = match_known(known, mod, fam, idx, info)
                        if k:
                            knowns.setdefault(k['mechanism'], (fam, idx))
                            status_count['known'] += 1
                        else:
                            violations.append((fam, idx, info))
                            first_viol = first_viol or now
                            if len(violations) >= 40:
                                stop.value = 1
                    elif status == 'harness':
                        harness.append((fam, idx, info))
                    elif status == 'timeout':
                        timeouts.append((fam, idx, info))

    wall = time.monotonic() - t0
    done = sum(fam_done.values())
    # verdict ------------------------------------------------------------------
    inconclusive = []
    for name, floor in getattr(mod, 'FLOORS', {}).items():
        if not only and events[name] < int(floor * min(1, scale)):
            inconclusive.append(f'monitor event "{name}" seen {events[name]} times, floor {floor}')
    if not only and not getattr(mod, 'PARTIAL_OK', False) and done < 0.3 * len(todo):
        inconclusive.append(f'only {done} of {len(todo)} planned cases ran')
    if harness:
        inconclusive.append(f'{len(harness)} harness errors')
    if timeouts:
        inconclusive.append(f'{len(timeouts)} cases undecided by the watchdog')
    if dead:
        inconclusive.append(f'{len(dead)} workers died: {dead[:3]}')

    os.makedirs(EVIDENCE, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=done, distinct_nontrivial=len(keys), rule=mod.RULE,
                            samples=[s for v in samples.values() for s in v][:40] or ['none'],
                            families={f: fam_done[f] for f, _ in plan},
                            planned={f: n for f, n in plan},
                            observed_events=dict(sorted(events.items())),
                            case_status=dict(status_count),
                            known_findings_hit=sorted(knowns),
                            inconclusive=inconclusive,
                            slowest_case=dict(seconds=round(maxcase[0], 2), case=maxcase[1])),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2),
              violations=len(violations))
    with open(os.path.join(EVIDENCE, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)

    for k in known:
        if k['mechanism'] in knowns:
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    if violations:
        rdir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        kinds = {}
        for fam, idx, info in violations:
            kinds.setdefault((fam, info['kind']), []).append((idx, info))
        for (fam, kind), lst in kinds.items():
            idx, info = lst[0]
            path = os.path.join(rdir, f'{pid}-{fam}-{idx}-{seed}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, family=fam, index=idx, seed=seed, tier=tier, **info), f, indent=1,
                          default=repr)
            print(f'  [{fam}#{idx}] {kind}: {info["msg"]}  (x{len(lst)})')
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    print(f'{pid} {tier} seed={seed}: {done}/{len(todo)} cases, {len(keys)} distinct, '
          f'{sum(events.values())} events, {dict(status_count)}, slowest {maxcase[0]:.1f}s {maxcase[1]}, {wall:.1f}s')
    if inconclusive:
        print('INCONCLUSIVE: ' + '; '.join(inconclusive))
        for fam, idx, info in (harness + timeouts)[:3]:
            print(f'  [{fam}#{idx}] {info}')
        return 3
    return 0
