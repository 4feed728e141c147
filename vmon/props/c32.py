"""The interface to jAlergia: exactly the data go out, exactly the model that was written comes back."""
import contextlib
import io
import os
import re
import shutil
import tempfile

from aalpy.learning_algs import run_JAlergia

from ..core import Skip
from ..gen import word
from ..ref import fresh
from ..stoch import bisim_sm, gen_sm, read_sm

ID = 'C32'
RULE = ('A case runs the interface with a stand-in for java that records the call and the data it was given and writes a generated '
        'model (or nothing), or with the real jAlergia; the returned model, the handed-over data, the arguments and the files left '
        'behind are compared with what was generated. Distinct = (data, model, way of calling).')
FLOORS = {'calls': 1500, 'models_loaded': 1000, 'data_lines': 5000, 'failures_reported': 150, 'refused_paths': 60, 'real_runs': 0}

JAVA = '''#!/bin/sh
d="$(dirname "$0")"
printf '%s\\n' "$@" > "$d/call"
pwd > "$d/cwd"
while [ "$#" -gt 1 ]; do
  if [ "$1" = -input ]; then cp "$2" "$d/data"; fi
  shift
done
if [ -f "$d/model" ]; then cp "$d/model" jAlergiaModel.dot; fi
exit 0
'''

REAL = '''#!/bin/sh
d="$(dirname "$0")"
printf '%s\\n' "$@" > "$d/call"
PATH="$(cat "$d/path")" java "$@" > /dev/null 2>&1
cp jAlergiaModel.dot "$d/model"
'''


def plan(tier):
    q = tier == 'quick'
    return [('standin', 2000 if q else 15000), ('real', 40 if q else 400)]


def dot(m, rng):
    """the text jAlergia writes for a model"""
    out = ['digraph g {']
    for s in rng.sample(range(m.n), m.n) if rng.random() < .5 else range(m.n):
        out.append(f'q{s} [shape="circle",label="{m.so[s] if m.so is not None else f"q{s}"}"];')
    for s in range(m.n):
        for a, l in m.t[s].items():
            for o, t, p in l:
                lab = {'mc': f'{p}', 'mdp': f'{a}:{p}', 'smm': f'{a}/{o}:{p}'}[m.kind]
                out.append(f'q{s}->q{t} [label="{lab}"];')
    out += ['__start0 [label="" shape="none"];', f'__start0 -> q{m.init}  [label=""];', '}']
    return '\n'.join(out) + '\n'


def sample(rng, m, n, hi=8):
    data = []
    for _ in range(n):
        s, row = m.init, [] if m.so is None else [m.so[m.init]]
        for _ in range(rng.randint(1, hi)):
            a = rng.choice(m.A) if m.kind != 'mc' else None
            l = m.options(s, a)
            o, s, _ = rng.choices(l, [x[2] for x in l])[0]
            row += [fresh(o)] if m.kind == 'mc' else [fresh(a), fresh(o)]
        data.append(row)
    return data


def call(path, script, *args, **kw):
    """run_JAlergia with `script` as the only java"""
    b = os.path.join(path, 'bin')
    with open(os.path.join(b, 'java'), 'w') as f:
        f.write(script)
    os.chmod(os.path.join(b, 'java'), 0o755)
    old, cwd = os.environ['PATH'], os.getcwd()
    with open(os.path.join(b, 'path'), 'w') as f:
        f.write(old)
    os.environ['PATH'] = b + os.pathsep + old
    os.chdir(os.path.join(path, 'work'))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return run_JAlergia(*args, **kw)
    finally:
        os.environ['PATH'] = old
        os.chdir(cwd)


def read(p):
    with open(p) as f:
        return f.read()


def run(family, idx, rng, mon):
    d = tempfile.mkdtemp(prefix='vmon_c32_')
    try:
        os.mkdir(os.path.join(d, 'bin'))
        os.mkdir(os.path.join(d, 'work'))
        (real if family == 'real' else standin)(rng, mon, idx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def given(rng, d, data, how):
    """the data as list, tuple of tuples or file; and the names of files that belong to the user"""
    if how == 'list':
        return [list(r) for r in data], []
    if how == 'tuple':
        return tuple(tuple(r) for r in data), []
    name = rng.choice(['data.txt', 'traces', 'jAlergiaInputs.txt'])
    with open(os.path.join(d, 'work', name), 'w') as f:
        f.write(''.join(','.join(map(str, r)) + '\n' for r in data))
    return (name if rng.random() < .5 else os.path.join(d, 'work', name)), [name]


def standin(rng, mon, idx, d):
    kind = ('mdp', 'mc', 'smm')[idx % 3]
    st = rng.choice(['str', 'int'])
    m = gen_sm(rng, kind, nmax=4, amax=3, outs='str' if st == 'str' else 'int', alph='str' if st == 'str' else 'int')
    src = gen_sm(rng, kind, nmax=4, amax=3, outs='str', alph=rng.choice(['str', 'int', 'chr']))
    data = sample(rng, src, rng.randint(1, 12))
    how = rng.choice(['list', 'list', 'tuple', 'file', 'file'])
    arg, own = given(rng, d, data, how)
    jar = os.path.join(d, rng.choice(['work', 'bin']), 'alergia.jar')
    with open(jar, 'w') as f:
        f.write('jar')
    jar_arg = jar if rng.random() < .5 else os.path.relpath(jar, os.path.join(d, 'work'))
    if os.path.dirname(jar).endswith('work'):
        own = own + ['alergia.jar']
    eps, heap = rng.choice([.05, .005, 1, 2, .5, 1e-05]), rng.choice([None, '-Xmx512M', '-Xmx1g'])
    kw = dict(eps=eps) if rng.random() < .8 else {}
    if heap:
        kw['heap_memory'] = heap
    fails = rng.random() < .15
    wit = dict(type=kind, data=data, given=how, model=m.describe(), options=kw, tool_fails=fails)
    text = dot(m, rng)
    if not fails:
        with open(os.path.join(d, 'bin', 'model'), 'w') as f:
            f.write(text)
    stale = rng.random() < .3
    if stale:       # left by an earlier run
        with open(os.path.join(d, 'work', 'jAlergiaModel.dot'), 'w') as f:
            f.write(dot(gen_sm(rng, kind, nmax=4, amax=3, outs='str', alph='str'), rng))
    wit['stale_model'] = stale
    missing = rng.random() < .08
    if missing:
        which = rng.choice(['jar', 'data'] if how == 'file' else ['jar'])
        if which == 'jar':
            jar_arg += '.no'
        else:
            arg += '.no'
    contents = {n: read(os.path.join(d, 'work', n)) for n in own}
    before = [list(r) for r in arg] if how in ('list', 'tuple') else None
    got = call(d, JAVA, arg, kind, jar_arg, **kw)
    mon.ev('calls')
    if before is not None:
        mon.check([list(r) for r in arg] == before, 'caller-data', 'the data of the caller were changed', **wit)
    ran = os.path.exists(os.path.join(d, 'bin', 'call'))
    if missing:
        mon.check(got is None and not ran, 'missing-file', f'a file is missing: returned {got}, started: {ran}', **wit)
        mon.ev('refused_paths')
        return
    mon.check(ran, 'not-called', 'java was not started', **wit)
    argv = read(os.path.join(d, 'bin', 'call')).splitlines()
    opts = dict(zip(argv[1:], argv[2:]))
    mon.check(argv[0] == (heap or '-Xmx2048M'), 'call', f'heap option {argv[0]}', call=argv, **wit)
    mon.check(os.path.realpath(opts.get('-jar', '')) == os.path.realpath(jar), 'call', f'jar {opts.get("-jar")}', call=argv, **wit)
    mon.check(float(opts.get('-eps', 'nan')) == kw.get('eps', .05), 'call', f'eps {opts.get("-eps")}', call=argv, **wit)
    mon.check(opts.get('-type') == kind, 'call', f'type {opts.get("-type")}', call=argv, **wit)
    rows = [l.split(',') for l in read(os.path.join(d, 'bin', 'data')).splitlines()]
    mon.check(rows == [[str(x) for x in r] for r in data], 'data', f'jAlergia was given {rows[:5]}', **wit)
    mon.ev('data_lines', len(rows))
    for n in own:
        mon.check(os.path.exists(os.path.join(d, 'work', n)), 'files', f'the file {n} of the user is gone', **wit)
        mon.check(read(os.path.join(d, 'work', n)) == contents[n], 'files', f'the file {n} of the user was changed', **wit)
    if fails:
        mon.check(got is None, 'failure', 'jAlergia wrote no model, a model was returned', **wit)
        mon.ev('failures_reported')
        return
    left = sorted(set(os.listdir(os.path.join(d, 'work'))) - set(own))
    mon.check(not left, 'files', f'files left behind: {left}', **wit)
    judge(mon, got, m, kind, wit)
    mon.seen('standin', text, repr(data))
    mon.sample(kind=kind, call=argv, data=data[:3])


def judge(mon, got, m, kind, wit):
    want = {'mdp': 'Mdp', 'mc': 'MarkovChain', 'smm': 'StochasticMealyMachine'}[kind]
    mon.check(type(got).__name__ == want, 'model', f'returned {type(got).__name__}', **wit)
    h = read_sm(got)
    mon.check(len(got.states) == m.n, 'model', f'{len(got.states)} states, {m.n} were written', **wit)
    msg = bisim_sm(textual(m), textual(h), tol=1e-12)
    mon.check(msg is None, 'model', f'the returned model is not the one written: {msg}', **wit)
    mon.ev('models_loaded')


def textual(m):
    """letters as they are written in a file"""
    from ..stoch import SM
    k = lambda x: None if x is None else str(x)
    return SM(m.kind, [k(a) for a in m.A], [{k(a): [(k(o), t, p) for o, t, p in l] for a, l in r.items()} for r in m.t],
              None if m.so is None else [str(x) for x in m.so], m.init)


def parsed(written, kind):
    """the model in the text jAlergia wrote"""
    from ..stoch import SM
    out, t, init = {}, {}, None
    for l in written.splitlines():
        n, e = re.match(r'(q\d+) \[.*label="(.*)"\];', l), re.match(r'(\w+)\s*->\s*(\w+)\s*\[label="(.*)"\];', l)
        if e and e[1] == '__start0':
            init = e[2]
        elif e:
            t.setdefault(e[1], []).append((e[2], e[3]))
        elif n:
            out[n[1]] = n[2]
    names = list(out)
    rows = []
    for q in names:
        row = {}
        for q2, lab in t.get(q, []):
            lab, p = lab.rsplit(':', 1) if kind != 'mc' else (None, lab)
            a, o = lab.split('/', 1) if kind == 'smm' else (lab, out[q2])
            row.setdefault(a, []).append((o, names.index(q2), float(p)))
        rows.append(row)
    A = sorted({a for r in rows for a in r if a is not None})
    return SM(kind, A, rows, list(out.values()) if kind != 'smm' else None, names.index(init))


def real(rng, mon, idx, d):
    """the real tool on sampled data: what it wrote is what is returned"""
    from ..core import REPO
    jar = os.path.join(REPO, 'jAlergia', 'alergia.jar')
    if not os.path.exists(jar) or not shutil.which('java'):
        raise Skip('jAlergia or java is not installed')
    kind = ('mdp', 'mc', 'smm')[idx % 3]
    m = gen_sm(rng, kind, nmax=3, amax=2, outs='str', alph='str')
    data = sample(rng, m, rng.randint(5, 60), 6)
    how = rng.choice(['list', 'file'])
    arg, own = given(rng, d, data, how)
    wit = dict(type=kind, data=data[:30], source=m.describe())
    got = call(d, REAL, arg, kind, jar, eps=rng.choice([.05, .5]), heap_memory='-Xmx128M')
    path = os.path.join(d, 'bin', 'model')
    if not os.path.exists(path):
        raise Skip('jAlergia did not run')
    mon.check(got is not None, 'model', 'jAlergia wrote a model, none was returned', **wit)
    written = read(path)
    wit['written'] = written
    judge(mon, got, parsed(written, kind), kind, wit)
    left = sorted(set(os.listdir(os.path.join(d, 'work'))) - set(own))
    mon.check(not left, 'files', f'files left behind: {left}', **wit)
    mon.ev('real_runs')
    mon.seen('real', written)
