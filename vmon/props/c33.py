"""Pictures of automata and of state-merging results show exactly what is there."""
import contextlib
import io
import os
import re
import shutil
import tempfile
import threading
import webbrowser
from collections import Counter
from xml.etree import ElementTree

from aalpy import run_KV
from aalpy.learning_algs import run_GSM
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation
from aalpy.utils import save_automaton_to_file, visualize_automaton

from ..aal import ExactOracle, RefSUL, build
from ..core import Skip
from ..gen import gen_dm, permuted
from ..stoch import build_sm, gen_sm
from ..vpl import gen_rv
from .c16 import as_input, gen_traces
from .c21 import build_sevpa, build_vpa

ID = 'C33'
RULE = ('A case draws one automaton or node graph with graphviz, reads the picture back and compares states, start, acceptance, outputs, '
        'transitions and rounded probabilities with the object, as multisets. Distinct = pictures.')
FLOORS = {'pictures': 500, 'edges_seen': 3000, 'nodes_seen': 2000, 'opened': 150, 'node_graphs': 150}
KINDS = ['dfa', 'moore', 'mealy', 'onfsm', 'ndmoore', 'mc', 'mdp', 'smm', 'sevpa', 'vpa']


def plan(tier):
    q = tier == 'quick'
    return [('automata', 1000 if q else 8000), ('nodes', 300 if q else 2500), ('tree', 60 if q else 500)]


def run(family, idx, rng, mon):
    if not shutil.which('dot'):
        raise Skip('graphviz is not installed')
    d, cwd = tempfile.mkdtemp(prefix='vmon_c33_'), os.getcwd()
    os.chdir(d)
    try:
        {'automata': automata, 'nodes': nodes, 'tree': tree}[family](rng, mon, idx, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


SVG = '{http://www.w3.org/2000/svg}'


def read_svg(path):
    """nodes: title -> (texts, rings); edges: Counter of (source, target, text)"""
    root = ElementTree.parse(path).getroot()
    ns, es = {}, Counter()
    for g in root.iter(SVG + 'g'):
        cls = g.get('class')
        if cls not in ('node', 'edge'):
            continue
        title = g.find(SVG + 'title').text
        texts = [re.sub(r'\s+', ' ', t.text or '').strip() for t in g.iter(SVG + 'text')]
        if cls == 'node':
            ns[title] = (texts, len(list(g.iter(SVG + 'ellipse'))))
        else:
            a, b = title.split('->')
            es[a, b, ' '.join(texts)] += 1
    return ns, es


def read_dot(path):
    with open(path) as f:
        text = f.read()
    ns, es = {}, Counter()
    for l in text.splitlines():
        m = re.match(r'\s*"?(\w+)"? -> "?(\w+)"?\s*(?:\[(.*)\])?;?\s*$', l)
        lab = lambda s: (re.search(r'label="((?:[^"\\]|\\.)*)"', s or '') or re.search(r'label=([^\s,\]]*)', s or '') or [None, ''])[1]
        if m:
            es[m[1], m[2], lab(m[3])] += 1
            continue
        m = re.match(r'\s*"?(\w+)"? \[(.*)\];?\s*$', l)
        if m:
            ns[m[1]] = ([lab(m[2])], None)
    return ns, es


def draw(rng, k):
    if k in ('dfa', 'moore', 'mealy'):
        m = permuted(rng, gen_dm(rng, k, nmax=7, amax=3, alph=rng.choice(['chr', 'int', 'str']), outs=rng.choice(['str', 'int', 'bool'])))
        order = rng.sample(range(m.n), m.n)
        return build(m, order=order)
    if k in ('sevpa', 'vpa'):
        rv = gen_rv(rng, nmax=4, single_entry=k == 'sevpa')
        if k == 'sevpa':
            C = {g[1] for row in rv.rr for (g, r) in row}
            rv.C = [c for c in rv.C if c in C]
            rv.cc = [{c: v for c, v in row.items() if c in C} for row in rv.cc]
        return build_sevpa(rv) if k == 'sevpa' else build_vpa(rv)
    m = gen_sm(rng, k, nmax=5, amax=3, observable=rng.random() < .7, alph=rng.choice(['chr', 'int', 'str']),
               outs=rng.choice(['str', 'int', 'bool']))
    return build_sm(m, order=rng.sample(range(m.n), m.n))


def text(x):
    return re.sub(r'\s+', ' ', str(x)).strip()


def expected(model, k, loops, rnd):
    """what the picture has to show: (nodes, edges, edges that may be left out)"""
    ns, es = {}, Counter()
    r = (lambda p: round(p, rnd)) if rnd else (lambda p: p)
    for s in model.states:
        sid = str(s.state_id)
        if k in ('dfa', 'sevpa', 'vpa'):
            ns[sid] = ([sid], 2 if s.is_accepting else 1)
        elif k in ('moore', 'ndmoore'):
            ns[sid] = ([sid, text(s.output)], None)
        elif k in ('mc', 'mdp'):
            ns[sid] = ([text(s.output)], 1)
        else:
            ns[sid] = ([sid], 1)
        if k == 'mc':
            out = [(t, f'{r(p)}') for t, p in s.transitions]
        else:
            out = []
            for a, e in s.transitions.items():
                if k in ('dfa', 'moore'):
                    out.append((e, f'{a}'))
                elif k == 'mealy':
                    out.append((e, f'{a}/{s.output_fun[a]}'))
                else:
                    for x in e:
                        if k == 'onfsm':
                            out.append((x[1], f'{a}/{x[0]}'))
                        elif k == 'ndmoore':
                            out.append((x, f'{a}'))
                        elif k == 'mdp':
                            out.append((x[0], f'{a}:{r(x[1])}'))
                        elif k == 'smm':
                            out.append((x[0], f'{a}/{x[1]}:{r(x[2])}'))
                        else:
                            act = {None: '', 'push': f' / push({x.stack_guard})',
                                   'pop': f' / pop({x.stack_guard})' if k == 'vpa' else f' / {x.stack_guard}'}[x.action]
                            out.append((x.target_state, f'{x.letter}{act}'))
        for t, lab in out:
            if not loops and t is s and k not in ('mc', 'sevpa', 'vpa'):
                continue
            es[sid, str(t.state_id), text(lab)] += 1
    return ns, es


def compare(mon, got, want, start, wit):
    ns, es = got
    wn, we = want
    starts = [e for e in es if e[0] == '__start0']
    mon.check(len(starts) == 1 and starts[0][1] == start and es[starts[0]] == 1, 'start', f'initial arrow {starts}, the initial state is '
              f'{start}', **wit)
    es = Counter({e: c for e, c in es.items() if e[0] != '__start0'})
    mon.check(es == we, 'edges', f'not in the picture: {list((we - es).elements())[:5]}, only in the picture: '
                                 f'{list((es - we).elements())[:5]}', **wit)
    ids = set(ns) - {'__start0'}
    mon.check(ids == set(wn), 'nodes', f'nodes {sorted(ids)} for states {sorted(wn)}', **wit)
    for n in ids:
        mon.check(ns[n][0] == wn[n][0], 'nodes', f'{n} is labelled {ns[n][0]}, expected {wn[n][0]}', **wit)
        if wn[n][1] is not None and ns[n][1] is not None:
            mon.check(ns[n][1] == wn[n][1], 'acceptance', f'{n} is drawn with {ns[n][1]} rings', **wit)
    mon.ev('edges_seen', sum(we.values()))
    mon.ev('nodes_seen', len(wn))
    mon.ev('pictures')


MAGIC = {'pdf': b'%PDF', 'png': b'\x89PNG'}


def automata(rng, mon, idx, d):
    k = KINDS[idx % len(KINDS)]
    model = draw(rng, k)
    ids = [str(s.state_id) for s in model.states]
    if len(set(ids)) != len(ids):
        raise Skip('state ids are not unique')
    how = rng.choice(['visualize', 'visualize', 'function', 'save'])
    ft = 'svg' if rng.random() < .9 else rng.choice(['pdf', 'png'])
    loops, rnd = True, None
    path = rng.choice(['pic', os.path.join(d, 'pic')])
    opened, old = [], webbrowser.open
    before = set(threading.enumerate())
    webbrowser.open = lambda u, *a, **kw: opened.append(u) or True
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if how == 'save':
                rnd = rng.choice([None, 1, 3])
                kw = {} if rnd is None else dict(round_floats=rnd)
                save_automaton_to_file(model, path, file_type=ft, **kw)
            else:
                rnd, loops = 2, rng.random() < .6
                kw = {} if loops and rng.random() < .5 else None
                if how == 'visualize':
                    model.visualize(path, ft, **({} if kw == {} else dict(display_same_state_transitions=loops)))
                else:
                    visualize_automaton(model, path, file_type=ft, **({} if kw == {} else dict(display_same_state_trans=loops)))
                for t in set(threading.enumerate()) - before:
                    t.join(60)
    finally:
        webbrowser.open = old
    wit = dict(automaton=str(model)[:3000], way=how, format=ft, self_loops=loops, digits=rnd)
    file = os.path.join(d, 'pic.' + ft)
    mon.check(os.path.exists(file), 'no-picture', f'no file pic.{ft}, there are {os.listdir(d)}', **wit)
    if how != 'save':
        mon.check(len(opened) <= 1 and all(u.endswith('pic.' + ft) for u in opened), 'opened', f'opened {opened}', **wit)
        mon.ev('opened', len(opened))
    else:
        mon.check(not opened, 'opened', 'a saved file was opened', **wit)
    if ft in MAGIC:
        with open(file, 'rb') as f:
            mon.check(f.read(8).startswith(MAGIC[ft]), 'format', f'the file is no {ft}', **wit)
        mon.ev('other_formats')
        return
    compare(mon, read_svg(file), expected(model, k, loops, rnd), str(model.initial_state.state_id), wit)
    mon.seen(wit['automaton'], loops, rnd)
    mon.sample(**wit)


def nodes(rng, mon, idx, d):
    ob = ('moore', 'mealy')[idx % 2]
    tb = ('deterministic', 'stochastic')[idx // 2 % 2]
    m, A, out0, data, truth = gen_traces(rng, ob, det=tb == 'deterministic', n=rng.randint(1, 8))
    with contextlib.redirect_stdout(io.StringIO()):
        root = run_GSM(as_input(data, ob, out0), output_behavior=ob, transition_behavior=tb, convert=False, data_format='io_traces',
                       score_calc=ScoreCalculation(lambda a, b: len(a.transitions) == len(b.transitions)))
    ft = rng.choice(['svg', 'dot'])
    kw = {}
    if rng.random() < .3:
        kw['trans_color'] = lambda n, a, o: 'red'
    root.visualize(os.path.join(d, 'g'), ob, **({} if ft == 'dot' and rng.random() < .5 else dict(format=ft)), **kw)
    file = os.path.join(d, 'g.' + ft)
    wit = dict(output=ob, format=ft, data=data[:20])
    mon.check(os.path.exists(file), 'no-picture', f'no file g.{ft}, there are {os.listdir(d)}', **wit)
    if ft == 'dot':
        mon.ev('node_graphs')
        mon.ev('dot_files')
        return
    ns, es = read_svg(file)
    all_nodes = root.get_all_nodes()
    # names are free: walk the picture along the graph
    start = [e[1] for e in es if e[0] == '__start0']
    mon.check(len(start) == 1, 'start', f'initial arrows {start}', **wit)
    labels = Counter()
    for n in all_nodes:
        for a, t in n.transitions.items():
            for o, i in t.items():
                labels[text(f'{a} [{i.count}]' if ob == 'moore' else f'{a} / {o} [{i.count}]')] += 1
    got = Counter()
    for (a, b, l), c in es.items():
        if a != '__start0':
            got[l] += c
    mon.check(got == labels, 'edges', f'not in the picture: {list((labels - got).elements())[:5]}, only in the picture: '
                                      f'{list((got - labels).elements())[:5]}', **wit)
    mon.check(len(ns) - ('__start0' in ns) == len(all_nodes), 'nodes', f'{len(ns)} nodes for {len(all_nodes)}', **wit)
    # one edge per transition, between the right nodes: some naming makes the picture equal to the graph
    name = {id(root): start[0]}
    todo = [root]
    for n in todo:
        for a, t in n.transitions.items():
            for o, i in t.items():
                lab = text(f'{a} [{i.count}]' if ob == 'moore' else f'{a} / {o} [{i.count}]')
                cand = [b for (x, b, l) in es if x == name[id(n)] and l == lab]
                if id(i.target) in name:
                    mon.check(name[id(i.target)] in cand, 'edges', f'{lab} from {name[id(n)]} leads to {cand}', **wit)
                elif len(set(cand)) == 1:
                    name[id(i.target)] = cand[0]
                    todo.append(i.target)
    mon.check(len(set(name.values())) == len(name), 'nodes', 'two states share a node', **wit)
    for n in all_nodes:
        if id(n) in name:
            c = sum(i.count for t in n.transitions.values() for i in t.values())
            exp = text(f'{n.get_prefix_output()} {c}' if ob == 'moore' else f'{c}')
            mon.check(ns[name[id(n)]][0] == [exp], 'nodes', f'node labelled {ns[name[id(n)]][0]}, expected {exp}', **wit)
    mon.ev('edges_seen', sum(got.values()))
    mon.ev('nodes_seen', len(all_nodes))
    mon.ev('node_graphs')
    mon.ev('pictures')
    mon.seen('nodes', repr(sorted(es.items())))


def tree(rng, mon, idx, d):
    """the classification tree KV draws at its most detailed print level"""
    kind = ('dfa', 'moore', 'mealy')[idx % 3]
    t = gen_dm(rng, kind, nmax=6, amax=3, outs=rng.choice(['str', 'int', 'falsy', 'tuple', 'mixed'])).minimize()
    sul = RefSUL(t)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        run_KV(list(t.A), sul, ExactOracle(t, sul, rng, 'random'), kind, print_level=3)
    if 'classification_tree.pdf' in out.getvalue():
        with open(os.path.join(d, 'classification_tree.pdf'), 'rb') as f:
            mon.check(f.read(4) == b'%PDF', 'format', 'the tree is no pdf', target=t.describe())
        mon.ev('trees')
    mon.seen('tree', t.canon())
