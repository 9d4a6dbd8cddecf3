"""C24 exports: JSON, printed form, visualization files (scratch only)."""
import copy
import importlib.util
import itertools
import json
import os
import shutil
import tempfile
import webbrowser

from mc.core import expect
from mc.probe import sweeps
from mc.props.c14 import names_of  # noqa: F401
from mc.structured import S
from mc.tree import cv_key, explore_fits, full_dump, make, nodes, run_history
from mc.tree import periodic
from mc.worlds import HID, NOM, NUM, deep

REPO = os.environ.get('CF_REPO', '/repo')
OPENED = []


def stub(url, *a, **k):
    OPENED.append(url)
    return True


def load(scratch):
    """The visualize module, run from a scratch copy so that whatever it
    writes beside itself stays there."""
    pk = os.path.join(scratch, 'pkg')
    os.makedirs(pk)
    src = os.path.join(REPO, 'concept_formation')
    shutil.copytree(os.path.join(src, 'visualization_files'),
                    os.path.join(pk, 'visualization_files'))
    shutil.copy(os.path.join(src, 'visualize.py'), pk)
    webbrowser.open = stub
    spec = importlib.util.spec_from_file_location(
        'cf_visualize', os.path.join(pk, 'visualize.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-15


def check_json(node, j, what=''):
    expect(isinstance(j, dict), 'JSON of a concept is %r', j)
    expect(j.get('name') == 'Concept' + str(node.concept_id), 'JSON name %r '
           'of concept %r', j.get('name'), node.concept_id)
    expect(j.get('size') == node.count, 'JSON size %r of a concept with count '
           '%r', j.get('size'), node.count)
    counts = j.get('counts')
    expect(isinstance(counts, dict) and
           set(counts) == {str(a) for a in node.av_counts},
           'JSON attributes %r, the concept has %r', counts,
           list(node.av_counts))
    for a, vals in node.av_counts.items():
        got = counts[str(a)]
        expect(set(got) == {str(v) for v in vals}, 'JSON values of %r: %r, '
               'the concept has %r', a, got, list(vals))
        for v, c in vals.items():
            if isinstance(v, str) and v == cv_key:
                g = got[str(v)]
                expect(g['n'] == c.num and near(g['mean'], c.mean) and
                       near(g['std'], c.unbiased_std()), 'JSON of numeric %r '
                       'is %r, the concept has %r', a, g, str(c))
            else:
                expect(got[str(v)] == c, 'JSON count of %r=%r is %r, the '
                       'concept has %r', a, v, got[str(v)], c)
    kids = j.get('children')
    expect(isinstance(kids, list) and len(kids) == len(node.children),
           'JSON has %r children, the concept %d',
           kids if not isinstance(kids, list) else len(kids),
           len(node.children))
    by = {'Concept' + str(c.concept_id): c for c in node.children}
    expect({k.get('name') for k in kids} == set(by), 'JSON children %r, '
           'the concept has %r', [k.get('name') for k in kids], sorted(by))
    for k in kids:
        check_json(by[k['name']], k)


def printed(t, text):
    lines = text.split('\n')
    expect(lines[-1] == '', 'printed form does not end with a newline')
    lines = lines[:-1]
    ns = nodes(t)
    expect(len(lines) == len(ns), '%d printed lines for %d concepts',
           len(lines), len(ns))
    for line, (n, d) in zip(lines, ns):
        body = line.lstrip('\t')
        expect(len(line) - len(body) == d, 'a concept at depth %d is printed '
               'at indentation %d', d, len(line) - len(body))
        expect(body.endswith(str(n.count)), 'printed %r for count %r', body,
               n.count)
        for a, vals in n.av_counts.items():
            expect(str(a) in body, 'printed %r without attribute %r', body, a)
            for v, c in vals.items():
                expect(str(v) in body and str(c) in body, 'printed %r without '
                       '%r=%r: %s', body, a, v, c)


def height(n):
    return 1 + max(map(height, n.children)) if n.children else 0


def cut_leaves(j, n, cuts):
    by = {'Concept' + str(c.concept_id): c for c in n.children}
    out = {k: v for k, v in j.items() if k != 'children'}
    out['children'] = [cut_leaves(k, by[k['name']], cuts)
                       for k in j['children']
                       if height(by[k['name']]) >= cuts]
    return out


def cut_clusters(j, names):
    out = {k: v for k, v in j.items() if k != 'children'}
    out['children'] = [] if j['name'] in names else [
        cut_clusters(k, names) for k in j['children']]
    return out


def read(path):
    with open(path) as f:
        text = f.read()
    a = '(function (){ window.trestle_output='
    start = text.index('trestle_output=') + len('trestle_output=')
    end = text.rindex('; })();')
    return json.loads(text[start:end])


SUPPORT = ('viz.html', 'viz_logic.js', 'viz_styling.css')


def run(R):
    scratch = tempfile.mkdtemp(prefix='cf_c24_')
    try:
        body(R, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def body(R, scratch):
    viz = load(scratch)
    counter = itertools.count()
    sup = {}
    for f in SUPPORT:
        with open(os.path.join(REPO, 'concept_formation',
                               'visualization_files', f), 'rb') as fh:
            sup[f] = fh.read()

    def monitor(t, past, idx, res, ctx, st):
        before = full_dump(t)
        for n, d in nodes(t):
            j = n.output_json()
            check_json(n, j)
            expect(n.depth() == d, 'depth of a concept is %r instead of %d',
                   n.depth(), d)
        ns = nodes(t)
        for n, _ in ns[:30]:
            below = set()
            todo = [n]
            while todo:
                x = todo.pop()
                below.add(id(x))
                todo.extend(x.children)
            for x, _ in ns[:30]:
                expect(bool(n.is_parent(x)) == (id(x) in below), 'is_parent '
                       'is %r', n.is_parent(x))
        other = nodes(copy.deepcopy(t))[:6] if len(past) == 2 else []
        for n, _ in ns[:6]:
            for x, _ in other:
                expect(not n.is_parent(x) and not x.is_parent(n), 'a concept '
                       'counts as ancestor of one of another tree (a copy)')
        expect(t.root.num_concepts() == len(ns), 'num_concepts is %r, there '
               'are %d', t.root.num_concepts(), len(ns))
        for n, d in ns[:4]:
            k = [0]

            def cnt(x):
                k[0] += 1
                for c in x.children:
                    cnt(c)
            cnt(n)
            expect(n.num_concepts() == k[0], 'num_concepts')
        j = t.root.output_json()
        back = json.loads(json.dumps(j))
        check_json(t.root, back)
        printed(t, str(t))
        expect(str(t) == t.root.pretty_print(), 'str and pretty_print differ')
        st.add('node_probes', len(ns))
        if len(past) + 1 >= VIZ_FROM:
            files(t, back, st)
        expect(full_dump(t) == before, 'exporting changed the tree')

    def write(fn, st):
        d = os.path.join(scratch, 'w%d_%d' % (os.getpid(), next(counter)))
        os.makedirs(d)
        del OPENED[:]
        try:
            fn(d)
            expect(len(OPENED) == 1, 'the browser is opened %d times',
                   len(OPENED))
            expect(OPENED[0] == 'file://' + os.path.realpath(
                os.path.join(d, 'viz.html')), 'the browser shows %r',
                OPENED[0])
            for f in SUPPORT:
                with open(os.path.join(d, f), 'rb') as fh:
                    expect(fh.read() == sup[f], '%s differs', f)
            expect(sorted(os.listdir(d)) == sorted(SUPPORT + ('output.js',)),
                   'files %r', os.listdir(d))
            st.add('files')
            return read(os.path.join(d, 'output.js'))
        finally:
            shutil.rmtree(d)

    def files(t, j, st):
        got = write(lambda d: viz.visualize(t, d), st)
        expect(got == j, 'visualize writes %r instead of %r', got, j)
        for cuts in range(0, height(t.root) + 2):
            got = write(lambda d: viz.visualize_no_leaves(t, cuts, d), st)
            want = cut_leaves(j, t.root, cuts)
            expect(got == want, 'visualize_no_leaves with %d cuts writes %r '
                   'instead of %r', cuts, got, want)
        got = write(lambda d: viz.visualize_no_leaves(t, dst=d), st)
        expect(got == cut_leaves(j, t.root, 1), 'visualize_no_leaves by '
               'default writes %r', got)
        ns = [n for n, _ in nodes(t)]
        sets = [[n] for n in ns]
        sets += [[n for n, d in nodes(t) if d == k or (
            d < k and not n.children)] for k in range(1, height(t.root) + 1)]
        sets += [list(p) for p in itertools.combinations(ns[1:], 2)][:12]
        sets += [[ns[-1], ns[0], ns[-1]]]
        for s in sets:
            names = ['Concept' + str(n.concept_id) for n in s]
            want = cut_clusters(j, set(names))
            for form in (names, s):
                got = write(lambda d: viz.visualize_clusters(t, form, d), st)
                expect(got == want, 'visualize_clusters of %r writes %r '
                       'instead of %r', form if form is names else 'concepts',
                       got, want)
        st.add('traces')

    worlds = {'n3': NOM['n3'], 'nmiss': NOM['nmiss'], 'nfalsy': NOM['nfalsy'],
              'fmix': NUM['fmix'], 'frel': NUM['frel'], 'fboth': NUM['fboth'],
              'h1': HID['h1'],
              'h3': HID['h3'], 's1': S['s1'], 's3': S['s3'], 's4': S['s4'],
              'guid': [{'a': 'x', '_guid': 'g1'}, {'a': 'y', '_guid': 'g2'},
                       {'b': 'x', 'w': 1.5}]}
    VIZ_FROM = 3
    for w, al in worlds.items():
        if w[0] == 's':
            ks = ['trestle']
        elif w[0] == 'n' or w == 'h1':
            ks = ['cobweb', 'c3']
        else:
            ks = ['c3']
        for kind in ks:
            depth = 4 if R.thorough and len(al) < 5 else 3
            explore_fits(R, 'hist/%s/%s' % (w, kind), kind, al, monitor,
                         depth, bound=1)
    VIZ_FROM = 9
    for w, (al, hists) in deep(R.thorough).items():
        kind = 'cobweb' if w[0] == 'd' else 'c3'
        run_history(R, 'deep/' + w, kind, al,
                    lambda: iter(hists if R.thorough else hists[::10]),
                    monitor, policies=('first',), every=6)
    VIZ_FROM = 18
    sweeps(R, None, every=9 if not R.thorough else 4, stride=7,
           mk=lambda m, al, kind: monitor)
    VIZ_FROM = 1

    # shapes that fitting rarely gives: long chains, many children, built
    # through the operations of the concepts
    def built(case, st):
        kind, shape, n = case
        t = make(kind)
        num = kind == 'c3'

        def inst(k):
            return {'a': 'v%d' % k, 'w': float(k) if num else 'w%d' % k}
        node = t.root
        for k in range(n):
            if shape == 'broom':
                for j in (k, k + n):
                    node.increment_counts(inst(j))
                new = node.create_new_child(inst(k))
                new.increment_counts(inst(k + n))
                new.create_new_child(inst(k))
                new.create_new_child(inst(k + n))
            elif shape == 'chain':
                for j in range(k, n):
                    node.increment_counts(inst(j))
                if k < n - 1:
                    node.create_new_child(inst(k))
                    new = node.create_new_child(inst(n - 1))
                    new.count, new.av_counts = 0.0, {}
                    node = new
            else:
                node.increment_counts(inst(k))
                node.create_new_child(inst(k))
        monitor(t, [0] * 10, 0, None, None, st)
        st.outcome(case)

    def shapes():
        for kind in ('cobweb', 'c3'):
            for n in (2, 5, 11, 17, 33) + ((65,) if R.thorough else ()):
                yield kind, 'chain', n
            for n in (12, 40, 130):
                yield kind, 'star', n
            yield kind, 'broom', 45
        yield 'cobweb', 'chain', 50
    R.enum('built', shapes, built)

    # supporting files and the default destination; one case, because the
    # default destination is one folder that all cases write to
    def dest(cases, st):
        for case in cases:
            dest1(case, st)

    def dest1(case, st):
        t = make('c3')
        for i in range(case):
            t.ifit({'a': 'xyz'[i % 3], 'n': float(i)})
        j = json.loads(json.dumps(t.root.output_json()))
        d = os.path.join(scratch, 'd%d' % case)
        os.makedirs(d)
        viz.visualize(t, d)
        with open(os.path.join(d, 'viz.html'), 'w') as f:
            f.write('mine')
        viz.visualize(t, d, recreate_html=False)
        expect(open(os.path.join(d, 'viz.html')).read() == 'mine', 'the '
               'supporting files were recreated against the flag')
        expect(read(os.path.join(d, 'output.js')) == j, 'output.js not '
               'written')
        viz.visualize(t, d)
        expect(open(os.path.join(d, 'viz.html'), 'rb').read() ==
               sup['viz.html'], 'the supporting files were not recreated')
        e = os.path.join(scratch, 'e%d' % case)
        os.makedirs(e)
        viz.visualize(t, e, recreate_html=False)
        expect(sorted(os.listdir(e)) == sorted(SUPPORT + ('output.js',)),
               'files %r in a new folder', os.listdir(e))
        # no destination: beside the module (here: its scratch copy)
        pk = os.path.join(scratch, 'pkg', 'visualization_files')
        del OPENED[:]
        viz.visualize(t)
        expect(read(os.path.join(pk, 'output.js')) == j, 'output.js beside '
               'the module is not the tree')
        expect(OPENED == ['file://' + os.path.realpath(
            os.path.join(pk, 'viz.html'))], 'the browser shows %r', OPENED)
        st.outcome(case)
    if R.replay is None or R.replay[0] == 'destinations':
        R.enum('destinations', lambda: [(0, 1, 2, 5)], dest)
