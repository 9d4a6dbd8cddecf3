"""C28 trees share nothing: all interleavings of two histories on two trees,
copies, and changes made by the caller afterwards."""
import copy
import itertools
import pickle

from concept_formation import cluster, evaluation
from mc import fresh, rnd
from mc.core import expect
from mc.edits import edit, edits
from mc.mon import well_formed
from mc.structured import S, is_var
from mc.tree import make, nodes, state_key, table
from mc.worlds import HID, NOM, NUM, sweep

FLAT = [{'x': 1.0, 'a': 'p', '_h': 'u'}, {'x': 4.0, 'a': 'q'}, {'a': 'p'}]
NOMI = [{'a': 'p', 'b': 'r', '_h': 'u'}, {'a': 'q', 'b': 's'}, {'a': 'p'}]
STRU = [{'?a': {'w': 1.0, 'x': 'p'}, '?b': {'x': 'q'},
         ('on', '?a', '?b'): True},
        {'?u': {'w': 6.0, 'x': 'p'}, 'k': 'c'},
        {'?a': {'x': 'q', '_g': 'z'}, 'c': {'y': 'r', 'z': 2.0}}]


def alphabet(kind):
    return (NOMI if kind == 'cobweb' else
            FLAT if kind.startswith('c3') else STRU)


def mask(x):
    if isinstance(x, tuple):
        return tuple(mask(y) for y in x)
    return '?' if is_var(x) else x


def key(tree):
    """content up to object names"""
    def go(n):
        items = []
        for a, vals in table(n).items():
            for v, c in vals.items():
                items.append((repr(mask(a)), type(v).__name__, repr(v),
                              repr(tuple('%.9g' % x for x in c[1:])
                                   if isinstance(c, tuple) else c)))
        return (n.count, sorted(items), sorted(go(c) for c in n.children))
    scales = sorted((repr(mask(a)), '%.9g' % s.num, '%.9g' % s.mean,
                     '%.9g' % s.unbiased_std())
                    for a, s in getattr(tree, 'attr_scales', {}).items())
    return go(tree.root), scales


def masked(i):
    if isinstance(i, dict):
        return sorted((repr(mask(a)), masked(v)) for a, v in i.items())
    return ('%.9g' % i if isinstance(i, float) else repr(i))


OPS = [('fit', 0), ('fit', 1), ('fit', 2), ('cat', 1), ('infer', 2),
       ('clear', None)]


def do(t, kind, op):
    """perform op, return what it answered (up to names of objects)"""
    al = alphabet(kind)
    what, i = op
    with rnd.Session():
        if what == 'fit':
            n = t.ifit(copy.deepcopy(al[i]))
            return ('fit', n.count, n.depth())
        if what == 'cat':
            n = t.categorize(copy.deepcopy(al[i]))
            return ('cat', n.count, n.depth())
        if what == 'infer':
            return ('infer', masked(t.infer_missing(copy.deepcopy(al[i]))))
        if what == 'batch':
            return ('batch', t.fit(copy.deepcopy(al), iterations=2))
        if what == 'json':
            return ('json', len(str(t.root.output_json())) > 0, str(t) != '')
        t.clear()
        return ('clear',)


def alone(kind, hist):
    t = make(kind)
    out = [do(t, kind, op) for op in hist]
    return out, key(t)


def merges(n, m):
    """all interleavings as tuples of 0/1"""
    for pos in itertools.combinations(range(n + m), n):
        yield tuple(0 if i in pos else 1 for i in range(n + m))


PAIRS = [('cobweb', 'cobweb'), ('c3', 'c3'), ('c3', 'c3:F:1'),
         ('c3:2.0:1', 'c3'), ('trestle', 'trestle'), ('trestle', 'c3'),
         ('dummy', 'trestle'), ('cobweb', 'c3'), ('dummy', 'dummy')]
OTHER = [[('fit', 0), ('fit', 1), ('fit', 2)], [('fit', 1), ('clear', None),
         ('fit', 0)], [('fit', 0), ('fit', 1), ('infer', 2)],
         [('batch', None), ('cat', 1), ('json', None)]]


def run(R):
    n = 4 if R.thorough else 3

    def gen():
        for ka, kb in PAIRS:
            for ha in itertools.product(OPS, repeat=n):
                if ha[0][0] != 'fit':
                    continue
                for hb in OTHER:
                    yield ka, kb, ha, hb

    def fn(case, st):
        ka, kb, ha, hb = case
        ea, eb = alone(ka, ha), alone(kb, hb)
        for order in merges(len(ha), len(hb)):
            ts = make(ka), make(kb)
            pos = [0, 0]
            outs = [[], []]
            for w in order:
                h, k = (ha, ka) if w == 0 else (hb, kb)
                outs[w].append(do(ts[w], k, h[pos[w]]))
                pos[w] += 1
            st.add('transitions', len(order))
            st.add('traces')
            for w, (e, k, h) in enumerate(((ea, ka, ha), (eb, kb, hb))):
                names = [x.concept_id for x, _ in nodes(ts[w])]
                expect(len(set(names)) == len(names), '%s with %r next to '
                       'another %s with %r (order %r) has concepts of the '
                       'same name: %r', k, h, (kb, ka)[w], (hb, ha)[w], order,
                       sorted(names))
                expect(outs[w] == e[0], '%s used by itself with %r answers %r,'
                       ' but next to another %s with %r (order %r) %r', k, h,
                       e[0], (kb, ka)[w], (hb, ha)[w], order, outs[w])
                expect(key(ts[w]) == e[1], '%s used with %r next to another '
                       '%s with %r (order %r) has learned something else: %r '
                       'instead of %r', k, h, (kb, ka)[w], (hb, ha)[w], order,
                       key(ts[w]), e[1])
        st.outcome((repr(ea), repr(eb)))
    R.enum('interleavings', gen, fn)

    # a class of many trees, one after the other
    def many(case, st):
        kind, hist = case
        e = alone(kind, hist)
        keep = []
        for r in range(12):
            t = make(kind)
            out = [do(t, kind, op) for op in hist]
            keep.append(t)
            st.add('transitions', len(hist))
            expect((out, key(t)) == e, 'tree number %d of the same kind (%s) '
                   'behaves differently with %r', r + 2, kind, hist)
        for t in keep:
            expect(key(t) == e[1], 'an earlier tree (%s) has changed', kind)
        st.outcome((kind, repr(e)))
    KINDS = ['cobweb', 'c3', 'c3:F:1', 'c3:2.0:0', 'trestle', 'dummy']
    R.enum('many trees', lambda: [(k, h) for k in KINDS for h in
                                  itertools.product(OPS[:5], repeat=3)
                                  if h[0][0] == 'fit'], many)

    # copies
    CONT = [(('fit', 1), ('fit', 0)), (('fit', 2), ('fit', 2), ('cat', 1)),
            (('clear', None), ('fit', 1)), (('infer', 2), ('batch', None))]

    def copies(case, st):
        kind, hist = case
        st.outcome(case)
        for how in ('deepcopy', 'pickle'):
            def dup(t):
                return (copy.deepcopy(t) if how == 'deepcopy' else
                        pickle.loads(pickle.dumps(t)))
            for cont in CONT:
                st.add('transitions')
                t, ref = make(kind), make(kind)
                for op in hist:
                    do(t, kind, op)
                    do(ref, kind, op)
                e = key(t)
                c = dup(t)
                what = '%s of a %s tree after %r' % (how, kind, hist)
                expect(key(c) == e, '%s is %r instead of %r', what, key(c), e)
                shared = {id(x) for x, _ in nodes(t)} & {
                    id(x) for x, _ in nodes(c)}
                expect(not shared, '%s shares concepts with the original',
                       what)
                for x, d in nodes(c):
                    expect(x.tree is c, '%s: a concept at depth %d belongs to '
                           'another tree', what, d)
                if kind != 'dummy':
                    well_formed(c)
                got = [do(c, kind, op) for op in cont]
                expect(key(t) == e, '%s: the original changed when the copy '
                       'was used with %r', what, cont)
                want = [do(ref, kind, op) for op in cont]
                expect(got == want, '%s then %r answers %r, the original %r',
                       what, cont, got, want)
                expect(key(c) == key(ref), '%s then %r learned something else '
                       'than the original', what, cont)
                c = dup(t)
                got = [do(t, kind, op) for op in cont]
                expect(key(c) == e, '%s changed when the original was used '
                       'with %r', what, cont)
                expect(got == want, 'after taking a %s the original answers '
                       '%r, otherwise %r', what, got, want)
    R.enum('copies', lambda: [(k, h) for k in KINDS for m in (1, 2, 3)
                              for h in itertools.product(OPS[:3], repeat=m)],
           copies)

    # restored in another process, where whatever classes and modules keep
    # starts anew
    def restored(case, st):
        kind, first = case
        todo = [(kind, h, CONT) for m in (1, 2, 3)
                for h in itertools.product(OPS[:3], repeat=m) if h[0] == first]
        for (k, h, c), msg in zip(todo, fresh.ask(todo)):
            st.add('transitions', len(c))
            expect(msg is None, 'a %s tree pickled after %r and restored in '
                   'another process: %s', k, h, msg)
        st.outcome(case)
    R.enum('restored', lambda: [(k, o) for k in KINDS for o in OPS[:3]],
           restored)

    # what the caller does afterwards with things it passed in or got back
    def spoil(x):
        if isinstance(x, dict):
            for v in list(x.values()):
                spoil(v)
            x.clear()
            x['spoiled'] = 'yes'
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    spoil(v)
            del x[:]
            x.append('spoiled')

    def alias(case, st):
        kind, hist = case
        al = alphabet(kind)
        st.outcome(case)
        e = key(alone_tree(kind, hist))
        t = make(kind)
        given = []
        with rnd.Session():
            for _, i in hist:
                inst = copy.deepcopy(al[i])
                given.append(inst)
            for inst in given:
                with rnd.Session():
                    t.ifit(inst)
                st.add('transitions')
                spoil(inst)
        expect(key(t) == e, '%s: changing an instance after fitting it (%r) '
               'changes the tree', kind, hist)
        for i in range(len(al)):
            with rnd.Session():
                inst = copy.deepcopy(al[i])
                got = t.infer_missing(inst)
                spoil(got)
                expect(inst == al[i], '%s: the inferred instance shares parts '
                       'with the given one', kind)
                t.categorize(inst)
                spoil(inst)
        with rnd.Session():
            said = answers(t)
            for n, _ in nodes(t):
                spoil(n.output_json())
                for a in list(n.av_counts):
                    w = n.get_weighted_values(a)
                    spoil(w)
                    spoil(n.get_weighted_values(a, False))
                spoil(list(n.attrs()))
            expect(answers(t) == said, '%s: changing what queries returned '
                   'changes the answers of the tree (%r): %r became %r', kind,
                   hist, said, answers(t))
        expect(key(t) == e, '%s: changing what queries returned changes the '
               'tree (%r)', kind, hist)
        # a list of instances given to fit
        t = make(kind)
        lst = [copy.deepcopy(al[i]) for _, i in hist]
        with rnd.Session():
            t.fit(lst, randomize_first=False)
        e = key(t)
        spoil(lst)
        expect(key(t) == e, '%s: changing the list after fitting it changes '
               'the tree (%r)', kind, hist)

    def answers(t):
        out = [str(t), repr(t.root.output_json())]
        for n, _ in nodes(t):
            for a in sorted(n.av_counts, key=repr) + ['never']:
                out.append([repr(n.get_weighted_values(a, k))
                            for k in (True, False)])
                out.append(repr(n.predict(a)))
                out.append(repr(n.probability(a, None)))
        return out

    def alone_tree(kind, hist):
        t = make(kind)
        for op in hist:
            do(t, kind, op)
        return t
    R.enum('aliases', lambda: [(k, h) for k in KINDS for m in (1, 2, 3, 4)
                               for h in itertools.product(OPS[:3], repeat=m)],
           alias)

    # one object that the caller changes between two calls, against a tree
    # that is given a new object each time (first clusterings only: later ones
    # depend on ties broken by the addresses of concepts)
    def queries(kind):
        def where(t, c):
            return [n for n, _ in nodes(t)].index(c)

        def conc(f):
            return lambda t, i: [repr(f(n, i)) for n, _ in nodes(t)]

        q = {'fit': lambda t, i: where(t, t.ifit(i)),
             'categorize': lambda t, i: where(t, t.categorize(i)),
             'infer': lambda t, i: repr(t.infer_missing(i)),
             'sample': lambda t, i: repr(t.infer_missing(i, 'sampled', False)),
             'cluster': lambda t, i: [
                 [set_.index(x) for x in set_] for set_ in
                 cluster.cluster(t, [i, {}, i], maxsplit=1, mod=False)],
             'learn': lambda t, i: [
                 [set_.index(x) for x in set_] for set_ in
                 cluster.cluster(t, [i, {}, i], maxsplit=1)],
             'score': lambda t, i: [repr(evaluation.probability(
                 t, i, a, i[a])) for a in sorted(i, key=repr)
                 if not isinstance(i[a], (dict, list))],
             'batch': lambda t, i: t.fit([i, i], randomize_first=False)}
        if kind == 'cobweb' or kind.startswith('c3'):
            q['exact'] = conc(lambda n, i: n.is_exact_match(i))
            q['best'] = conc(lambda n, i: n.two_best_children(i)[0]
                             if n.children else None)
            q['insert'] = conc(lambda n, i: [
                n.cu_for_insert(c, i) for c in n.children])
            q['new'] = conc(lambda n, i: n.cu_for_new_child(i))
        return q

    def reuses():
        for kind in KINDS:
            al = alphabet(kind)
            qs = sorted(queries(kind))
            for k, i in enumerate(al):
                for e in list(edits(i)) + [('swap', ())] + [
                        ('become', j) for j in range(len(al)) if j != k]:
                    for h in ((0, 1, 2), (k, k), (2, 1, 0, 1, 2)):
                        for a in qs:
                            for b in (qs if R.thorough or a in (
                                    'fit', 'categorize') else (a, 'fit')):
                                yield kind, k, e, h, a, b

    def reuse(case, st):
        kind, k, e, h, a, b = case
        al = alphabet(kind)
        q = queries(kind)
        res = []
        for shared in (True, False):
            t = make(kind)
            with rnd.Session():
                for j in h:
                    t.ifit(copy.deepcopy(al[j]))
                i = copy.deepcopy(al[k])
                out = [q[a](t, i if shared else copy.deepcopy(i))]
                if e[0] == 'become':
                    i.clear()
                    i.update(copy.deepcopy(al[e[1]]))
                elif e[0] == 'swap':
                    # inside the components only
                    for x in i.values():
                        if isinstance(x, dict):
                            x.update({z: {'p': 'q', 'q': 'p', 1.0: 6.0,
                                          6.0: 1.0}.get(w, w)
                                      for z, w in x.items()})
                else:
                    edit(i, *e)
                if any(v == {} for v in i.values()):
                    return
                for x in (b, a):
                    out.append(q[x](t, i if shared else copy.deepcopy(i)))
                out.append(state_key(t))
            res.append(out)
            st.add('transitions', 3)
        expect(res[0] == res[1], '%s tree of %r: %s(%r), the caller makes it '
               '%r, then %s and %s: %r, with separate objects %r', kind,
               [al[j] for j in h], a, al[k], i, b, a, res[0], res[1])
        st.outcome(repr(case))
    R.enum('changed in between', reuses, reuse)

    # nothing that is passed in is changed, types and order included
    def exact(x):
        if isinstance(x, dict):
            return [(exact(k), exact(v)) for k, v in x.items()]
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [exact(y) for y in x])
        return (type(x).__name__, repr(x))

    def uses():
        worlds = dict(NOM)
        worlds.update(NUM)
        worlds.update(HID)
        for name, v in sweep(False).items():
            worlds[name] = v[0]
        for name, al in worlds.items():
            nom = not any(isinstance(v, (int, float)) and not isinstance(
                v, bool) for i in al for v in i.values())
            for kind in (['cobweb'] if nom else []) + ['c3', 'c3:F:1',
                                                       'trestle', 'dummy']:
                yield kind, name, al
        for name, al in S.items():
            for kind in ('trestle', 'trestle:F:1', 'dummy'):
                yield kind, name, al

    def use(case, st):
        kind, name, al = case
        st.outcome((kind, name))
        al = copy.deepcopy(al)
        e = exact(al)
        t = make(kind)

        def step(what, f):
            with rnd.Session():
                f()
            st.add('transitions')
            expect(exact(al) == e, '%s on %s changes what it is given: %r',
                   what, kind, al)
        for r in range(2):
            for i in al:
                step('ifit', lambda: t.ifit(i))
                step('categorize', lambda: t.categorize(i))
                for fn, none in itertools.product('ms', (True, False)):
                    step('infer_missing',
                         lambda: t.infer_missing(i, fn, none))
                if kind == 'dummy':
                    step('mapped ifit', lambda: t.ifit(i, do_mapping=True))
        step('fit', lambda: t.fit(al, iterations=2, randomize_first=False))
        step('fit', lambda: t.fit(al))
        if kind == 'dummy':
            return
        for mod in (False, True):
            step('cluster', lambda: list(cluster.cluster(
                t, al, 1, 3, mod=mod)))
            step('k_cluster', lambda: cluster.k_cluster(t, al, 3, mod=mod))
            step('depth_labels', lambda: cluster.depth_labels(t, al, mod=mod))
            step('cluster_split_search', lambda: cluster.cluster_split_search(
                t, al, 'CU', 1, 3, mod=mod))
        attr = next(iter(al[0]), None)
        if attr is not None and not isinstance(al[0][attr], dict):
            for i in al:
                step('probability', lambda: evaluation.probability(
                    t, i, attr, i.get(attr)))
    R.enum('uses', uses, use)
