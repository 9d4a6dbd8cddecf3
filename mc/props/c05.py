"""C05 queries are pure: complete dumps around every query of every reachable
tree, and continuations with and without queries in between."""
import copy
import itertools

from concept_formation import evaluation
from concept_formation.structure_mapper import StructureMapper
from concept_formation.preprocessor import (Pipeline, NameStandardizer,
                                            Flattener, SubComponentProcessor)

from mc import rnd, structured
from mc.core import Violation, expect
from mc.probe import PROBES, ALL, default_kinds
from mc.tree import (explore_fits, run_history, full_dump, make, nodes,
                     periodic, state_key)
from mc.worlds import FORMS, HID, NOM, NUM, form, sweep

FNS = ('most likely', 'sampled')


def leaves(n):
    if not n.children:
        return [n]
    return [x for c in n.children for x in leaves(c)]


def may_refuse(fn, *a):
    """Scores and likelihoods are documented to raise in some cases."""
    try:
        fn(*a)
    except Exception:
        pass


def attrs_of(ns, probes):
    out = []
    for i in probes:
        out.extend(a for a in i if a not in out)
    for n in ns:
        out.extend(a for a in n.av_counts if a not in out)
    return out + ['never']


def queries(t, probes, flat_probes):
    """(name, thunk) for every kind of query"""
    ns = [n for n, _ in nodes(t)]
    attrs = attrs_of(ns, flat_probes)

    def each(f):
        return lambda: [f(n) for n in ns]

    yield 'categorize', lambda: [t.categorize(i) for i in probes]
    for fn, none in itertools.product(FNS, (True, False)):
        yield 'infer_missing', lambda fn=fn, none=none: [
            t.infer_missing(i, fn, none) for i in probes]
    yield 'str', lambda: (str(t), str(t.root))
    yield 'pretty_print', each(lambda n: n.pretty_print())
    yield 'output_json', each(lambda n: n.output_json())
    yield 'size', each(lambda n: (n.depth(), n.num_concepts(),
                                  n.is_parent(t.root), t.root.is_parent(n)))
    yield 'attrs', each(lambda n: (list(n.attrs()), list(n.attrs('all'))))
    yield 'predict', each(lambda n: [
        n.predict(a, fn, none) for a in attrs for fn in FNS
        for none in (True, False)])
    yield 'weighted values', each(lambda n: [
        n.get_weighted_values(a, none) for a in attrs
        for none in (True, False)])
    yield 'probability', each(lambda n: [
        n.probability(a, v) for a in attrs
        for v in [None, 'x', 'unseen'] + [i[a] for i in flat_probes
                                          if a in i]])
    yield 'expected_correct_guesses', each(
        lambda n: n.count and n.expected_correct_guesses())
    yield 'category_utility', each(lambda n: n.category_utility())
    yield 'log_likelihood', each(lambda n: [
        may_refuse(n.log_likelihood, x) for x in leaves(n) if x.count])
    yield 'is_exact_match', each(lambda n: [
        n.is_exact_match(i) for i in flat_probes if n.count])

    inner = [n for n in ns if n.children]

    def over(f):
        return lambda: [f(n, i) for n in inner for i in flat_probes]
    yield 'cu_for_insert', over(lambda n, i: [
        n.cu_for_insert(c, i) for c in n.children])
    yield 'cu_for_new_child', over(lambda n, i: n.cu_for_new_child(i))
    yield 'cu_for_merge', over(lambda n, i: [
        n.cu_for_merge(c, d, i) for c in n.children for d in n.children
        if c is not d])
    yield 'cu_for_split', over(lambda n, i: [
        n.cu_for_split(c) for c in n.children if c.children])
    yield 'relative cu', over(lambda n, i: [
        n.relative_cu_for_insert(c, i) for c in n.children] +
        [n.compute_relative_CU_const(i)])
    yield 'cu_for_fringe_split', lambda: [
        n.cu_for_fringe_split(i) for n in ns if not n.children and n.count
        for i in flat_probes]

    def best(n, i):
        cu, a, b = n.two_best_children(i)
        n.get_best_operation(i, a, b, cu)
        for ops in (['best'], ['new'], ['split', 'new'], ['merge', 'best']):
            n.get_best_operation(i, a, b, cu, possible_ops=ops)
    yield 'best operation', over(best)

    def score(f):
        def go():
            for i in probes:
                for a in list(i)[:2] + ['never']:
                    may_refuse(f, t, i, a, i.get(a))
        return go
    for name in ('probability', 'error', 'absolute_error', 'squared_error'):
        yield 'score ' + name, score(getattr(evaluation, name))
    if hasattr(t, 'gensym'):
        def smap():
            for i in probes:
                p = Pipeline(NameStandardizer(t.gensym), Flattener(),
                             SubComponentProcessor(), StructureMapper(t.root))
                p.undo_transform(p.transform(i))
        yield 'structure mapping', smap


def probe_all(t, probes, flat_probes, policies, st, fine=True):
    before = full_dump(t)
    saved = copy.deepcopy(probes)
    saved_flat = copy.deepcopy(flat_probes)
    for pol in policies:
        todo = list(queries(t, probes, flat_probes))
        for n, (name, q) in enumerate(todo):
            with rnd.Session((), policy=pol):
                q()
            st.add('traces')
            if not fine and n < len(todo) - 1 and n % 7:
                continue
            after = full_dump(t)
            expect(after == before, 'query %r (or one shortly before) changed the tree: %s', name,
                   diff(before, after))
            expect(same(probes, saved) and same(flat_probes, saved_flat),
                   'query %r modified its instance: %r became %r', name,
                   saved, probes)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return (len(a) == len(b) and all(k in b and same(a[k], b[k])
                                         for k in a))
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def diff(a, b):
    for x, y in zip(a[1], b[1]):
        if x != y:
            return 'concept %r became %r' % (x, y)
    return '%d concepts, %r became %d concepts, %r' % (
        len(a[1]), a[2:], len(b[1]), b[2:])


def kinds(name):
    return default_kinds(name) + ['trestle']


def run(R):
    d = 5 if R.thorough else 4
    for name, al in ALL.items():
        probes = PROBES[name] + al[:2]
        for kind in kinds(name):
            pols = ('first', 'last') if kind in ('cobweb', 'c3') else ('first',)
            pristine = copy.deepcopy(al)

            def mon(t, past, idx, res, ctx, st, probes=probes, al=al,
                    pristine=pristine, pols=pols):
                expect(same(al, pristine), 'fitting modified an instance')
                probe_all(t, probes, probes, pols, st, len(past) <= 1)
            explore_fits(R, 'hist/%s/%s' % (name, kind), kind, al, mon,
                         d - (kind == 'trestle') - (len(al) > 4), bound=1,
                         max_runs=16)
            if kind in ('cobweb', 'c3'):
                run_history(R, 'long/%s/%s' % (name, kind), kind, al,
                            lambda al=al: periodic(len(al), 25, 2), mon,
                            policies=('first',), every=8)
        explore_fits(R, 'dummy/%s' % name, 'dummy', al,
                     lambda t, past, idx, res, ctx, st, probes=probes, al=al,
                     pristine=pristine: (
                         expect(same(al, pristine), 'fitting modified an '
                                'instance'),
                         probe_all(t, probes, probes, ('first',), st)),
                     3, bound=0)
    for name, al in structured.S.items():
        probes = al + [{'?q': {'x': 'p', '?r': {'x': 'q'}}}, {'k': 'c'}]
        pristine = copy.deepcopy(al)
        for kind in ('trestle', 'dummy'):
            def mon(t, past, idx, res, ctx, st, probes=probes, al=al,
                    pristine=pristine):
                expect(same(al, pristine), 'fitting modified an instance')
                fp = []
                for n, _ in nodes(t):
                    if not n.children and n.count and len(fp) < 2:
                        fp.append({a: sorted(v, key=repr)[0] if
                                   '#ContinuousValue#' not in v else
                                   v['#ContinuousValue#'].mean
                                   for a, v in n.av_counts.items()})
                probe_all(t, probes, fp + [{('x', '?o1'): 'zz'}], ('first',),
                          st)
            explore_fits(R, 'struct/%s/%s' % (name, kind), kind, al, mon,
                         3 if R.thorough or kind == 'dummy' else 2, bound=1,
                         max_runs=8)

    # instances that are other kinds of dictionaries
    for name in ('n3', 'nmiss', 'h1', 'fmix', 'frel', 's1', 's2'):
        for how in FORMS:
            al = [form(i, how) for i in (ALL.get(name) or
                                         structured.S[name])]
            pristine = copy.deepcopy(al)
            probes = [form(i, how) for i in PROBES.get(name, [])] + al[:2]
            for kind in (kinds(name) + ['dummy'] if name in ALL
                         else ['trestle', 'dummy']):
                def mon(t, past, idx, res, ctx, st, probes=probes, al=al,
                        pristine=pristine, name=name):
                    expect(same(al, pristine), 'fitting modified an instance')
                    probe_all(t, probes, probes if name in ALL else [],
                              ('first',), st, False)
                explore_fits(R, 'forms/%s/%s/%s' % (name, how, kind), kind,
                             al, mon, 3 if R.thorough else 2, bound=0)

    # sizes
    for name, (al, hists, ks, ntol) in sweep(R.thorough).items():
        pristine = copy.deepcopy(al)
        probes = al[:2] + [{}]

        def mon(t, past, idx, res, ctx, st, probes=probes, al=al,
                pristine=pristine):
            expect(same(al, pristine), 'fitting modified an instance')
            probe_all(t, probes, probes, ('first',), st, False)
        for kind in ks[:2] + ['trestle', 'dummy']:
            run_history(R, 'sweep/%s/%s' % (name, kind), kind, al,
                        lambda hists=hists: iter(hists), mon,
                        policies=('first',), every=9)

    # later fits are as they would have been
    def cont(case, st):
        name, kind, h, k = case
        al = ALL[name]
        probes = PROBES[name] + al[:2]
        keys = []
        for interleave in (False, True):
            t = make(kind)
            for n, i in enumerate(h):
                with rnd.Session(()):
                    t.ifit(al[i])
                st.add('transitions')
                if interleave and (n == k or k < 0):
                    for _, q in queries(t, probes, probes):
                        with rnd.Session((), policy='last'):
                            q()
            keys.append(state_key(t))
        st.outcome(keys[0])
        expect(keys[0] == keys[1], 'fitting %r leads to another tree when '
               'queries are made after fit %d', [al[i] for i in h], k)

    def gen():
        L = 5 if R.thorough else 3
        for name in ('n3', 'nmiss', 'h1', 'fmix', 'f2', 'frel', 'h4'):
            al = ALL[name]
            for kind in default_kinds(name)[:2] + ['trestle']:
                for h in itertools.product(range(len(al)), repeat=L):
                    if len(al) > 4 and h[0] % 2:
                        continue
                    yield name, kind, h, -1
                    if R.thorough:
                        for k in range(L - 1):
                            yield name, kind, h, k
    R.enum('continuation', gen, cont)
