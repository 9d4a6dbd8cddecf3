"""C18 flat clusterings."""
import copy
import itertools

from concept_formation import cluster as lib

from mc import rnd, used
from mc.clus import (Run, cases, model_of, pattern, prepared, tagged, world,
                     leaf_sets)
from mc.core import expect, runs, Violation
from mc.tree import full_dump, make, nodes


def names(t):
    return {'Concept' + str(n.concept_id): n for n, _ in nodes(t)}


def again(case, fn):
    """same tree and random choices, another entry point"""
    w, kind, pre, lst, mod, h, pol = case
    al = world(w)
    t = prepared(kind, [al[i] for i in pre])
    insts = tagged([al[i] for i in lst])
    saved = copy.deepcopy(insts)
    before = full_dump(t)
    with rnd.Session(policy=pol):
        r = fn(t, insts)
    expect(full_dump(t) == before, 'the tree was changed')
    expect(insts == saved, 'the instances were changed')
    return t, r


def run(R):
    def fn(case, st):
        w, kind, pre, lst, mod, h, pol = case
        try:
            one(case, st)
        except Violation as e:
            raise Violation('%s on %s, trained on %r, %s %r, %s: %s' % (
                kind, w, [world(w)[i] for i in pre],
                'fitting' if mod else 'categorizing',
                [world(w)[i] for i in lst], h, e))

    def one(case, st):
        w, kind, pre, lst, mod, h, pol = case
        m = model_of(w, kind)
        r = Run(kind, world(w), pre, lst, mod, h, pol, m)
        rl = Run(kind, world(w), pre, lst, mod, h, pol, m, labels=True)
        st.add('transitions', len(r.seq) + len(rl.seq))
        st.outcome((w, kind, pattern(r.seq[-1][0]), len(r.seq), lst, pre))
        if len(r.seq) > 2 and len(st.samples) < 1:
            st.sample('%r: %r' % (case, [pattern(c) for c, _ in r.seq]))
        if h != 'CU':
            return
        # sub-ranges through the public entry points
        mx = len(r.seq)
        rngs = [(1, 1), (1, mx), (2, 2), (2, mx + 1), (mx, mx), (mx + 1,
                                                                 mx + 2)]
        pats = [pattern(c) for c, _ in r.seq]
        for a, b in sorted(set(rngs)):
            if a > b:
                continue
            t, got = again(case, lambda t, i: list(lib.cluster(
                t, i, minsplit=a, maxsplit=b, mod=mod)))
            want = pats[a - 1:b]
            expect(len(got) == len(want), 'cluster with %d to %d splits gives '
                   '%d clusterings instead of %d', a, b, len(got), len(want))
            for c in got:
                expect(all(isinstance(x, str) for x in c) and
                       len(c) == len(lst), 'labels %r', c)
            if r.unique:
                expect([pattern(c) for c in got] == want, 'cluster with %d to '
                       '%d splits gives %r instead of %r', a, b, got, want)
            chain(got)
            if not mod:
                inside(t, got, case)
            st.add('transitions')
        for k in (2, 3, 4, len(lst) + 1):
            t, got = again(case, lambda t, i: lib.k_cluster(t, i, k, mod=mod))
            expect(len(got) == len(lst), 'k_cluster gives %d labels for %d '
                   'instances', len(got), len(lst))
            expect(len(set(got)) <= k, 'k_cluster with k = %d gives %d '
                   'clusters', k, len(set(got)))
            ok = [p for p in pats if len(set(p)) <= k]
            if ok and r.unique:
                expect(pattern(got) == ok[-1], 'k_cluster with k = %d gives '
                       '%r, but the last clustering with at most %d clusters '
                       'is %r', k, got, k, ok[-1])
            elif not ok:
                expect(set(got) == {'Concept' + str(t.root.concept_id)},
                       'k_cluster with k = %d gives %r although the children '
                       'of the root are too many', k, got)
            if not mod:
                inside(t, [got], case)
            st.add('transitions')
        labels(case, r, st)

    def chain(got):
        for a, b in zip(got, got[1:]):
            for i, j in itertools.combinations(range(len(a)), 2):
                expect(a[i] == a[j] or b[i] != b[j], 'the clustering %r does '
                       'not refine %r', b, a)
            changed = {x for x, y in zip(a, b) if x != y}
            expect(len(changed) == 1, 'from %r to %r not exactly one cluster '
                   'was split', a, b)

    def inside(t, got, case):
        """categorizing only: every label names a concept of the tree that
        contains a leaf the instance may be categorized to"""
        inside_(t, got, tagged([world(case[0])[i] for i in case[3]]))

    def inside_(t, got, insts):
        ns = names(t)
        sets = leaf_sets(t, insts)
        for i, s in enumerate(sets):
            cand = set(s)
            for c in got:
                expect(c[i] in ns, 'label %r is not a concept of the tree',
                       c[i])
                under = {n.concept_id for n, _ in under_(ns[c[i]])}
                cand &= under
            expect(cand, 'instance %d is labelled %r, which does not contain '
                   'its leaf', i, [c[i] for c in got])

    def under_(n):
        out, todo = [], [n]
        while todo:
            x = todo.pop()
            out.append((x, 0))
            todo.extend(x.children)
        return out

    def labels(case, r, st):
        """depth labels run from the root to the leaves"""
        w, kind, pre, lst, mod, h, pol = case
        al = world(w)
        t = prepared(kind, [al[i] for i in pre])
        insts = tagged([al[i] for i in lst])
        saved = copy.deepcopy(insts)
        before = full_dump(t)
        with rnd.Session(policy=pol):
            got = lib.depth_labels(t, insts, mod=mod)
        expect(insts == saved, 'depth_labels changed the instances')
        if not mod:
            expect(full_dump(t) == before, 'depth_labels without fitting '
                   'changed the tree')
        else:
            expect(t.root.count == len(pre) + len(lst), 'depth_labels with '
                   'fitting: root count %r', t.root.count)
        columns(t, got, insts, mod)
        st.add('transitions')

    def columns(t, got, insts, mod):
        lst = insts
        ns = names(t)
        sets = None if mod else leaf_sets(t, insts)
        mxd = 0
        for i in range(len(lst)):
            col = [row[i] for row in got]
            expect(all(len(row) == len(lst) for row in got), 'depth label '
                   'rows %r', got)
            expect(all(x in ns for x in col), 'depth labels %r name no '
                   'concept of the tree', col)
            expect(ns[col[0]] is t.root, 'depth labels start at %r', col[0])
            n, d = t.root, 1
            for x in col[1:]:
                if not n.children:
                    expect(ns[x] is n, 'labels go on below a leaf: %r', col)
                else:
                    expect(ns[x].parent is n, 'label %r does not follow %r',
                           x, col)
                    n, d = ns[x], d + 1
            expect(not n.children, 'depth labels end above a leaf: %r', col)
            mxd = max(mxd, d)
            if mod:
                expect(n.av_counts['_id'].get('i%d' % i) == 1, 'depth labels '
                       'of instance %d lead to another leaf', i)
            else:
                expect(n.concept_id in sets[i], 'depth labels of instance %d '
                       'lead to another leaf', i)
        expect(len(got) == mxd, '%d rows of depth labels for depth %d',
               len(got), mxd)

    heurs = ['CU', 'AIC', 'BIC', 'AICc'] if R.thorough else ['CU', 'BIC']
    R.enum('clusterings', lambda: cases(R, heurs, 5 if R.thorough else 4), fn)

    # every tie-break while fitting (deviation bound)
    def ties():
        for w, kind, n in (('n22', 'cobweb', 4), ('nset', 'cobweb', 4),
                           ('f1', 'c3', 4), ('n3', 'cobweb', 3)):
            al = world(w)
            for p in itertools.product(range(len(al)), repeat=n):
                yield w, kind, p

    def tie(case, st):
        w, kind, p = case
        m = model_of(w, kind)
        stack = [()]
        n = 0
        while stack and n < (200 if R.thorough else 24):
            pre = stack.pop()
            r = Run(kind, world(w), (), p, True, 'CU', 'first', m, prefix=pre)
            n += 1
            st.add('transitions', len(r.seq))
            st.outcome((case, pattern(r.seq[-1][0])))
            s = r.session
            if sum(1 for c in s.taken if c) < (3 if R.thorough else 1):
                for i in range(len(pre), len(s.points)):
                    if s.taken[i] == 0:
                        for alt in range(1, s.points[i][0]):
                            stack.append(tuple(s.taken[:i]) + (alt,))
    R.enum('tie-breaks', ties, tie)

    # the same object listed several times
    def shared():
        for w, kind in (('n3', 'cobweb'), ('f2', 'c3'), ('s1', 'trestle')):
            k = range(len(world(w)))
            for n in (2, 3, 4):
                if kind == 'trestle' and n == 4 and not R.thorough:
                    continue
                for p in itertools.product(k, repeat=n):
                    if len(set(p)) < n:
                        for pre in ((), tuple(k)):
                            for mod in (True, False):
                                yield w, kind, pre, p, mod

    def once(case, st):
        w, kind, pre, p, mod = case
        al = world(w)
        res = []
        for same in (True, False):
            mine = {i: copy.deepcopy(al[i]) for i in p}
            for what, call in (
                    ('depth_labels', lambda t, i: lib.depth_labels(
                        t, i, mod=mod)),
                    ('k_cluster', lambda t, i: lib.k_cluster(
                        t, i, 3, mod=mod)),
                    ('cluster', lambda t, i: list(lib.cluster(
                        t, i, maxsplit=3, mod=mod))),
                    ('cluster_split_search', lambda t, i:
                        lib.cluster_split_search(t, i, 'CU', 1, 3, mod=mod))):
                t = prepared(kind, [al[i] for i in pre])
                insts = [mine[i] if same else copy.deepcopy(al[i]) for i in p]
                with rnd.Session(policy='first'):
                    r = call(t, insts)
                rows = [r] if isinstance(r[0], str) else r
                st.add('transitions')
                n = len(pre) + (len(p) if mod and what == 'depth_labels'
                                else 0)
                expect(t.root.count == n, '%s of %r on %s, trained on %r: the '
                       'root holds %r instances instead of %d', what,
                       [al[i] for i in p], kind, [al[i] for i in pre],
                       t.root.count, n)
                res.append((what, [pattern(x) for x in rows]))
        k = len(res) // 2
        for (what, a), (_, b) in zip(res[:k], res[k:]):
            expect(a == b, '%s of %r on %s, trained on %r: %r when equal '
                   'instances are one object, but %r when they are copies',
                   what, [al[i] for i in p], kind, [al[i] for i in pre], a, b)
        st.outcome((w, p, res[0][1]))
    R.enum('one object listed several times', shared, once)

    # hierarchies deeper, and wider, than short histories make
    def built():
        for kind in ('cobweb', 'c3', 'c3:F:1', 'trestle'):
            for shape, ns in (('chain', (2, 5, 13, 30)), ('star', (2, 40))):
                for n in ns:
                    if n > 20 and kind != 'cobweb':
                        n = n // 2 + 1
                    for mod in (False, True):
                        yield kind, shape, n, mod

    def deep(case, st):
        kind, shape, n, mod = case
        t = make(kind)
        num = kind != 'cobweb'
        all_ = getattr(used, shape)(t, n, num)
        for some in (all_[-9:], [all_[-1], all_[0]], [all_[n // 2]] * 2):
            tt = copy.deepcopy(t)
            insts = tagged(some)
            if mod and len(some) == 2:
                insts = insts[:1]
            with rnd.Session(policy='first'):
                got = lib.depth_labels(tt, insts, mod=mod)
            st.add('transitions')
            try:
                columns(tt, got, insts, mod)
                if not mod:
                    with rnd.Session(policy='first'):
                        got = list(lib.cluster(tt, insts, maxsplit=n + 1,
                                               mod=False))
                    chain(got)
                    inside_(tt, got, insts)
                    st.outcome((case, len(got)))
                    st.add('transitions', len(got))
            except Violation as e:
                raise Violation('%s of %d on %s, %d instances, %s: %s' % (
                    shape, n, kind, len(insts),
                    'fitting' if mod else 'categorizing', e))
    R.enum('deep and wide hierarchies', built, deep)

    # refused arguments
    def bad(case, st):
        what, call = case, CALLS[case]
        t = prepared('cobweb', [{'a': 'x'}, {'a': 'y'}])
        before = full_dump(t)
        try:
            call(t)
        except ValueError:
            expect(full_dump(t) == before, '%s changed the tree', what)
            return
        expect(False, '%s is accepted', what)
    i = [{'a': 'x'}]
    CALLS = {
        'k = 1': lambda t: lib.k_cluster(t, i, 1),
        'k = 0': lambda t: lib.k_cluster(t, i, 0),
        'minsplit 0': lambda t: list(lib.cluster(t, i, 0, 1)),
        'maxsplit below minsplit': lambda t: list(lib.cluster(t, i, 3, 2)),
        'no instances': lambda t: list(lib.cluster(t, [])),
        'unknown heuristic': lambda t: list(lib.cluster_iter(
            t, i, heuristic='XYZ')),
    }
    R.enum('arguments', lambda: sorted(CALLS), bad)
