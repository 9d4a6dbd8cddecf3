"""C19 split search and the heuristics."""
import contextlib
import copy
import io
import itertools

from concept_formation import cluster as lib

from mc import rnd
from mc.clus import (Heur, Run, TR, cases, eq, below, model_of, pattern,
                     prepared, tagged, world, INF)
from mc.core import expect, Violation
from mc.tree import full_dump

SPELL = {'CU': ['CU', 'cu', 'Cu'], 'AIC': ['AIC', 'aic'],
         'BIC': ['BIC', 'bIc'], 'AICc': ['AICC', 'aicc', 'AICc']}


def run(R):
    def fn(case, st):
        w, kind, pre, lst, mod, h, pol = case
        try:
            one(case, st)
        except Violation as e:
            raise Violation('%s on %s, trained on %r, %s %r, %s: %s' % (
                kind, w, [world(w)[i] for i in pre],
                'fitting' if mod else 'categorizing',
                [world(w)[i] for i in lst], h, e))

    def one(case, st):
        w, kind, pre, lst, mod, h, pol = case
        al = world(w)
        m = model_of(w, kind)
        r = Run(kind, al, pre, lst, mod, h, pol, m)
        if m is not None:
            r.values()
        st.add('transitions', len(r.calls))
        pats = [(pattern(c), v) for c, v in r.seq]
        st.outcome((w, kind, h, pats))
        if r.unique:
            st.add('without_ties')
        if h == 'AICc' and any(v < INF for _, v in pats):
            st.add('finite_AICc')
        mx = len(pats)
        forms = [getattr(lib, h)] + SPELL[h]
        rngs = [(1, 1), (1, mx), (2, mx + 1), (mx, mx), (1, max(1, mx - 1)),
                (mx + 1, mx + 3)]
        for n, (a, b) in enumerate(sorted(set(rngs))):
            if a > b:
                continue
            form = forms[(n + sum(lst)) % len(forms)]
            for labels in (True, False):
                verbose = labels and n % 2 == 0
                t = prepared(kind, [al[i] for i in pre])
                insts = tagged([al[i] for i in lst])
                saved = copy.deepcopy(insts)
                before = full_dump(t)
                buf = io.StringIO()
                with rnd.Session(policy=pol), contextlib.redirect_stdout(buf):
                    got = lib.cluster_split_search(
                        t, insts, heuristic=form, minsplit=a, maxsplit=b,
                        mod=mod, labels=labels, verbose=verbose)
                what = 'split search with %d to %d splits, %r' % (a, b, form)
                expect(full_dump(t) == before, '%s changed the tree', what)
                expect(insts == saved, '%s changed the instances', what)
                expect(len(got) == len(lst), '%s: %d labels', what, len(got))
                if labels:
                    expect(all(isinstance(x, str) and x.startswith('Concept')
                               for x in got), '%s: labels %r', what, got)
                else:
                    expect(all(hasattr(x, 'av_counts') for x in got),
                           '%s: not concepts: %r', what, got)
                    got = [x.concept_id for x in got]
                cand = pats[a - 1:b]
                if verbose:
                    rows = [l.split('\t') for l in
                            buf.getvalue().strip().split('\n')]
                    expect(len(rows) == 1 + len(cand), '%s prints %d rows for '
                           '%d clusterings', what, len(rows) - 1, len(cand))
                st.add('transitions')
                if not cand or min(v for _, v in cand) == INF:
                    # nothing to prefer: the root concept for all, or any
                    ok = [p for p, _ in cand] + [(0,) * len(lst)]
                    if r.unique:
                        expect(pattern(got) in ok, '%s gives %r', what, got)
                    continue
                if not r.unique:
                    continue
                best = min(v for _, v in cand)
                ok = [p for p, v in cand if eq(v, best)]
                expect(pattern(got) in ok, '%s gives %r, but the clusterings '
                       'and their values are %r', what, pattern(got), cand)
        # by name in any case = by function
        for form in SPELL[h]:
            t = prepared(kind, [al[i] for i in pre])
            with rnd.Session(policy=pol):
                seq = list(lib.cluster_iter(t, tagged([al[i] for i in lst]),
                                            heuristic=form, mod=mod))
            expect(len(seq) == mx, '%r gives %d clusterings, not %d', form,
                   len(seq), mx)
            if r.unique:
                for (c, v), (p, e) in zip(seq, pats):
                    expect(pattern(c) == p and eq(v, e), 'heuristic %r gives '
                           '%r (%r) instead of %r (%r)', form, pattern(c), v,
                           p, e)
            st.add('transitions')
    heurs = ['CU', 'AIC', 'BIC', 'AICc']
    R.enum('searches', lambda: cases(
        R, heurs, 4 if R.thorough else 3, 3 if R.thorough else 2), fn)

    # an unusual value in a large cluster
    def crowd(case, st):
        kind, n, far, h, mod = case
        m = model_of('crowd', kind)
        al = world('crowd')
        pre = (0, 1) * n + ((2, 3) if far else (4, 5))
        try:
            r = Run(kind, al, pre, pre[-6:], mod, h, 'first', m)
            r.values()
        except Violation as e:
            raise Violation('%s trained on %d times %r and then %r, %s: %s' % (
                kind, n, al[:2], [al[i] for i in pre[-2:]], h, e))
        st.add('transitions', len(r.calls))
        st.outcome((case, [(pattern(c), v) for c, v in r.seq]))
    R.enum('crowds', lambda: [(k, n, far, h, mod) for k in ('c3', 'c3:F:1')
                              for n in ((20, 400, 1800, 2600) if R.thorough
                                        else (20, 1600))
                              for far in (True, False) for h in heurs
                              for mod in (True, False)], crowd)

    # any function can be the heuristic; small differences count
    def near(case, st):
        w, kind, hist, base, eps, sign = case
        al = world(w)
        insts = [al[i] for i in hist]

        def h(clusters, leaves):
            return base * (1 + sign * eps * len(set(clusters)))
        for mod in (True, False):
            t = prepared(kind, insts)
            with rnd.Session():
                seq = list(lib.cluster_iter(t, tagged(insts), heuristic=h,
                                            mod=mod, labels=False))
            vals = [v for _, v in seq]
            for a, b in ((1, len(seq)), (1, 2), (2, len(seq) + 3)):
                if a > b:
                    continue
                t = prepared(kind, insts)
                with rnd.Session():
                    got = lib.cluster_split_search(
                        t, tagged(insts), heuristic=h, minsplit=a, maxsplit=b,
                        mod=mod, labels=False)
                st.add('transitions')
                cand = vals[a - 1:b]
                if not cand:
                    continue
                expect(h(got, None) == min(cand), 'split search with %d to %d '
                       'splits and a heuristic with values %r returns a '
                       'clustering of value %r', a, b, cand, h(got, None))
        st.outcome((case, vals))

    def nears():
        for w, kind in (('n3', 'cobweb'), ('fmix', 'c3'), ('vals', 'cobweb')):
            n = len(world(w))
            for hist in (tuple(range(min(n, 9))), tuple(range(n))[::-1][:9]):
                for base in (1.0, -1.0, 1e6, -1e6, 1e-6, -1e-6):
                    for eps in (0.1, 1e-3, 1e-5, 1e-8, 1e-12):
                        for sign in (1, -1):
                            yield w, kind, hist, base, eps, sign
    R.enum('near', nears, near)

    # default arguments
    def default(case, st):
        w, kind, lst = case
        al = world(w)
        m = model_of(w, kind)
        r = Run(kind, al, (), lst, True, 'CU', 'first', m)
        t = prepared(kind, [])
        with rnd.Session():
            got = lib.cluster_split_search(t, tagged([al[i] for i in lst]))
        expect(pattern(got) == pattern(r.seq[0][0]), 'split search by default '
               'gives %r instead of the first clustering %r', got,
               r.seq[0][0])
        st.outcome(case)

    def defaults():
        for i in range(5):
            for j in range(5):
                for k in range(5):
                    yield 'n3', 'cobweb', (i, j, k, 0)
    R.enum('defaults', defaults, default)

    # every spelling of every name
    def spellings():
        for h in heurs:
            for up in itertools.product((0, 1), repeat=len(h)):
                yield h, ''.join(c.upper() if u else c.lower()
                                 for c, u in zip(h, up))

    def spelled(case, st):
        h, name = case
        al = world('n3')
        res = []
        for x in (getattr(lib, h), name):
            t = prepared('cobweb', [])
            with rnd.Session():
                for i in range(7):
                    t.ifit(dict(al[(i * i) % len(al)]))
                for f in (lib.cluster_iter, lib.cluster_split_search):
                    # the first clustering does not depend on ties
                    got = f(t, al[:4], heuristic=x, maxsplit=1, mod=False)
                    res.append([(pattern(c), '%.9g' % v) for c, v in got]
                               if f is lib.cluster_iter else pattern(got))
        expect(repr(res[:2]) == repr(res[2:]), 'the heuristic named %r gives '
               '%r, the function %s %r', name, res[2:], h, res[:2])
        st.outcome(case)
    R.enum('spellings', spellings, spelled)
