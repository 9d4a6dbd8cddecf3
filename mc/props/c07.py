"""C07 hidden attributes: product of the real tree on full instances with the
reference model on the instances without their hidden attributes."""
from mc import structured
from mc.core import expect, runs, Violation
from mc.mon import model_for, refine, conserve
from mc.probe import aligned, at_path, PROBES
from mc.ref import hidden
from mc.tree import (explore_fits, run_history, periodic, absify, total_vec,
                     make, nodes)
from mc.worlds import HID, NOM, NUM, sweep, heavy

# visible worlds with hidden labels that cut across the visible grouping
EXTRA = {
    'x22': [dict(i, _l='uv'[n % 2], **({'_m': 'w'} if n < 2 else {}))
            for n, i in enumerate(NOM['n22'])],
    'x3': [{**i, '_n': (100.0, 0.0, 50.0)[n % 3],
            ('_', 'id', 'k'): 'i%d' % n}
           for n, i in enumerate(NOM['n3'])],
    'xf': [dict(i, **{'_n': (100.0, 0.0)[n % 2], '_x': 'pq'[n // 2 % 2]})
           for n, i in enumerate(NUM['fmix'])],
    'xdup': [{'a': 'x', '_h': 'p'}, {'a': 'x', '_h': 'q'}, {'a': 'x'},
             {'b': 'y', '_h': 'p'}, {'_h': 'q'}],
}


def strip(i):
    return {a: v for a, v in i.items() if not hidden(a)}


def setup(kind, al, probes):
    classes, imap = [], []
    full = al + probes
    for i in full:
        s = strip(i)
        if s not in classes:
            classes.append(s)
        imap.append(classes.index(s))
    m = model_for(kind, classes)
    mfull = model_for(kind, al)
    prep, mon1 = refine(m, imap)
    cons = conserve(mfull)

    def mon(t, past, idx, res, ctx, st):
        mon1(t, past, idx, res, ctx, st)
        cons(t, past, idx, res, ctx, st)
        total = total_vec(m, [imap[i] for i in past + [idx]])
        for node, (vec, ch) in aligned(t, m):
            g = node.expected_correct_guesses()
            expect(abs(g - m.ecg(vec, total)) <= 1e-9,
                   'expected correct guesses %r; without hidden attributes %r',
                   g, m.ecg(vec, total))
            u = node.category_utility()
            expect(abs(u - m.cu(vec, [c[0] for c in ch], total)) <= 1e-9,
                   'category utility %r; without hidden attributes %r', u,
                   m.cu(vec, [c[0] for c in ch], total))
        ab = absify(t.root, m, sort=False)
        for i, inst in enumerate(full):
            adm = [at_path(t.root, p) for p in
                   m.categorize(ab, m.unit(imap[i]), total)]
            for s, got, err in runs(lambda s: t.categorize(inst), bound=1,
                                    max_runs=8):
                if err is not None:
                    raise err
                expect(any(got is n for n in adm), 'categorizing %r gives '
                       'another leaf than without its hidden attributes', inst)
    return prep, mon


def shape(t):
    def go(n):
        if not n.children:
            vis = []
            for a, vals in n.av_counts.items():
                if not hidden(a):
                    vis.append((pattern(a), sorted(
                        repr(v) if v != '#ContinuousValue#' else
                        'num %.6g' % c.mean for v, c in vals.items())))
            return ('L', n.count, repr(sorted(vis, key=repr)))
        return ('N', sorted((go(c) for c in n.children), key=repr))
    return go(t.root)


def pattern(a):
    if isinstance(a, tuple):
        return tuple(pattern(x) for x in a)
    return '?' if structured.is_var(a) else a


SH = {
    't1': [{'?a': {'x': 'p', '_g': 'u'}}, {'?a': {'x': 'p', '_g': 'v'}},
           {'?a': {'x': 'q', '_g': 'u'}}, {'?a': {'x': 'q'}, '_i': 3.0}],
    't2': [{'k': {'x': 'p', '_g': 'u'}, '_h': {'x': 'p'}},
           {'k': {'x': 'p'}, '_h': {'x': 'q'}},
           {'k': {'x': 'q', 'y': {'z': 'r', '_g': 'u'}}, '_h': {'w': 'p'}},
           {'k': {'x': 'q'}, ('_', 'id', 'k'): 'i'}],
    't3': [{'?a': {'x': 'p', '?b': {'y': 'r', '_g': 1.0}}},
           {'?a': {'x': 'p', '?b': {'y': 'r', '_g': 50.0}}},
           {'?a': {'x': 'q', '_g': 1.0, '?b': {'y': 's'}}},
           {'?a': {'x': 'p', '_s': {'z': 'u', 'w': {'q': 'v'}}}}],
    't4': [{'?a': {'x': 'p'}, ('_', 'lab', '?a'): 'u'},
           {'?a': {'x': 'p'}, ('_', 'lab', '?a'): 'v'},
           {'?a': {'x': 'q'}, ('_', 'lab', '?a'): 'u'},
           {'?a': {'x': 'q'}, ('_', ('lab', '?a'), 'z'): 'u'}],
    # everything inside a hidden component, at any depth: constants, objects,
    # relations, numbers, hidden and visible names
    't5': [{'?a': {'x': 'p'}, '_h': {('r', 'k'): 'u', ('s', 'k', 'l'): 'v'}},
           {'?a': {'x': 'p'}, '_h': {'?b': {'y': 'u', '_z': 4.0}, 'n': 3}},
           {'?a': {'x': 'q'}, '_h': {'c': {'d': {'e': 'v', ('r', 'k'): 'w'}}}},
           {'?a': {'x': 'q', 'c': {'d': {'_e': {'f': 'u'}, 'g': 'v'}}}}],
    # hidden components of objects and of constants
    't6': [{'?a': {'x': 'p', '_s': {'?b': {'y': 'u'}, ('r', 'k', 'l'): 'v'}}},
           {'c': {'x': 'p', '_s': {'d': {'y': 'v'}}}, '_': 'u'},
           {'c': {'x': 'p', '_': {'x': 'q'}}, '__': 'v', '_1': 7},
           {'?a': {'x': 'p'}, 'c': {'x': 'q', '_t': True}}],
}


def strip_deep(i):
    return {a: strip_deep(v) if isinstance(v, dict) else v
            for a, v in i.items() if not hidden(a)}


def run(R):
    d = 6 if R.thorough else 5
    worlds = dict(HID)
    worlds.update(EXTRA)
    for name, al in worlds.items():
        probes = PROBES.get(name, [{'a': 'x', '_l': 'z'}, {'_l': 'u'}])
        kinds = ['c3', 'trestle', 'c3:F:1']
        if name in ('h1', 'h2', 'x22', 'xdup'):
            kinds.insert(0, 'cobweb')
        for kind in kinds:
            prep, mon = setup(kind, al, probes)
            dd = d - (1 if len(al) > 4 and name != 'xdup' else 0) - (
                1 if kind == 'trestle' else 0)
            explore_fits(R, 'hist/%s/%s' % (name, kind), kind, al, mon, dd,
                         bound=2, prep=prep)
            if kind in ('cobweb', 'c3'):
                run_history(R, 'long/%s/%s' % (name, kind), kind, al,
                            lambda al=al: periodic(len(al), 34, 2), mon,
                            policies=('first', 'last'), prep=prep, every=3)

    sizes = list(sweep(R.thorough).items()) + [
        (n, x + (1.0,)) for n, x in heavy(R.thorough).items()]
    for name, (al, hists, ks, ntol) in sizes:
        if not any(hidden(a) for i in al for a in i):
            continue
        for kind in ks + ['trestle']:
            prep, mon = setup(kind, al, [])
            run_history(R, 'sweep/%s/%s' % (name, kind), kind, al,
                        lambda hists=hists: iter(hists), mon,
                        policies=('first', 'last'), prep=prep,
                        every=2 if name[0] == 'w' else 10)

    def product(case, st):
        name, h = case
        al = SH[name]

        def fits(insts):
            def f(s):
                t = make('trestle')
                for i in h:
                    res = t.ifit(insts[i])
                return repr((shape(t), [t.categorize(x) is not None
                                        for x in insts[:1]]))
            return f
        full, bare = set(), set()
        for out, insts in ((full, al), (bare, [strip_deep(i) for i in al])):
            for s, r, err in runs(fits(insts), bound=2, max_runs=60):
                if err is not None:
                    raise err
                out.add(r)
                st.add('traces')
                st.add('transitions', len(h))
        st.outcome(sorted(full))
        expect(full == bare, 'hierarchies learned from %r: %r with and %r '
               'without hidden attributes', [al[i] for i in h],
               sorted(full)[:3], sorted(bare)[:3])

    def gen():
        import itertools
        for name in sorted(SH):
            for n in range(1, 6 if R.thorough else 5):
                for h in itertools.product(range(len(SH[name])), repeat=n):
                    yield name, h
    R.enum('trestle-product', gen, product)

    # hidden values can be read back from every concept passed
    for name, al in SH.items():
        explore_fits(R, 'struct/%s' % name, 'trestle', al,
                     structured.conserve(al), 4 if R.thorough else 3, bound=1,
                     prep=structured.prep_root)
