"""C06 categorization."""
from mc import structured
from mc.core import expect, runs
from mc.probe import sweeps, spaces, at_path, default_kinds, aligned
from mc.tree import absify, make, nodes, explore_fits
from mc.worlds import NUM, NOM


def monitor(t, m, total, al, classes, kind, st):
    ab = absify(t.root, m, sort=False)
    alive = [n for n, _ in nodes(t)]
    for i, inst in enumerate(classes):
        adm = [at_path(t.root, p)
               for p in m.categorize(ab, m.unit(i), total)]
        st.add('model_successors', len(adm))
        for s, res, err in runs(lambda s: t.categorize(inst), bound=2,
                                max_runs=32):
            if err is not None:
                raise err
            st.add('traces')
            expect(any(res is n for n in alive), 'categorizing %r returned a '
                   'concept that is not in the tree', inst)
            expect(not res.children, 'categorizing %r returned an inner '
                   'concept', inst)
            expect(any(res is n for n in adm), 'categorizing %r returned the '
                   'leaf %r; following the best child leads to %r', inst,
                   res.av_counts, [n.av_counts for n in adm])


def kinds(name):
    return default_kinds(name) + (['trestle'] if name in NOM or name in NUM
                                  else [])


def run(R):
    spaces(R, monitor, 6 if R.thorough else 5, kinds=kinds, deep_=True)
    sweeps(R, monitor, every=4, kinds=lambda ks: ks + ['trestle'],
           stride=3)

    def empty(case, st):
        kind, inst = case
        t = make(kind)
        for s, res, err in runs(lambda s: t.categorize(inst)):
            if err is not None:
                raise err
            expect(res is t.root and not res.children and res.count == 0,
                   'untrained %s: categorize(%r) gave %r', kind, inst, res)
            st.outcome((kind, repr(inst)))
    R.enum('untrained', lambda: [
        (k, i) for k in ('cobweb', 'c3', 'trestle', 'c3:F:1')
        for i in ({}, {'a': 'x'}, {'a': 'x', '_h': 'p'},
                  {('r', 'a', 'b'): True}) + (
                      ({'x': 1.0},) if k != 'cobweb' else ()) + (
                      ({'?a': {'x': 'p'}, ('on', '?a', 'b'): True},)
                      if k == 'trestle' else ())], empty)

    # structured data: always a leaf of this very tree
    for name, al in structured.S.items():
        probes = al + [{}, {'?q': {'x': 'p'}}, {'zz': 'new'},
                       {'?q': {'nn': 3.0}, ('on', '?q', 'k'): True}]

        def mon(t, past, idx, res, ctx, st, probes=probes):
            alive = [n for n, _ in nodes(t)]
            for inst in probes:
                for s, got, err in runs(lambda s: t.categorize(inst), bound=1,
                                        max_runs=8):
                    if err is not None:
                        raise err
                    expect(any(got is n for n in alive), 'categorizing %r '
                           'returned a concept outside the tree', inst)
                    expect(not got.children, 'categorizing %r returned an '
                           'inner concept', inst)
                    st.add('traces')
        explore_fits(R, 'struct/%s/trestle' % name, 'trestle', al, mon,
                     4 if R.thorough else 3, bound=1)
