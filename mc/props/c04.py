"""C04 reported category utilities."""
from mc import rnd
from mc.core import expect
from mc.probe import sweeps, aligned, spaces


def tol(m):
    return 1e-9 if m.eps < 1e-8 else 1e-6


def monitor(t, m, total, al, classes, kind, st):
    e_tol = tol(m)

    def same(got, exp, what, *a):
        expect(abs(got - exp) <= e_tol * max(1.0, abs(exp)),
               '%s is %r, but really %r' % (what % a, got, exp))

    pairs = aligned(t, m)
    for node, ab in pairs:
        vec, ch = ab
        if sum(vec):
            g = node.expected_correct_guesses()
            expect(-1e-12 <= g <= 1 + 1e-9, 'expected correct guesses %r', g)
            same(g, m.ecg(vec, total), 'expected correct guesses of %r', vec)
        same(node.category_utility(), m.cu(vec, [c[0] for c in ch], total),
             'category utility of %r', [c[0] for c in ch])
        for e_idx, inst in enumerate(classes):
            e = m.unit(e_idx)
            if sum(vec):
                same(node.cu_for_fringe_split(inst),
                     m.cu_fringe(ab, e, total),
                     'fringe split of %r with %r', vec, inst)
            if not ch:
                continue
            st.add('node_probes')
            ins = [m.cu_insert(ab, i, e, total) for i in range(len(ch))]
            new = m.cu_new(ab, e, total)
            for i, c in enumerate(node.children):
                same(node.cu_for_insert(c, inst), ins[i],
                     'inserting %r into child %d', inst, i)
            same(node.cu_for_new_child(inst), new, 'new child for %r', inst)
            for i, c in enumerate(node.children):
                if ch[i][1]:
                    same(node.cu_for_split(c), m.cu_split(ab, i, total),
                         'splitting child %d', i)
                for j, c2 in enumerate(node.children):
                    if i != j:
                        same(node.cu_for_merge(c, c2, inst),
                             m.cu_merge(ab, i, j, e, total),
                             'merging %d and %d for %r', i, j, inst)
            for pol in ('first', 'last'):
                with rnd.Session((), policy=pol):
                    cu1, b1, b2 = node.two_best_children(inst)
                    i1 = [i for i, c in enumerate(node.children) if c is b1]
                    expect(len(i1) == 1, 'best child is not a child')
                    i1 = i1[0]
                    eps = max(m.eps, e_tol)
                    expect(ins[i1] >= max(ins) - eps, 'child %d chosen with '
                           'utility %r, best is %r (%r)', i1, ins[i1],
                           max(ins), inst)
                    same(cu1, ins[i1], 'utility of best child for %r', inst)
                    rest = [j for j in range(len(ch)) if j != i1]
                    i2 = [i for i, c in enumerate(node.children) if c is b2]
                    if rest:
                        expect(len(i2) == 1 and i2[0] in rest,
                               'no second best child')
                        expect(ins[i2[0]] >= max(ins[j] for j in rest) - eps,
                               'second best child %d has utility %r, but %r '
                               'is possible', i2[0], ins[i2[0]],
                               max(ins[j] for j in rest))
                    else:
                        expect(b2 is None, 'second best of one child')
                    opts = {'best': ins[i1], 'new': new}
                    if len(ch) > 2:
                        opts['merge'] = m.cu_merge(ab, i1, i2[0], e, total)
                    if ch[i1][1]:
                        opts['split'] = m.cu_split(ab, i1, total)
                    got = node.get_best_operation(inst, b1, b2, cu1)
                    judge(got, opts, same, eps)
                    for sub in (['best'], ['new'], ['best', 'new'],
                                ['best', 'split'], ['new', 'merge'],
                                ['best', 'new', 'split'],
                                ['best', 'new', 'merge']):
                        judge(node.get_best_operation(
                            inst, b1, b2, cu1, possible_ops=sub),
                            {k: v for k, v in opts.items() if k in sub},
                            same, eps)


def judge(got, opts, same, eps):
    top = max(opts.values())
    expect(got[1] in opts, 'operation %r is not possible', got[1])
    expect(opts[got[1]] >= top - eps, 'operation %r chosen, but utilities are '
           '%r', got[1], opts)
    same(got[0], top, 'utility of the best operation')


def run(R):
    spaces(R, monitor, 5 if R.thorough else 4, deep_=True)
    sweeps(R, monitor, every=6, stride=13)
