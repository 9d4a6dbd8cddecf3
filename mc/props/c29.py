"""C29 Trestle: the instance is aligned with the root concept and the aligned
instance is then learned and categorized exactly as Cobweb/3 would.

Product of the real Trestle tree with the reference model of Cobweb/3: the
aligned instance is read off the change of the root's table, the transition
must be one the model allows for it, and the alignment must satisfy the
criterion of C13 with respect to the root before the fit."""
import copy
import itertools

from mc import rnd
from mc.core import expect
from mc.mon import model_for
from mc.props.c13 import Cost, around, settled, starts
from mc.ref import hidden, is_num
from mc.structured import (S, delta, flat, isos, leaf_instance, ren, same_val,
                           sums_of, variables)
from mc.tree import (absify, cfg_scaling, explore_fits, full_dump, make,
                     nodes, run_history, show, state_key,
                     total_vec)
from mc.worlds import FORMS, form, plain

MORE = {
    # constants and components only
    'c1': [{'k': 'c', 'p': {'x': 'u', 'y': {'z': 1.0}}},
           {'k': 'd', 'p': {'x': 'u', 'y': {'z': 5.0}}},
           {'p': {'x': 'v'}}, {'k': 'c', 'p': {'y': {'z': 5.0}}}],
    # objects with numbers
    'n1': [{'?a': {'w': 1.0, 'h': 2.0}}, {'?b': {'w': 1.0, 'h': 9.0}},
           {'?a': {'w': 8.0, 'h': 2.0}, '?b': {'w': 1.0, 'h': 2.0}},
           {'?c': {'w': 8.0}}],
    # similar structures: merges and splits happen
    'm1': [{'?a': {'x': 'p', 'y': 'p'}}, {'?b': {'x': 'p', 'y': 'q'}},
           {'?c': {'x': 'q', 'y': 'q'}}, {'?d': {'x': 'q', 'y': 'r'}},
           {'?e': {'x': 'p', 'y': 'p'}, '?f': {'x': 'q', 'y': 'q'}}],
    # relations decide
    'r1': [{'?a': {'x': 'p'}, '?b': {'x': 'p'}, ('on', '?a', '?b'): True},
           {'?b': {'x': 'p'}, '?c': {'x': 'q'}, ('on', '?b', '?c'): True},
           {'?a': {'x': 'q'}, '?b': {'x': 'p'}, ('on', '?a', '?b'): True},
           {'?a': {'x': 'p'}, '?b': {'x': 'p'}, ('by', '?a', '?b'): True}],
    # nested objects
    'd1': [{'?a': {'x': 'p', '?b': {'x': 'q'}}},
           {'?a': {'x': 'p'}, '?b': {'x': 'q'}},
           {'?a': {'x': 'q', '?b': {'x': 'p'}}, 'k': 'c'}],
}
WORLDS = dict(S)
WORLDS.update(MORE)

# sizes: several objects, longer histories
def tower(n, kinds, extra=0):
    i = {'?%s%d' % ('tb'[extra % 2], k): {'x': kinds[k % len(kinds)],
                                          'w': float(k + extra)}
         for k in range(n)}
    ks = list(i)
    for a, b in zip(ks, ks[1:]):
        i[('on', a, b)] = True
    return i


BIG = {
    'towers': [tower(n, k, e) for n in (1, 2, 3, 4) for k, e in
               (('pq', 0), ('p', 1), ('pqr', 2))],
    'many': [{'?z': {'x': 'v%d' % i, 'y': 'w%d' % (i % 3)}} for i in range(12)],
}


def visible(i):
    return {a: v for a, v in i.items() if not hidden(a)}


def skeleton(n):
    if not n.children:
        return (int(n.count), leaf_instance(n) if n.count else None)
    return (None, [skeleton(c) for c in n.children])


def leaves(sk):
    if sk[0] is not None:
        return [sk[1]] if sk[1] is not None else []
    return [x for c in sk[1] for x in leaves(c)]


def same(a, b):
    return len(a) == len(b) and all(k in b and same_val(v, b[k])
                                    for k, v in a.items())


def index(classes, i):
    for k, c in enumerate(classes):
        if same(c, i):
            return k
    classes.append(i)
    return len(classes) - 1


def build(sk, model, classes):
    if sk[0] is not None:
        if sk[1] is None:
            return (model.zero, ())
        k = index(classes, sk[1])
        return (tuple(sk[0] if j == k else 0 for j in range(model.k)), ())
    ch = [build(c, model, classes) for c in sk[1]]
    vec = model.zero
    for c in ch:
        vec = model.add(vec, c[0])
    return (vec, tuple(sorted(ch)))


def apart(f):
    m = {o: '?~' + o[1:] for o in variables(f)}
    return {ren(a, m): v for a, v in f.items()}, m


def admissible(cost, vi, vc, limit=40):
    """criterion for an alignment: mapping -> bool, or None if too large"""
    if not vi or not vc:
        return lambda m: True
    lim = None
    if len(vi) <= 3 and len(vc) <= 5:
        cands = starts(cost, vi, vc, 1e-9)
        if len(cands) <= limit:
            lim = min(around(cost, m, vc) for m in cands)

    def ok(m):
        return ((lim is None or cost(m) >= lim - 1e-9) and
                settled(cost, m, vc))
    return ok


def fits(al, kind='trestle'):
    flats = [flat(i) for i in al]

    def prep(t, past, idx, st):
        f, m = apart(flats[idx])
        cost = Cost(t, f, cfg_scaling(kind))
        return (sums_of(t.root), skeleton(t.root), cost, f,
                variables(t.root.av_counts), t.root.count)

    def mon(t, past, idx, res, ctx, st):
        pre, sk, cost, f, vc, n0 = ctx
        d = delta(pre, sums_of(t.root))
        got = None
        for m in isos(f, d):
            got = m
            break
        expect(got is not None, 'the root gained %r, which is not %r up to '
               'object names', d, flats[idx])
        # the alignment, with respect to the root before the fit
        vi = variables(f)
        mp = {o: (got[o] if got[o] in vc else o) for o in vi}
        if n0 and vi and vc:
            ok = admissible(cost, vi, vc)
            expect(ok(mp), 'aligned as %r although a better alignment with the '
                   'root is one step away (expected correct guesses %r)', mp,
                   cost(mp))
            st.add('alignments')
        # Cobweb/3 on the aligned instance
        mapped = visible({ren(a, got): v for a, v in f.items()})
        classes = []
        for x in leaves(sk):
            index(classes, x)
        e = index(classes, mapped)
        model = model_for(kind.replace('trestle', 'c3'), classes)
        tree = build(sk, model, classes)
        total = model.add(tree[0], model.unit(e))
        ok = model.fit(tree, e, total)
        st.add('model_successors', len(ok))
        st.add('traces')
        post = absify(t.root, model)
        expect(post in ok, 'the hierarchy over %r became %r, but fitting the '
               'aligned instance %r allows only %r; before it was %r', classes,
               show(post), mapped, [show(x) for x in ok][:6], show(tree))
    return prep, mon


def assignments(vi, vc):
    def go(i, m):
        if i == len(vi):
            yield dict(m)
            return
        o = vi[i]
        for x in go(i + 1, dict(m, **{o: o})):
            yield x
        for c in vc:
            if c not in m.values():
                for x in go(i + 1, dict(m, **{o: c})):
                    yield x
    return go(0, {})


def categorized(t, probe, st, kind='trestle'):
    """the leaf is one Cobweb/3 reaches for an admissible alignment"""
    f, _ = apart(flat(probe))
    cost = Cost(t, f, cfg_scaling(kind))
    vi, vc = variables(f), variables(t.root.av_counts)
    if len(vi) > 3 or len(vc) > 5:
        return
    ok = admissible(cost, vi, vc)
    sk = skeleton(t.root)
    with rnd.Session():
        leaf = t.categorize(probe)
    st.add('transitions')
    path, n = [], leaf
    while n.parent is not None:
        path.append([c is n for c in n.parent.children].index(True))
        n = n.parent
    expect(n is t.root, 'categorized to a concept outside of the tree')
    path = tuple(path[::-1])
    good = set()
    for m in (assignments(vi, vc) if vi and vc else [{}]):
        if not ok(m):
            continue
        mapped = visible({ren(a, m): v for a, v in f.items()})
        classes = []
        for x in leaves(sk):
            index(classes, x)
        e = index(classes, mapped)
        model = model_for(kind.replace('trestle', 'c3'), classes)
        tree = unsorted(sk, model, classes)
        # scales know the fitted instances only
        good |= model.categorize(tree, model.unit(e), tree[0])
        if path in good:
            return
    expect(path in good, 'categorized %r to leaf %r, but every admissible '
           'alignment leads to one of %r', probe, path, sorted(good))


def unsorted(sk, model, classes):
    if sk[0] is not None:
        return build(sk, model, classes)
    ch = [unsorted(c, model, classes) for c in sk[1]]
    vec = model.zero
    for c in ch:
        vec = model.add(vec, c[0])
    return (vec, tuple(ch))


PARTIAL = [{}, {'?q': {'x': 'p'}}, {'?q': {'x': 'q'}, '?r': {'x': 'p'}},
           {'k': 'c'}, {'?q': {'w': 2.0}}, {'p': {'x': 'u'}},
           {'?q': {'x': 'p'}, '?r': {'x': 'q'}, ('on', '?r', '?q'): True}]


def run(R):
    for name, al in WORLDS.items():
        prep, mon = fits(al)
        d = 6 if len(al) < 5 else 5
        explore_fits(R, 'fit/%s' % name, 'trestle', al, mon,
                     d + 1 if R.thorough else d, bound=2, prep=prep)
    for name in ('n1', 's3', 'c1'):
        for kind in ('trestle:F:1', 'trestle:2.0:1'):
            al = WORLDS[name]
            prep, mon = fits(al, kind)
            explore_fits(R, 'fit/%s/%s' % (name, kind), kind, al, mon,
                         6 if R.thorough else 5, bound=1, prep=prep)

    def long(name, al):
        k = len(al)
        for st in (1, 3, 5):
            for rot in range(0, k, 1 if R.thorough else 2):
                seq = [(rot + i * st) % k for i in range(2 * k)]
                yield tuple(seq)
                yield tuple(seq[:k] + seq[:k][::-1] + seq[:k])
    for name, al in list(BIG.items()) + data(R) + [
            (n, WORLDS[n]) for n in ('m1', 'r1', 'n1', 's2')]:
        prep, mon = fits(al)
        run_history(R, 'long/%s' % name, 'trestle', al,
                    lambda al=al, name=name: long(name, al), mon,
                    policies=('first', 'last'), prep=prep)

    # instances that are other kinds of dictionaries
    def forms():
        for name, al in WORLDS.items():
            for how in FORMS:
                for h in itertools.product(range(len(al)), repeat=2):
                    yield name, how, h

    def formed(case, st):
        name, how, h = case
        al = WORLDS[name]
        res = []
        for f in (lambda i: i, lambda i: form(i, how)):
            t = make('trestle')
            out = []
            with rnd.Session():
                for k in h:
                    i = f(copy.deepcopy(al[k]))
                    t.ifit(i)
                    expect(plain(i) == al[k], 'fitting changed %r', i)
                for k in range(len(al)):
                    c = t.categorize(f(al[k]))
                    out.append([n for n, _ in nodes(t)].index(c))
                    out.append(repr(plain(t.infer_missing(f(al[k])))))
            res.append((state_key(t), out))
            st.add('transitions', len(h))
        expect(res[0] == res[1], 'fitting %r made of %s dictionaries is not '
               'like fitting plain ones: %r and %r', [al[k] for k in h], how,
               res[1], res[0])
        st.outcome(case)
    R.enum('kinds of dictionaries', forms, formed)

    for name, al in WORLDS.items():
        probes = al + PARTIAL

        def cat(t, past, idx, res, ctx, st, probes=probes):
            before = full_dump(t)
            for p in probes:
                categorized(t, p, st)
            expect(full_dump(t) == before, 'categorizing changed the tree')
        explore_fits(R, 'categorize/%s' % name, 'trestle', al, cat,
                     5 if R.thorough else 4, bound=0)


def data(R):
    """instances of the structured datasets that come with the library"""
    from concept_formation import datasets
    out = []
    k = 10 if R.thorough else 6
    for name in ('load_rb_s_07', 'load_rb_s_13', 'load_rb_wb_03',
                 'load_rb_com_11'):
        al = getattr(datasets, name)(k)
        al = [i for i in al if len(variables(flat(i))) <= 9]
        if al:
            out.append((name[5:], al))
        # the same with its parts as objects
        al = [{('?' + a if a.startswith('component') else a): v
               for a, v in i.items()} for i in al]
        out.append((name[5:] + '/objects', al))
    return out
