"""C14 object names carry no information."""
import itertools

from mc import rnd, structured
from mc.core import expect, runs
from mc.ref import hidden, is_num
from mc.structured import flat, iso, isos, ren, sums_of, delta, variables
from mc.tree import make, nodes

OBJ = [{'x': 'p'}, {'x': 'q'}, {'x': 'p', 'y': 'r'}, {'w': 1.5},
       {'x': 'p', '_g': 'u'}, {'c': {'x': 'p', 'w': 2}}]


def grammar(thorough):
    """structured instances over the names ?A ?B ?C"""
    N = ['?A', '?B', '?C']
    for i in OBJ:
        yield {N[0]: i}
        yield {N[0]: i, 'k': 'c', ('likes', N[0], 'k'): True}
    yield {N[0]: 'p'}
    yield {N[0]: 3.5, 'k': 2.5}
    for i, j in itertools.combinations_with_replacement(OBJ, 2):
        yield {N[0]: i, N[1]: j}
        yield {N[0]: i, N[1]: j, ('on', N[0], N[1]): True}
        yield {N[0]: i, N[1]: j, ('on', N[1], N[0]): True}
        yield {N[0]: dict(i, **{N[1]: j})}
    for i, j in itertools.product(OBJ[:3], repeat=2):
        yield {N[0]: i, N[1]: j, ('on', N[0], N[1]): 'near',
               ('on', N[1], N[0]): 'far'}
        yield {N[0]: dict(i, **{N[1]: j}), 's': {N[2]: {'x': 'p'}}}
        yield {N[0]: i, N[1]: j, ('eq', ('x', N[0]), ('x', N[1])): True}
        yield {N[0]: i, N[1]: 'v', ('_', 'lab', N[1]): 'z'}
    tri = OBJ[:3] if not thorough else OBJ[:4]
    for os in itertools.combinations_with_replacement(tri, 3):
        d = dict(zip(N, os))
        yield d
        yield {**d, ('on', N[0], N[1]): True, ('on', N[1], N[2]): True}
        yield {**d, ('on', N[2], N[0]): True}
        yield {**d, ('on', N[0], N[1]): True, ('on', N[1], N[2]): True,
               ('on', N[2], N[0]): True}
        yield {N[0]: dict(os[0], **{N[1]: dict(os[1], **{N[2]: os[2]})})}


POOL = ['?A', '?o1', '?o2', '?a', '?o3', '?o10', '?z', '?', '? A 1',
        '?' + 'z' * 90]


def names_of(i):
    out = []

    def go(x):
        if isinstance(x, dict):
            for a, v in x.items():
                go(a)
                if isinstance(v, dict):
                    go(v)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif structured.is_var(x) and x not in out:
            out.append(x)
    go(i)
    return sorted(out)


def rename(i, m):
    return {ren(a, m): rename(v, m) if isinstance(v, dict) else v
            for a, v in i.items()}


def reorder(i, how):
    ks = list(i)
    if how == 1:
        ks = ks[::-1]
    elif how == 2:
        ks = ks[1:] + ks[:1]
    return {a: reorder(i[a], how) if isinstance(i[a], dict) else i[a]
            for a in ks}


def renamings(i, thorough):
    vs = names_of(i)
    for n, p in enumerate(itertools.permutations(POOL, len(vs))):
        if not thorough and len(vs) == 3 and n % 5:
            continue
        if not thorough and len(vs) == 2 and n % 2:
            continue
        yield dict(zip(vs, p))


OTHER = [{'?o1': {'x': 'q', 'y': 's'}, '?o2': {'x': 'p'},
          ('on', '?o2', '?o1'): True},
         {'?A': {'x': 'p', 'w': 9.0}, 'k': 'd'}]


def vis(f):
    return {a: v for a, v in f.items() if not hidden(a)}


def run(R):
    insts = list(grammar(R.thorough))

    def gen():
        for n in range(len(insts)):
            yield n

    def fn(n, st):
        base = insts[n]
        f = flat(base)
        for m in renamings(base, R.thorough):
            for how in (0, 1, 2) if R.thorough else (1,):
                copy_ = reorder(rename(base, m), how)
                one(base, f, copy_, m, st)
        if len(st.samples) < 1:
            st.sample('%r under %r' % (base, m))
        for pre in OTHER:
            for m in itertools.islice(renamings(base, False), 0, None, 3):
                after(pre, base, f, m, st)

    def fit(t, i):
        with rnd.Session():
            return t.ifit(i)

    def one(base, f, copy_, m, st):
        t = make('trestle')
        r = fit(t, base)
        expect(r is t.root and not t.root.children, 'first instance')
        pre = sums_of(t.root)
        size = len(vis(t.root.av_counts))
        st.add('transitions', 3)
        with rnd.Session():
            c = t.categorize(copy_)
        expect(c is r, 'renamed copy %r of %r is categorized elsewhere',
               copy_, base)
        # inference on the copy: nothing to add, own names
        if not simple(base):
            fit(t, copy_)
            expect(t.root.count == 2, 'root count %r', t.root.count)
            d = delta(pre, sums_of(t.root))
            expect(iso(f, d), 'the renamed copy %r added %r', copy_, d)
            st.outcome((repr(base), repr(sorted(m.items()))))
            return
        st.add('copies_recognised')
        for fn_, none in (('most likely', True), ('sampled', False)):
            with rnd.Session():
                got = t.infer_missing(copy_, fn_, none)
            # hidden attributes do not take part in matching (C07)
            expect(vis(flat(got)) == vis(flat(copy_)), 'inferring on the copy %r of %r '
                   'gives %r', copy_, base, got)
        r2 = fit(t, copy_)
        expect(r2 is r and t.root is r and not r.children, 'the copy %r of the'
               ' only instance %r is not recognised: %s', copy_, base, t)
        expect(r.count == 2 and len(vis(r.av_counts)) == size, 'after a renamed '
               'copy of %r the concept is %s', base, t)
        d = delta(pre, sums_of(t.root))
        expect(iso(f, d), 'the renamed copy %r added %r', copy_, d)
        # once more, other way round
        r3 = fit(t, rename(base, {v: v + 'x' for v in names_of(base)}))
        expect(r3 is r and r.count == 3, 'third copy of %r not recognised',
               base)
        st.outcome((repr(base), repr(sorted(m.items()))))

    def simple(i):
        """at most two objects, or objects that differ in their own values:
        beyond that the mapping search may stop on a plateau (C13)"""
        vs = names_of(i)
        if len(vs) <= 2:
            return True
        f = flat(i)
        own = [frozenset((a[0], v) for a, v in f.items()
                         if isinstance(a, tuple) and len(a) == 2 and
                         a[1] == o and not hidden(a)) for o in vs]
        return all(own) and len(set(own)) == len(own)

    def after(pre_i, base, f, m, st):
        """with something else in the tree: nothing lost, nothing confused"""
        t = make('trestle')
        fit(t, pre_i)
        for k, i in enumerate((base, rename(base, m))):
            a = sums_of(t.root)
            with rnd.Session():
                got = t.infer_missing(i)
            g = flat(got)
            for at, v in flat(i).items():
                expect(at in g and type(g[at]) is type(v) and g[at] == v,
                       'inferring on %r gives %r', i, got)
            res = fit(t, i)
            st.add('transitions')
            expect(t.root.count == k + 2, 'root count')
            d = delta(a, sums_of(t.root))
            expect(iso(f, d), 'fitting %r after %r added %r', i, pre_i, d)
            leaf = structured.leaf_instance(res)
            expect(iso(vis(f), leaf), 'the leaf of %r holds %r', i, leaf)
    R.enum('copies', gen, fn)

    # more objects, each told apart by its own values
    def big(n, kind, val, nest):
        N = ['?N%d' % k for k in range(n)]

        def obj(k):
            if val == 0:
                return {'x': 'v%d' % k}
            if val == 1:
                return {'w': 3.0 ** k, 'x': 'p'}
            return {'x': 'pqr'[k % 3], 'y': 'st'[k // 3 % 2],
                    'z': k // 6, '_g': 'u'}
        if nest:
            d = {}
            cur = d
            for k, o in enumerate(N):
                cur[o] = obj(k)
                cur = cur[o] if k % 3 != 2 else d
        else:
            d = {o: obj(k) for k, o in enumerate(N)}
        pairs = {'none': [], 'chain': zip(N, N[1:]),
                 'cycle': zip(N, N[1:] + N[:1]),
                 'star': [(N[0], o) for o in N[1:]]}[kind]
        for a, b in pairs:
            d[('on', a, b)] = True
        if kind == 'star':
            d[('all',) + tuple(N)] = 'v'
            d['k'] = 'c'
        return d

    def bigs():
        for n in (3, 4, 5, 7) + ((9, 12) if R.thorough else ()):
            for kind in ('none', 'chain', 'cycle', 'star'):
                for val in (0, 1, 2):
                    for nest in (0, 1):
                        yield n, kind, val, nest

    def fnbig(case, st):
        base = big(*case)
        n = case[0]
        f = flat(base)
        vs = names_of(base)
        pools = [['?o%d' % (k + 1) for k in range(n)],
                 ['?o%d' % (n - k) for k in range(n)],
                 ['?o%d' % (2 * k) for k in range(n)],
                 ['?o1%d' % k for k in range(n)],
                 vs[1:] + vs[:1], vs[::-1],
                 ['?' + 'abc'[k % 3] * (k + 1) for k in range(n)]]
        for j, p in enumerate(pools):
            m = dict(zip(vs, p))
            one(base, f, reorder(rename(base, m), j % 3), m, st)
        if n <= 5 or R.thorough:
            for pre in OTHER:
                after(pre, base, f, dict(zip(vs, pools[1])), st)
        st.add('traces')
    R.enum('many objects', bigs, fnbig)

    # more objects over time than any fixed supply of names
    MANY = [{'?a': {'x': 'p'}}, {'?a': {'x': 'p'}, '?b': {'y': 'r'},
                                 ('on', '?a', '?b'): True},
            {'?o7': {'w': 1.5, '?o900': {'x': 'p'}}, 'k': 'c'}]

    def supply(case, st):
        kind, n, which = case
        base = MANY[which]
        t = make(kind)
        vs = names_of(base)
        f = flat(base)
        total = n // len(vs)
        with rnd.Session(max_choices=10 ** 7):
            for k in range(total):
                i = rename(base, {v: '?%s%d' % ('xo'[k % 2], j + k)
                                  for j, v in enumerate(vs)})
                r = t.ifit(i) if kind != 'dummy' else t.ifit(
                    i, do_mapping=True)
                if k % 50 == 0 or k == total - 1:
                    t.categorize(i)
                    got = flat(t.infer_missing(i))
                    expect(got == flat(i), 'inferring on %r, copy %d of the '
                           'only instance so far, gives %r', i, k + 1, got)
                expect(r is t.root and not r.children and r.count == k + 1,
                       'copy %d of the only instance %r is not recognised',
                       k + 1, base)
                st.add('transitions')
        expect(len(t.root.av_counts) == len(f), 'after %d renamed copies of '
               '%r the concept has attributes %r', total, base,
               sorted(map(repr, t.root.av_counts)))
        st.outcome(case)
    R.enum('supply', lambda: [(k, n, w) for k in ('trestle', 'dummy')
                              for n in ((1100, 4200) if R.thorough else
                                        (1100,))
                              for w in range(len(MANY))], supply)

    # the caller's names look like those the tree makes up
    def alikes():
        for kind in ('trestle', 'dummy'):
            for n in (1, 2, 3):
                for m in (1, 2, 3):
                    for c in itertools.combinations(range(1, 13), m):
                        if m == 3 and not R.thorough and sum(c) % 3:
                            continue
                        yield kind, n, c

    def alike(case, st):
        kind, n, c = case
        t = make(kind)
        fitted = {'?%s' % x: {'x' + x: 'p'} for x in 'abc'[:n]}
        given = {'?o%d' % k: {'k%d' % j: 'p'} for j, k in enumerate(c)}
        want = sorted(a for i in (fitted, given) for o in i.values()
                      for a in o)
        with rnd.Session():
            if kind == 'dummy':
                t.ifit(fitted, do_mapping=True)
            else:
                t.ifit(fitted)
            got = t.infer_missing(given)
        st.add('transitions')
        expect(all(o in got and got[o].get(a) == v for o, i in given.items()
                   for a, v in i.items()), 'given %r became %r', given, got)
        expect(sorted(a for o in got.values() for a in o) == want, 'after '
               'fitting %r, inferring on %r gives %r: objects were confused',
               fitted, given, got)
        # what was known and what was given do not share an object unless
        # they were aligned, and then only one with one
        for o, i in got.items():
            expect(sum(a[0] == 'x' for a in i) <= 1 and
                   sum(a[0] == 'k' for a in i) <= 1, 'after fitting %r, '
                   'inferring on %r gives %r: two objects became one', fitted,
                   given, got)
        st.outcome(case)
    R.enum('alike names', alikes, alike)
