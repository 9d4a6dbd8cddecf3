"""C25 the dummy baseline: all histories of mapped and unmapped fits; the one
concept against the multiset of instances."""
import itertools

from mc import rnd
from mc.core import expect, runs
from mc.props.c08 import density
from mc.props.c09 import admissible, options
from mc.ref import Model, is_num
from mc.structured import (S, delta, flat, iso, lift, same_val, sums_of, ties,
                           variables)
from mc.tree import (cv_key, full_dump, make, nodes, state_key, table,
                     total_vec)
from mc.worlds import HID, NOM, NUM, heavy, sweep

FLAT = {'nmiss': NOM['nmiss'], 'nfalsy': NOM['nfalsy'][:3], 'n3': NOM['n3'],
        'f1': NUM['f1'], 'f2': NUM['f2'], 'fmix': NUM['fmix'],
        'fboth': NUM['fboth'], 'foff': NUM['foff'], 'fdec': NUM['fdec'],
        'ftext': NUM['ftext'],
        'h1': HID['h1'], 'h3': HID['h3'], 'h4': HID['h4']}


for _w in ('wide5', 'wide8', 'wide14', 'widenum5', 'widenum8', 'widenum14',
           'vals', 'nums', 'exps', 'near'):
    FLAT[_w] = [{a: v for a, v in i.items() if not isinstance(a, tuple)}
                for i in sweep(False)[_w][0]]
FLAT['hvn'], FLAT['hvf'] = (heavy(False)[w][0] for w in ('hvn', 'hvf'))


def lifted(d):
    out = {}
    for a, v in d.items():
        for r in ties(a):
            out[r] = True
        out[lift(a)] = v
    return out


def build(al, hist):
    """hist: [(instance, mapped?)]; checks every fit"""
    t = make('dummy')
    root = t.root
    for n, (i, mapped) in enumerate(hist):
        pre = sums_of(t.root)
        saved = repr(al[i])
        with rnd.Session():
            r = t.ifit(al[i], do_mapping=mapped) if mapped or n % 2 else \
                t.ifit(al[i])
        what = 'after %r' % [(al[j], m) for j, m in hist[:n + 1]]
        expect(r is root and t.root is root, '%s fitting returned %r', what, r)
        expect(len(nodes(t)) == 1 and root.parent is None and
               root.tree is t, '%s there are %d concepts', what,
               len(nodes(t)))
        expect(root.count == n + 1, '%s count %r', what, root.count)
        expect(repr(al[i]) == saved, 'fitting modified the instance')
        d = delta(pre, sums_of(root))
        want = flat(al[i])
        if mapped:
            # several values of one attribute cannot share a concept's object
            expect(iso(want, lifted(d)), '%s the root gained %r, which is not '
                   '%r up to object names', what, d, want)
        else:
            got = lifted(d)
            expect(len(got) == len(want) and all(
                a in got and same_val(v, got[a]) for a, v in want.items()),
                '%s the root gained %r instead of %r', what, d, want)
    return t


def values(node, m, vec, attrs, classes):
    """probabilities, weights and predictions equal the overall ones"""
    n = sum(vec)
    tab = m.table(vec)
    for a in attrs:
        nom, num = tab.get(a, ({}, None))
        have = sum(nom.values()) + (num.n if num else 0)
        vals = {repr(c[a]): c[a] for c in classes if a in c}
        for v in list(vals.values()) + ['unseen']:
            p = node.probability(a, v)
            if is_num(v):
                w = density(m, vec, a, v, vec) if a in tab else 0.0
                tol = 1e-7
            else:
                w, tol = sum(c for x, c in nom.items() if x == v and
                             type(x) is type(v)) / n, 1e-9
            expect(abs(p - w) <= tol * max(1, abs(w)), 'probability of %r=%r '
                   'is %r, overall %r', a, v, p, w)
        p = node.probability(a, None)
        expect(abs(p - (n - have) / n) < 1e-9, 'probability of %r missing is '
               '%r, overall %r', a, p, (n - have) / n)
        if a not in tab:
            continue
        for fn, none in itertools.product(('most likely', 'sampled'),
                                          (True, False)):
            opts = options(tab, n, a, none)
            for s, got, err in runs(lambda s: node.predict(a, fn, none),
                                    bound=2, menu=(0.5, 0.03, 0.97, 0.3),
                                    max_runs=30):
                if err is not None:
                    raise err
                expect(admissible(opts, fn, got), 'predicts %r=%r, overall %r',
                       a, got, opts)


LARGE = [w for w in FLAT if w in sweep(False)]


def run(R):
    depth = 4 if R.thorough else 3

    def gen():
        for w, al in FLAT.items():
            if w in ('hvn', 'hvf'):
                for k, h in enumerate(heavy(R.thorough)[w][1]):
                    yield w, tuple((i, j % 3 == k % 3)
                                   for j, i in enumerate(h))
                continue
            if w in LARGE:
                for k, h in enumerate(sweep(R.thorough)[w][1]):
                    yield w, tuple((i, j % 3 == k % 3)
                                   for j, i in enumerate(h))
                continue
            for n in range(1, depth + 1):
                for h in itertools.product(range(len(al)), repeat=n):
                    for mask in range(4):
                        yield w, tuple((i, bool((mask >> (k % 2)) & 1))
                                       for k, i in enumerate(h))
            for h in itertools.product(range(len(al)), repeat=2):
                yield w, tuple((h[k % 2], k % 3 == 0) for k in range(33))
                yield w, tuple((h[k % 2], True) for k in range(70))

    def fn(case, st):
        w, hist = case
        al = FLAT[w]
        classes = al + [{'a': 'p', 'zz': 'u'}, {}, {'x': 2.5}]
        for k, a in enumerate(sorted(al[0], key=str)):
            if w in LARGE:
                i = al[k % len(al)]
                classes.append({x: v for x, v in i.items() if x != a})
        m = Model(classes, numeric=True, scaling=False)
        t = build(al, hist)
        root = t.root
        vec = total_vec(m, [i for i, _ in hist])
        tab = m.table(vec)
        dump = full_dump(t)
        got = table(root)
        expect(set(got) == set(tab), 'attributes %r instead of %r', set(got),
               set(tab))
        for a, (nom, num) in tab.items():
            g = dict(got[a])
            cv = g.pop(cv_key, None)
            expect({(type(v), v): c for v, c in g.items()} ==
                   {(type(v), v): c for v, c in nom.items()},
                   'counts of %r: %r instead of %r', a, g, nom)
            expect((cv is None) == (num is None), 'numbers of %r: %r', a, cv)
            if num is not None:
                expect(cv[1] == num.n and abs(cv[2] - num.mean) <=
                       1e-7 * max(1, abs(num.mean)) and
                       abs(cv[3] - num.ustd()) <=
                       1e-6 * max(1, abs(num.mean)), 'numbers of %r: %r '
                       'instead of %r, %r, %r', a, cv, num.n, num.mean,
                       num.ustd())
        attrs = sorted({a for c in classes for a in c}, key=str)
        values(root, m, vec, attrs, classes)
        for inst in classes:
            expect(t.categorize(inst) is root, 'categorizes elsewhere')
            for fn_, none in itertools.product(('m', 's'), (True, False)):
                for s, got, err in runs(
                        lambda s: t.infer_missing(inst, fn_, none), bound=1,
                        menu=(0.5, 0.03, 0.97), max_runs=8):
                    if err is not None:
                        raise err
                    st.add('transitions')
                    for a in got:
                        expect(a in inst or a in tab, 'inferred unknown %r', a)
                    for a, v in inst.items():
                        expect(a in got and same_val(v, got[a]), 'given %r=%r '
                               'became %r', a, v, got)
                    for a in tab:
                        if a in inst:
                            continue
                        expect(admissible(options(tab, sum(vec), a, none),
                                          fn_, got.get(a)), 'inferred %r=%r, '
                               'overall %r', a, got.get(a),
                               options(tab, sum(vec), a, none))
        expect(full_dump(t) == dump, 'queries changed the tree')
        st.outcome((w, state_key(t)))
    R.enum('flat', gen, fn)

    def gen2():
        for w, al in S.items():
            for n in range(1, depth + 1):
                for h in itertools.product(range(len(al)), repeat=n):
                    for mask in itertools.product((False, True), repeat=n):
                        yield w, tuple(zip(h, mask))
            # many fits, mapped or not
            for h in itertools.product(range(len(al)), repeat=2):
                yield w, tuple((h[k % 2], True) for k in range(45))
                yield w, tuple((h[k % 2], k > 20) for k in range(40))

    def fn2(case, st):
        w, hist = case
        al = S[w]
        t = build(al, hist)
        dump = full_dump(t)
        n = len(hist)
        # constants (no object involved) have overall frequencies
        over = {}
        for i, _ in hist:
            for a, v in flat(al[i]).items():
                if not variables([a]):
                    over.setdefault(a, []).append(v)
        for a, vs in over.items():
            vals, nums = {}, [v for v in vs if is_num(v)]
            for v in vs:
                if not is_num(v):
                    vals[v] = vals.get(v, 0) + 1
            for v, c in vals.items():
                p = t.root.probability(a, v)
                expect(abs(p - c / n) < 1e-9, 'probability of %r=%r is %r, '
                       'overall %r', a, v, p, c / n)
            if nums and len(nums) == len(vs):
                p = t.root.predict(a, 'most likely', False)
                expect(abs(p - sum(nums) / len(nums)) < 1e-9, 'predicts '
                       '%r=%r, overall mean %r', a, p, sum(nums) / len(nums))
        for inst in al + [{}, {'?zz': {'x': 'p'}}]:
            expect(t.categorize(inst) is t.root, 'categorizes elsewhere')
            given = flat(inst)
            for none in (True, False):
                with rnd.Session():
                    got = t.infer_missing(inst, 'most likely', none)
                st.add('transitions')
                out = flat(got)
                for a, v in given.items():
                    expect(a in out and same_val(v, out[a]), 'given %r=%r '
                           'became %r', a, v, got)
        expect(full_dump(t) == dump, 'queries changed the tree')
        # fitting a collection and clearing
        u = make('dummy')
        u.fit([al[i] for i, _ in hist], randomize_first=False)
        expect(u.root.count == n and len(nodes(u)) == 1, 'batch fit')
        u.clear()
        expect(u.root.count == 0 and not u.root.av_counts and
               len(nodes(u)) == 1, 'cleared tree holds %r', u.root.av_counts)
        st.outcome((w, state_key(t)))
    R.enum('structured', gen2, fn2)

    # many objects
    def gen3():
        for n in (3, 5, 8) + ((12,) if R.thorough else ()):
            for val in (0, 1):
                for hist in itertools.product((False, True), repeat=3):
                    yield n, val, hist

    def fn3(case, st):
        n, val, masks = case
        al = []
        for k in range(3):
            N = ['?%s%d' % ('abc'[k], (j + k) % n) for j in range(n)]
            d = {o: {'x': 'v%d' % (j if val else j % 2), 'w': float(j + k),
                     '?in%d' % j: {'y': 'p'}} for j, o in enumerate(N)}
            for a, b in zip(N, N[1:]):
                d[('on', a, b)] = True
            d['k'] = 'c%d' % k
            al.append(d)
        t = build(al, [(k, m) for k, m in enumerate(masks)])
        dump = full_dump(t)
        for inst in al:
            expect(t.categorize(inst) is t.root, 'categorizes elsewhere')
            part = {a: v for j, (a, v) in enumerate(inst.items()) if j % 2}
            for none in (True, False):
                with rnd.Session():
                    got = flat(t.infer_missing(part, 'most likely', none))
                for a, v in flat(part).items():
                    expect(a in got and same_val(v, got[a]), 'given %r=%r '
                           'became %r', a, v, got)
                st.add('transitions')
        expect(full_dump(t) == dump, 'queries changed the tree')
        st.outcome(case)
    R.enum('many objects', gen3, fn3)

    # renamed copies of one instance, mapped: they all fall together
    COPY = [{'?a': {'x': 'p'}}, {'?a': {'w': 2.0}, 'k': 'c'},
            {'?a': {'x': 'p', 'w': 1.0}, '?b': {'x': 'q'},
             ('on', '?a', '?b'): True},
            {'?a': {'x': 'p', '?b': {'y': 'r'}}, 'c': {'z': 'u'}}]

    def fn4(case, st):
        which, n = case
        base = COPY[which]
        f = flat(base)
        al = []
        for k in range(n):
            m = {'?a': '?%s%d' % ('xo'[k % 2], 3 * k),
                 '?b': '?%s%d' % ('oy'[k % 2], 3 * k + 1)}
            al.append(renamed(base, m))
        t = build(al, [(k, True) for k in range(n)])
        expect(len(t.root.av_counts) == len(f), 'after %d renamed copies of '
               '%r, mapped, the root has attributes %r', n, base,
               sorted(map(repr, t.root.av_counts)))
        st.add('transitions', n)
        st.outcome(case)

    def renamed(x, m):
        if isinstance(x, dict):
            return {renamed(a, m): renamed(v, m) if isinstance(v, dict) else v
                    for a, v in x.items()}
        if isinstance(x, tuple):
            return tuple(renamed(y, m) for y in x)
        return m.get(x, x)
    R.enum('mapped copies', lambda: [(w, n) for w in range(len(COPY))
                                     for n in (2, 3, 7, 40, 130)], fn4)
