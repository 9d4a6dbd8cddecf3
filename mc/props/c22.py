"""C22 batch fitting and clearing."""
import copy
import itertools
import math

from mc import rnd
from mc.core import expect, runs
from mc.structured import S
from mc.tree import full_dump, make, nodes, state_key, table
from mc.worlds import HID, NOM, NUM, wide

def mixed(k):
    al = wide(k, True)
    return [al[0], al[2], al[4]]


W = {'n3': NOM['n3'], 'nset': NOM['nset'], 'f1': NUM['f1'],
     'frel': NUM['frel'], 'h3': HID['h3'], 'h4': HID['h4'], 's1': S['s1'], 's2': S['s2'],
     's3': S['s3'], 'w8': mixed(8), 'w14': mixed(14)}


def kinds(w):
    if w[0] == 's':
        return ['trestle', 'dummy']
    if w[0] in 'n':
        return ['cobweb', 'c3', 'trestle', 'dummy']
    return ['c3', 'c3:F:1', 'c3:2.0:0', 'trestle', 'trestle:2.0:0',
            'trestle:F:1']


_reach = {}


def reachable(kind, w, order):
    """all states after fitting one by one in this order"""
    key = (kind, w, order)
    r = _reach.get(key)
    if r is None:
        al = W[w]
        if len(_reach) > 200000:
            _reach.clear()

        def go(s):
            t = make(kind)
            for i in order:
                t.ifit(tag(al[i], i))
            return state_key(t)
        r = set()
        for s, k, err in runs(go, bound=4, max_runs=5000):
            if err is not None:
                raise err
            r.add(k)
        _reach[key] = r
    return r


def tag(inst, i):
    return dict(inst, _id='i%d' % i)


FORMS = [('list', lambda x: x), ('tuple', tuple), ('generator', iter),
         ('dict values', lambda x: {i: v for i, v in enumerate(x)}.values())]


def run(R):
    def gen():
        for w, al in W.items():
            for kind in kinds(w):
                mx = 3 if R.thorough or kind in ('cobweb', 'c3') else 2
                if w[0] == 'w':
                    mx = 1
                for n in range(0, mx + 1):
                    for lst in itertools.product(range(len(al)), repeat=n):
                        for it in (0, 1, 2) if n < 3 or R.thorough else (1, 2):
                            for first in (True, False):
                                yield w, kind, lst, it, first

    def fn(case, st):
        w, kind, lst, it, first = case
        al = W[w]
        n = len(lst)
        form = FORMS[(sum(lst) + it) % len(FORMS)]
        perms = sorted(set(itertools.permutations(lst)))
        want = set()
        for combo in itertools.product(perms, repeat=it):
            if it and not first and combo[0] != lst:
                continue
            want |= reachable(kind, w, sum(combo, ()))
        if it == 0:
            want = {state_key(make(kind))}

        def go(s):
            t = make(kind)
            orders = []
            plain = t.ifit

            def spy(i):
                orders.append(i['_id'])
                return plain(i)
            t.ifit = spy
            insts = [tag(al[i], i) for i in lst]
            if it == 2 or not first:
                # equal instances are one and the same object
                one = {i: x for i, x in zip(lst, insts)}
                insts = [one[i] for i in lst]
            saved = copy.deepcopy(insts)
            same = list(insts)
            coll = form[1](insts)
            if it == 1 and first and n % 2:
                t.fit(coll)
            else:
                t.fit(coll, iterations=it, randomize_first=first)
            del t.ifit
            expect(len(insts) == n and all(a is b for a, b in zip(
                insts, same)), 'the list of the caller was reordered')
            expect(insts == saved, 'instances were modified: %r', insts)
            return t, orders
        seen = set()
        capped = False
        for s, res, err in runs(go, bound=2, max_runs=120):
            if err is not None:
                raise err
            t, orders = res
            capped = capped or s.capped
            st.add('transitions')
            expect(t.root.count == n * it, 'fit of a %s of %d instances, %d '
                   'iterations: root count %r', form[0], n, it, t.root.count)
            ids = t.root.av_counts.get('_id', {})
            exp = {}
            for i in lst:
                exp['i%d' % i] = exp.get('i%d' % i, 0) + it
            exp = {k: v for k, v in exp.items() if v}
            expect(ids == exp, 'fitted %r instead of %r', ids, exp)
            if orders and len(orders) == n * it:
                for k in range(it):
                    part = orders[k * n:(k + 1) * n]
                    expect(sorted(part) == sorted('i%d' % i for i in lst),
                           'iteration %d fits %r', k + 1, part)
                if not first:
                    expect(orders[:n] == ['i%d' % i for i in lst], 'the first '
                           'pass is in order %r although it is not to be '
                           'randomised', orders[:n])
                seen.add(tuple(orders[:n]))
            key = state_key(t)
            expect(key in want, 'fitting %r (%d iterations, first pass %s) '
                   'gives a tree that no order of single fits gives:\n%s',
                   [al[i] for i in lst], it,
                   'randomised' if first else 'in order', t)
            st.outcome((case, key))
        if first and it == 1 and n and seen and not capped:
            expect(len(seen) == len(perms), 'the first pass takes only %d of '
                   '%d orders', len(seen), len(perms))
    R.enum('fit', gen, fn)

    # long collections: the tree must be the one of fitting one by one in the
    # order that was observed
    def longs():
        for w in ('n3', 'frel', 's2', 'w8'):
            for kind in kinds(w)[:3 if w != 's2' else 2]:
                for n in (5, 9, 17, 33, 70) + ((150,) if R.thorough else ()):
                    if n > 20 and w in ('s2', 'w8'):
                        continue
                    for it in (1, 2, 3, 5):
                        if n * it > 150 and not R.thorough:
                            continue
                        for first in (True, False):
                            for f in range(len(FORMS)):
                                yield w, kind, n, it, first, f

    def long_(case, st):
        w, kind, n, it, first, f = case
        al = W[w]
        lst = [(3 * i + i * i) % len(al) for i in range(n)]
        insts = [dict(al[j], _id='i%d' % i) for i, j in enumerate(lst)]
        byid = {i['_id']: i for i in insts}
        saved = copy.deepcopy(insts)
        same = list(insts)
        t = make(kind)
        orders = []
        plain = t.ifit

        def spy(i):
            orders.append(i['_id'])
            return plain(i)
        t.ifit = spy
        with rnd.Session(policy='first'):
            t.fit(FORMS[f][1](insts), iterations=it, randomize_first=first)
        del t.ifit
        expect(len(insts) == n and all(a is b for a, b in zip(insts, same)) and
               insts == saved, 'the list of the caller was changed')
        expect(t.root.count == n * it, 'fit of %d instances, %d iterations: '
               'root count %r', n, it, t.root.count)
        ids = t.root.av_counts.get('_id', {})
        expect(ids == {i: it for i in byid}, 'fitted %r instead of %d times '
               'each of %d instances', ids, it, n)
        if len(orders) == n * it:
            for k in range(it):
                expect(sorted(orders[k * n:(k + 1) * n]) == sorted(byid),
                       'iteration %d fits %r', k + 1,
                       orders[k * n:(k + 1) * n])
            if not first:
                expect(orders[:n] == ['i%d' % i for i in range(n)], 'the '
                       'first pass is in order %r although it is not to be '
                       'randomised', orders[:n])
        st.add('transitions', n * it)
        st.outcome(case)
        if len(FORMS) == f + 1 and n < 20:
            # once more on the trained tree
            with rnd.Session():
                t.fit(insts, iterations=it)
            expect(t.root.count == 2 * n * it, 'a second fit of %d instances '
                   'brings the count to %r', n, t.root.count)
    R.enum('long', longs, long_)

    def hugs():
        for w, kind in (('n3', 'cobweb'), ('n3', 'c3'), ('f1', 'c3'),
                        ('s1', 'trestle'), ('n3', 'dummy')):
            for n, it in ((300, 1), (600, 1), (1100, 1), (3, 70), (2, 300),
                          (150, 3)):
                if R.thorough or n * it < 500 or w in ('n3', 'f1'):
                    yield w, kind, n, it

    def huge(case, st):
        w, kind, n, it = case
        al = W[w]
        lst = [(3 * i + i * i) % len(al) for i in range(n)]
        t = make(kind)
        got = []
        plain = t.ifit

        def spy(i):
            got.append(i)
            return plain(i)
        insts = [al[j] for j in lst]
        t.ifit = spy
        with rnd.Session(max_choices=10 ** 7):
            t.fit(insts, iterations=it, randomize_first=False)
        del t.ifit
        expect(t.root.count == n * it, 'fit of %d instances, %d iterations: '
               'root count %r', n, it, t.root.count)
        expect(not got or all(any(x is y for y in al) for x in got) and
               got[:n] == insts, 'fitted %d in another order', len(got))
        st.add('transitions', n * it)
        st.outcome(case)
    R.enum('huge', hugs, huge)

    # ------------------------------------------------------------- clearing
    def pairs():
        for w, al in W.items():
            for kind in kinds(w):
                a = 3 if R.thorough else 2
                for n in range(0, a + 1):
                    for h in itertools.product(range(len(al)), repeat=n):
                        yield w, kind, h
                for h in (tuple(range(len(al))) * 3,
                          tuple(range(len(al)))[::-1] * 6):
                    yield w, kind, h

    def content(t):
        return [(d, n.count, repr(sorted(((repr(a), sorted(
            (repr(v), repr(c)) for v, c in vs.items()))
            for a, vs in table(n).items())))) for n, d in nodes(t)]

    def settings(t):
        out = {k: v for k, v in vars(t).items() if k[0] != '_' and
               isinstance(v, (int, float, bool, str, type(None)))}
        if hasattr(t, 'attr_scales'):
            out['scales'] = {a: (s.num, s.mean, s.unbiased_std())
                             for a, s in t.attr_scales.items()}
        return out

    def cl(case, st):
        w, kind, h = case
        al = W[w]
        for reps in (1, 2):
            used = make(kind)
            s0 = settings(make(kind))
            with rnd.Session():
                for i in h:
                    used.ifit(tag(al[i], i))
                if h:
                    used.categorize(al[h[0]])
                    used.infer_missing(al[h[-1]])
            for _ in range(reps):
                used.clear()
            fresh = make(kind)
            expect(settings(used) == s0, 'after clearing the settings are %r, '
                   'those of a new tree %r', settings(used), s0)
            expect(content(used) == content(fresh), 'a cleared tree holds %r',
                   content(used))
            expect(used.root.parent is None and used.root.tree is used,
                   'the new root is not linked to its tree')
            expect(used.categorize({}) is used.root, 'a cleared tree '
                   'categorizes elsewhere')
            expect(used.infer_missing({'q': 'z'}) == {'q': 'z'}, 'a cleared '
                   'tree infers %r', used.infer_missing({'q': 'z'}))
            tails = itertools.product(range(len(al)), repeat=3)
            if len(h) > 1 and not R.thorough:
                tails = [tuple((x + j) % len(al) for j in range(4))
                         for x in range(len(al))]
            for tail in tails:
                used.clear()
                fresh = make(kind)
                for i in tail:
                    with rnd.Session(policy='alt'):
                        a = used.ifit(tag(al[i], i))
                    with rnd.Session(policy='alt'):
                        b = fresh.ifit(tag(al[i], i))
                    st.add('transitions')
                    expect(content(used) == content(fresh), 'after learning '
                           '%r, clearing and fitting %r the tree is\n%s\n'
                           'instead of\n%s', [al[j] for j in h],
                           [al[j] for j in tail], used, fresh)
                    expect(table(a) == table(b), 'fit returns another concept')
                    for q in al[:4]:
                        ask = []
                        for x in (used, fresh):
                            with rnd.Session(policy='alt'):
                                n = x.categorize(q)
                            with rnd.Session(policy='alt'):
                                ask.append((n.count, table(n), n.depth(),
                                            x.infer_missing(q)))
                        expect(ask[0] == ask[1], 'after learning %r, clearing '
                               'and fitting %r, asking for %r gives %r '
                               'instead of %r', [al[j] for j in h],
                               [al[j] for j in tail], q, ask[0], ask[1])
                with rnd.Session():
                    x = used.infer_missing({}, allow_none=False)
                with rnd.Session():
                    y = fresh.infer_missing({}, allow_none=False)
                expect(x == y, 'inference after clearing: %r, %r', x, y)
                expect(settings(used) == settings(fresh), 'settings %r '
                       'instead of %r', settings(used), settings(fresh))
                st.outcome((w, kind, h, tail))
    R.enum('clear', pairs, cl)
