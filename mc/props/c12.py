"""C12 the learners in lockstep: for every history the hierarchies reachable
under all tie-breaks, paired by shape and compared on every observable."""
import itertools

from mc import rnd
from mc.core import expect, runs, Violation
from mc.mon import model_for
from mc.probe import PROBES, at_path
from mc.tree import (absify, cv_key, make, rebuild, show, total_vec)
from mc.worlds import NOM, NUM, sweep, heavy


def grow(kind, al, states, idx, m, past, st):
    """states: {abstract tree: concrete history}; all one-fit successors."""
    total = total_vec(m, past + [idx])
    out = {}
    for ab, hist in states.items():
        ok = m.fit(ab, idx, total)
        stack, n = [()], 0
        while stack:
            prefix = stack.pop()
            t = rebuild(kind, al, hist, st)
            s = rnd.Session(prefix)
            with s:
                t.ifit(al[idx])
            n += 1
            st.add('transitions')
            a = absify(t.root, m)
            expect(a in ok, '%s: %r then %r gives %r; the rule common to all '
                   'learners allows %r', kind, [al[i] for i in past], al[idx],
                   show(a), [show(x) for x in ok][:5])
            out.setdefault(a, hist + ((idx, tuple(s.taken)),))
            cost = 0
            for i, (k, c) in enumerate(s.points):
                if i >= len(prefix) and cost < 2 and n + len(stack) < 24:
                    stack.extend(tuple(s.taken[:i]) + (alt,)
                                 for alt in range(k) if alt != c)
                cost += 1 if c else 0
    return out


def pairs(t1, t2, m):
    def tag(n):
        ch = sorted((tag(c) for c in n.children), key=lambda x: x[0])
        return (absify(n, m), n, ch)
    out = []

    def go(x, y):
        out.append((x[1], y[1]))
        for a, b in zip(x[2], y[2]):
            go(a, b)
    go(tag(t1.root), tag(t2.root))
    return out


def leaves(n):
    if not n.children:
        return [n]
    return [x for c in n.children for x in leaves(c)]


def values(f, **kw):
    out = set()
    for s, got, err in runs(lambda s: f(), bound=2, max_runs=24, **kw):
        if err is not None:
            raise err
        out.add((type(got).__name__, '%.9g' % got if isinstance(got, float)
                 else repr(got)))
    return out


def compare(k1, t1, k2, t2, m, total, classes, st):
    names = '%s and %s' % (k1, k2)

    def close(x, y, what, *a):
        expect(abs(x - y) <= 1e-9 * max(1, abs(x)), '%s differ in %s: %r, %r'
               % (names, what % a, x, y))
    attrs = sorted({a for c in classes for a in c}, key=str) + ['never']
    ps = pairs(t1, t2, m)
    twin = {id(a): b for a, b in ps}
    for a, b in ps:
        close(a.count, b.count, 'counts')
        close(a.expected_correct_guesses(), b.expected_correct_guesses(),
              'expected correct guesses')
        close(a.category_utility(), b.category_utility(), 'category utility')
        for at in attrs:
            for none in (True, False):
                wa, wb = ({k: v for k, v in n.get_weighted_values(at, none)
                           if v or k is not None} for n in (a, b))
                expect(set(wa) == set(wb) and all(
                    abs(wa[k] - wb[k]) < 1e-9 for k in wa), '%s differ in '
                    'weighted values of %r: %r, %r', names, at, wa, wb)
                va = values(lambda: a.predict(at, 'most likely', none))
                vb = values(lambda: b.predict(at, 'most likely', none))
                expect(va == vb, '%s differ in predictions of %r: %r, %r',
                       names, at, va, vb)
            vals = [None, 'unseen'] + [c[at] for c in classes if at in c]
            for v in vals:
                close(a.probability(at, v), b.probability(at, v),
                      'probability of %r=%r', at, v)
        for x in leaves(a):
            close(a.log_likelihood(x), b.log_likelihood(twin[id(x)]),
                  'log-likelihood of a leaf')
        for i in classes:
            expect(a.is_exact_match(i) == b.is_exact_match(i), '%s differ in '
                   'matching %r', names, i)
        if a.children:
            for i in classes:
                close(a.cu_for_new_child(i), b.cu_for_new_child(i),
                      'utility of a new child for %r', i)
                for c in a.children:
                    d = twin[id(c)]
                    close(a.cu_for_insert(c, i), b.cu_for_insert(d, i),
                          'utility of inserting %r', i)
    st.add('traces')


def categ(kind, t, m, total, st):
    ab = absify(t.root, m, sort=False)
    for i, inst in enumerate(m.cls):
        adm = [at_path(t.root, p) for p in m.categorize(ab, m.unit(i), total)]
        for s, got, err in runs(lambda s: t.categorize(inst), bound=1,
                                max_runs=6):
            if err is not None:
                raise err
            expect(any(got is n for n in adm), '%s: categorizing %r leads to '
                   'another leaf than in the other learners', kind, inst)


def run(R):
    L = 5 if R.thorough else 4
    worlds = {}
    for n, al in NOM.items():
        worlds[n] = (al, ['cobweb', 'c3', 'trestle'])
    for n, al in NUM.items():
        if n != 'foff':
            worlds[n] = (al, ['c3', 'trestle'])
            worlds[n + '/unscaled'] = (al, ['c3:F:1', 'trestle:F:1'])

    def gen():
        for name, (al, kinds) in worlds.items():
            for h in itertools.product(range(len(al)), repeat=2):
                yield name, h

    def fn(case, st):
        name, first = case
        al, kinds = worlds[name]
        classes = al + PROBES[name.split('/')[0]]
        # for nominal data one model serves all
        ms = {k: model_for(k, classes) for k in kinds}

        def go(states, past):
            if past:
                total = total_vec(ms[kinds[0]], past)
                base = states[kinds[0]]
                for k in kinds[1:]:
                    common = [a for a in base if a in states[k]]
                    st.add('shapes_in_common', len(common))
                    st.add('shapes_in_one_only', len(base) + len(states[k]) -
                           2 * len(common))
                    for a in common[:3]:
                        t1 = rebuild(kinds[0], al, base[a])
                        t2 = rebuild(k, al, states[k][a])
                        st.outcome((past, a))
                        compare(kinds[0], t1, k, t2, ms[k], total, classes,
                                st)
                        categ(k, t2, ms[k], total, st)
            if len(past) == L - (1 if len(al) > 4 and not R.thorough else 0):
                return
            nxt = ([first[len(past)]] if len(past) < len(first)
                   else range(len(al)))
            for i in nxt:
                go({k: grow(k, al, states[k], i, ms[k], past, st)
                    for k in kinds}, past + [i])
        go({k: {(ms[k].zero, ()): ()} for k in kinds}, [])
    R.enum('lockstep', gen, fn)

    ntols = {}
    # long histories: same policy, compared whenever the shapes agree
    def lng(case, st):
        name, h, pol = case
        al, kinds = worlds[name]
        base = name.split('/')[0]
        classes = al + PROBES.get(base, [])
        ms = {k: model_for(k, classes, 1e-9, ntols.get(base, 1.0))
              for k in kinds}
        first = [min(j for j in range(len(al))
                     if ms[kinds[0]].same(i, j)) for i in range(len(al))]
        ts = {k: make(k) for k in kinds}
        for n, i in enumerate(h):
            for k in kinds:
                pre = absify(ts[k].root, ms[k])
                with rnd.Session((), policy=pol):
                    ts[k].ifit(al[i])
                total = total_vec(ms[k], [first[j] for j in h[:n + 1]])
                st.add('transitions')
                if n % 4 == 0 or n == len(h) - 1:
                    post = absify(ts[k].root, ms[k])
                    expect(post in ms[k].fit(pre, first[i], total), '%s: %r leads to '
                           'a hierarchy the common rule does not allow', k,
                           h[:n + 1])
        for k in kinds[1:]:
            if absify(ts[k].root, ms[k]) == absify(ts[kinds[0]].root, ms[k]):
                compare(kinds[0], ts[kinds[0]], k, ts[k], ms[k], total,
                        classes, st)
            categ(k, ts[k], ms[k], total, st)

    def gen2():
        from mc.tree import periodic
        for name, (al, kinds) in worlds.items():
            for h in periodic(len(al), 32, 2):
                for pol in ('first', 'last'):
                    yield name, h, pol
    R.enum('long', gen2, lng)

    sizes = []
    for name, (al, hists, ks, ntol) in list(sweep(R.thorough).items()) + [
            (n, x + (1.0,)) for n, x in heavy(R.thorough).items()]:
        if name in ('far', 'ints'):
            continue
        nom = 'cobweb' in ks
        ntols[name] = ntol
        worlds[name] = (al, ['cobweb', 'c3', 'trestle'] if nom else
                        ['c3', 'trestle'])
        sizes.append((name, hists))
        if not nom:
            worlds[name + '/unscaled'] = (al, ['c3:F:1', 'trestle:F:1'])
            sizes.append((name + '/unscaled', hists))
    R.enum('sweep', lambda: ((n, h, p) for n, hs in sizes for h in hs
                             for p in ('first', 'last')), lng)
