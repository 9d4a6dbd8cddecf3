"""C20 incremental evaluation."""
import copy
import itertools
import math

from concept_formation import evaluation as ev

from mc import rnd
from mc.core import expect, runs, Violation
from mc.mon import model_for, same_table
from mc.probe import at_path, sweeps
from mc.props.c08 import density
from mc.props.c09 import own
from mc.ref import hidden, is_num
from mc.structured import S, flat, iso
from mc.tree import (absify, cv_key, explore_fits, full_dump, make, table,
                     total_vec)
from mc.worlds import HID, NOM, NUM

WORLDS = {'n3': (NOM['n3'], ['a', 'c', 'never']),
          'nmiss': (NOM['nmiss'], ['a', 'b']),
          'nfalsy': (NOM['nfalsy'], ['a', ('rel', 'u', 'v')]),
          'f2': (NUM['f2'], ['x']), 'fmix': (NUM['fmix'], ['x', 'a']),
          'fdec': (NUM['fdec'], ['x', 'a']),
          'ftext': (NUM['ftext'], ['x']),
          'h1': (HID['h1'], ['_h', 'a']), 'h4': (HID['h4'], ['_n', 'x']),
          's1': (S['s1'], ['k']), 's2': (S['s2'], [('on', '?a', '?b')])}


def kinds(w):
    if w[0] == 's':
        return ['trestle']
    if w[0] == 'n' or w == 'h1':
        return ['cobweb', 'c3', 'trestle', 'dummy']
    return ['c3', 'trestle']


def root_matches(t, insts, m):
    """the root holds exactly these instances"""
    expect(t.root.count == len(insts), 'the tree holds %r instances instead '
           'of %d', t.root.count, len(insts))
    ids = {v: c for v, c in t.root.av_counts.get('_id', {}).items()}
    want = {}
    for i in insts:
        want[i['_id']] = want.get(i['_id'], 0) + 1
    expect(ids == want, 'the tree holds %r instead of %r', ids, want)


def run(R):
    # ---------------------------------------------------------- the protocol
    def gen():
        for w, (al, attrs) in WORLDS.items():
            for kind in kinds(w):
                mx = 3 if kind in ('trestle', 'dummy') and not R.thorough \
                    else 4
                for n in range(0, mx + 1):
                    for lst in itertools.product(range(len(al)), repeat=n):
                        if n == 4 and not R.thorough and sum(lst) % 3:
                            continue
                        for a in attrs[:1] if n > 2 else attrs:
                            for first in (True, False):
                                yield w, kind, lst, a, first

    def fn(case, st):
        w, kind, lst, attr, first = case
        al = WORLDS[w][0]
        n = len(lst)
        st.outcome(case)
        for length, nruns in [(n, 1), (n, 2), (max(0, n - 1), 2), (n + 2, 1),
                              (0, 1), (1, 3), (n, 0)]:
            if length > 0 and n == 0 and nruns > 1:
                continue

            def go(s):
                t = make(kind)
                with rnd.Session():
                    # something else was learned before
                    t.ifit(dict(al[0], _id='old'))
                    t.ifit(dict(al[-1], _id='old'))
                insts = [dict(al[i], _id='i%d' % k)
                         for k, i in enumerate(lst)]
                orig = list(insts)
                saved = copy.deepcopy(insts)
                log = []

                def score(tree, inst, a, val):
                    expect(tree is t, 'another tree is scored')
                    expect(a == attr, 'attribute %r is scored', a)
                    expect(any(inst is x or inst == x for x in orig),
                           'scored %r', inst)
                    expect(val == inst.get(attr) and type(val) is
                           type(inst.get(attr)), 'true value %r of %r', val,
                           inst)
                    log.append((inst['_id'], dict(
                        tree.root.av_counts.get('_id', {})),
                        tree.root.count))
                    return len(log)
                table_ = ev.incremental_evaluation(
                    t, insts, attr, length, runs=nruns, score=score,
                    randomize_first=first)
                for i in orig:
                    expect(i in saved and saved[orig.index(i)] == i,
                           'instance changed to %r', i)
                expect(sorted(i['_id'] for i in insts) ==
                       sorted(i['_id'] for i in saved), 'the list of '
                       'instances changed')
                return t, log, table_
            for s, res, err in runs(go, bound=1 if n > 2 else 2,
                                    max_runs=40):
                if err is not None:
                    raise err
                t, log, tab = res
                k = min(length, n)
                expect(len(tab) == nruns, '%d rows for %d runs', len(tab),
                       nruns)
                expect([len(r) for r in tab] == [k] * nruns, 'rows of length '
                       '%r, expected %d', [len(r) for r in tab], k)
                expect([x for r in tab for x in r] ==
                       list(range(1, len(log) + 1)), 'scores %r', tab)
                for r in range(nruns):
                    part = log[r * k:(r + 1) * k]
                    ids = [x[0] for x in part]
                    expect(len(set(ids)) == k, 'run %d evaluates %r', r, ids)
                    if r == 0 and not first:
                        expect(ids == ['i%d' % i for i in range(k)], 'the '
                               'first run evaluates %r although it is not to '
                               'be shuffled', ids)
                    for j, (i, held, cnt) in enumerate(part):
                        want = {x: 1 for x in ids[:j]}
                        expect(held == want and cnt == j, 'instance %s is '
                               'scored on a tree that has seen %r (%r), the '
                               'earlier ones of its run are %r', i, held, cnt,
                               ids[:j])
                if nruns:
                    held = t.root.av_counts.get('_id', {})
                    expect(held == {x: 1 for x in ids} and
                           t.root.count == k, 'after the last run the tree '
                           'holds %r instead of %r', held, ids)
                st.add('transitions', len(log) or 1)
                st.add('traces')
    R.enum('protocol', gen, fn)

    # long lists, many runs
    def longs():
        for w, kind in (('n3', 'cobweb'), ('n3', 'c3'), ('fmix', 'c3'),
                        ('h4', 'trestle'), ('s1', 'trestle'),
                        ('n3', 'dummy')):
            for n in (6, 13, 22, 45) + ((120,) if R.thorough else ()):
                if n > 25 and w == 's1':
                    continue
                for length in sorted({0, 1, 2, n // 9, n // 5, n // 2, n - 1, n,
                                      n + 1, n + 30}):
                    for nruns in (1, 2, 5):
                        if nruns > 2 and n > 13:
                            continue
                        for first in (True, False):
                            yield w, kind, n, length, nruns, first
        for nruns in (12, 45, 70):
            yield 'n3', 'cobweb', 3, 3, nruns, True
            yield 'fmix', 'c3', 3, 2, nruns, False

    def long_(case, st):
        w, kind, n, length, nruns, first = case
        al, attrs = WORLDS[w]
        attr = attrs[0]
        insts = [dict(al[(i * i + i) % len(al)], _id='i%d' % i)
                 for i in range(n)]
        saved = copy.deepcopy(insts)
        log = []
        t = make(kind)

        def score(tree, inst, a, val):
            expect(val == inst.get(attr) and type(val) is
                   type(inst.get(attr)), 'true value %r of %r', val, inst)
            log.append((inst['_id'], set(tree.root.av_counts.get('_id', {})),
                        tree.root.count))
            return len(log)
        with rnd.Session(policy='alt'):
            for i in range(3):
                t.ifit(dict(al[i % len(al)], _id='old%d' % i))
            tab = ev.incremental_evaluation(
                t, insts, attr, length, runs=nruns, score=score,
                randomize_first=first)
        k = min(n, length)
        expect([len(r) for r in tab] == [k] * nruns, 'rows of length %r '
               'instead of %d times %d', [len(r) for r in tab], nruns, k)
        expect([x for r in tab for x in r] == list(range(1, len(log) + 1)),
               'scores are not in the order of evaluation')
        for r in range(nruns):
            part = log[r * k:(r + 1) * k]
            ids = [x[0] for x in part]
            expect(len(set(ids)) == k, 'run %d evaluates %r', r, ids)
            if r == 0 and not first:
                expect(ids == ['i%d' % i for i in range(k)], 'the first run '
                       'evaluates %r', ids)
            for j, (i, held, cnt) in enumerate(part):
                expect(held == set(ids[:j]) and cnt == j, 'run %d: %s is '
                       'scored on a tree with %r (%r), the earlier ones are '
                       '%r', r, i, sorted(held), cnt, ids[:j])
        expect(sorted(insts, key=lambda x: x['_id']) ==
               sorted(saved, key=lambda x: x['_id']), 'instances changed')
        st.add('transitions', len(log))
        st.outcome(case)
    R.enum('long', longs, long_)

    # every shuffle outcome is used as it comes
    def perms(case, st):
        seen = set()
        n = case

        def go(s):
            t = make('cobweb')
            insts = [{'a': 'x', '_id': 'i%d' % i} for i in range(n)]
            ids = []

            def score(tree, inst, a, v):
                ids.append(inst['_id'])
                return 0
            ev.incremental_evaluation(t, insts, 'a', n, runs=1, score=score)
            return tuple(ids)
        for s, ids, err in runs(go):
            if err is not None:
                raise err
            expect(sorted(ids) == ['i%d' % i for i in range(n)], 'evaluated '
                   '%r', ids)
            seen.add(ids)
            st.outcome(ids)
        expect(len(seen) == math.factorial(n), 'only %d of %d orders occur',
               len(seen), math.factorial(n))
    R.enum('shuffles', lambda: [1, 2, 3, 4], perms)

    # ------------------------------------------------------------ the scores
    def scores(kind, al, attrs, m, classes):
        def mon(t, past, idx, res, ctx, st):
            check_scores(t, kind, classes, attrs, m,
                         total_vec(m, past + [idx]), st)
        return mon

    def check_scores(t, kind, classes, attrs, m, total, st):
        ab = absify(t.root, m, sort=False) if t.root.count else (m.zero, ())
        for ci, inst in enumerate(classes):
            for attr in attrs:
                kept = {a: v for a, v in inst.items() if a != attr}
                ki = next((i for i, c in enumerate(m.cls) if same(c, kept)),
                          None)
                if ki is None:
                    continue
                paths = m.categorize(ab, m.unit(ki), total)
                leaves = [(at_path(t.root, p), sub(ab, p)[0]) for p in paths]
                vals = [inst.get(attr), None, 'x', 'unseen']
                if m.numeric and any(is_num(c.get(attr)) for c in classes):
                    vals += [1.0, 40.5, 0]
                # values that read the same
                vals += ['None', 'False', '1.0', str(inst.get(attr)) + ' ']
                if not is_num(inst.get(attr)):
                    vals.append(str(inst.get(attr)))
                for val in vals:
                    one(t, inst, attr, val, leaves, m, total, st)

    def sub(ab, p):
        for i in p:
            ab = ab[1][i]
        return ab

    def same(a, b):
        return len(a) == len(b) and all(
            k in b and b[k] == v and type(b[k]) is type(v)
            for k, v in a.items())

    def content(leaf, vec, attr, m):
        if leaf.count == 0:
            return {}, None, 0
        if hidden(attr):
            nom, num = own(leaf, attr) if attr in leaf.av_counts else ({},
                                                                      None)
        else:
            nom, num = m.table(vec).get(attr, ({}, None))
        return nom, num, leaf.count

    def one(t, inst, attr, val, leaves, m, total, st):
        saved = copy.deepcopy(inst)
        before = full_dump(t)
        probs, errs = [], []
        for leaf, vec in leaves:
            nom, num, n = content(leaf, vec, attr, m)
            have = sum(nom.values()) + (num.n if num else 0)
            if val is None:
                probs.append((n - have) / n if n else 1.0)
            elif m.numeric and is_num(val):
                if num is None:
                    probs.append(0.0)
                elif hidden(attr):
                    probs.append(leaf.probability(attr, val))
                else:
                    probs.append(density(m, vec, attr, val, total))
            else:
                probs.append(nom.get(val, 0) / n if n else 0.0)
            opts = [(v, c) for v, c in nom.items()]
            if num:
                opts.append((num.mean, num.n))
            opts.append((None, n - have if n else 1))
            top = max(c for _, c in opts)
            for v, c in opts:
                if c == top:
                    errs.append(judge(val, v, m))
        for fn, exp in ((ev.probability, probs),
                        (ev.error, errs),
                        (ev.absolute_error, [e if e is None else abs(e)
                                             for e in errs]),
                        (ev.squared_error, [e if e is None else e * e
                                            for e in errs])):
            for s, got, err in runs(lambda s: fn(t, inst, attr, val), bound=2,
                                    max_runs=30):
                st.add('traces')
                if err is not None:
                    if any(e is None for e in exp):
                        continue
                    raise err
                expect(any(e is not None and abs(got - e) <= 1e-6 * max(
                    1.0, abs(e)) for e in exp), '%s of %r = %r given %r is '
                    '%r, expected one of %r', fn.__name__, attr, val, inst,
                    got, exp)
        expect(full_dump(t) == before, 'scoring changed the tree')
        expect(inst == saved, 'scoring changed the instance to %r', inst)
        st.add('node_probes')

    def judge(val, pred, m):
        """None: documented refusal"""
        if m.numeric and is_num(val):
            if pred is None or not is_num(pred):
                return None
            return val - pred
        if not m.numeric and is_num(val) and not isinstance(val, bool):
            return None if pred is None or not is_num(pred) else val - pred
        if val is None and is_num(pred):
            return None
        return 0 if val == pred else 1

    for w, (al, attrs) in WORLDS.items():
        if w[0] == 's':
            continue
        for kind in ['cobweb', 'c3'] if w[0] == 'n' or w == 'h1' else ['c3']:
            classes = list(al)
            for i in al:
                for a in attrs:
                    k = {x: v for x, v in i.items() if x != a}
                    if not any(same(k, c) for c in classes):
                        classes.append(k)
            m = model_for(kind, classes)
            explore_fits(R, 'scores/%s/%s' % (w, kind), kind, al,
                         scores(kind, al, attrs, m, list(al)),
                         4 if R.thorough else 3, bound=1)
            n = len(al)
            explore_fits(R, 'deeper/%s/%s' % (w, kind), kind, al,
                         scores(kind, al, attrs, m, list(al)),
                         2 if R.thorough else 1, bound=1,
                         prefixes=(tuple(range(n)), tuple(range(n)) * 2,
                                   tuple(reversed(range(n))) + (0, 1)))

    # many attributes, the last of them decide
    for w in (20, 45, 70):
        for kind in ('cobweb', 'c3'):
            base = {'k%02d' % i: 's' for i in range(w)}
            al = [dict(base, **{'y%d' % j: v for j in range(5)})
                  for v in 'pqr']
            al = [dict(i, t=i['y0']) for i in al] + [dict(base, t='s')]
            classes = al + [{a: v for a, v in i.items() if a != 't'}
                            for i in al]
            m = model_for(kind, classes)
            explore_fits(R, 'scores/attributes%d/%s' % (w, kind), kind, al,
                         scores(kind, al, ['t'], m, list(al)),
                         4 if R.thorough else 3, bound=1)

    def wmk(m, al, kind):
        attrs = sorted({a for i in al for a in i}, key=str)
        attrs = attrs[:3] + attrs[-2:]
        classes = list(al)
        for i in al:
            for a in attrs:
                k = {x: v for x, v in i.items() if x != a}
                if not any(same(k, c) for c in classes):
                    classes.append(k)
        m2 = model_for(kind, classes, m.eps, m.ntol)
        pick = list(al)[::9] if len(al) > 6 else list(al)

        def mon(t, past, idx, res, ctx, st):
            check_scores(t, kind, pick, attrs, m2,
                         total_vec(m2, past + [idx]), st)
        return mon
    # (far, tiny, odd, near: the tolerance of numeric comparisons is C08's)
    sweeps(R, None, every=10 if not R.thorough else 5, mk=wmk, stride=9,
           kinds=lambda ks: ks[:1], skip=('far', 'tiny', 'odd', 'near',
                                          'ints'))

    # errors from tiny to huge relative to the value
    def close_(case, st):
        kind, base, off, n = case
        t = make(kind)
        with rnd.Session():
            for i in range(n):
                t.ifit({'a': 'x', 'x': base})
        before = full_dump(t)
        for sign in (1, -1):
            val = base + sign * off
            e = val - base
            inst = {'a': 'x', 'x': val}
            for fn, want in ((ev.error, e), (ev.absolute_error, abs(e)),
                             (ev.squared_error, e * e)):
                with rnd.Session():
                    got = fn(t, inst, 'x', val)
                st.add('transitions')
                expect(abs(got - want) <= 1e-9 * abs(want) +
                       1e-12 * abs(base) * (1 + abs(e)), '%s of %r predicted '
                       'as %r is %r instead of %r', fn.__name__, val, base,
                       got, want)
        expect(full_dump(t) == before, 'scoring changed the tree')
        st.outcome(case)
    R.enum('close', lambda: [(k, b, o * m, n) for k in ('c3', 'c3:F:1',
                                                        'trestle')
                             for b in (0.0, 1.0, -3.5, 1000.0, 1e6, 0.001)
                             for o in (1e-5, 1e-3, 0.25, 0.5, 1.0, 40.0)
                             for m in (abs(b) or 1.0, 1.0) for n in (1, 2, 5)],
           close_)

    def blank(case, st):
        kind, w = case
        al, attrs = WORLDS[w]
        m = model_for(kind, list(al) + [{a: v for a, v in i.items()
                                        if a not in attrs} for i in al])
        check_scores(make(kind), kind, al, attrs[:1], m, m.zero, st)
    R.enum('untrained', lambda: [('cobweb', 'n3'), ('c3', 'n3'),
                                 ('c3', 'fmix')], blank)
