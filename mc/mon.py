"""Monitors shared by several checks."""
from mc.core import Violation, expect
from mc.ref import Model, hidden, is_num
from mc.tree import (nodes, table, close, cv_key, cfg_scaling, cfg_inner,
                     absify, total_vec, show)


def model_for(kind, classes, eps=1e-9, ntol=1.0):
    m = Model(classes, numeric=not kind.startswith('cobweb'),
              scaling=cfg_scaling(kind), inner=cfg_inner(kind), eps=eps)
    m.ntol = ntol
    return m


def value_tag(v):
    return (type(v).__name__, v) if isinstance(v, bool) else v


def same_cv(got, exp, what):
    """got: ('cv', n, mean, std); exp: Summary"""
    expect(got[1] == exp.n, '%s: %r numeric values, expected %d', what,
           got[1], exp.n)
    sd = exp.ustd()
    mag = max(1.0, abs(exp.mean), sd)
    expect(abs(got[2] - exp.mean) <= 1e-9 * mag, '%s: mean %r, expected %r',
           what, got[2], exp.mean)
    expect(abs(got[3] - sd) <= 1e-6 * max(1.0, sd) * max(1, mag * 1e-6),
           '%s: deviation %r, expected %r', what, got[3], sd)
    mag = max(abs(exp.mean), sd)
    expect(abs(got[2] - exp.mean) <= 1e-9 * mag + 1e-18, '%s: mean %r, '
           'expected %r', what, got[2], exp.mean)
    expect(abs(got[3] - sd) <= 1e-6 * sd + 1e-7 * mag + 1e-18, '%s: deviation '
           '%r, expected %r', what, got[3], sd)


def same_table(node, ref, n, what):
    """node's table equals the reference table {attr: (nom, Summary|None)}"""
    expect(node.count == n, '%s: count %r, expected %d', what, node.count, n)
    t = table(node)
    expect(set(t) == set(ref), '%s: attributes %r, expected %r', what,
           sorted(map(repr, t)), sorted(map(repr, ref)))
    for a, (nom, num) in ref.items():
        got = dict(t[a])
        if num is not None:
            expect(cv_key in got, '%s: %r has no numeric summary', what, a)
            same_cv(got.pop(cv_key), num, '%s, %r' % (what, a))
        else:
            expect(cv_key not in got, '%s: %r has a numeric summary', what, a)
        expect({value_tag(k): v for k, v in got.items()} ==
               {value_tag(k): v for k, v in nom.items()},
               '%s: %r counts %r, expected %r', what, a, got, nom)


def sums(tree):
    """Every inner table is the sum of its children's tables."""
    for n, d in nodes(tree):
        if not n.children:
            continue
        what = 'inner concept at depth %d' % d
        tot = sum(c.count for c in n.children)
        expect(n.count == tot, '%s: count %r but its children have %r', what,
               n.count, [c.count for c in n.children])
        acc = {}
        for c in n.children:
            for a, vals in c.av_counts.items():
                da = acc.setdefault(a, {})
                for v, x in vals.items():
                    da.setdefault(v, []).append(x)
        expect(set(acc) == set(n.av_counts), '%s: attributes %r, children have'
               ' %r', what, sorted(map(repr, n.av_counts)),
               sorted(map(repr, acc)))
        for a, da in acc.items():
            expect(set(da) == set(n.av_counts[a]), '%s: values of %r are %r, '
                   'children have %r', what, a, list(n.av_counts[a]), list(da))
            for v, xs in da.items():
                got = n.av_counts[a][v]
                if isinstance(v, str) and v == cv_key:
                    cv_sum(got, xs, '%s, %r' % (what, a))
                else:
                    expect(got == sum(xs), '%s: count of %r=%r is %r, children'
                           ' have %r', what, a, v, got, xs)


def cv_sum(got, xs, what):
    n = sum(x.num for x in xs)
    expect(got.num == n, '%s: %r numeric values, children have %r', what,
           got.num, [x.num for x in xs])
    mean = sum(x.num * x.mean for x in xs) / n
    m2 = sum(m2_of(x) + x.num * (x.mean - mean) ** 2 for x in xs)
    mag = max([1.0] + [abs(x.mean) for x in xs])
    expect(abs(got.mean - mean) <= 1e-9 * mag, '%s: mean %r, children give %r',
           what, got.mean, mean)
    g2 = m2_of(got)
    expect(abs(g2 - m2) <= 1e-6 * max(1.0, m2) * max(1, mag * 1e-6),
           '%s: squared deviation %r, children give %r', what, g2, m2)
    sd, g = (m2 / n) ** 0.5, (g2 / n) ** 0.5
    mag = max([sd] + [abs(x.mean) for x in xs])
    expect(abs(got.mean - mean) <= 1e-9 * mag + 1e-18, '%s: mean %r, children '
           'give %r', what, got.mean, mean)
    expect(abs(g - sd) <= 1e-6 * sd + 1e-7 * mag + 1e-18, '%s: deviation %r, '
           'children give %r', what, g, sd)


def m2_of(x):
    b = x.biased_std()
    return b * b * x.num


def conserve(model, imap=None):
    """C01 monitor for flat data."""
    def mon(t, past, idx, res, ctx, st):
        tot = total_vec(model, [imap[i] if imap else i for i in past + [idx]])
        same_table(t.root, model.table(tot), len(past) + 1, 'root')
        sums(t)
    return mon


def well_formed(t):
    ns = nodes(t)
    expect(t.root.parent is None, 'the root has a parent')
    ids = set()
    for n, d in ns:
        expect(n.tree is t, 'a concept at depth %d refers to another tree (%r)',
               d, n.tree)
        expect(n.concept_id not in ids, 'concept name %r used twice',
               n.concept_id)
        ids.add(n.concept_id)
        expect(len(n.children) != 1, 'a concept at depth %d has only one child',
               d)
        for c in n.children:
            expect(c.parent is n, 'a child at depth %d does not point back to '
                   'its parent', d + 1)
        if not n.children:
            for a, vals in n.av_counts.items():
                if hidden(a):
                    continue
                expect(len(vals) == 1, 'leaf mixes values of %r: %r', a, vals)
                for v, c in vals.items():
                    if isinstance(v, str) and v == cv_key:
                        expect(c.num == n.count, 'leaf mixes instances with '
                               'and without %r', a)
                        expect(c.unbiased_std() <=
                               1e-11 * max(1.0, abs(c.mean)),
                               'leaf mixes values of %r: %r', a, c)
                    else:
                        expect(c == n.count, 'leaf mixes instances with and '
                               'without %r', a)
    return ns


def returned(t, ns, inst, res, numeric=True):
    expect(any(res is n for n, _ in ns), 'the returned concept is not in the '
           'tree')
    expect(not res.children, 'the returned concept is not a leaf')
    for a, v in inst.items():
        expect(a in res.av_counts, 'the returned leaf lacks %r', a)
        vals = res.av_counts[a]
        if numeric and is_num(v):
            expect(cv_key in vals and vals[cv_key].num >= 1, 'the returned '
                   'leaf lacks %r=%r', a, v)
            if not hidden(a):
                expect(abs(vals[cv_key].mean - v) <= 1e-11 * max(1, abs(v)),
                       'the returned leaf lacks %r=%r', a, v)
        else:
            expect(vals.get(v, 0) >= 1, 'the returned leaf lacks %r=%r', a, v)
    extra = [a for a in res.av_counts if not hidden(a) and a not in inst]
    expect(not extra, 'the returned leaf has other attributes %r', extra)


def refine(model, imap=None):
    """C03/C07/C11/C12: post tree is an admissible successor of the pre tree.
    Returns (prep, monitor)."""
    def cls(i):
        return imap[i] if imap else i

    def prep(t, past, idx, st):
        return absify(t.root, model)

    def mon(t, past, idx, res, pre, st):
        tot = total_vec(model, [cls(i) for i in past + [idx]])
        ops = set()
        ok = model.fit(pre, cls(idx), tot, ops)
        for o in ops:
            st.add('op_' + o)
        st.add('model_successors', len(ok))
        post = absify(t.root, model)
        expect(post in ok, 'the hierarchy became %r (instance class counts), '
               'but only %r follow the rule; before it was %r', show(post),
               [show(x) for x in ok][:6], show(pre))
        # the instance really went to the returned concept
        expect(not res.children, 'returned concept is not a leaf')
        st.add('traces')
    return prep, mon
