"""C08 probabilities and weighted values."""
import math

from mc.core import expect
from mc.probe import sweeps, aligned, spaces, ALL
from mc.ref import hidden, is_num
from mc.tree import cv_key, make


def density(m, vec, a, v, total):
    n = sum(vec)
    num = m.table(vec)[a][1]
    if num is None:
        return 0.0
    scale, shift = 1.0, 0.0
    if m.scaling:
        s = m.scales(total)[m.inner_attr(a)]
        scale = m.scale_of(a, total)
        shift = s.mean
    x = (v - shift) / scale
    mu = (num.mean - shift) / scale
    sd = num.ustd() / scale
    var = sd * sd + 1 / (2 * math.pi)
    return (num.n / n) / math.sqrt(2 * math.pi * var) * math.exp(
        -(x - mu) ** 2 / (2 * var))


def monitor(t, m, total, al, classes, kind, st):
    # the reference knows leaves only by their visible class; where several
    # fitted instances share one, hidden attributes are checked at the root
    ambiguous = any(m.same(i, j) and m.cls[i] != m.cls[j]
                    for i in range(m.k) for j in range(i)
                    if total[i] or total[j])
    attrs = sorted({a for c in classes for a in c}, key=str) + ['never']
    for node, (vec, ch) in aligned(t, m):
        if node is t.root:
            vec = total
        tab = m.table(vec)
        n = sum(vec)
        for a in attrs:
            if hidden(a) and ambiguous and node is not t.root:
                continue
            nom, num = tab.get(a, ({}, None))
            have = sum(nom.values()) + (num.n if num else 0)
            expd = {v: c / n for v, c in nom.items()}
            if num:
                expd[cv_key] = num.n / n
            st.add('node_probes')
            for none in (True, False):
                got = node.get_weighted_values(a, allow_none=none)
                if a not in tab:
                    expect([tuple(x) for x in got] == [(None, 1.0)],
                           'weighted values of unseen %r: %r', a, got)
                    continue
                d = {}
                for v, w in got:
                    expect(not any(v is k or (v == k and type(v) is type(k))
                                   for k in d), 'value %r listed twice', v)
                    expect(w >= -1e-12, 'negative weight %r', got)
                    d[v] = w
                w_none = d.pop(None, None)
                if none:
                    expect(abs(sum(w for _, w in got) - 1) < 1e-9,
                           'weights of %r sum to %r: %r', a,
                           sum(w for _, w in got), got)
                    expect(w_none is None or abs(
                        w_none - (n - have) / n) < 1e-9,
                        'weight of missing %r is %r, expected %r', a, w_none,
                        (n - have) / n)
                else:
                    expect(w_none is None, 'missing offered though not '
                           'allowed: %r', got)
                expect(set(d) == set(expd) and all(
                    abs(d[v] - expd[v]) < 1e-9 for v in d),
                    'weighted values of %r: %r, relative frequencies %r', a,
                    got, expd)
            p = node.probability(a, None)
            expect(abs(p - (n - have) / n) < 1e-9, 'probability of %r missing '
                   'is %r, expected %r', a, p, (n - have) / n)
            vals = {(type(c[a]), c[a]) for c in classes if a in c}
            vals |= {(str, 'unseen')}
            if m.numeric:
                vals |= {(float, x) for x in (0.0, -1.0, 2.5, 40.0)}
                if num:
                    vals |= {(float, num.mean), (float, num.mean + 1)}
            for _, v in sorted(vals, key=repr):
                p = node.probability(a, v)
                if m.numeric and is_num(v):
                    e = density(m, vec, a, v, total) if a in tab else 0.0
                    expect(p <= (num.n / n if num else 0.0) + 1e-9,
                           'density %r of %r=%r exceeds the share of '
                           'instances having it', p, a, v)
                else:
                    e = nom.get(v, 0) / n
                tol = 1e-9 if m.eps < 1e-8 else 1e-6
                expect(abs(p - e) <= tol, 'probability of %r=%r is %r, '
                       'expected %r', a, v, p, e)


def run(R):
    spaces(R, monitor, 6 if R.thorough else 5, deep_=True)
    sweeps(R, monitor, every=4, stride=3)

    def empty(case, st):
        kind, a, v = case
        root = make(kind).root
        st.outcome(case)
        if v is None:
            expect(root.probability(a, None) == 1.0, 'missing has probability '
                   '%r in an empty concept', root.probability(a, None))
        else:
            expect(root.probability(a, v) == 0.0, 'unseen value')
        for none in (True, False):
            got = [tuple(x) for x in root.get_weighted_values(a, none)]
            expect(got == [(None, 1.0)], 'empty concept: weighted values %r',
                   got)
    R.enum('empty', lambda: [
        (k, a, v) for k in ('cobweb', 'c3', 'trestle', 'dummy')
        for a in ('a', '_h', ('r', 'x', 'y')) for v in (None, 'x', '')], empty)
