"""C10 numeric summaries against exact rational statistics."""
import copy
import itertools
import math
from fractions import Fraction

from concept_formation.continuous_value import ContinuousValue
from concept_formation import utils

from mc.core import expect
from mc.ref import Summary, c4

VALS = {
    'small': [0.0, 1.0, -2.5],
    'int': [0, 3, 7],
    'far': [1e9, 1e9 + 1, 1e9 + 2.5],
    'tiny': [1e-7, 3e-7, -2e-7],
    'mixed': [1e6, -4.0, 0.1],
}


def judge(cv, sample, what):
    n = len(sample)
    mag = max([1e-300] + [abs(float(v)) for v in sample])
    s = Summary([(v, 1) for v in sample])
    expect(cv.num == n, '%s: count %r of %r', what, cv.num, sample)
    expect(abs(cv.unbiased_mean() - s.mean) <= 1e-11 * mag,
           '%s: mean %r of %r', what, cv.unbiased_mean(), sample)
    expect(cv.mean == cv.unbiased_mean(), '%s: means differ', what)
    u = s.ustd()
    # the incremental formulas are accurate to about eps * magnitude
    tol = 1e-9 * u + 2e-14 * mag * max(4, n) ** 0.5
    got = cv.unbiased_std()
    expect(abs(got - u) <= tol or abs(got ** 2 - u ** 2) <= 1e-14 * mag * max(
        u, 1e-15 * mag) * 16, '%s: unbiased deviation %r of %r, expected %r',
        what, got, sample, u)
    if n < 2:
        expect(got == 0, '%s: unbiased deviation %r of %r', what, got, sample)
    if n:
        b = s.bstd()
        g = cv.biased_std()
        expect(abs(g - b) <= tol or abs(g ** 2 - b ** 2) <= 1e-14 * mag * max(
            b, 1e-15 * mag) * 16, '%s: biased deviation %r of %r, expected %r',
            what, g, sample, b)
        for sc in (0, -1.0, 0.5, 3.0):
            k = sc if sc > 0 else 1.0
            expect(abs(cv.scaled_biased_std(sc) - g / k) <= 1e-12 * (g / k),
                   '%s: scaled biased deviation (%r)', what, sc)
    for sc in (0, -1.0, 0.5, 3.0):
        k = sc if sc > 0 else 1.0
        expect(abs(cv.scaled_unbiased_std(sc) - got / k) <= 1e-12 * got / k,
               '%s: scaled unbiased deviation (%r)', what, sc)
        for sh in (0.0, 2.0):
            e = (cv.unbiased_mean() - sh) / k
            expect(abs(cv.scaled_unbiased_mean(sh, sc) - e) <= 1e-9 *
                   max(1, abs(e)), '%s: scaled mean (%r, %r)', what, sh, sc)
    j = cv.output_json()
    expect(j['mean'] == cv.unbiased_mean() and j['n'] == n and
           j['std'] == got, '%s: exported as %r', what, j)


def snap(cv):
    return (cv.num, cv.mean, cv.unbiased_std(),
            cv.biased_std() if cv.num else None)


def overlap(a, sa, b, sb):
    x, y = (Summary([(v, 1) for v in s]) for s in (sa, sb))
    noise = 1 / (4 * math.pi)
    var = x.ustd() ** 2 + y.ustd() ** 2 + 2 * noise
    e = math.exp(-(x.mean - y.mean) ** 2 / (2 * var)) / math.sqrt(
        2 * math.pi * var)
    got = a.integral_of_gaussian_product(b)
    expect(abs(got - e) <= 1e-6 * max(e, 1e-9) + 1e-12, 'integral of the '
           'product of %r and %r is %r, expected %r', sa, sb, got, e)
    expect(got <= 1 + 1e-9, 'integral exceeds 1')


def ops(vals):
    out = []
    for i in (0, 1):
        out += [('update', i, v) for v in vals]
        out.append(('batch', i, (vals[1], vals[0], vals[1])))
        out.append(('batch', i, (vals[2],)))
        out.append(('combine', i, 1 - i))
        out.append(('copy', i, 1 - i))
        out.append(('new', i, None))
    out.append(('combine', 0, 0))
    out.append(('batch', 0, ()))
    return out


FORMS = (list, tuple, iter)


def apply(pool, samples, op):
    k, i, x = op
    pool, samples = list(pool), list(samples)
    if k == 'update':
        pool[i].update(x)
        samples[i] = samples[i] + (x,)
    elif k == 'batch':
        pool[i].update_batch(FORMS[len(samples[i]) % 3](x))
        samples[i] = samples[i] + x
    elif k == 'combine':
        samples[i] = samples[i] + samples[x]
        pool[i].combine(pool[x])
    elif k == 'copy':
        pool[x] = pool[i].copy()
        expect(pool[x] is not pool[i], 'copy returns the same object')
        samples[x] = samples[i]
    elif k == 'new':
        pool[i] = ContinuousValue()
        samples[i] = ()
    return pool, samples


def run(R):
    depth = 6 if R.thorough else 5

    def gen():
        for name in sorted(VALS):
            o = ops(VALS[name])
            for first in itertools.product(range(len(o)), repeat=2):
                yield name, first

    def fn(case, st):
        name, first = case
        o = ops(VALS[name])
        seen = {}

        def go(pool, samples, left, trail):
            key = tuple((c.num, c.mean, c.biased_std() if c.num else 0.0)
                        for c in pool) + tuple(tuple(sorted(s))
                                               for s in samples)
            if seen.get(key, -1) >= left:
                return
            seen[key] = left
            if not left:
                return
            for op in (o if not trail_fixed(trail, first) else
                       [o[first[len(trail)]]]):
                p, s = apply(copy.deepcopy(pool), samples, op)
                t = trail + (op,)
                st.add('transitions')
                for k in (0, 1):
                    judge(p[k], s[k], 'after %r, summary %d' % (t, k))
                if s[0] and s[1]:
                    overlap(p[0], s[0], p[1], s[1])
                go(p, s, left - 1, t)
        go([ContinuousValue(), ContinuousValue()], [(), ()], depth - (name != 'small' and not R.thorough), ())
        for k in seen:
            st.outcome(k)
        st.add('traces', len(seen))

    def trail_fixed(trail, first):
        return len(trail) < len(first)
    R.enum('op-sequences', gen, fn)

    # every count, every split, all ways to combine three parts
    def pat(name, n):
        v = VALS[name]
        return tuple(v[(i * i + i // 3) % 3] for i in range(n))

    def build(s):
        c = ContinuousValue()
        c.update_batch(list(s))
        return c

    def counts(case, st):
        name, n = case
        s = pat(name, n)
        st.outcome(case)
        judge(build(s), s, 'batch')
        c = ContinuousValue()
        for v in s:
            c.update(v)
        judge(c, s, 'single updates')
        r = build(s[::-1])
        judge(r, s, 'reversed')
        for k in range(n + 1):
            a, b = build(s[:k]), build(s[k:])
            b0 = snap(b)
            a.combine(b)
            st.add('transitions')
            judge(a, s, 'parts of %d and %d' % (k, n - k))
            expect(snap(b) == b0, 'combining altered the other summary')
            if k % 3 == 0:
                for m in range(k, n + 1, 5):
                    x, y, z = build(s[:k]), build(s[k:m]), build(s[m:])
                    y.combine(z)
                    x.combine(y)
                    judge(x, s, 'three parts, right first')
                    x, y, z = build(s[:k]), build(s[k:m]), build(s[m:])
                    z.combine(x)
                    z.combine(y)
                    judge(z, s, 'three parts, rotated')
        if n:
            m = utils.mean(list(s))
            e = Summary([(v, 1) for v in s])
            mag = max(abs(float(v)) for v in s)
            expect(abs(m - e.mean) <= 1e-11 * mag, 'utils.mean %r', m)
            expect(abs(utils.std(list(s)) - e.bstd()) <= 1e-9 * e.bstd() +
                   1e-14 * mag, 'utils.std %r, expected %r',
                   utils.std(list(s)), e.bstd())
    R.enum('counts', lambda: [(n, k) for n in sorted(VALS) for k in range(
        0, 121 if R.thorough else 71)], counts)

    def factor(n, st):
        st.outcome(n)
        if n <= 1:
            try:
                utils.c4(n)
            except ValueError:
                return
            expect(False, 'correction for %d samples', n)
        expect(abs(utils.c4(n) - c4(n)) < 1e-12, 'correction for %d samples is'
               ' %r, expected %r', n, utils.c4(n), c4(n))
    R.enum('correction', lambda: range(0, 200), factor)

    # long runs
    def long_(case, st):
        name, w, n = case
        v = VALS[name]
        s = [v[w[i % len(w)]] for i in range(n)]
        c = ContinuousValue()
        for x in s:
            c.update(x)
        judge(c, s, 'run of %d' % n)
        st.outcome((name, w, n))
    R.enum('long', lambda: [
        (name, w, n) for name in sorted(VALS) for L in (1, 2, 3, 4)
        for w in itertools.product(range(3), repeat=L)
        for n in (29, 30, 31, 500)], long_)

    # large parts, and one summary used again and again
    def parts(case, st):
        name, a, b = case
        v = VALS[name]
        sa = [v[(i * i + i) % 3] for i in range(a)]
        sb = [v[(i + i // 7) % 3] for i in range(b)]
        x, y = build(sa), build(sb)
        y0 = snap(y)
        x.combine(y)
        judge(x, sa + sb, '%d and %d' % (a, b))
        expect(snap(y) == y0, 'combining altered the other summary')
        z = ContinuousValue()
        tot = []
        for k in range(12):
            z.combine(y)
            tot += sb
        judge(z, tot, '12 times %d' % b)
        expect(snap(y) == y0, 'combining altered the other summary')
        c = y.copy()
        c.update(v[0])
        judge(y, sb, 'after updating a copy')
        judge(c, sb + [v[0]], 'updated copy')
        c.update_batch(sa)
        judge(c, sb + [v[0]] + sa, 'updated by a batch of %d' % a)
        st.add('transitions', 14)
        st.outcome(case)
    R.enum('large parts', lambda: [
        (n, a, b) for n in sorted(VALS) for a in (0, 1, 2, 29, 30, 128, 700)
        for b in (1, 2, 31, 65, 128, 257, 1001)], parts)
