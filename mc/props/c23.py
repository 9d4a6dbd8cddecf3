"""C23 weighted choices over the complete grid of draws."""
import itertools
import math

from concept_formation.utils import weighted_choice, most_likely_choice

from mc import rnd
from mc.core import expect, runs
from mc.tree import make

VECS = (0, 1, 2, 3)
EDGE = (0.0, 2.0 ** -60, 1 - 2.0 ** -53, 1.0)


def label(case, i):
    return case[i] if isinstance(case[i], str) else i


def run(R):
    L = 5 if R.thorough else 4

    def vectors():
        for n in range(1, L + 1):
            for w in itertools.product(VECS, repeat=n):
                yield tuple(w), 1
        for n in (2, 3):
            for w in itertools.product((0.0, 0.1, 0.2, 0.7), repeat=n):
                yield tuple(w), 10
        for w in ((1e-300, 1.0), (1e300, 1e300), (5, 0, 0, 0, 0, 1),
                  tuple([1] * 12), tuple([0] * 5 + [1]), (1e-12, 1e-12)):
            yield w, 1
        # the same proportions at other magnitudes
        for e in (-60, -34, -14, 14, 40):
            for w in itertools.product((0, 1, 3), repeat=3):
                yield tuple(x * 2.0 ** e for x in w), 2.0 ** -e
        for w in ((1, 200), (200, 1), (7, 1, 150, 2), tuple(range(1, 16)),
                  tuple([2, 0] * 20 + [1])):
            yield w, 1

        for n in (33, 60, 200):
            yield (1,) + (0,) * n, 1
            yield (0,) * n + (2,), 1
            yield (0,) * n + (1, 2) + (0,) * n, 1
            yield (2,) + (0,) * n + (1,), 1

        # many options, the heaviest (and a weight of zero) at every position
        for n in (33, 65, 130, 300):
            for at in sorted({0, 1, n // 2, n - 2, n - 1} | set(
                    range(0, n, 16)) | set(range(0, n, 7 if n < 99 else n))):
                w = [1] * n
                w[at] = 3
                w[at - 1] = 0
                yield tuple(w), 1

    reused = []

    def grid(case, st):
        w, mult = case
        tot = sum(w)
        # the same list object for all cases, changed in between
        opts = reused
        opts[:] = [('v%d' % i, x) for i, x in enumerate(w)]
        saved = list(opts)
        if not tot > 0:
            try:
                with rnd.Session(fixed=0.5):
                    got = weighted_choice(opts)
            except ValueError:
                st.outcome('refused')
                return
            expect(False, 'all weights are zero, but %r was chosen', got)
        units = [int(round(x * mult)) for x in w]
        n = sum(units)
        if mult == 1 and any(x != int(x) or x > 1e6 for x in w):
            n = 0
        counts = {}
        k = 4
        if 0 < n <= 1000:
            for j in range(n * k):
                with rnd.Session(fixed=(j + 0.5) / (n * k)):
                    got = weighted_choice(opts)
                counts[got] = counts.get(got, 0) + 1
                st.add('transitions')
            expect(counts == {'v%d' % i: u * k for i, u in enumerate(units)
                              if u}, 'weights %r: frequencies over all draws '
                   '%r', w, counts)
        for d in EDGE:
            with rnd.Session(fixed=d):
                got = weighted_choice(opts)
            st.add('transitions')
            expect(dict(opts)[got] > 0, 'weights %r, draw %r: %r has weight '
                   'zero', w, d, got)
        expect(opts == saved, 'options modified')
        st.outcome((w, sorted(counts.items())))
    R.enum('weighted', vectors, grid)

    # the same option listed several times
    def dups():
        for n in (2, 3, 4):
            for w in itertools.product((0, 1, 3), repeat=n):
                for names in itertools.product('ab', repeat=n):
                    yield names, w

    def dup(case, st):
        names, w = case
        opts = list(zip(names, w))
        want = {v: sum(x for y, x in opts if y == v) for v in set(names)}
        st.outcome(case)
        best = {v for v, x in opts if x == max(w)}
        for s, got, err in runs(lambda s: most_likely_choice(opts),
                                max_runs=50):
            if err is not None:
                raise err
            expect(got in best, '%r: %r is not the most likely', opts, got)
        n = sum(w)
        if not n:
            return
        counts = {}
        for j in range(n * 4):
            with rnd.Session(fixed=(j + 0.5) / (n * 4)):
                got = weighted_choice(opts)
            counts[got] = counts.get(got, 0) + 1
            st.add('transitions')
        expect(counts == {v: 4 * x for v, x in want.items() if x}, '%r: '
               'frequencies over all draws %r', opts, counts)
    R.enum('listed twice', dups, dup)

    # very unlike weights: each positive one is the outcome of some draw
    def unlike(w, st):
        opts = [('v%d' % i, x) for i, x in enumerate(w)]
        tot = sum(w)
        seen = set()
        for order in itertools.permutations(range(len(w))):
            at = 0.0
            for i in order:
                with rnd.Session(fixed=(at + w[i] / 2.0) / tot):
                    seen.add(weighted_choice(opts))
                st.add('transitions')
                at += w[i]
        want = {'v%d' % i for i, x in enumerate(w) if x}
        expect(seen == want, 'weights %r: only %r are ever chosen', w,
               sorted(seen))
        st.outcome(w)

    def unlikes():
        for e in (3, 6, 8, 10, 12):
            t = 10.0 ** -e
            for w in itertools.permutations((t, 1.0, 3.0)):
                yield w
            for w in itertools.permutations((t, 1.0, 0.0, 2 * t)):
                yield w
            yield (t, 1000.0)
            yield (1000.0, t)
    R.enum('unlike', unlikes, unlike)

    def ml(case, st):
        w, _ = case
        for names in ([('v%d' % i, x) for i, x in enumerate(w)],
                      [((None, 'b', 1.5, True)[i % 4], x)
                       for i, x in enumerate(w[:4])]):
            top = max(x for _, x in names)
            best = [v for v, x in names if x == top]
            seen = []
            for s, got, err in runs(lambda s: most_likely_choice(names),
                                    max_runs=300 if len(names) < 30 else 6):
                if err is not None:
                    raise err
                st.add('transitions')
                expect(any(got is b for b in best), 'weights %r: %r is not the'
                       ' most likely', names, got)
                if not any(got is x for x in seen):
                    seen.append(got)
            expect(len(seen) == len({id(b) for b in best}) or len(best) > 6,
                   'weights %r: only %r can be returned', names, seen)
        st.outcome(w)
    R.enum('most-likely', vectors, ml)

    def bad(case, st):
        w, = case
        opts = [('v%d' % i, x) for i, x in enumerate(w)]
        st.outcome(w)
        for f in (weighted_choice, most_likely_choice):
            for d in (0.0, 0.25, 0.5, 0.75, 1 - 2.0 ** -53):
                try:
                    with rnd.Session(fixed=d):
                        got = f(opts)
                except ValueError:
                    continue
                expect(False, '%s(%r) = %r', f.__name__, opts, got)

    def bads():
        yield (),
        for n in range(1, L + 1):
            for w in itertools.product((-1, -0.5, 0, 1, 3), repeat=n):
                if any(x < 0 for x in w):
                    yield w,
        for n in (33, 65, 130, 300):
            for at in sorted({0, 1, n // 2, n - 2, n - 1} | set(
                    range(0, n, 16))):
                yield (1,) * at + (-1,) + (2,) * (n - 1 - at),
    R.enum('rejected', bads, bad)
