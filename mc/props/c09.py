"""C09 inference and prediction."""
import itertools

from mc import rnd, structured
from mc.core import expect, runs
from mc.probe import aligned, at_path, spaces, sweeps, PROBES
from mc.mon import model_for
from mc.props.c14 import names_of, rename
from mc.ref import hidden, is_num
from mc.tree import (absify, cv_key, explore_fits, make, nodes,
                     total_vec)
from mc.worlds import NUM, sweep

MENU = tuple((j + 0.5) / 12 for j in range(12)) + (0.0, 1 - 2.0 ** -53)


def options(tab, n, a, allow_none):
    """[(value or None or ('num', mean, sd), weight)] for attribute a"""
    nom, num = tab[a]
    out = [(v, c) for v, c in nom.items()]
    if num:
        out.append((Num(('num', num.mean, num.ustd())), num.n))
    if allow_none:
        out.append((None, n - sum(c for _, c in out)))
    return out


class Num(tuple):
    """('num', mean, sd), unlike any nominal value"""


class Own(object):
    def __init__(self, cv):
        self.n, self.mean, self.sd = cv.num, cv.mean, cv.unbiased_std()

    def ustd(self):
        return self.sd


def own(node, a):
    nom = {v: c for v, c in node.av_counts[a].items()
           if not (isinstance(v, str) and v == cv_key)}
    cv = node.av_counts[a].get(cv_key)
    return nom, Own(cv) if cv is not None else None


def admissible(opts, fn, got):
    """Is `got` (None = nothing) an admissible choice?"""
    ml = fn in ('most likely', 'm')
    top = max(c for _, c in opts)
    for v, c in opts:
        if (c < top) if ml else (c <= 0):
            continue
        if v is None:
            if got is None:
                return True
        elif isinstance(v, Num):
            if got is None or not is_num(got):
                continue
            mags = (0.0,) if ml else (0.0, 1.0, -1.0)
            if any(abs(got - (v[1] + k * v[2])) <=
                   1e-6 * max(abs(v[1]), v[2]) + 1e-13 for k in mags):
                return True
        elif got is not None and type(got) is type(v) and got == v:
            return True
    return False


FNS = ('most likely', 'm', 'sampled', 's')


def monitor(t, m, total, al, classes, kind, st):
    # predictions of every concept
    for node, (vec, ch) in aligned(t, m):
        tab = dict(m.table(vec))
        n = sum(vec)
        for a in [a for a in list(tab) + list(node.av_counts) if hidden(a)]:
            # leaves are known only by their visible class; what a concept
            # holds of hidden attributes is C01's and C07's concern
            tab.pop(a, None)
            if a in node.av_counts:
                tab[a] = own(node, a)
        for a in list(tab) + ['never']:
            for fn, none in itertools.product(FNS, (True, False)):
                if a == 'never':
                    got = node.predict(a, fn, none)
                    expect(got is None, 'predicted %r for an unseen attribute',
                           got)
                    continue
                opts = options(tab, n, a, none)
                drawn = set()
                for s, got, err in runs(lambda s: node.predict(a, fn, none),
                                        bound=2, menu=MENU, max_runs=60):
                    if err is not None:
                        raise err
                    st.add('traces')
                    expect(admissible(opts, fn, got), 'predict(%r, %r, '
                           'allow_none=%r) = %r from %r', a, fn, none, got,
                           opts)
                    drawn.add(got)
                if (len(opts) == 1 and isinstance(opts[0][0], Num) and
                        fn[0] == 's' and opts[0][0][2] > 1e-6 * max(
                            1.0, abs(opts[0][0][1]))):
                    expect(len(drawn) > 1, 'predict(%r, %r) is always %r '
                           'although it is to be drawn from %r', a, fn, drawn,
                           opts)
            # the draw decides in proportion to the weights
            opts = options(tab, n, a, True) if a in tab else []
            if opts and n <= 12 and not any(
                    isinstance(v, Num) for v, _ in opts):
                seen = {}
                for j in range(n):
                    with rnd.Session(fixed=(j + 0.5) / n):
                        got = node.predict(a, 'sampled')
                    seen[got] = seen.get(got, 0) + 1
                expect(seen == {v: c for v, c in opts if c}, 'sampling %r '
                       'gives %r, weights are %r', a, seen, opts)
    infer(t, m, total, classes, st)


def infer(t, m, total, classes, st):
    ab = absify(t.root, m, sort=False)
    # exact leaf contents, hidden attributes included
    for i, inst in enumerate(classes):
        if len(classes) > 15 and i % 5 and i < len(classes) - 4:
            continue
        paths = m.categorize(ab, m.unit(i), total)
        leaves = [at_path(t.root, p) for p in paths]
        for fn, none in itertools.product(('most likely', 's'),
                                          (True, False)):
            given = dict(inst)
            for s, got, err in runs(
                    lambda s: t.infer_missing(inst, fn, none), bound=2,
                    menu=(0.5, 0.02, 0.98), max_runs=40):
                if err is not None:
                    raise err
                st.add('traces')
                expect(inst == given and got is not inst, 'infer_missing '
                       'changed or returned the given instance')
                for a, v in given.items():
                    expect(a in got and type(got[a]) is type(v) and
                           got[a] == v, 'given %r=%r became %r', a, v,
                           got.get(a))
                expect(any(explains(leaf, given, got, fn, none)
                           for leaf in leaves), 'infer_missing(%r, %r, '
                       'allow_none=%r) = %r is not explained by %r', inst, fn,
                       none, got, [x.av_counts for x in leaves])


def explains(leaf, given, got, fn, none):
    n = leaf.count
    for a in got:
        if a not in given and a not in leaf.av_counts:
            return False
    for a, vals in leaf.av_counts.items():
        if a in given:
            continue
        opts = []
        for v, c in vals.items():
            if isinstance(v, str) and v == cv_key:
                opts.append((Num(('num', c.mean, c.unbiased_std())), c.num))
            else:
                opts.append((v, c))
        if none:
            opts.append((None, n - sum(c for _, c in opts)))
        if not admissible(opts, fn, got.get(a)):
            return False
    return True


def kinds(name):
    from mc.probe import default_kinds
    # two-element tuple attributes come back nested from Trestle (C15)
    return default_kinds(name) + ([] if name in ('frel', 'h2') else
                                  ['trestle'])


def run(R):
    spaces(R, monitor, 5 if R.thorough else 4, kinds=kinds)

    # structured instances: given parts keep their place and names
    def parts(i, path=()):
        for a, v in i.items():
            if isinstance(v, dict):
                for x in parts(v, path + (a,)):
                    yield x
            else:
                yield path + (a,), v

    for name, al in structured.S.items():
        probes = al + [{'?q': {'x': 'p'}}, {'?o1': {'w': 1.0}}, {'k': 'c'}, {}]

        def mon(t, past, idx, res, ctx, st, probes=probes):
            values = set()
            for j in past + [idx]:
                values |= {repr(v) for _, v in parts(al[j])}
            for inst in probes:
                ref = repr(inst)
                given = structured.flat(inst)
                for fn, none in itertools.product(('m', 's'), (True, False)):
                    for s, got, err in runs(
                            lambda s: t.infer_missing(inst, fn, none),
                            bound=1, menu=(0.5, 0.02), max_runs=6):
                        if err is not None:
                            raise err
                        st.add('traces')
                        expect(repr(inst) == ref, 'instance modified')
                        out = structured.flat(got)
                        for a, v in given.items():
                            w = out.get(a)
                            expect(type(w) is type(v) and w == v, 'given %r=%r'
                                   ' became %r in %r', a, v, w, got)
                        # added constants come from what was fitted
                        for a, v in out.items():
                            if a in given or is_num(v):
                                continue
                            expect(repr(v) in values or v is True, 'inferred '
                                   'value %r was never fitted', v)
        explore_fits(R, 'struct/%s/trestle' % name, 'trestle', al, mon,
                     3 if R.thorough else 2, bound=1)

    # partial instances: every attribute alone, every attribute missing
    def mk(m, al, kind):
        attrs = sorted({a for i in al for a in i}, key=str)
        classes = list(al)
        for k, a in enumerate(attrs):
            i = al[k % len(al)]
            classes.append({x: v for x, v in i.items() if x != a})
            if a in i:
                classes.append({a: i[a]})
        classes.append({})
        m2 = model_for(kind, classes, m.eps, m.ntol)

        def mon(t, past, idx, res, ctx, st):
            total = total_vec(m2, past + [idx])
            if kind.startswith('trestle'):
                infer(t, m2, total, classes, st)
            else:
                monitor(t, m2, total, al, classes, kind, st)
        return mon
    ev = 12 if not R.thorough else 5
    sweeps(R, None, ev, kinds=lambda ks: ks[:1], mk=mk, stride=23)
    sweeps(R, None, ev, tag='trestle-', mk=mk, stride=0,
           kinds=lambda ks: ['trestle'] if 'c3' in ks else [],
           skip=('odd',) + tuple(x for x in sweep(R.thorough)
                                 if x.startswith('wide')))

    # structured instances with many objects, a part of them withheld
    def objs(n, kind, nest):
        N = ['?N%d' % k for k in range(n)]
        d = {}
        cur = d
        for k, o in enumerate(N):
            cur[o] = {'x': 'v%d' % k, 'w': float(k), 'y': 'pq'[k % 2],
                      '_g': k}
            cur = cur[o] if nest and k % 3 != 2 else d
        pairs = {'none': [], 'chain': zip(N, N[1:]),
                 'star': [(N[0], o) for o in N[1:]]}[kind]
        for a, b in pairs:
            d[('on', a, b)] = True
        d['k'] = 'c'
        return d

    def withhold(i):
        """i without one plain entry, for every entry but those that tell the
        objects apart"""
        for a, v in i.items():
            if isinstance(v, dict):
                for s in withhold(v):
                    yield {b: s if b == a else w for b, w in i.items()}
            elif a != 'x':
                yield {b: w for b, w in i.items() if b != a}

    def manys():
        for n in (1, 2, 3, 4, 6) + ((9,) if R.thorough else ()):
            for kind in ('none', 'chain', 'star'):
                for nest in (0, 1):
                    for times in (1, 3):
                        yield n, kind, nest, times

    def many(case, st):
        n, kind, nest, times = case
        full = objs(n, kind, nest)
        names = names_of(full)
        t = make('trestle')
        with rnd.Session():
            for k in range(times):
                t.ifit(rename(full, {o: o + 'abc'[k] for o in names}))
        want = structured.flat(full)
        for m in ({}, {o: '?o%d' % (k + 1) for k, o in enumerate(names)}):
            for part in withhold(full):
                part = rename(part, m)
                w = structured.flat(rename(full, m))
                given = structured.flat(part)
                for fn, none in itertools.product(('m', 's'), (True, False)):
                    with rnd.Session():
                        got = t.infer_missing(part, fn, none)
                    out = structured.flat(got)
                    st.add('traces')
                    for a, v in given.items():
                        expect(a in out and structured.same_val(v, out[a]),
                               'given %r=%r became %r', a, v, got)
                    expect(set(out) == set(w) and all(
                        structured.same_val(v, out[a]) or hidden(a)
                        for a, v in w.items()), 'all %d instances were %r; '
                        'inferring on %r gives %r', times, full, part, got)
        st.outcome(case)
    R.enum('many objects', manys, many)

    # one concept of many contents
    def contents():
        for kind in ('cobweb', 'c3'):
            for nv in (1, 2, 3, 5, 6, 7, 9, 12, 20):
                for shape in ('even', 'one often', 'rising'):
                    for miss in (0, 1, nv, 3 * nv):
                        for nums in ((0, 1, 4) if kind == 'c3' else (0,)):
                            yield kind, nv, shape, miss, nums

    def content(case, st):
        kind, nv, shape, miss, nums = case
        t = make(kind)
        n = t.root
        count = {}
        for k in range(nv):
            count['v%d' % k] = {'even': 1, 'rising': k + 1,
                                'one often': 4 if k == nv // 2 else 1}[shape]
        for v, c in count.items():
            for _ in range(c):
                n.increment_counts({'a': v, 'b': 'x'})
        for k in range(nums):
            n.increment_counts({'a': float(k), 'b': 'x'})
        for _ in range(miss):
            n.increment_counts({'b': 'x'})
        opts = list(count.items())
        if nums:
            opts.append((Num(('num', n.av_counts['a'][cv_key].mean,
                              n.av_counts['a'][cv_key].unbiased_std())), nums))
        total = sum(count.values()) + nums + miss
        for fn, none in itertools.product(FNS, (True, False)):
            o = opts + ([(None, miss)] if none else [])
            for s, got, err in runs(lambda s: n.predict('a', fn, none),
                                    bound=1, menu=MENU, max_runs=80):
                if err is not None:
                    raise err
                st.add('traces')
                expect(admissible(o, fn, got), 'predict(%r, allow_none=%r) = '
                       '%r from %r', fn, none, got, o)
            for s, got, err in runs(
                    lambda s: t.infer_missing({'b': 'x'}, fn, none),
                    bound=1, menu=MENU, max_runs=30):
                if err is not None:
                    raise err
                expect(got.get('b') == 'x' and set(got) <= {'a', 'b'} and
                       admissible(o, fn, got.get('a')), 'infer_missing(%r, '
                       'allow_none=%r) = %r from %r', fn, none, got, o)
        for none in (True, False):
            d = total if none else total - miss
            if nums or total > 60:
                continue
            seen = {}
            for j in range(d):
                with rnd.Session(fixed=(j + 0.5) / d):
                    got = n.predict('a', 'sampled', none)
                seen[got] = seen.get(got, 0) + 1
            expect(seen == {v: c for v, c in opts + (
                [(None, miss)] if none else []) if c}, 'sampling from %r '
                '(missing: %d) gives %r', opts, miss, seen)
        st.outcome(case)
    R.enum('contents', contents, content)

    # one concept of structured contents
    C = [{'k': 'c'}, {'?o1': {'x': 'p'}}, {'?o1': {'x': 'q', 'w': 1.0}},
         {'?o1': {'x': 'p', '?o2': {'y': 'r'}}},
         {'?o1': {'x': 'p'}, '?o2': {'y': 's'}, ('on', '?o1', '?o2'): True},
         {'p': {'z': 'u', 'k': 'c'}}, {'p': {'z': 'v'}, '?o3': {'w': 2.0}},
         {'?o1': {'x': 'p', '_g': 'h', '?o2': {'y': 'r', '?o3': {'w': 5.0}}}}]

    def mixes():
        for n in (1, 2, 3):
            for m in itertools.combinations(range(len(C)), n):
                for reps in itertools.product((1, 3), repeat=n):
                    yield m, reps

    def mix(case, st):
        m, reps = case
        t = make('trestle')
        for k, r in zip(m, reps):
            for _ in range(r):
                t.root.increment_counts(structured.flat(C[k]))
        with rnd.Session():
            for _ in range(5):
                t.gensym()
        for given in ({}, {'k': 'c'}, {'k': 'd', 'new': 1.0},
                      {'p': {'z': 'u'}}):
            g = structured.flat(given)
            for fn, none in itertools.product(('m', 's'), (True, False)):
                for s, got, err in runs(
                        lambda s: t.infer_missing(given, fn, none), bound=1,
                        menu=(0.5, 0.02, 0.98), max_runs=12):
                    if err is not None:
                        raise err
                    st.add('traces')
                    out = structured.flat(got)
                    expect(explains(t.root, g, out, fn, none),
                           'infer_missing(%r, %r, allow_none=%r) = %r is not '
                           'explained by %r', given, fn, none, got,
                           t.root.av_counts)
        st.outcome(case)
    R.enum('structured contents', mixes, mix)
