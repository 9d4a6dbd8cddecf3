"""C11 units do not matter: the real tree on affinely transformed data refines
the reference model on the untransformed data."""
import math

from mc.core import expect, runs
from mc.mon import model_for
from mc.probe import PROBES, at_path
from mc.props.c08 import density
from mc.ref import hidden, is_num
from mc.tree import (explore_fits, run_history, periodic, absify, total_vec,
                     show, cv_key, nodes)
from mc.worlds import NUM, sweep

MAPS = {
    'big': {'*': (1000.0, 0.0)},
    'small': {'*': (0.001, 0.0)},
    'micro': {'*': (2.0 ** -24, 0.0)},
    'mega': {'*': (2.0 ** 24, 2.0 ** 20)},
    'shift': {'*': (1.0, -500.0)},
    'units': {'x': (2.54, 32.0), 'y': (0.25, -7.0), 'len': (1024.0, 3.0),
              '*': (3.0, 1.0)},
    'each': {'x': (512.0, -1.0), 'y': (2.0 ** -9, 1000.0),
             'len': (0.01, -20.0), '*': (7.0, 0.5)},
}
WORLDS = dict(NUM)
del WORLDS['foff']
PROBES = dict(PROBES)


def inner(a):
    return a[0] if isinstance(a, tuple) else a


def tr(inst, mp):
    out = {}
    for a, v in inst.items():
        if is_num(v):
            k, c = mp.get(inner(a), mp['*'])
            v = v * k + c
        out[a] = v
    return out


def aligned(t, mt):
    out = []

    def go(n, a):
        out.append((n, a))
        for c, ca in zip(n.children, a[1]):
            go(c, ca)
    go(t.root, absify(t.root, mt, sort=False))
    return out


def setup(kind, classes, mp, nal, ntol=1.0):
    """m: untransformed reference, mt: reads the real (transformed) leaves"""
    eps = 1e-8
    m = model_for(kind, classes, eps)
    m.ntol = ntol
    mt = model_for(kind, [tr(c, mp) for c in classes], eps)
    mt.ntol = ntol * min([1.0] + [k for k, _ in mp.values()])
    scaled = bool(m.scaling)
    judge = m if scaled else mt

    def prep(t, past, idx, st):
        return absify(t.root, mt)

    def mon(t, past, idx, res, pre, st):
        total = total_vec(m, past + [idx])
        ok = judge.fit(pre, idx, total)
        post = absify(t.root, mt)
        expect(post in ok, 'the hierarchy became %r, for the original units '
               'only %r are possible', show(post), [show(x) for x in ok][:5])
        st.add('traces')
        sc = m.scales(total)
        # attributes whose scale is not yet determined
        flatline = {a for a, s in sc.items() if s.m2 == 0}
        for node, (vec, ch) in aligned(t, mt):
            u = node.category_utility()
            e = judge.cu(vec, [c[0] for c in ch], total)
            expect(abs(u - e) <= 1e-7, 'category utility %r, in the original '
                   'units %r', u, e)
            g = node.expected_correct_guesses()
            expect(abs(g - judge.ecg(vec, total)) <= 1e-7, 'expected correct '
                   'guesses %r, in the original units %r', g,
                   judge.ecg(vec, total))
            tab = m.table(vec)
            for a, (nom, num) in tab.items():
                if hidden(a):
                    continue
                for v in nom:
                    p = node.probability(a, v)
                    expect(abs(p - nom[v] / sum(vec)) < 1e-9, 'probability '
                           'of %r=%r is %r', a, v, p)
                if num is None:
                    continue
                k, c = mp.get(inner(a), mp['*'])
                cv = node.av_counts[a][cv_key]
                want = num.mean * k + c
                expect(abs(cv.unbiased_mean() - want) <= 1e-9 *
                       max(1, abs(want)), 'mean of %r is %r, expected %r', a,
                       cv.unbiased_mean(), want)
                if not nom and sum(vec) == num.n:
                    for s, got, err in runs(lambda s: node.predict(a)):
                        if err is not None:
                            raise err
                        expect(abs(got - want) <= 1e-9 * max(1, abs(want)),
                               'predicted %r for %r, expected %r', got, a,
                               want)
                if not scaled or m.inner_attr(a) not in flatline:
                    for v in (num.mean, num.mean + 0.7, 1.0, -2.0, 11.0):
                        p = node.probability(a, v * k + c)
                        e = (density(m, vec, a, v, total) if scaled else
                             density(mt, vec, a, v * k + c, total))
                        expect(abs(p - e) <= 1e-7, 'density %r of %r=%r, in '
                               'the original units %r', p, a, v, e)
        ab = absify(t.root, mt, sort=False)
        for i in range(nal, m.k):
            inst = m.cls[i]
            if scaled and any(is_num(v) and m.inner_attr(a) in flatline
                              for a, v in inst.items()):
                continue
            adm = [at_path(t.root, p)
                   for p in judge.categorize(ab, judge.unit(i), total)]
            real = tr(inst, mp)
            for s, got, err in runs(lambda s: t.categorize(real), bound=1,
                                    max_runs=8):
                if err is not None:
                    raise err
                expect(any(got is n for n in adm), 'categorizing %r gives '
                       'another leaf than %r in the original units', real,
                       inst)
    return prep, mon


def run(R):
    d = 6 if R.thorough else 4
    for name, al in WORLDS.items():
        probes = PROBES[name] + al
        for mn, mp in MAPS.items():
            kinds = ['c3', 'c3:2.0:0'] if mn == 'each' else ['c3']
            if mn == 'units':
                kinds += ['c3:F:1', 'trestle', 'c3:0.1:1', 'c3:1.0:1',
                          'c3:8.0:1', 'trestle:1.0:0']
            for kind in kinds:
                prep, mon = setup(kind, al + probes, mp, len(al))
                tal = [tr(i, mp) for i in al]
                explore_fits(R, 'hist/%s/%s/%s' % (name, mn, kind), kind, tal,
                             mon, d - (1 if kind not in ('c3', 'c3:F:1')
                                       else 0),
                             bound=1, prep=prep)
                if kind == 'c3' and mn in ('units', 'small'):
                    run_history(R, 'long/%s/%s' % (name, mn), kind, tal,
                                lambda al=al: periodic(len(al), 32, 2), mon,
                                policies=('first', 'alt'), prep=prep, every=5)

    # sizes
    for name, (al, hists, ks, ntol) in sweep(R.thorough).items():
        if 'c3:F:1' not in ks or name in ('far', 'ints', 'near', 'tiny'):
            continue
        for mn, kinds in (('units', ['c3', 'c3:F:1']), ('micro', ['c3']),
                          ('mega', ['c3', 'c3:1.0:1'])):
            mp = MAPS[mn]
            for kind in kinds:
                prep, mon = setup(kind, al, mp, 0)
                run_history(R, 'sweep/%s/%s/%s' % (name, mn, kind), kind,
                            [tr(i, mp) for i in al],
                            lambda hists=hists: iter(hists), mon,
                            policies=('first',), prep=prep, every=3)

    # settings named in the documentation all disable scaling
    def off(case, st):
        from concept_formation.cobweb3 import Cobweb3Tree
        from concept_formation.trestle import TrestleTree
        from mc import rnd
        name, cls, s, h = case
        al = WORLDS[name]
        t = {'c3': Cobweb3Tree, 'trestle': TrestleTree}[cls](scaling=s)
        for i in h:
            with rnd.Session():
                t.ifit(al[i])
        m = model_for('c3:F:1', al)
        total = total_vec(m, list(h))
        for node, (vec, ch) in aligned(t, m):
            expect(abs(node.category_utility() - m.cu(
                vec, [c[0] for c in ch], total)) < 1e-9, 'scaling=%r still '
                'rescales', s)
        st.outcome(case)

    def gen():
        import itertools
        for name in ('f1', 'f2', 'fmix'):
            for cls in ('c3', 'trestle'):
                for s in (False, None, 0):
                    for h in itertools.product(range(len(WORLDS[name])),
                                               repeat=4):
                        yield name, cls, s, h
    R.enum('disabled', gen, off)
