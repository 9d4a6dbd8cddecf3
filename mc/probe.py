"""Probing every concept of every reachable tree."""
import itertools
from fractions import Fraction

import numpy

from mc import rnd
from mc.core import Violation, expect
from mc.mon import model_for
from mc.tree import (explore_fits, run_history, periodic, absify, total_vec,
                     make, nodes)
from mc.worlds import NOM, NUM, HID, deep, sweep, heavy, blocks


def aligned(t, model):
    """[(real node, reference node)] in the same order"""
    out = []

    def go(n, a):
        out.append((n, a))
        for c, ca in zip(n.children, a[1]):
            go(c, ca)
    go(t.root, absify(t.root, model, sort=False))
    return out


def at_path(node, path):
    for i in path:
        node = node.children[i]
    return node


PROBES = {
    'n22': [{'a': 'x'}, {}, {'a': 'u', 'b': 'x'}, {'z': 'x'}],
    'nmiss': [{'a': 'x', 'b': 'q', 'c': 'w'}, {'b': 'z'}],
    'nfalsy': [{}, {'a': 'x'}, {'b': False}],
    'n3': [{'a': 'x', 'c': 'y'}, {'b': 'x'}, {}],
    'nval': [{'b': 'x'}, {'a': 't', 'b': 'y'}],
    'nset': [{'a': 'x'}, {'a': 'y', 'c': 'x', 'd': 'x'}, {}],
    'f1': [{'x': 0.5}, {}, {'x': 'n'}, {'y': 1.0}],
    'f2': [{'x': 5.0}, {'y': 2.5, 'z': 1.0}, {}],
    'fmix': [{'a': 'p'}, {'x': 4.5, 'a': 'z'}, {}],
    'fboth': [{'x': 1.5}, {'a': 'p'}],
    'ftext': [{'x': '1'}, {'x': 2.0}, {'a': 'p'}],
    'foff': [{'x': 1000002.0}, {'a': 'q'}],
    'fdec': [{'x': 0.3}, {'a': 'p'}],
    'ftype': [{'x': Fraction(9, 4)}, {'x': numpy.float64(1.5), 'a': 'p'}, {}],
    'frel': [{('len', 'u'): 1.5}, {'len': 2.0, 'a': 'p'}],
    'h1': [{'a': 'x', '_h': 'z'}, {}, {'a': 'w', '_k': 'p'}],
    'h2': [{'a': 'x'}, {('_', 'r', 'o'): 'p'}],
    'h3': [{'a': 'x', '_n': 50.0}, {'b': 'y'}],
    'h4': [{'x': 1.0}, {'x': 3.0, '_n': 7.0}],
}

ALL = dict(NOM)
ALL.update(NUM)
ALL.update(HID)


def spaces(R, monitor, depth, worlds=None, kinds=None, bound=1, long_=True,
           tag='', deep_=False):
    """Run monitor(t, model, total, al, classes, kind, st) in every state."""
    for name, al in ALL.items():
        if worlds and name not in worlds:
            continue
        ks = kinds(name) if kinds else default_kinds(name)
        for kind in ks:
            classes = al + PROBES[name]
            m = model_for(kind, classes, 1e-7 if name == 'foff' else 1e-9)

            def mon(t, past, idx, res, ctx, st, m=m, al=al, classes=classes,
                    kind=kind):
                monitor(t, m, total_vec(m, past + [idx]), al, classes, kind,
                        st)
            dd = depth - (1 if len(al) > 4 else 0) - (
                1 if kind.startswith('trestle') else 0)
            explore_fits(R, tag + 'hist/%s/%s' % (name, kind), kind, al, mon,
                         dd, bound=bound)
            if long_ and kind in ('cobweb', 'c3'):
                run_history(R, tag + 'long/%s/%s' % (name, kind), kind, al,
                            lambda al=al: periodic(len(al), 34, 2), mon,
                            policies=('first', 'alt'), every=4)
    if deep_:
        for name, (al, hists) in deep(R.thorough).items():
            for kind in ['cobweb', 'c3'] if name[0] == 'd' else ['c3',
                                                                 'c3:F:1']:
                m = model_for(kind, al, 1e-8)

                def mon(t, past, idx, res, ctx, st, m=m, al=al, kind=kind):
                    monitor(t, m, total_vec(m, past + [idx]), al, al, kind, st)
                hs = hists if R.thorough else hists[::6]
                run_history(R, tag + 'deep/%s/%s' % (name, kind), kind, al,
                            lambda hs=hs: iter(hs), mon, policies=('first',),
                            every=3)


def sweeps(R, monitor, every=5, tag='', kinds=None, prep=None, skip=(),
           mk=None, stride=1):
    """The size sweeps; monitor as in spaces() or, with mk, a monitor built by
    mk(model, alphabet, kind)."""
    def run(name, al, hists, ks, eps, ntol, pol, ev):
        if kinds:
            ks = kinds(ks)
        for kind in ks:
            m = model_for(kind, al, eps, ntol)
            pr = prep
            if mk:
                mon = mk(m, al, kind)
                if isinstance(mon, tuple):
                    pr, mon = mon
            else:
                def mon(t, past, idx, res, ctx, st, m=m, al=al, kind=kind):
                    monitor(t, m, total_vec(m, past + [idx]), al, al, kind, st)
            run_history(R, tag + 'sweep/%s/%s' % (name, kind), kind, al,
                        lambda hists=hists: iter(hists), mon, policies=pol,
                        every=ev, prep=pr)
    for name, (al, hists, ks, ntol) in sweep(R.thorough).items():
        if name not in skip:
            run(name, al, hists, ks, 1e-7 if name in ('far', 'ints') else 1e-8,
                ntol, ('first', 'last') if len(al) < 15 else ('first',),
                every)
    for name, (al, hists, ks) in heavy(R.thorough).items():
        if name not in skip:
            run(name, al, hists, ks, 1e-8, 1.0, ('first',), 4 * every)
    for name, (al, hists, ks) in blocks(R.thorough).items():
        if name not in skip and stride:
            run(name, al, hists[::1 if R.thorough else stride], ks, 1e-8, 1.0,
                ('first',), None)


def default_kinds(name):
    if name in NOM:
        return ['cobweb', 'c3']
    if name in ('h1', 'h2'):
        return ['cobweb', 'c3']
    if name in NUM:
        return ['c3', 'c3:F:1'] + (['c3:2.0:0'] if name == 'frel' else [])
    return ['c3']


def grouped(kind, groups, al):
    """a tree whose root has one child per group of instances (a leaf if the
    group has one)"""
    t = make(kind)
    for g in groups:
        if len(g) == 1:
            t.root.create_new_child(al[g[0]])
        else:
            c = t.root.create_new_child(al[g[0]])
            c.create_child_with_current_counts()
            for i in g[1:]:
                c.increment_counts(al[i])
                c.create_new_child(al[i])
        for i in g:
            t.root.increment_counts(al[i])
            if hasattr(t, 'update_scales'):
                t.update_scales(al[i])
    return t


def operations(R, judge, worlds, kinds):
    """Every concept-level operation on trees of every grouping of a few
    instances, and a fit afterwards; judge(tree, instances)."""
    def gen():
        for name, al in worlds.items():
            ids = range(min(4, len(al)))
            single = [(i,) for i in ids]
            pair = list(itertools.combinations(ids, 2))
            trip = list(itertools.combinations(ids, 3))
            for kind in kinds(name):
                for gs in itertools.product(pair, pair, single + pair[:2] +
                                            trip[:2]):
                    yield name, kind, gs
                for gs in itertools.product(trip, single + trip, single):
                    yield name, kind, gs
                for gs in itertools.product(single, single, single):
                    if len(set(gs)) == 3:
                        yield name, kind, gs

    def fn(case, st):
        name, kind, gs = case
        al = worlds[name]
        n = len(gs)
        seen = [i for g in gs for i in g]
        for op in ([('merge', i, j) for i in range(n) for j in range(n)
                    if i != j] + [('split', i, None) for i in range(n)
                                  if len(gs[i]) > 1] + [('new', 0, None)]):
            t = grouped(kind, gs, al)
            r = t.root
            kids = list(r.children)
            now = list(seen)
            what = '%s %r of groups %r' % (op[0], op[1:], gs)
            if op[0] == 'merge':
                new = r.merge(kids[op[1]], kids[op[2]])
                expect(new in r.children and set(map(id, new.children)) ==
                       {id(kids[op[1]]), id(kids[op[2]])}, '%s: the merged '
                       'concept has children %r', what, len(new.children))
            elif op[0] == 'split':
                r.split(kids[op[1]])
            else:
                r.increment_counts(al[0])
                r.create_new_child(al[0])
                now.append(0)
                if hasattr(t, 'update_scales'):
                    t.update_scales(al[0])
            judge(t, now, what)
            st.add('transitions')
            with rnd.Session():
                t.ifit(al[op[1]])
            judge(t, now + [op[1]], what + ', then fitting %d' % op[1])
        st.outcome(case)
    R.enum('operations', gen, fn)
