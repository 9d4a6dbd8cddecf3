"""Structured (Trestle) instances: alphabets and an independent reading of
what an instance says."""
import itertools

from mc.core import Violation, expect
from mc.ref import hidden, is_num
from mc.tree import (table, cv_key, explore_fits, nodes)
from mc import mon

S = {
    # single objects
    's1': [{'?a': {'x': 'p'}}, {'?b': {'x': 'q'}}, {'?c': {'x': 'p', 'y': 'r'}},
           {'k': 'c', '?a': {'x': 'p'}}],
    # two objects and a relation
    's2': [{'?a': {'x': 'p'}, '?b': {'x': 'q'}, ('on', '?a', '?b'): True},
           {'?b': {'x': 'p'}, '?a': {'x': 'q'}, ('on', '?b', '?a'): True},
           {'?a': {'x': 'p'}, '?b': {'x': 'q'}, ('on', '?b', '?a'): True},
           {'?z': {'x': 'q'}}],
    # nesting, numbers, hidden, plain-valued variables
    's3': [{'?a': {'w': 1.0, '?b': {'x': 'p'}}, '_id': 'i1'},
           {'?o1': {'w': 5.0, '_g': 'u'}, 'c': {'x': 'p', 'y': {'z': 2}}},
           {'?v': 'p', '?a': {'w': 1.0}},
           {'_h': {'x': 'p'}, '?a': {'?b': {'x': 'q', '_g': 'u'}}}],
    # relations over features of sub-objects, nested relations
    's4': [{'?a': {'x': 'p', '?b': {'x': 'q'}},
            ('eq', ('x', '?a'), ('x', ('?b', '?a'))): True},
           {'?c': {'x': 'p'}, ('r', ('n', '?c', 'k'), '?c'): 2.5,
            ('_', 'hid', '?c'): 'z'},
           {'?a': {'x': 'q'}, '?b': {'x': 'q'}, '?d': {'x': 'q'},
            ('on', '?a', '?d'): True}],
}


# ---------------------------------------------------------------- reference

def is_var(x):
    return isinstance(x, str) and len(x) > 0 and x[0] == '?'


def flat(inst):
    """The flat, lifted form of an instance (names kept)."""
    raw = {}

    def walk(d, outer):
        for a, v in d.items():
            key = a
            if outer is not None:
                key = (a, outer)
                if a[0] == '_' or outer[0] == '_':
                    key = ('_', key)
            if isinstance(v, dict):
                walk(v, key)
            else:
                raw[key] = v
    walk(inst, None)
    out = {}
    seen = {r for key in raw if not hidden(key) for r in ties(key)}
    for key, v in raw.items():
        for r in ties(key):
            # what only hidden attributes tell is hidden
            out[r if r in seen else ('_', r)] = True
        out[lift(key)] = v
    return out


def lift(a):
    if not isinstance(a, tuple):
        return a
    if len(a) == 2:
        return a[0] if is_var(a[0]) else (a[0], lift(a[1]))
    return tuple(lift(x) for x in a)


def ties(a):
    if not isinstance(a, tuple):
        return []
    if len(a) != 2:
        return [r for x in a for r in ties(x)]
    chain = []
    cur = a
    while isinstance(cur, tuple) and len(cur) == 2:
        chain.append((cur[0], cur[1]))
        cur = cur[1]
    out = []
    if not isinstance(cur, str):
        last = None
    vars_ = [(h, rest) for h, rest in chain if is_var(h)]
    for i, (h, rest) in enumerate(vars_):
        if i + 1 < len(vars_) or isinstance(cur, str):
            out.append(('has-component', lift(rest), h))
    return out


def variables(attrs):
    out = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif is_var(x) and x not in out:
            out.append(x)
    for a in attrs:
        go(a)
    return out


def ren(x, m):
    if isinstance(x, tuple):
        return tuple(ren(y, m) for y in x)
    return m.get(x, x) if isinstance(x, str) else x


def same_val(v, w):
    if is_num(v) and is_num(w):
        return abs(v - w) <= 1e-6 * max(1.0, abs(v))
    return type(v) is type(w) and v == w


def isos(a, b):
    """All injective renamings m of a's variables onto b's with ren(a) == b
    (flat dicts)."""
    va, vb = variables(a), variables(b)
    if len(a) != len(b) or len(va) != len(vb):
        return

    def shape(x, o):
        if isinstance(x, tuple):
            return tuple(shape(y, o) for y in x)
        return ('*' if x == o else '?') if is_var(x) else x

    def sig(d, o):
        return sorted(repr((shape(k, o), 'num' if is_num(v) else v))
                      for k, v in d.items() if o in variables([k]))
    sb = {o: sig(b, o) for o in vb}
    cand = {}
    for o in va:
        so = sig(a, o)
        cand[o] = [x for x in vb if sb[x] == so]
    va = sorted(va, key=lambda o: len(cand[o]))
    left = [[] for _ in range(len(va) + 1)]
    for k, v in a.items():
        vs = variables([k])
        left[max([va.index(o) + 1 for o in vs] or [0])].append((k, v))

    def go(i, m):
        for k, v in left[i]:
            kk = ren(k, m)
            if kk not in b or not same_val(v, b[kk]):
                return
        if i == len(va):
            yield dict(m)
            return
        for c in cand[va[i]]:
            if c not in m.values():
                for x in go(i + 1, dict(m, **{va[i]: c})):
                    yield x
    for m in go(0, {}):
        yield m


def iso(a, b):
    for m in isos(a, b):
        return True
    return False


# ----------------------------------------------------------------- monitors

def sums_of(node):
    """attr -> {value: count} with numbers as ('cv', n, total)"""
    out = {}
    for a, vals in table(node).items():
        out[a] = {v: (('cv', c[1], c[1] * c[2]) if v == cv_key else c)
                  for v, c in vals.items()}
    return out


def delta(pre, post):
    """The one instance by which two tables differ."""
    out = {}
    for a, vals in post.items():
        for v, c in vals.items():
            o = pre.get(a, {}).get(v)
            if isinstance(c, tuple):
                n = c[1] - (o[1] if o else 0)
                tot = c[2] - (o[2] if o else 0.0)
                if n == 0:
                    expect(abs(tot) < 1e-6 * max(1, abs(c[2])), 'numbers of %r'
                           ' changed without a new value', a)
                    continue
                expect(n == 1, '%d new numbers for %r after one fit', n, a)
                expect(a not in out, 'two new values for %r', a)
                out[a] = tot
            else:
                n = c - (o or 0)
                if n == 0:
                    continue
                expect(n == 1, 'count of %r=%r changed by %r in one fit', a, v,
                       n)
                expect(a not in out, 'two new values for %r', a)
                out[a] = v
    for a, vals in pre.items():
        for v in vals:
            expect(v in post.get(a, {}), '%r=%r disappeared from the root', a,
                   v)
    return out


def prep_root(t, past, idx, st):
    return sums_of(t.root)


def conserve(al):
    flats = [flat(i) for i in al]

    def mon_(t, past, idx, res, pre, st):
        expect(t.root.count == len(past) + 1, 'root count %r after %d fits',
               t.root.count, len(past) + 1)
        d = delta(pre, sums_of(t.root))
        expect(iso(flats[idx], d), 'the root gained %r, which is not %r up to '
               'object names', d, flats[idx])
        mon.sums(t)
    return mon_


def conservation(R):
    for name, al in S.items():
        d = 5 if R.thorough else 4
        explore_fits(R, 'struct/%s/trestle' % name, 'trestle', al,
                     conserve(al), d, bound=1, prep=prep_root)


def leaf_instance(node):
    out = {}
    for a, vals in node.av_counts.items():
        if hidden(a):
            continue
        (v, c), = vals.items()
        out[a] = c.mean if v == cv_key else v
    return out


def wf(al):
    vis = [{a: v for a, v in flat(i).items() if not hidden(a)} for i in al]

    def mon_(t, past, idx, res, ctx, st):
        ns = mon.well_formed(t)
        expect(any(res is n for n, _ in ns), 'the returned concept is not in '
               'the tree')
        expect(not res.children, 'the returned concept is not a leaf')
        got = leaf_instance(res)
        expect(iso(vis[idx], got), 'the returned leaf holds %r, not %r', got,
               vis[idx])
    return mon_


def wellformed(R):
    for name, al in S.items():
        d = 5 if R.thorough else 4
        explore_fits(R, 'struct/%s/trestle' % name, 'trestle', al,
                     wf(al), d, bound=1)
