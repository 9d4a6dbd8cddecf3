"""Driving and observing the real trees."""
import itertools

from concept_formation.cobweb import CobwebTree, CobwebNode  # noqa: F401
from concept_formation.cobweb3 import Cobweb3Tree, cv_key
from concept_formation.trestle import TrestleTree
from concept_formation.dummy import DummyTree

from mc import rnd
from mc.core import Violation, expect, runs, h64
from mc.ref import hidden, is_num


def make(kind):
    """kind: 'cobweb', 'c3', 'c3:0.5:1' (scaling, inner), 'trestle[:s:i]',
    'dummy'"""
    p = kind.split(':')
    if p[0] == 'cobweb':
        return CobwebTree()
    if p[0] == 'dummy':
        return DummyTree()
    cls = {'c3': Cobweb3Tree, 'trestle': TrestleTree}[p[0]]
    if len(p) == 1:
        return cls()
    return cls(scaling=cfg_scaling(kind), inner_attr_scaling=cfg_inner(kind))


def cfg_scaling(kind):
    p = kind.split(':')
    if p[0] == 'cobweb':
        return None
    if len(p) == 1:
        return 0.5
    return {'F': False, '0': 0}.get(p[1]) if p[1] in 'F0' else float(p[1])


def cfg_inner(kind):
    p = kind.split(':')
    return True if len(p) < 3 else p[2] == '1'


def nodes(tree, limit=100000):
    """All (node, depth) below the root; fails on cycles."""
    out, todo, seen = [], [(tree.root, 0)], set()
    while todo:
        n, d = todo.pop()
        if id(n) in seen:
            raise Violation('a concept appears twice in the hierarchy')
        seen.add(id(n))
        out.append((n, d))
        if len(out) > limit:
            raise Violation('hierarchy does not end')
        for c in reversed(n.children):
            todo.append((c, d + 1))
    return out


def _rnd(x):
    return float('%.9g' % x) if isinstance(x, float) else x


def cvt(c):
    return ('cv', float(c.num), float(c.unbiased_mean()),
            float(c.unbiased_std()))


def table(node):
    """av_counts with numeric summaries as tuples"""
    out = {}
    for a, vals in node.av_counts.items():
        d = {}
        for v, c in vals.items():
            if isinstance(v, str) and v == cv_key:
                d[cv_key] = cvt(c)
            else:
                d[v] = c
        out[a] = d
    return out


def tkey(node, prec=True):
    items = []
    for a, vals in table(node).items():
        items.append((repr(a), sorted(
            ((type(v).__name__, repr(v)),
             tuple(_rnd(x) for x in c) if isinstance(c, tuple) else c)
            for v, c in vals.items())))
    items.sort()
    return items


def state_key(tree):
    def go(n):
        return (n.count, tkey(n), [go(c) for c in n.children])
    sc = getattr(tree, 'attr_scales', None) or {}
    return h64((go(tree.root), sorted(
        (repr(a),) + tuple(_rnd(x) for x in cvt(s))
        for a, s in sc.items())))


def full_dump(tree):
    """Everything a user could see, exactly (no rounding), plus identities."""
    out = []

    def go(n, parent):
        out.append((id(n), n.concept_id, id(n.parent) if n.parent is not None
                    else None, id(n.tree), n.count,
                    sorted(((repr(a), sorted((repr(v), repr(c)) for v, c in
                                             vals.items()))
                            for a, vals in table(n).items())),
                    [id(c) for c in n.children]))
        for c in n.children:
            go(c, n)
    go(tree.root, None)
    sc = getattr(tree, 'attr_scales', None)
    sc = None if sc is None else sorted(
        (repr(a),) + cvt(s) for a, s in sc.items())
    return (id(tree.root), out, sc, getattr(tree, 'scaling', None),
            getattr(tree, 'inner_attr_scaling', None))


def ordered(inst, k):
    """The same instance; every other time its attributes are listed in the
    opposite order (which must not matter)."""
    return dict(reversed(list(inst.items()))) if k % 2 else inst


def rebuild(kind, alphabet, hist, st=None):
    """Replay a history [(instance index, choices)] on a fresh tree."""
    t = make(kind)
    for k, (idx, ch) in enumerate(hist):
        s = rnd.Session(ch)
        with s:
            t.ifit(ordered(alphabet[idx], k))
        if st is not None and (s.divergences or len(s.points) != len(ch)):
            st.add('divergences')
    return t


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ------------------------------------------------------------- abstraction

def leaf_class(node, model):
    """Index of the visible class of a (pure) leaf of the real tree."""
    c = node.count
    t = {}
    for a, vals in node.av_counts.items():
        if hidden(a):
            continue
        if len(vals) != 1:
            raise Violation('leaf concept mixes values of %r: %r' % (a, vals))
        (v, cnt), = vals.items()
        if isinstance(v, str) and v == cv_key:
            if cnt.num != c:
                raise Violation('leaf concept mixes instances with and without'
                                ' %r: %r' % (a, node.av_counts))
            t[a] = ('n', cnt.mean)
        else:
            if cnt != c:
                raise Violation('leaf concept mixes instances with and without'
                                ' %r: %r' % (a, node.av_counts))
            t[a] = ('v', v)
    for i, sig in enumerate(model.vis):
        if len(sig) != len(t):
            continue
        ok = True
        for a, (k, v) in sig:
            w = t.get(a)
            if w is None or w[0] != k:
                ok = False
                break
            if k == 'n':
                if abs(w[1] - v) > 1e-6 * max(1.0, abs(v)) * model.ntol:
                    ok = False
                    break
            elif w[1] != v or type(w[1]) is not type(v):
                ok = False
                break
        if ok:
            return i
    raise Violation('leaf concept does not correspond to an instance that was '
                    'fitted: %r' % (table(node),))


def absify(node, model, sort=True):
    if not node.children:
        if node.count == 0:
            return (model.zero, ())
        i = leaf_class(node, model)
        n = node.count
        if n != int(n) or n < 1:
            raise Violation('leaf count %r' % n)
        return (tuple(int(n) if j == i else 0 for j in range(model.k)), ())
    ch = [absify(c, model, sort) for c in node.children]
    vec = model.zero
    for c in ch:
        vec = model.add(vec, c[0])
    return (vec, tuple(sorted(ch)) if sort else tuple(ch))


def total_vec(model, hist):
    v = [0] * model.k
    for i in hist:
        v[i] += 1
    return tuple(v)


def show(tree):
    return tree[0] if not tree[1] else [show(c) for c in tree[1]]


# ------------------------------------------------------ history exploration

def explore_fits(R, space, kind, alphabet, monitor, depth, bound=2,
                 max_runs=64, key_limit=None, events=None, prefixes=((),),
                 prep=None):
    """Every history of fits over `alphabet` up to `depth` (after each prefix
    history), every resolution of random choices with at most `bound`
    departures from the default per fit; states deduplicated.

    monitor(tree, past, idx, result, ctx, st): past = instance indices fitted
    before; ctx = prep(tree, past, idx) evaluated before the fit."""
    events = list(range(len(alphabet))) if events is None else events

    def expand(hist, st):
        out = []
        past = [i for i, _ in hist]
        for idx in events:
            stack = [()]
            n = 0
            while stack:
                prefix = stack.pop()
                t = rebuild(kind, alphabet, hist, st)
                ctx = prep(t, past, idx, st) if prep else None
                s = rnd.Session(prefix)
                with s:
                    res = t.ifit(ordered(alphabet[idx], len(hist)))
                n += 1
                st.add('transitions')
                try:
                    monitor(t, past, idx, res, ctx, st)
                except Violation as e:
                    raise Violation('%s: after fitting %r then %r (choices %r)'
                                    ': %s' % (kind,
                                              [alphabet[i] for i in past],
                                              alphabet[idx], s.taken, e))
                key = state_key(t)
                st.outcome(key)
                out.append((key, hist + ((idx, tuple(s.taken)),)))
                cost = 0
                alts = []
                for i, (m, c) in enumerate(s.points):
                    if i >= len(prefix) and cost + 1 <= bound:
                        for alt in range(m):
                            if alt != c:
                                alts.append(tuple(s.taken[:i]) + (alt,))
                    cost += 1 if c else 0
                if n + len(stack) + len(alts) > max_runs:
                    st.add('choice_caps')
                    alts = alts[:max(0, max_runs - n - len(stack))]
                stack.extend(reversed(alts))
        if len(hist) == 0 or len(st.samples) < 1:
            st.sample('%s %s: %d successors of history %r' % (
                space, kind, len(out), [alphabet[i] for i in past]))
        return out

    roots = [tuple((i, ()) if not isinstance(i, tuple) else i for i in p)
             for p in prefixes]
    R.search(space, roots, expand, depth, key_limit)


def periodic(nsym, length, maxper):
    """All words w^k of period <= maxper cut to `length`, distinct."""
    seen = set()
    for p in range(1, maxper + 1):
        for w in itertools.product(range(nsym), repeat=p):
            h = tuple(w[i % p] for i in range(length))
            if h not in seen:
                seen.add(h)
                yield h


def run_history(R, space, kind, alphabet, histories, monitor,
                policies=('first', 'last', 'alt'), every=1, prep=None):
    """Long histories, each under a few fixed tie-breaking policies."""
    def gen():
        for h in histories():
            for p in policies:
                yield (h, p)

    def fn(case, st):
        h, p = case
        t = make(kind)
        # very long histories are monitored at a few dozen points
        step = (1000000 if every is None else every if len(h) < 300 else
                max(every, len(h) // 40))
        for n, idx in enumerate(h):
            chk = n % step == 0 or n == len(h) - 1 or (
                every is None and h[n] != h[n - 1])
            past = list(h[:n]) if chk else None
            ctx = prep(t, past, idx, st) if prep and chk else None
            s = rnd.Session((), policy=p)
            with s:
                res = t.ifit(ordered(alphabet[idx], n))
            st.add('transitions')
            if chk:
                try:
                    monitor(t, past, idx, res, ctx, st)
                except Violation as e:
                    raise Violation(
                        '%s: after fitting (policy %s) %r then %r: %s' % (
                            kind, p, [alphabet[i] for i in past],
                            alphabet[idx], e))
        st.outcome(state_key(t))
    R.enum(space, gen, fn)
