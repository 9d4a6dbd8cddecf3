"""C13 structure mapping: every (concept, instance) pair of a small grammar;
all assignments and neighbourhoods are enumerated with an independent cost."""
import itertools
import math

from concept_formation import structure_mapper
from concept_formation.structure_mapper import StructureMapper

from mc import rnd
from mc.core import expect
from mc.ref import hidden, is_num
from mc.structured import ren, variables
from mc.tree import make, cv_key, full_dump
from mc.ref import c4

hungarian = getattr(structure_mapper, 'hungarian_mapping', None)
OBJ = [{'x': 'p'}, {'x': 'q'}, {'x': 'p', 'y': 'r'}, {'w': 1.0},
       {'x': 'p', 'w': 4.0}, {'x': 'q', '_g': 'u'}]


def grammar(pre, sizes, maxrel=1, objs=range(len(OBJ))):
    """flat instances"""
    for n in sizes:
        for os in itertools.combinations_with_replacement(objs, n):
            names = ['?%s%d' % (pre, i) for i in range(n)]
            base = {}
            for nm, o in zip(names, os):
                for a, v in OBJ[o].items():
                    key = (a, nm)
                    base[('_', key) if a[0] == '_' else key] = v
            prs = list(itertools.permutations(names, 2))
            for r in range(0, maxrel + 1):
                for rel in itertools.combinations(prs, r):
                    d = dict(base)
                    for x, y in rel:
                        d[('on', x, y)] = True
                    yield d


SPECIAL = [
    {'k': 'c', ('x', '?s0'): 'p', ('near', '?s0', 'k'): True},
    {('x', '?s0'): 'p', ('x', '?s1'): 'q',
     ('has-component', '?s0', '?s1'): True},
    {('x', '?s0'): 'p', ('eq', ('x', '?s0'), ('x', '?s1')): True,
     ('_', 'lab', '?s1'): 'z'},
    {'?s0': 'p', ('x', '?s1'): 'p', ('x', ('c', '?s1')): 2.0},
    {'k': 'c'},
    {('on', '?s0', '?s1'): True, ('on', '?s1', '?s2'): True,
     ('on', '?s2', '?s0'): True},
    {('on', '?s0', '?s1'): 'far', ('x', '?s0'): 'p', ('x', '?s1'): 'p',
     ('x', '?s2'): 'q', ('w', '?s2'): 3.0},
]


def spec(pre):
    out = []
    for i in SPECIAL:
        m = {v: v.replace('?s', '?' + pre) for v in variables(i)}
        out.append({ren(a, m): v for a, v in i.items()})
    return out


def read(node):
    """{attr: ({value: count}, (n, mean, m2) or None)}"""
    out = {}
    for a, vals in node.av_counts.items():
        nom, num = {}, None
        for v, c in vals.items():
            if isinstance(v, str) and v == cv_key:
                b = c.biased_std()
                num = (c.num, c.mean, b * b * c.num)
            else:
                nom[v] = c
        out[a] = (nom, num)
    return out


class Cost(object):
    def __init__(self, tree, inst, scaling=0.5):
        self.tab = read(tree.root)
        self.n = tree.root.count + 1
        self.inst = inst
        self.scale = {}
        for a, s in tree.attr_scales.items():
            k = s.unbiased_std() / scaling if scaling else 0
            self.scale[a] = k if k > 0 else 1.0
        self.memo = {}

    def attr(self, a, v):
        """contribution of a visible attribute when v (or nothing) is added"""
        key = (a, type(v), v)
        r = self.memo.get(key)
        if r is not None:
            return r
        nom, num = self.tab.get(a, ({}, None))
        nom = dict(nom)
        if v is not None:
            if is_num(v):
                n, mean, m2 = num or (0, 0.0, 0.0)
                d = v - mean
                num = (n + 1, mean + d / (n + 1), m2 + d * d * n / (n + 1))
            else:
                nom[v] = nom.get(v, 0) + 1
        r = math.fsum((c / self.n) ** 2 for c in nom.values())
        if num:
            n, mean, m2 = num
            sd = (math.sqrt(max(0.0, m2) / (n - 1)) / c4(int(n))
                  if n > 1 else 0.0)
            sd /= self.scale.get(a[0] if isinstance(a, tuple) else a, 1.0)
            r += (n / self.n) ** 2 / (2 * math.sqrt(math.pi) * math.sqrt(
                sd * sd + 1 / (4 * math.pi)))
        self.memo[key] = r
        return r

    def __call__(self, mapping):
        """expected correct guesses after adding the renamed instance"""
        new = {ren(a, mapping): v for a, v in self.inst.items()}
        attrs = [a for a in set(self.tab) | set(new) if not hidden(a)]
        if not attrs:
            return 0.0
        return math.fsum(self.attr(a, new.get(a)) for a in attrs) / len(attrs)


def neighbours(m, free):
    """exchange two assignments / move one object to an unused name"""
    ks = list(m)
    for a, b in itertools.combinations(ks, 2):
        n = dict(m)
        n[a] = a if m[b] == b else m[b]
        n[b] = b if m[a] == a else m[a]
        yield n
    used = set(m.values())
    for a in ks:
        for c in free:
            if c not in used:
                n = dict(m)
                n[a] = c
                yield n


def around(cost, m, free):
    return max([cost(m)] + [cost(n) for n in neighbours(m, free)])


def before(m):
    """mappings from which m may have been reached without gain"""
    for a in m:
        if m[a] != a:
            yield dict(m, **{a: a})


def settled(cost, m, free):
    """no step improves m, or an equally good mapping one step away"""
    c = cost(m)
    if around(cost, m, free) <= c + 1e-9:
        return True
    for x in itertools.chain(neighbours(m, free), before(m)):
        if abs(cost(x) - c) <= 1e-9 and around(cost, x, free) <= c + 1e-9:
            return True
    return False


def starts(cost, vi, vc, eps):
    """assignments that are best one object at a time"""
    none = cost({})
    single = {o: {c: cost({o: c}) for c in vc} for o in vi}
    best, out = None, []

    def go(i, m, tot):
        nonlocal best, out
        if i == len(vi):
            if best is None or tot > best + eps:
                best, out = tot, [m]
            elif tot >= best - eps:
                out.append(m)
            return
        o = vi[i]
        go(i + 1, dict(m, **{o: o}), tot + none)
        for c in vc:
            if c not in m.values():
                go(i + 1, dict(m, **{o: c}), tot + single[o][c])
    go(0, {}, 0.0)
    out = [m for m in out]
    return out


def best_total(cost, vi, vc):
    """the best total over all one-to-one assignments (dynamic programming
    over the set of used names of the concept)"""
    none = cost({})
    gain = [[cost({o: c}) - none for c in vc] for o in vi]
    best = {0: 0.0}
    for row in gain:
        new = dict(best)
        for used, x in best.items():
            for j, g in enumerate(row):
                k = used | 1 << j
                if not used >> j & 1 and (k not in new or new[k] < x + g):
                    new[k] = x + g
        best = new
    return max(best.values())


def start_is_best(t, inst, st):
    """the default start, where it is available by itself"""
    if hungarian is None:
        return
    vc, vi = variables(t.root.av_counts), variables(inst)
    if not (vi and vc) or len(vc) > 12:
        return
    cost = Cost(t, inst)
    try:
        m = dict(hungarian(frozenset(vi), frozenset(vc), inst, t.root))
    except TypeError:
        # not callable like this (any more); what counts is the mapping
        return
    expect(set(m) == set(vi) and len(set(m.values())) == len(m) and all(
        c in vc or c == o for o, c in m.items()), 'start %r of %r', m, inst)
    none = cost({})
    got = math.fsum(cost({o: c}) - none for o, c in m.items() if c != o)
    best = best_total(cost, vi, vc)
    expect(got >= best - 1e-9, 'mapping %r to %r: the start %r gains %r one '
           'object at a time, %r is possible', inst, t.root.av_counts, m, got,
           best)
    st.add('starts')


def renaming(inst, got, mapping, vc, what):
    vi = variables(inst)
    expect(set(mapping) <= set(vi), '%s: mapping %r of objects %r', what,
           mapping, vi)
    full = {o: mapping.get(o, o) for o in vi}
    expect(len(set(full.values())) == len(full), '%s: two objects are mapped '
           'to one: %r', what, mapping)
    for o, c in full.items():
        expect(c in vc or c == o, '%s: %r is mapped to %r, which the concept '
               'does not know', what, o, c)
    e = {ren(a, full): v for a, v in inst.items()}
    expect(same(got, e), '%s: mapped to %r, renaming by %r gives %r', what,
           got, mapping, e)


def same(a, b):
    return (len(a) == len(b) and all(
        k in b and type(a[k]) is type(b[k]) and a[k] == b[k] for k in a))


def check(t, inst, st, initials=True, mapper=None, compare=True):
    start_is_best(t, inst, st)
    root = t.root
    vc = variables(root.av_counts)
    vi = variables(inst)
    before = full_dump(t)
    saved = dict(inst)
    cost = Cost(t, inst)

    def one(start, cands):
        sm = mapper or StructureMapper(root)
        with rnd.Session():
            got = (sm.transform(inst) if start is None else
                   sm.transform(inst, start))
        what = 'mapping %r to %r%s' % (inst, {a: v for a, v in
                                              root.av_counts.items()},
                                       '' if start is None else
                                       ' from %r' % (start,))
        mp = sm.get_mapping()
        renaming(inst, got, mp, vc, what)
        back = sm.undo_transform(got)
        expect(same(back, inst), '%s: undone to %r', what, back)
        expect(same(inst, saved), '%s: instance modified', what)
        st.add('transitions')
        if not (vi and vc):
            return
        c = cost(mp)
        expect(settled(cost, mp, vc), '%s: chose %r with expected correct '
               'guesses %r, which a single step improves', what, mp, c)
        if not cands or len(cands) > 40:
            st.add('starts_not_compared')
            return
        lim = min(around(cost, m, vc) for m in cands)
        expect(c >= lim - 1e-9, '%s: chose %r with expected correct guesses '
               '%r, although %r is at most one step from the start', what, mp,
               c, lim)
        st.outcome((repr(sorted(mp.items())), '%.9g' % c))
    if vi and vc:
        cands = starts(cost, vi, vc, 1e-9) if compare else []
        st.add('starts', len(cands))
    else:
        cands = [{}]
    one(None, cands)
    if initials and vi and vc:
        for m in assignments(vi, vc):
            kept = {o: c for o, c in m.items() if c in vc}
            one(dict(m), [kept])
            one(list(m.items()), [kept])
    expect(full_dump(t) == before, 'mapping changed the tree')


def assignments(vi, vc):
    """all partial one-to-one assignments"""
    def go(i, m):
        if i == len(vi):
            yield m
            return
        for x in go(i + 1, m):
            yield x
        for c in vc:
            if c not in m.values():
                for x in go(i + 1, dict(m, **{vi[i]: c})):
                    yield x
    return go(0, {})


def run(R):
    conc = list(grammar('a', (1, 2), 1)) + spec('a')
    small = [i for i in conc if len(i) <= 3][::2] + spec('a')[:5]
    targ = (list(grammar('b', (1, 2), 1)) + spec('b') +
            list(grammar('b', (3,), 1, objs=(0, 1, 3)))[::2])
    if R.thorough:
        targ += list(grammar('b', (3,), 2, objs=(0, 1, 2, 3)))

    def tree(h):
        t = make('trestle')
        for i in h:
            with rnd.Session():
                t.ifit(unflat(i))
        return t

    def unflat(i):
        return dict(i)

    def gen():
        for i in conc:
            yield (i,)
        for a, b in itertools.product(conc[::3] if not R.thorough else conc,
                                      small):
            yield a, b
        for a in small[::3]:
            for b in small[1::3]:
                for c in small[::4]:
                    yield a, b, c

    def fn(case, st):
        t = tree(case)
        ts = targ if len(case) == 1 or R.thorough else targ[::2]
        for i in ts:
            check(t, i, st, initials=(len(case) == 1 and len(
                variables(i)) <= 2 and len(i) <= 3) or R.thorough)
        # one mapper for many instances, and for a concept that grows
        sm = StructureMapper(t.root)
        one = {}
        for k in range(2):
            for i in ts[::3] if R.thorough else ts[k::9]:
                check(t, i, st, False, sm)
                one.clear()
                one.update(i)
                check(t, one, st, False, sm)
            sm.transform(ts[-1 - k])
            with rnd.Session():
                new = sm.transform(ts[k])
            t.root.increment_counts({
                ren(a, {o: o.replace('?b', '?n%d' % k)
                        for o in variables(new)}): v for a, v in new.items()})
        st.add('traces', len(ts))
        if len(st.samples) < 1:
            st.sample('%d mappings onto the concept of %r' % (len(ts), case))
    R.enum('pairs', gen, fn)

    # more objects: shapes of relations x values x sizes
    def shape(kind, n, pre, rot=0, val=0):
        names = ['?%s%d' % (pre, (k + rot) % n) for k in range(n)]
        d = {}
        for k, o in enumerate(names):
            if val == 0:
                d[('x', o)] = 'pq'[k % 2]
            elif val == 1:
                d[('x', o)] = 'p'
            elif val == 2:
                d[('w', o)] = float(k * k)
                d[('x', o)] = 'pqr'[k % 3]
            elif val == 3:
                d[('x', o)] = 'v%d' % k
            elif val == 4 and k % 3:
                d[('x', o)] = 'pq'[k // 3 % 2]
        pairs = {'none': [], 'chain': list(zip(names, names[1:])),
                 'cycle': list(zip(names, names[1:] + names[:1])),
                 'star': [(names[0], o) for o in names[1:]],
                 'tree': [(names[(k - 1) // 2], names[k])
                          for k in range(1, n)],
                 'two': [(a, b) for a, b in zip(names, names[2:])]}[kind]
        for a, b in pairs:
            d[('on', a, b)] = True
        return d

    def larges():
        kinds = ('none', 'chain', 'cycle', 'star', 'tree', 'two')
        for n in (3, 4, 5) + ((6,) if R.thorough else ()):
            for k1, v1 in itertools.product(kinds, range(5)):
                yield n, k1, v1

    def huges():
        for n in (6, 7, 8, 11) + ((14, 17) if R.thorough else ()):
            for k1, v1 in itertools.product(('none', 'chain', 'star', 'tree'),
                                            (0, 2, 3)):
                if n > 8 and v1 == 2 and not R.thorough:
                    continue
                yield n, k1, v1

    def huge(case, st):
        n, k1, v1 = case
        t = tree((shape(k1, n, 'a', 0, v1),))
        for m, rot in ((n, 0), (n, 2), (n - 2, 1)):
            i = shape(k1, m, 'b', rot, v1)
            check(t, i, st, initials=False, compare=False)
            begin(t, i, st, (0, 1) if n < 9 else (1,))
        st.add('traces')

    def large(case, st):
        n, k1, v1 = case
        a = shape(k1, n, 'a', 0, v1)
        if not a:
            return
        trees = [tree((a,))]
        if n < 5 or R.thorough:
            trees.append(tree((a, shape('chain', n - 1, 'a', 1, (v1 + 1) % 5),
                               a)))
        for t in trees:
            for k2 in sorted({k1, 'chain', 'star', 'cycle'}):
                for m in (n - 1, n, n + 1):
                    if m > 5 and not R.thorough:
                        continue
                    for rot in (0, 2):
                        v2 = v1 if rot or k2 == k1 else (v1 + 1) % 5
                        i = shape(k2, m, 'b', rot, v2)
                        if i:
                            check(t, i, st, initials=False)
                            begin(t, i, st)
        st.add('traces')

    def begin(t, i, st, shifts=(0, 1, 3)):
        vi = variables(i)
        vc = variables(t.root.av_counts)
        for k in shifts:
            m = {o: vc[(j + k) % len(vc)] for j, o in enumerate(vi)
                 if j < len(vc) and j != 2 * k}
            one_start(t, i, m, st)
            one_start(t, i, {o: m.get(o, vc[0]) for o in list(m)[:2]}, st)

    def one_start(t, i, m, st):
        if len(set(m.values())) < len(m):
            return
        sm = StructureMapper(t.root)
        with rnd.Session():
            got = sm.transform(i, dict(m))
        vc = variables(t.root.av_counts)
        mp = sm.get_mapping()
        what = 'mapping %r from %r' % (i, m)
        renaming(i, got, mp, vc, what)
        expect(same(sm.undo_transform(got), i), '%s: not restored', what)
        cost = Cost(t, i)
        c = cost(mp)
        expect(c >= around(cost, m, vc) - 1e-9, '%s: %r is worse than the '
               'start or a step from it', what, mp)
        expect(settled(cost, mp, vc), '%s: a single step improves %r', what,
               mp)
        st.add('transitions')
    R.enum('large', larges, large)
    R.enum('huge', huges, huge)

    # concept tables are mapped, too
    def tables(case, st):
        a, b = case
        ta, tb = make('trestle'), make('trestle')
        with rnd.Session():
            for _ in range(1 + len(a) % 2):
                ta.ifit(a)
            tb.ifit(b)
        tab = {ren(k, {v: v.replace('?o', '?z') for v in
                       variables(tb.root.av_counts)}): x
               for k, x in tb.root.av_counts.items()}
        sm = StructureMapper(ta.root)
        before = full_dump(ta), repr(sorted(tab.items(), key=repr))
        got = sm.transform(tab)
        vc = variables(ta.root.av_counts)
        mp = sm.get_mapping()
        full = {o: mp.get(o, o) for o in variables(tab)}
        expect(len(set(full.values())) == len(full), 'two objects of a table '
               'are mapped to one: %r', mp)
        expect(all(c in vc or c == o for o, c in full.items()), 'unknown '
               'object in %r', mp)
        expect(got == {ren(k, full): x for k, x in tab.items()}, 'table %r '
               'mapped to %r by %r', tab, got, mp)
        expect(sm.undo_transform(got) == tab, 'table not restored')
        expect((full_dump(ta), repr(sorted(tab.items(), key=repr))) == before,
               'mapping a table changed something')
        st.outcome((a and repr(a), repr(b)))
    R.enum('tables', lambda: itertools.product(conc[::2], conc[::3]), tables)
