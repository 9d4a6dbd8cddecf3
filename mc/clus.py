"""Exploration shared by C18 and C19: every clustering produced is checked
against the hierarchy the instances ended up in."""
import copy
import itertools
import math

from concept_formation import cluster as lib

from mc import rnd
from mc.core import expect, runs
from mc.mon import model_for
from mc.tree import absify, full_dump, make, nodes, show
from mc.worlds import NOM, NUM, HID, deep, heavy, sweep
from mc.structured import S

INF = float('inf')


# ---------------------------------------------------------------- reference

class Hier(object):
    """The hierarchy as it is when the first clustering is produced."""

    def __init__(self, node):
        while node.parent is not None:
            node = node.parent
        self.root = node.concept_id
        self.kids, self.up, self.ids, self.node = {}, {}, {}, {}
        todo = [node]
        while todo:
            n = todo.pop()
            i = n.concept_id
            expect(i not in self.kids, 'concept %r appears twice', i)
            self.node[i] = n
            self.kids[i] = [c.concept_id for c in n.children]
            self.ids[i] = dict(n.av_counts.get('_id', {}))
            for c in n.children:
                self.up[c.concept_id] = i
            todo.extend(n.children)

    def leaves(self, i):
        if not self.kids[i]:
            return {i}
        return set().union(*[self.leaves(c) for c in self.kids[i]])

    def child_towards(self, i, leaf):
        for c in self.kids[i]:
            if leaf in self.leaves(c):
                return c


def first_cut(H, leaves):
    if not H.kids[H.root]:
        return [H.root] * len(leaves)
    return [H.child_towards(H.root, l) for l in leaves]


def options(H, cut, leaves):
    """all clusterings one split further: [(target, clustering)]"""
    out = []
    for t in sorted(set(cut), key=str):
        if H.kids[t] and t != H.root:
            out.append((t, [H.child_towards(t, l) if c == t else c
                            for c, l in zip(cut, leaves)]))
    return out


class Heur(object):
    """The documented heuristics, from the instances below each concept."""

    def __init__(self, H, leaves, model):
        self.m = model
        self.vec = {}

        def go(i):
            n = H.node[i]
            v = absify(n, model)[0]
            self.vec[i] = v
            for c in H.kids[i]:
                go(c)
        go(H.root)
        self.total = self.vec[H.root]
        self.leaves = leaves

    def CU(self, cut):
        m = self.m
        per = {}
        for c, l in zip(cut, self.leaves):
            per[c] = m.add(per.get(c, m.zero), self.vec[l])
        tot = m.zero
        for v in per.values():
            tot = m.add(tot, v)
        if not sum(tot):
            return 0.0
        return -m.cu(tot, list(per.values()), self.total)

    def ll(self, cut):
        s = 0.0
        for c, l in zip(cut, self.leaves):
            cv, lv = self.vec[c], self.vec[l]
            ct, lt = self.m.table(cv), self.m.table(lv)
            nc, nl = float(sum(cv)), float(sum(lv))
            for a in set(ct) | set(lt):
                if a[0] == '_':
                    continue
                cn, cs = ct.get(a, ({}, None))
                ln, ls = lt.get(a, ({}, None))
                for v, k in ln.items():
                    s += math.log(k / nl * cn[v] / nc)
                if ls is not None:
                    s1, s2 = cs.ustd(), ls.ustd()
                    var = s1 * s1 + s2 * s2 + 1 / (2 * math.pi)
                    d = cs.mean - ls.mean
                    s += math.log(cs.n / nc * ls.n / nl /
                                  math.sqrt(2 * math.pi * var)) - \
                        d * d / (2 * var)
                have = sum(ln.values()) + (ls.n if ls else 0)
                if have < nl:
                    hc = sum(cn.values()) + (cs.n if cs else 0)
                    s += math.log((nl - have) / nl * (nc - hc) / nc)
        return s

    def k(self, cut):
        k = 0
        for c in set(cut):
            for a, (nom, num) in self.m.table(self.vec[c]).items():
                if a[0] != '_':
                    k += len(nom) + (2 if num is not None else 0)
        return k

    def AIC(self, cut):
        return 2 * self.k(cut) - 2 * self.ll(cut)

    def BIC(self, cut):
        return self.k(cut) * math.log(len(cut)) - 2 * self.ll(cut)

    def AICc(self, cut):
        k, n = self.k(cut), len(cut)
        if n - k <= 1:
            return INF
        return self.AIC(cut) + 2.0 * k * (k + 1) / (n - k - 1)


def eq(a, b):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def below(a, b):
    """clearly smaller"""
    return a < b and not eq(a, b)


def pattern(seq):
    seen = {}
    return tuple(seen.setdefault(x, len(seen)) for x in seq)


# ------------------------------------------------------------------ one case

def prepared(kind, pre):
    t = make(kind)
    with rnd.Session():
        for i in pre:
            t.ifit(i)
    return t


def leaf_sets(t, insts):
    """leaf names an instance may be categorized to, over all tie-breaks"""
    out = []
    for i in insts:
        s = set()
        for _, r, err in runs(lambda _: t.categorize(i), max_runs=64):
            if err is not None:
                raise err
            s.add(r.concept_id)
        out.append(s)
    return out


def tagged(insts):
    return [dict(x, _id='i%d' % i) for i, x in enumerate(insts)]


class Run(object):
    """One complete run of cluster_iter, checked step by step."""

    def __init__(self, kind, al, pre, lst, mod, hname, policy, model, limit=50,
                 labels=False, prefix=()):
        self.kind, self.mod = kind, mod
        self.tree = t = prepared(kind, [al[i] for i in pre])
        self.insts = insts = tagged([al[i] for i in lst])
        saved = copy.deepcopy(insts)
        before = full_dump(t)
        sets = None if mod else leaf_sets(t, insts)
        self.calls = []
        fun = {'CU': lib.CU, 'AIC': lib.AIC, 'BIC': lib.BIC,
               'AICc': lib.AICc}[hname]
        named = {}

        self.H = None

        def heur(clusters, leaves):
            v = fun(clusters, leaves)
            if self.H is None:
                self.H = Hier(leaves[0])
                self.leaves = [x.concept_id for x in leaves]
            self.calls.append(([c.concept_id for c in clusters],
                               [x.concept_id for x in leaves], v))
            return v
        self.seq = []
        s = self.session = rnd.Session(prefix, policy=policy)
        with s:
            for n, (cl, h) in enumerate(lib.cluster_iter(
                    t, insts, heuristic=heur, minsplit=1, maxsplit=limit,
                    mod=mod, labels=labels)):
                expect(len(cl) == len(insts), '%d labels for %d instances',
                       len(cl), len(insts))
                if labels:
                    for x in cl:
                        expect(isinstance(x, str) and
                               x.startswith('Concept'), 'label %r', x)
                    names = {'Concept' + str(i): i for i in self.H.kids}
                    for x in cl:
                        expect(x in names, 'label %r is not the name of a '
                               'concept of the hierarchy', x)
                    self.seq.append(([names[x] for x in cl], h))
                else:
                    self.seq.append(([x.concept_id for x in cl], h))
                expect(n < limit, 'more clusterings than splits allowed')
        H = self.H
        expect(H is not None and self.seq, 'no clustering at all')
        # where the instances are
        expect(len(self.leaves) == len(insts), 'leaves of %d instances',
               len(self.leaves))
        for i, l in enumerate(self.leaves):
            expect(l in H.kids and not H.kids[l], 'instance %d is not at a '
                   'leaf', i)
            if mod:
                expect(H.ids[l].get('i%d' % i) == 1, 'instance %d is not in '
                       'the concept it is assigned to', i)
            else:
                expect(l in sets[i], 'instance %d is assigned to %r, but is '
                       'categorized to %r', i, l, sorted(map(str, sets[i])))
                own = {n.concept_id for n, _ in nodes(t)}
                expect(set(H.kids) == own, 'without fitting, the concepts are '
                       'not those of the tree')
        self.ref = Heur(H, self.leaves, model) if model else None
        # the chain of clusterings
        cut = first_cut(H, self.leaves)
        self.unique = True
        for n, (cl, h) in enumerate(self.seq):
            expect(cl == cut, 'clustering %d is %r, expected %r (hierarchy '
                   '%r)', n + 1, cl, cut, H.kids)
            opts = options(H, cut, self.leaves)
            if n + 1 == len(self.seq):
                expect(not opts or n + 1 == limit, 'stopped after %d '
                       'clusterings although %r can be split', n + 1,
                       [o[0] for o in opts])
                break
            nxt, hn = self.seq[n + 1]
            expect(any(o[1] == nxt for o in opts), 'clustering %d is %r, '
                   'which does not replace one cluster of %r by its children '
                   '(hierarchy %r)', n + 2, nxt, cut, H.kids)
            hs = [fun([H.node[c] for c in o[1]],
                      [H.node[c] for c in self.leaves])
                  if self.ref is None else getattr(self.ref, hname)(o[1])
                  for o in opts]
            best = min(hs)
            got = [x for o, x in zip(opts, hs) if o[1] == nxt][0]
            expect(not below(best, got), 'clustering %d has heuristic value '
                   '%r, but splitting another cluster gives %r', n + 2, got,
                   best)
            if sum(1 for x in hs if eq(x, best)) > 1:
                self.unique = False
            cut = nxt
        expect(full_dump(t) == before, 'clustering changed the tree')
        expect(insts == saved, 'clustering changed the instances')
        self.hname = hname
        self.fun = fun

    def values(self):
        """heuristic values as reported = documented ones"""
        for n, (cl, h) in enumerate(self.seq):
            e = getattr(self.ref, self.hname)(cl)
            expect(eq(h, e), 'clustering %d is rated %r by %s, expected %r',
                   n + 1, h, self.hname, e)
        for cl, lv, v in self.calls:
            e = getattr(self.ref, self.hname)(cl)
            expect(eq(v, e), '%s of %r is %r, expected %r', self.hname, cl, v,
                   e)


# --------------------------------------------------------------- enumeration

TR = {'s1': S['s1'], 's2': S['s2']}


def cases(R, heurs, small, catlen=3):
    """(world, kind, pre, instances, mod, heuristic, policy)"""
    worlds = [('n3', ['cobweb', 'c3']), ('nset', ['cobweb']),
              ('nmiss', ['cobweb', 'c3']), ('h1', ['cobweb']),
              ('f2', ['c3']), ('fmix', ['c3', 'c3:F:1']), ('n22', ['trestle']),
              ('s1', ['trestle']), ('s2', ['trestle'])]
    for w, kinds in worlds:
        al = world(w)
        k = range(len(al))
        for kind in kinds:
            words = [p for n in range(1, small + 1)
                     for p in itertools.product(k, repeat=n)]
            if kind == 'trestle':
                words = [p for p in words if len(p) < small]
            for h in heurs:
                for p in words:
                    pol = ('first', 'last', 'alt')[sum(p) % 3]
                    yield w, kind, (), p, True, h, pol
                for pre in itertools.product(k, repeat=2):
                    for p in itertools.product(k, repeat=2):
                        pol = ('first', 'last')[sum(p) % 2]
                        if kind == 'trestle' and sum(p) % 3:
                            continue
                        yield w, kind, pre, p, True, h, pol
                # categorize only: trained on everything, or part
                pres = [tuple(k), tuple(k) + tuple(reversed(k)),
                        tuple(k)[::2], (0,), ()]
                for pre in pres:
                    for p in words:
                        if len(p) > catlen - (kind == 'trestle'):
                            continue
                        yield w, kind, pre, p, False, h, 'first'
    # few values, many instances: enough data for the corrected criterion
    for w, kind in (('n22', 'cobweb'), ('h1', 'cobweb'), ('f1', 'c3'),
                    ('nval', 'cobweb')):
        k = len(world(w))
        for a, b, c in itertools.product(range(k), repeat=3):
            for n, (i, j, l) in enumerate(((9, 3, 2), (2, 2, 14), (12, 1, 1))):
                lst = (a,) * i + (b,) * j + (c,) * l
                lst = lst if (a + b) % 2 else tuple(
                    lst[(5 * q) % len(lst)] for q in range(len(lst)))
                for h in heurs:
                    yield w, kind, (), lst, True, h, 'first'
    for w, (al, hists) in deep(R.thorough).items():
        kinds = ['cobweb', 'c3'] if w[0] == 'd' else ['c3']
        for kind in kinds:
            for n, hh in enumerate(hists if R.thorough else hists[::5]):
                for h in heurs:
                    yield w, kind, (), hh[:9], True, h, 'first'
                    yield w, kind, hh, hh[3:12], False, h, 'first'
                    if n % 3 == 0:
                        yield w, kind, hh[:6], hh[6:], True, h, 'alt'
    # large numbers of instances, values, children and splits
    for w in ('vals', 'uniq', 'nums', 'wide8', 'widenum8', 'hvn', 'hvf'):
        al = world(w)
        kinds = ['c3'] if w in ('nums', 'widenum8', 'hvf') else ['cobweb',
                                                                 'c3']
        for kind in kinds:
            for h in heurs:
                for hh in big(w, R.thorough):
                    yield w, kind, (), hh, True, h, 'first'
                    yield w, kind, hh, hh[::2], False, h, 'first'
                    yield w, kind, hh[:7], hh[7:], True, h, 'alt'


def big(w, thorough):
    if w[0] == 'h':
        hs = heavy(False)[w][1][1:]
        return [x[:40] for x in (hs if thorough else hs[::2])]
    hs = sweep(False)[w][1]
    return hs if thorough else hs[::3]


_deep = {}


_c = [(c, 'a') for c in 'cdefghij']
_c2 = [(c, 'b') for c in 'cdefghij']
CROWD = {'crowd': [dict(_c, x=0.0), dict(_c2, x=0.0), dict(_c, x=1e3),
                   dict(_c2, x=5.0), dict(_c, x=1.0), dict(_c2, x=-2.0)]}


def world(w):
    for d in (NOM, NUM, HID, TR, CROWD):
        if w in d:
            return d[w]
    if not _deep:
        _deep.update(deep(False))
        _deep.update(sweep(False))
        _deep.update(heavy(False))
    return _deep[w][0]


def model_of(w, kind):
    if w in TR:
        return None
    k = kind if kind != 'trestle' else 'c3'
    return model_for(k, world(w), 1e-9)
