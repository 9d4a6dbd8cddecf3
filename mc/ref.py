"""Reference model of Cobweb / Cobweb3 on multisets of instances.

A concept is just the vector of how often each instance class occurs below it.
A tree is (vec, children) with children a sorted tuple of trees; leaves have
no children.  Nothing is shared with the library's code.
"""
import math
from fractions import Fraction
from numbers import Number

EPS = 1e-9


def is_num(v):
    return (isinstance(v, Number) and not isinstance(v, bool)
            and v == v)


def hidden(attr):
    return attr[0] == '_'


_c4 = {}


def c4(n):
    if n >= 30:
        return 1.0
    if n not in _c4:
        _c4[n] = (math.sqrt(2.0 / (n - 1)) *
                  math.exp(math.lgamma(n / 2.0) - math.lgamma((n - 1) / 2.0)))
    return _c4[n]


class Summary(object):
    """Exact statistics of a weighted sample [(value, count)]."""

    def __init__(self, pairs):
        pairs = [(Fraction(v), c) for v, c in pairs if c]
        self.n = sum(c for _, c in pairs)
        if self.n:
            self.fmean = sum(v * c for v, c in pairs) / self.n
            self.m2 = sum((v - self.fmean) ** 2 * c for v, c in pairs)
        else:
            self.fmean = Fraction(0)
            self.m2 = Fraction(0)
        self.mean = float(self.fmean)

    def ustd(self):
        if self.n < 2:
            return 0.0
        return math.sqrt(float(self.m2 / (self.n - 1))) / c4(self.n)

    def bstd(self):
        return math.sqrt(float(self.m2 / self.n))


class Model(object):
    """classes: list of instances (dicts).  numeric: treat numbers as
    continuous (Cobweb3) or as plain values (Cobweb)."""

    def __init__(self, classes, numeric=True, scaling=0.5, inner=True,
                 eps=EPS):
        self.cls = [dict(c) for c in classes]
        self.k = len(self.cls)
        self.numeric = numeric
        self.scaling = scaling if numeric else None
        self.inner = inner
        self.eps = eps
        self.zero = (0,) * self.k
        self._ecg = {}
        self._sum = {}
        self._tab = {}
        self.attrs_all = sorted({a for c in self.cls for a in c}, key=str)
        self.attrs_vis = [a for a in self.attrs_all if not hidden(a)]
        self.vis = [tuple(sorted(((a, self._vk(v)) for a, v in c.items()
                                  if not hidden(a)), key=repr))
                    for c in self.cls]

    def _vk(self, v):
        return ('n', v) if self.numeric and is_num(v) else ('v', v)

    def same(self, i, j):
        return self.vis[i] == self.vis[j]

    # -- statistics
    def table(self, vec):
        """attr -> ({value: count}, Summary or None)"""
        t = self._tab.get(vec)
        if t is None:
            t = {}
            for a in self.attrs_all:
                nom, num = {}, []
                for i, c in enumerate(vec):
                    if c and a in self.cls[i]:
                        v = self.cls[i][a]
                        if self.numeric and is_num(v):
                            num.append((v, c))
                        else:
                            nom[v] = nom.get(v, 0) + c
                if nom or num:
                    t[a] = (nom, Summary(num) if num else None)
            self._tab[vec] = t
        return t

    def inner_attr(self, a):
        return a[0] if isinstance(a, tuple) and self.inner else a

    def scales(self, total):
        """Everything fitted so far (class vector) -> {inner attr: Summary}"""
        s = self._sum.get(total)
        if s is None:
            acc = {}
            if self.numeric:
                for i, c in enumerate(total):
                    if c:
                        for a, v in self.cls[i].items():
                            if is_num(v):
                                acc.setdefault(self.inner_attr(a),
                                               []).append((v, c))
            s = {a: Summary(p) for a, p in acc.items()}
            self._sum[total] = s
        return s

    def scale_of(self, a, total):
        if not self.scaling:
            return 1.0
        s = self.scales(total).get(self.inner_attr(a))
        if s is None:
            return 1.0
        sc = s.ustd() / self.scaling
        return sc if sc > 0 else 1.0

    # -- utilities
    def ecg(self, vec, total):
        key = (vec, total if self.numeric else None)
        r = self._ecg.get(key)
        if r is not None:
            return r
        n = sum(vec)
        acc = []
        na = 0
        for a, (nom, num) in self.table(vec).items():
            if hidden(a):
                continue
            na += 1
            for c in nom.values():
                acc.append((c / n) ** 2)
            if num is not None:
                sd = num.ustd() / self.scale_of(a, total)
                sd = math.sqrt(sd * sd + 1 / (4 * math.pi))
                acc.append((num.n / n) ** 2 / (2 * math.sqrt(math.pi) * sd))
        r = math.fsum(acc) / na if na else 0.0
        self._ecg[key] = r
        return r

    def cu(self, vec, childvecs, total):
        if not childvecs:
            return 0.0
        n = sum(vec)
        return (math.fsum([sum(c) / n * self.ecg(c, total)
                           for c in childvecs])
                - self.ecg(vec, total)) / len(childvecs)

    def unit(self, i):
        return tuple(1 if j == i else 0 for j in range(self.k))

    @staticmethod
    def add(a, b):
        return tuple(x + y for x, y in zip(a, b))

    def cu_insert(self, node, ci, e, total):
        vec, ch = node
        return self.cu(self.add(vec, e),
                       [self.add(c[0], e) if j == ci else c[0]
                        for j, c in enumerate(ch)], total)

    def rel(self, cvec, e, total):
        n = sum(cvec)
        return ((n + 1) * self.ecg(self.add(cvec, e), total)
                - (n * self.ecg(cvec, total) if n else 0.0))

    def cu_new(self, node, e, total):
        vec, ch = node
        return self.cu(self.add(vec, e), [c[0] for c in ch] + [e], total)

    def cu_merge(self, node, i, j, e, total):
        vec, ch = node
        m = self.add(self.add(ch[i][0], ch[j][0]), e)
        return self.cu(self.add(vec, e),
                       [m] + [c[0] for k, c in enumerate(ch)
                              if k not in (i, j)], total)

    def cu_split(self, node, i, total):
        vec, ch = node
        return self.cu(vec, [c[0] for k, c in enumerate(ch) if k != i] +
                       [c[0] for c in ch[i][1]], total)

    def cu_fringe(self, node, e, total):
        vec, _ = node
        return self.cu(self.add(vec, e), [vec, e], total)

    # -- transitions
    def best_children(self, node, e, total):
        """[(best1, [best2 ...])] index pairs admissible within eps"""
        rel = [self.rel(c[0], e, total) for c in node[1]]
        eps = self.eps * max(1, sum(node[0]) + 1)
        out = []
        m = max(rel)
        for i, r in enumerate(rel):
            if r >= m - eps:
                rest = [j for j in range(len(rel)) if j != i]
                if rest:
                    m2 = max(rel[j] for j in rest)
                    b2 = [j for j in rest if rel[j] >= m2 - eps]
                else:
                    b2 = [None]
                out.append((i, b2))
        return out

    def norm(self, vec, children):
        return (vec, tuple(sorted(children)))

    def fit(self, tree, e_idx, total, ops=None):
        """All trees an admissible fit of class e_idx may lead to.  `total`
        already includes the instance.  Returns a set of trees."""
        memo = {}
        e = self.unit(e_idx)

        def go(node, depth=0):
            r = memo.get(node)
            if r is not None:
                return r
            if depth > 200:
                raise RuntimeError('reference recursion')
            vec, ch = node
            res = set()
            if not ch:
                if sum(vec) == 0 or self.leaf_match(vec, e_idx):
                    res.add((self.add(vec, e), ()))
                    if ops is not None:
                        ops.add('leaf')
                else:
                    res.add(self.norm(self.add(vec, e), [node, (e, ())]))
                    if ops is not None:
                        ops.add('fringe')
                memo[node] = res
                return res
            for i, b2s in self.best_children(node, e, total):
                ci = self.cu_insert(node, i, e, total)
                cn = self.cu_new(node, e, total)
                cs = self.cu_split(node, i, total) if ch[i][1] else None
                for j in b2s:
                    cm = (self.cu_merge(node, i, j, e, total)
                          if j is not None and len(ch) > 2 else None)
                    top = max(x for x in (ci, cn, cs, cm) if x is not None)
                    lim = top - self.eps
                    rest = [c for k, c in enumerate(ch) if k != i]
                    if ci >= lim:
                        if ops is not None:
                            ops.add('best')
                        for sub in go(ch[i], depth + 1):
                            res.add(self.norm(self.add(vec, e), rest + [sub]))
                    if cn >= lim:
                        if ops is not None:
                            ops.add('new')
                        res.add(self.norm(self.add(vec, e),
                                          list(ch) + [(e, ())]))
                    if cm is not None and cm >= lim:
                        if ops is not None:
                            ops.add('merge')
                        rest2 = [c for k, c in enumerate(ch)
                                 if k not in (i, j)]
                        m = self.norm(self.add(ch[i][0], ch[j][0]),
                                      [ch[i], ch[j]])
                        for sub in go(m, depth + 1):
                            res.add(self.norm(self.add(vec, e), rest2 + [sub]))
                    if cs is not None and cs >= lim:
                        if ops is not None:
                            ops.add('split')
                        for sub in go(self.norm(vec, rest + list(ch[i][1])),
                                      depth + 1):
                            res.add(sub)
            memo[node] = res
            return res
        return go(tree)

    def leaf_match(self, vec, e_idx):
        return all(self.same(i, e_idx) for i, c in enumerate(vec) if c)

    def categorize(self, tree, e, total):
        """Set of leaves (as (path) index tuples) admissible for unit/extra
        instance e given as class vector."""
        out = set()

        def go(node, path):
            if not node[1]:
                out.add(path)
                return
            for i, _ in self.best_children(node, e, total):
                go(node[1][i], path + (i,))
        go(tree, ())
        return out
