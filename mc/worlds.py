"""Alphabets."""
import collections
import itertools
from fractions import Fraction

import numpy


def prod(**kw):
    out = [{}]
    for a, vals in kw.items():
        out = [dict(d, **({a: v} if v is not None else {}))
               for d in out for v in vals]
    return out


# nominal worlds (work for all learners)
NOM = {
    # two binary attributes
    'n22': prod(a=['x', 'y'], b=['x', 'y']),
    # missing attributes, the empty instance
    'nmiss': [{'a': 'x', 'b': 'y'}, {'a': 'x'}, {'b': 'y'}, {},
              {'a': 'z', 'b': 'y'}],
    # falsy and odd values, tuple attribute
    'nfalsy': [{'a': ''}, {'a': False, 'b': 'q'}, {'a': 'x', 'b': ''},
               {('rel', 'u', 'v'): False, 'a': ''}],
    # three attributes, overlapping families: merges and splits
    'n3': [{'a': 'x', 'b': 'x', 'c': 'x'}, {'a': 'x', 'b': 'x', 'c': 'y'},
           {'a': 'y', 'b': 'y', 'c': 'y'}, {'a': 'y', 'b': 'y', 'c': 'x'},
           {'a': 'x', 'b': 'y', 'c': 'z'}],
    # many values of one attribute
    'nval': [{'a': 'p', 'b': 'x'}, {'a': 'q', 'b': 'x'}, {'a': 'r', 'b': 'x'},
             {'a': 's', 'b': 'y'}],
    # different attribute sets
    'nset': [{'a': 'x', 'b': 'x'}, {'c': 'x', 'd': 'x'}, {'a': 'x', 'c': 'x'},
             {'b': 'x', 'd': 'x', 'e': 'x'}],
}

# numeric / mixed worlds (Cobweb3, Trestle)
NUM = {
    'f1': [{'x': 0.0}, {'x': 1.0}, {'x': 10.0}, {'x': -3.5}],
    'f2': [{'x': 1.0, 'y': 2.0}, {'x': 1.0, 'y': 7.0}, {'x': 5.0, 'y': 2.0},
           {'x': 6.0, 'y': 8.0}],
    'fmix': [{'x': 0, 'a': 'p'}, {'x': 4, 'a': 'p'}, {'x': 4, 'a': 'q'},
             {'a': 'q'}, {'x': 9}],
    # same attribute numeric in one instance and nominal in the other
    'fboth': [{'x': 1.0}, {'x': 'one'}, {'x': 2.0, 'a': 'p'}, {'x': True}],
    'foff': [{'x': 1000000.0, 'a': 'p'}, {'x': 1000001.0, 'a': 'q'},
             {'x': 1000003.0, 'a': 'p'}],
    # values that are not exact in binary
    'fdec': [{'x': 0.1, 'a': 'p'}, {'x': 0.7, 'a': 'p'}, {'x': 1.9}],
    # relational numeric attributes share the scale of the inner attribute
    'frel': [{('len', 'u'): 1.0, ('len', 'v'): 30.0},
             {('len', 'u'): 2.0, ('len', 'v'): 10.0},
             {'len': 5.0, ('len', 'u'): 1.0},
             {('len', 'u'): 2.0, 'a': 'p'}],
    # numbers, and texts that read like them
    'ftext': [{'x': 1.0, 'a': 'p'}, {'x': '1.0', 'a': 'p'}, {'x': '1.0'},
              {'x': 1.0}, {'x': '#'}],
    # numbers of different types
    'ftype': [{'x': Fraction(1, 2), 'a': 'p'}, {'x': numpy.float64(0.5)},
              {'x': numpy.int64(4), 'a': 'p'}, {'x': 4}, {'x': 2.25}],
}

# hidden attributes
HID = {
    'h1': [{'a': 'x', '_h': 'p'}, {'a': 'x', '_h': 'q'}, {'a': 'y', '_h': 'p'},
           {'a': 'y'}, {'_h': 'p'}],
    'h2': [{'a': 'x', ('_', 'r', 'o'): 'p'}, {'a': 'x', ('_', 'r', 'o'): 'q'},
           {'a': 'y', '_g': 1}, {'a': 'x', '_g': 2},
           {'a': 'y', 'b': 'x', '_h': True}],
    # hidden values disagree with the visible grouping, hidden numerics
    'h3': [{'a': 'x', 'b': 'x', '_n': 100.0}, {'a': 'x', 'b': 'y', '_n': 0.0},
           {'a': 'y', 'b': 'y', '_n': 100.0, '_m': 'z'},
           {'a': 'y', 'b': 'x', '_m': 'z'}],
    'h4': [{'x': 1.0, '_n': 5.0}, {'x': 1.0, '_n': 7.0}, {'x': 4.0, '_n': 5.0},
           {'x': 9.0, '_k': 'v'}],
}


def deep(thorough):
    """Wider alphabets with structured sets of long histories: all rotations
    and strides of a listing of the alphabet, each repeated twice (every
    instance is met again in a grown tree)."""
    al8 = prod(a=['x', 'y'], b=['x', 'y'], c=['x', 'y'])
    al9 = prod(a=['x', 'y', 'z'], b=['x', 'y', None], c=['p'])
    num9 = [{'x': float(i * i), 'y': float((i * 5) % 9)} for i in range(9)]
    mix8 = [{'x': float(i), 'a': 'pq'[i % 2], 'b': 'rst'[i % 3]}
            for i in range(8)]

    def hists(n):
        out = []
        for stride in range(1, n):
            seq, seen = [], set()
            i = 0
            while len(seq) < n:
                while i in seen:
                    i = (i + 1) % n
                seq.append(i)
                seen.add(i)
                i = (i + stride) % n
            for rot in range(0, n, 1 if thorough else 2):
                s = seq[rot:] + seq[:rot]
                out.append(tuple(s + s))
                out.append(tuple(s + s[::-1]))
                out.append(tuple(x for x in s for _ in (0, 1)))
        return sorted(set(out))
    return {'d8': (al8, hists(8)), 'd9': (al9, hists(9)),
            'e9': (num9, hists(9)), 'e8': (mix8, hists(8))}


def _orders(n, rep=1, strides=(1, 5, 7)):
    out = []
    for st in strides:
        seq, seen, i = [], set(), 0
        while len(seq) < n:
            while i in seen:
                i = (i + 1) % n
            seq.append(i)
            seen.add(i)
            i = (i + st) % n
        out.append(tuple(seq) * rep)
        out.append(tuple(reversed(seq)) * rep)
    return sorted(set(out))


def wide(w, numeric, n=6):
    """n instances with up to w attributes of every sort."""
    out = []
    for i in range(n):
        d = {}
        for j in range(w):
            sort = j % 7
            if sort == 0:
                d['a%d' % j] = 'uvw'[(i + j) % 3]
            elif sort == 1:
                d['_h%d' % j] = 'pq'[(i * j) % 2]
            elif sort == 2:
                if (i + j) % 3:
                    d['m%d' % j] = 'rs'[i % 2]
            elif sort == 3:
                d['x%d' % j] = (float((i * (j + 2)) % 5) if numeric
                                else 'n%d' % ((i * (j + 2)) % 5))
            elif sort == 4:
                # sometimes a number, sometimes a name
                d['b%d' % j] = (i * 1.5 if numeric and i % 2 else
                                'one' if i % 3 else 'two')
            elif sort == 5:
                d[('len', 'o%d' % (j % 4))] = (float(i + j) if numeric else
                                               'l%d' % ((i + j) % 3))
            else:
                d['_n%d' % j] = float(i % 3) if numeric else 'k%d' % (i % 3)
        out.append(d)
    return out


def sweep(thorough):
    """Sizes far beyond the exhaustive spaces: name -> (alphabet, histories,
    kinds, relative tolerance of numeric identity).  All listed orders."""
    out = {}
    c3 = ['c3', 'c3:F:1']
    for w in (5, 8, 14) + ((25,) if thorough else ()):
        out['wide%d' % w] = (wide(w, False), _orders(6, 2), ['cobweb', 'c3'],
                             1.0)
        out['widenum%d' % w] = (wide(w, True), _orders(6, 2), c3, 1.0)
    # many children, deep trees
    vals = [{'a': 'v%d' % i, 'b': 'w%d' % (i % 7)} for i in range(21)]
    out['vals'] = (vals, _orders(21, 1, (1, 4)), ['cobweb', 'c3'], 1.0)
    uniq = [{'a': 'v%d' % i, 'b': 'w%d' % i} for i in range(18)]
    out['uniq'] = (uniq, _orders(18, 1, (1,)), ['cobweb', 'c3'], 1.0)
    nums = [{'x': float(i * i)} for i in range(20)]
    out['nums'] = (nums, _orders(20, 1, (1, 7)), c3, 1.0)
    exps = [{'x': 2.0 ** i} for i in range(-4, 16)]
    out['exps'] = (exps, _orders(20, 1, (1, 7)), c3, 1.0)
    # values that differ by very little
    near = [{'x': 1.0}, {'x': 1.0 + 2.0 ** -10}, {'x': 1.0 + 2.0 ** -20},
            {'x': 1.0 + 2.0 ** -34}, {'x': -1.0}]
    out['near'] = (near, _orders(5, 2, (1, 2)), c3, 1e-6)
    far = [{'x': 1048576.0, 'a': 'p'}, {'x': 1048576.0 + 2.0 ** -10, 'a': 'p'},
           {'x': 1048577.0, 'a': 'p'}, {'x': -1048576.0, 'a': 'q'}]
    out['far'] = (far, _orders(4, 2, (1, 3)), c3, 1e-5)
    tiny = [{'x': 2.0 ** -30 * i, 'y': 2.0 ** 30 * (i % 3)} for i in range(5)]
    out['tiny'] = (tiny, _orders(5, 2, (1, 2)), c3, 1e-9)
    # unusual but valid names and values
    odd = [{'a b': (), 'val': 'None', u'\u00e9': b'x'},
           {'a b': ('t', 1), 'val': 'nan', u'\u00e9': frozenset('ab')},
           {'a b': 'x' * 300, 'val': '0', ('r', ('s', 't'), 'u'): 'z'},
           {'a b': '', 'val': '#', u'\u00e9': b'', ('r', ('s', 't'), 'u'): ''}]
    out['odd'] = (odd, _orders(4, 3, (1, 3)), ['cobweb', 'c3'], 1.0)
    ints = [{'x': 10 ** 7, 'y': -3}, {'x': 10 ** 7 + 1, 'y': 4},
            {'x': 10 ** 7 + 5, 'y': 4.5}]
    out["ints"] = (ints, _orders(3, 3, (1, 2)), c3, 1e-4)
    return out


def heavy(thorough):
    """Large counts: few instances, again and again."""
    n = 260 if thorough else 130
    big = 4200 if thorough else 1100
    two = [{'a': 'x', 'b': 'p', '_h': 'u'}, {'a': 'y', 'b': 'p', '_h': 'v'},
           {'a': 'y', 'b': 'q'}]
    num = [{'x': 1.0, 'a': 'p'}, {'x': 2.5, 'a': 'p', '_n': 4.0},
           {'x': 9.0, 'a': 'q'}]

    def hists():
        out = []
        for pat in ((0,), (0, 1), (0, 0, 0, 0, 0, 0, 0, 1), (0, 1, 2),
                    (0,) * 40 + (1,) * 3 + (2,)):
            out.append(tuple(pat[i % len(pat)] for i in range(n)))
        for pat in ((0,), (0,) * 60 + (1,)):
            out.append(tuple(pat[i % len(pat)] for i in range(big)))
        return out
    return {'hvn': (two, hists(), ['cobweb', 'c3']),
            'hvf': (num, hists(), ['c3', 'c3:F:1'])}


def blocks(thorough):
    """Words over the alphabet in which one symbol is repeated many times, so
    that merges and splits meet concepts of very unequal weight."""
    def words(al, size, n):
        out = []
        for w in itertools.product(range(len(al)), repeat=n):
            if any(a == b for a, b in zip(w, w[1:])):
                continue
            for hv in range(n - 1):
                h = ()
                for k, i in enumerate(w):
                    h += (i,) * (size if k == hv else 1)
                out.append(h)
        return out

    def both(al):
        return words(al, 45, 5 if thorough else 4) + words(al, 130, 3)
    return {'bn3': (NOM['n3'], both(NOM['n3']), ['cobweb', 'c3']),
            'bnset': (NOM['nset'], both(NOM['nset']), ['cobweb']),
            'bh3': (HID['h3'], both(HID['h3']), ['c3']),
            'bf2': (NUM['f2'], both(NUM['f2']), ['c3', 'c3:F:1']),
            'bfmix': (NUM['fmix'][:4], both(NUM['fmix'][:4]), ['c3'])}


class Sub(dict):
    """a user's own kind of dictionary"""


def plain(i):
    if isinstance(i, dict):
        return {a: plain(v) for a, v in i.items()}
    if isinstance(i, list):
        return [plain(v) for v in i]
    return i


def form(i, how):
    """the same instance made of other kinds of dictionaries"""
    if isinstance(i, dict):
        items = [(a, form(v, how)) for a, v in i.items()]
        if how == 'ordered':
            return collections.OrderedDict(items)
        if how == 'default':
            return collections.defaultdict(str, items)
        return Sub(items)
    if isinstance(i, list):
        return [form(v, how) for v in i]
    return i


FORMS = ('ordered', 'default', 'sub')
