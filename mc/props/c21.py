"""C21 invalid instances: every kind of bad entry x position x entry point x
reachable small tree, then every short continuation."""
import copy
import itertools

from mc import rnd
from mc.core import Violation, expect
from mc.structured import S, ren, variables
from mc.tree import full_dump, make, nodes, table
from mc.worlds import HID, NOM, NUM


class Opaque(object):
    """hashable, but cannot be indexed"""

    def __repr__(self):
        return 'Opaque()'


class Grump(Opaque):
    """cannot be hashed, for a reason of its own"""

    def __hash__(self):
        raise RuntimeError('not hashable')


class Shy(Opaque):
    """cannot be indexed, for a reason of its own"""

    def __getitem__(self, i):
        raise RuntimeError('not indexable')


OPAQUE, GRUMP, SHY = Opaque(), Grump(), Shy()
OWN = {id(x): x for x in (OPAQUE, GRUMP, SHY)}

BAD_ATTR = {'int': 5, 'zero': 0, 'float': 1.5, 'none': None, 'bool': True,
            'frozenset': frozenset(['a']), 'object': OPAQUE, 'empty str': '',
            'empty tuple': (), 'range0': range(0), 'shy': SHY}
BAD_VAL = {'list': [1], 'empty list': [], 'set': {'x'}, 'bytearray':
           bytearray(b'q'), 'tuple with list': ('x', ['y']),
           'tuple with dict': ({'q': 1},), 'nested tuple': ((1, (2, [])),),
           'grump': GRUMP, 'tuple with grump': ('x', GRUMP)}
FLAT_VAL = {'dict': {'x': 'p'}, 'empty dict': {}, 'None': None}
BAD_REL = {
    'int last': ('on', '?a', 1), 'int first': (1, '?a', '?b'),
    'int middle': ('on', 2, '?b'), 'none': ('on', None, '?a'),
    'float in nested': ('eq', ('x', 2.5), '?a'),
    'deep': ('eq', ('x', ('y', ('z', 3))), 'k'),
    'frozenset': ('on', frozenset(['a'])), 'object': ('on', OPAQUE, '?a'),
    'empty nested': ('on', (), '?a'), 'empty name': ('on', '', '?a'),
    'nested first': (('n', 7), '?a', '?b'), 'bool': ('on', '?a', False),
    'single': (4,), 'two': ('x', 9), 'hidden': ('_', 'x', 1.0)}

W = {'nmiss': NOM['nmiss'][:4], 'fmix': NUM['fmix'][:4], 'h1': HID['h1'][:3],
     's1': S['s1'], 's2': S['s2'][:3], 's3': S['s3']}


def kinds(w):
    if w[0] == 's':
        return ['trestle']
    if w[0] == 'f':
        return ['c3', 'c3:F:1', 'trestle']
    return ['cobweb', 'c3', 'trestle']


def insert(inst, pos, entries):
    items = list(inst.items())
    items[pos:pos] = entries
    return dict(items)


def places(inst, structured, path=()):
    """paths of dicts in which a bad entry may sit"""
    yield path
    if structured:
        for a, v in inst.items():
            if isinstance(v, dict):
                for p in places(v, True, path + (a,)):
                    yield p


def put(inst, path, pos, entry):
    if not path:
        return insert(inst, pos, [entry])
    return {a: (put(v, path[1:], pos, entry) if a == path[0] else v)
            for a, v in inst.items()}


def at(inst, path):
    for a in path:
        inst = inst[a]
    return inst


def faults(base, kind):
    st = kind == 'trestle'
    deep = dict(base)
    if st:
        deep['zz'] = {'k': 'v', '?q': {'y': {'w': 'u'}}}
    for path in places(deep, st):
        d = at(deep, path)
        for pos in range(len(d) + 1):
            for n, a in BAD_ATTR.items():
                yield 'attribute %s' % n, put(deep, path, pos, (a, 'v'))
            vals = dict(BAD_VAL)
            if not st:
                vals.update(FLAT_VAL)
            for n, v in vals.items():
                for a in ('bad', '_bad', ('bad', 'r', 's')):
                    yield 'value %s' % n, put(deep, path, pos, (a, v))
                for a in list(d)[:2]:
                    if not isinstance(d[a], dict):
                        yield 'value %s' % n, repl(deep, path, a, v)
            if st:
                for n, r in BAD_REL.items():
                    for v in ('v', 1.0) + (({'y': 'u'},) if pos == 0 else ()):
                        yield 'relation %s' % n, put(deep, path, pos, (r, v))


def repl(inst, path, a, v):
    if not path:
        return {b: (v if b == a else w) for b, w in inst.items()}
    return {b: (repl(w, path[1:], a, v) if b == path[0] else w)
            for b, w in inst.items()}


ENTRY = {
    'ifit': lambda t, i: t.ifit(i),
    'categorize': lambda t, i: t.categorize(i),
    'infer': lambda t, i: t.infer_missing(i),
    'infer sampled': lambda t, i: t.infer_missing(i, 'sampled', False),
    'fit': lambda t, i: t.fit([i], randomize_first=False),
    'fit randomized': lambda t, i: t.fit([i, i]),
}


def content(t):
    """everything learned, object names numbered in order of creation"""
    names = variables(t.root.av_counts)
    names.sort(key=lambda x: (len(x), x))
    m = {v: '?%d' % k for k, v in enumerate(names)}
    sc = getattr(t, 'attr_scales', None) or {}
    return [(d, n.count, sorted((repr(ren(a, m)), sorted(
        (repr(v), repr(c)) for v, c in vs.items()))
        for a, vs in table(n).items())) for n, d in nodes(t)], sorted(
            (repr(ren(a, m)), repr(c.num), repr(c.mean))
            for a, c in sc.items())


def build(kind, al, hist):
    t = make(kind)
    for i in hist:
        with rnd.Session(policy='alt'):
            t.ifit(al[i])
    return t


def rejected(call, what):
    try:
        with rnd.Session():
            r = call()
    except ValueError:
        return
    except Violation:
        raise
    except Exception as e:
        raise Violation('%s is answered by %s: %s' % (
            what, type(e).__name__, e))
    raise Violation('%s is accepted (%r)' % (what, r))


def run(R):
    R.rule = ('distinct = different (learner, fault kind, bad instance, entry '
              'point, tree); every one must raise ValueError and leave the '
              'complete tree dump unchanged')

    # every fault at every position, at every entry point, on small trees
    def gen():
        for w, al in W.items():
            for kind in kinds(w):
                hists = [(), (0,), (0, 1), tuple(range(len(al))) * 2]
                if R.thorough:
                    hists += list(itertools.product(range(len(al)), repeat=2))
                    hists += list(itertools.product(range(len(al)), repeat=3))
                for h in hists:
                    for b in range(len(al)):
                        yield w, kind, h, b

    def fn(case, st):
        w, kind, h, b = case
        al = W[w]
        t = build(kind, al, h)
        before = full_dump(t)
        seen = set()
        for name, bad in faults(al[b], kind):
            r = repr(bad)
            if r in seen:
                continue
            seen.add(r)
            saved = copy.deepcopy(bad, dict(OWN))
            for ep, call in ENTRY.items():
                what = '%s: %s with %s in %r, after %r' % (
                    kind, ep, name, bad, [al[i] for i in h])
                rejected(lambda: call(t, bad), what)
                st.add('transitions')
                expect(full_dump(t) == before, '%s changed the tree to\n%s',
                       what, t)
                expect(bad == saved and list(bad) == list(saved),
                       '%s changed the instance', what)
                st.outcome((w, kind, h, r, ep))
        # one bad instance among good ones
        for k, (name, bad) in enumerate(faults(al[b], kind)):
            if k % 17:
                continue
            for good in ([0], [0, 1], [1, 0, 0]):
                for pos in range(len(good) + 1):
                    u = build(kind, al, h)
                    coll = [al[i] for i in good]
                    coll.insert(pos, bad)
                    rejected(lambda: u.fit(coll, randomize_first=False),
                             '%s: batch fit with %s at %d in %r' % (
                                 kind, name, pos, bad))
                    st.add('transitions')
                    n = u.root.count - len(h)
                    expect(0 <= n <= pos, 'batch fit rejected at %d counts %d '
                           'instances', pos, n)
                    v = build(kind, al, h)
                    for i in good[:int(n)]:
                        with rnd.Session():
                            v.ifit(al[i])
                    if n == pos:
                        # tie-breaks of one session differ from several
                        expect(v.root.count == u.root.count and
                               content(u)[0][0] == content(v)[0][0],
                               'batch fit rejected at %d leaves\n%s\nnot\n%s',
                               pos, u, v)
    R.enum('faults', gen, fn)

    # wide and deep instances, bad entries far inside
    def gen_big():
        for kind in ('cobweb', 'c3', 'trestle'):
            for n in (6, 12, 24, 60, 150):
                for h in ((), tuple(range(4)), tuple(range(4)) * 4,
                          tuple(range(4)) * 30)[:4 if n < 30 else 2]:
                    yield kind, n, h

    def big(case, st):
        kind, n, h = case
        al = W['nmiss']
        t = build(kind, al, h)
        before = full_dump(t)
        base = {}
        for k in range(n):
            base['a%d' % k] = 'x' if k % 2 else float(k)
            if k % 4 == 0:
                base[('r', 'a%d' % k, 's')] = 'y'
            if k % 5 == 0:
                base['_h%d' % k] = 'z'
        bads = []
        depth = min(n // 2, 30)
        vals = dict(BAD_VAL)
        if kind != 'trestle':
            vals.update(FLAT_VAL)
        for pos in (0, 1, n // 2, len(base) - 1, len(base)):
            for nm, a in BAD_ATTR.items():
                bads.append((nm, insert(base, pos, [(a, 'v')])))
            for nm, v in vals.items():
                bads.append((nm, insert(base, pos, [('bad', v)])))
                key = list(base)[min(pos, len(base) - 1)]
                bads.append((nm, repl(base, (), key, v)))
        # two bad entries
        bads.append(('two', insert(insert(base, 0, [(5, [1])]), 2,
                                   [('q', {'z'})])))
        if kind == 'trestle':
            for nm, r in BAD_REL.items():
                for pos in (0, n // 2, len(base)):
                    bads.append((nm, insert(base, pos, [(r, 'v')])))
                deep = r
                for k in range(depth):
                    deep = ('f', deep, 'k') if k % 2 else ('g', 'k', deep)
                bads.append((nm + ' deep', dict(base, **{}) | {deep: 'v'}))
                long = ('f',) + ('k',) * n + (r,)
                bads.append((nm + ' long', {'a': 'x', long: 'v'}))
                bads.append((nm + ' long', {'a': 'x', long[::-1]: 'v'}))
                bads.append((nm + ' long', {
                    'a': 'x', ('f',) + ('k',) * (n // 2) + (r,) +
                    ('k',) * n: 'v'}))
            for wrap in (('c',), ('?o',), ('c', '?o', '_h')):
                for a, v in ((5, 'v'), ('', 'v'), ('q', [1]), ('q', {'z'}),
                             (('on', 3, '?a'), 'v'), ('q', (1, [2])),
                             (None, 'v'), (OPAQUE, 'v')):
                    d = {'x': 'p', a: v}
                    for k in range(depth):
                        d = {'m%d' % k: 'u', wrap[k % len(wrap)] + str(k): d,
                             'n': 1.0}
                    bads.append(('nested', d))
                    bads.append(('nested', dict(base, **{'zz': d})))
        for nm, bad in bads:
            saved = copy.deepcopy(bad, dict(OWN))
            for ep, call in ENTRY.items():
                what = '%s: %s with %s in %r' % (kind, ep, nm, bad)
                rejected(lambda: call(t, bad), what)
                expect(full_dump(t) == before, '%s changed the tree', what)
                expect(bad == saved and list(bad) == list(saved),
                       '%s changed the instance', what)
                st.add('transitions')
                st.outcome((case, repr(bad), ep))
    R.enum('large', gen_big, big)

    # later fits are as if the call had never happened
    def gen2():
        for w, al in W.items():
            for kind in kinds(w):
                n = len(al)
                for h in itertools.chain(
                        [()], [(i,) for i in range(n)],
                        itertools.product(range(n), repeat=2)):
                    yield w, kind, h

    def cont(case, st):
        w, kind, h = case
        al = W[w]
        fs = [(n, b) for base in al[:2] for n, b in faults(base, kind)]
        by = {}
        for n, b in fs:
            by.setdefault(n, b)
        fs = sorted(by.items(), key=lambda x: x[0])
        tails = list(itertools.product(range(len(al)), repeat=2))
        step = 1 if R.thorough else 5
        for j, (name, bad) in enumerate(fs):
            if (j + sum(h)) % step:
                continue
            for e, ep in enumerate(('ifit', 'categorize', 'infer')):
                for k, tail in enumerate(tails):
                    if (k + j + e) % 3 and not R.thorough:
                        continue
                    t, c = build(kind, al, h), build(kind, al, h)
                    rejected(lambda: ENTRY[ep](t, bad), '%s: %s with %s in %r'
                             % (kind, ep, name, bad))
                    for i in tail:
                        with rnd.Session(policy='alt'):
                            x = t.ifit(al[i])
                        with rnd.Session(policy='alt'):
                            y = c.ifit(al[i])
                        st.add('transitions')
                        expect(content(t) == content(c), '%s: after %r and a '
                               'rejected %s of %r, fitting %r gives\n%s\n'
                               'instead of\n%s', kind, [al[q] for q in h], ep,
                               bad, [al[q] for q in tail], t, c)
                        expect(x.count == y.count, 'fit returns another '
                               'concept')
                        if i is tail[-1]:
                            expect(x in [q for q, _ in nodes(t)], 'returned '
                                   'concept not in the tree')
                    # bad again on the grown tree
                    before = full_dump(t)
                    rejected(lambda: ENTRY[ep](t, bad), ep)
                    expect(full_dump(t) == before, 'second rejection changes '
                           'the tree')
                    st.outcome((case, name, ep, tail))
    R.enum('continuations', gen2, cont)

    # what is not invalid is accepted
    def ok_gen():
        for kind in ('cobweb', 'c3', 'trestle'):
            for a in ('a', '_a', ('r', 's'), ('r', ('s', 't'), 'u'), '?a', 'é',
                      b'bytes' if kind != 'trestle' else 'x'):
                for v in ('', False, True, (1, 2), frozenset(['q']), 'x', 0,
                          0.0, -1.5):
                    yield kind, a, v

    def ok(case, st):
        kind, a, v = case
        for other in ({}, {'k': 'c'}):
            inst = dict(other)
            inst[a] = v
            t = make(kind)
            for _ in range(2):
                with rnd.Session():
                    t.ifit(inst)
                    t.ifit({'k': 'd'})
                    t.categorize(inst)
                    t.infer_missing(inst)
            st.add('transitions')
            expect(t.root.count == 4, 'root count %r', t.root.count)
            st.outcome(case)
    R.enum('accepted', ok_gen, ok)
