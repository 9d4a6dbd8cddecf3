"""C16 list preprocessing: complete grammar of instances with lists, and all
sets of order relations over small element sets."""
import copy
import itertools

from concept_formation import preprocessor as pp

from mc import findings
from mc.edits import edit, edits
from mc.core import expect
from mc.props.c15 import same, step

PLAIN = ['a', 2, 2.5, '', True, 'b']
DICTS = [{'x': 'p'}, {'x': 'p', 'val': 'q'}, {'y': {'z': 1}}, {}]
ELEMS = PLAIN + DICTS + [['a', 'b'], [['a'], 'b'], {'m': ['a', {'x': 'p'}]},
                         {'y': {'m': ['b', 'a'], 'w': 0}},
                         {'?o1': 'p', 'x': 'q'}, {'m': [1], 'n': [2, 1]}]


def lists(n, thorough):
    for k in range(1, n + 1):
        pool = ELEMS if k <= (3 if thorough else 2) else (
            ['a', 'b', {'x': 'p'}, ['a', 'b']] if k == 3 else ['a', {'x': 1}])
        for t in itertools.product(pool, repeat=k):
            yield list(t)


CTX = [
    lambda l: {'l': l},
    lambda l: {'n': 'v', 'l': l, 'm': 1.5, '_h': 'u', ('on', 'a', 'b'): True},
    lambda l: {'c': {'l': l, 'x': 'p'}},
    lambda l: {'?c': {'d': {'l': l}, '?o1': {'x': 'q'}}, '?o2': 'p'},
    lambda l: {'?o1': {'x': 'p'}, 'l': l, '?o2': 'v', '?o3': {'y': 1}},
    lambda l: {'l': l, 'k': ['a', 'b', 'a']},
    lambda l: {'l': l, 'k': l, 'c': {'l': l, 'e': {'l': ['z']}}},
    lambda l: {'?l': l, 'has-element': 'x', 'ordered-list': ['q', 'w']},
]


def size(x):
    if isinstance(x, dict):
        return sum(size(v) for v in x.values())
    if isinstance(x, list):
        return 1 + sum(size(v) for v in x)
    return 1


def no_lists(x):
    if isinstance(x, list):
        return False
    if isinstance(x, dict):
        return all(no_lists(v) for v in x.values())
    return True


def check_out(inst, out):
    """out must be inst with every list replaced by an empty component, its
    elements as new sub-objects beside it, and relations giving the order"""
    expect(no_lists(out), 'a list is left: %r became %r', inst, out)
    has, order = {}, {}
    used = 0
    for a in out:
        if isinstance(a, tuple) and len(a) == 3 and a[0] == 'has-element':
            has.setdefault(a[1], []).append(a[2])
            expect(out[a] is True, '%r is %r', a, out[a])
        elif isinstance(a, tuple) and len(a) == 4 and a[0] == 'ordered-list':
            order.setdefault(a[1], []).append((a[2], a[3]))
            expect(out[a] is True, '%r is %r', a, out[a])
    seen = set()

    def walk(i, o, path):
        known = set()
        new = set()
        for a, v in i.items():
            expect(a in o, 'attribute %r is lost: %r became %r', a, inst, out)
            known.add(a)
            p = a if path is None else (a, path)
            if isinstance(v, list):
                expect(same(o[a], {}), 'the list %r became %r', p, o[a])
                els = has.get(p, [])
                prs = order.get(p, [])
                expect(len(els) == len(v) and len(set(els)) == len(v),
                       'the list %r = %r has elements %r in %r', p, v, els,
                       out)
                if v:
                    firsts = [e for e in els if e not in
                              [b for _, b in prs]]
                    expect(len(firsts) == 1 and len(prs) == len(v) - 1,
                           'the order %r of list %r does not determine it',
                           prs, p)
                    chain = [firsts[0]]
                    nxt = dict(prs)
                    while chain[-1] in nxt and len(chain) <= len(v):
                        chain.append(nxt[chain[-1]])
                    expect(len(chain) == len(v), 'the order %r of list %r '
                           'does not determine it', prs, p)
                    for e, el in zip(chain, v):
                        expect(e not in i and e not in new, 'the name %r of '
                               'a list element is already used: %r became '
                               '%r', e, inst, out)
                        expect(e in o and isinstance(o[e], dict),
                               'the element %r of list %r is missing in %r',
                               e, p, out)
                        new.add(e)
                        q = e if path is None else (e, path)
                        walk(el if isinstance(el, dict) else {'val': el},
                             o[e], q)
                seen.add(p)
            elif isinstance(v, dict):
                expect(isinstance(o[a], dict), '%r became %r', v, o[a])
                walk(v, o[a], p)
            else:
                expect(same({0: v}, {0: o[a]}), '%r: %r became %r', a, v,
                       o[a])
        rest = [a for a in o if a not in known and a not in new and
                not (path is None and isinstance(a, tuple) and a[0] in
                     ('has-element', 'ordered-list'))]
        expect(not rest, 'attributes %r appeared: %r became %r', rest, inst,
               out)
    walk(inst, out, None)
    for p in list(has) + list(order):
        expect(p in seen, 'relations for %r, which is no list: %r', p, out)


def run(R):
    def gen():
        for l in lists(4 if R.thorough else 3, R.thorough):
            for k, c in enumerate(CTX):
                if len(l) == 2 and not R.thorough and k in (1, 6) and \
                        size(l) > 4:
                    continue
                yield (k, l)
        # long and deeply nested lists
        for k in range(len(CTX)):
            for n in list(range(5, 35)) + [60, 101]:
                yield (k, [PLAIN[i % 6] for i in range(n)])
                if n % 5 == 0:
                    yield (k, [ELEMS[(i * 7) % len(ELEMS)] for i in range(n)])
            for n in range(3, 9):
                l = ['a', 'b']
                d = {'l': ['a', 'b'], 'x': 'p'}
                for _ in range(n):
                    l = [l, 'c']
                    d = {'l': ['q', d], 'x': 'p'}
                yield (k, l)
                yield (k, [d, 'e'])
                e = ['r', 's']
                for _ in range(n):
                    e = {'f': e}
                yield (k, [e['f'], {'g': e}])

    def fn(case, st):
        k, l = case
        inst = CTX[k](l)
        st.add('transitions')
        st.outcome(case)
        out, back = step(pp.ListProcessor(), inst, 'ListProcessor')
        check_out(inst, out)
        expect(same(back, inst), 'ListProcessor: %r became %r and was '
               'restored as %r', inst, out, back)
        # the two halves one after the other
        e = pp.ExtractListElements()
        mid, back = step(e, inst, 'ExtractListElements')
        expect(same(back, inst), 'ExtractListElements: %r became %r and was '
               'restored as %r', inst, mid, back)
        fin, back = step(pp.ListsToRelations(), mid, 'ListsToRelations')
        check_out(inst, fin)
        expect(same(back, mid), 'ListsToRelations: %r became %r and was '
               'restored as %r', mid, fin, back)
        # a user's own name generator, which may clash with the instance
        n = [0]

        def gensym():
            n[0] += 1
            return '?o%d' % n[0]
        e = pp.ExtractListElements(gensym)
        mid, back = step(e, inst, 'ExtractListElements (own names)')
        expect(same(back, inst), 'ExtractListElements (own names): %r became '
               '%r and was restored as %r', inst, mid, back)
        check_out(inst, pp.ListsToRelations().transform(mid))
        # reordering the attributes of the processed instance is harmless
        rev = {a: out[a] for a in reversed(list(out))}
        back = pp.ListProcessor().undo_transform(rev)
        expect(same(back, inst), 'undoing the list processing of %r (in '
               'another attribute order) gives %r, not %r', rev, back, inst)
        if len(st.samples) < 1:
            st.sample('%r -> %r' % (inst, out))
    R.enum('grammar', gen, fn)

    # one processor, an instance that the caller changes between two calls
    def between():
        for n, (k, l) in enumerate(gen()):
            if n % (5 if R.thorough else 37) == 0 and size(l) < 12:
                for e in edits(CTX[k](l)):
                    yield k, l, e

    def changed(case, st):
        k, l, e = case
        for mk in (pp.ListProcessor, pp.ExtractListElements):
            inst = copy.deepcopy(CTX[k](l))
            p = mk()
            step(p, inst, mk.__name__)
            edit(inst, *e)
            out, back = step(p, inst, mk.__name__)
            eout, eback = step(mk(), inst, mk.__name__)
            expect(same(back, eback) and len(out) == len(eout), '%s: an '
                   'instance changed by the caller to %r between two calls '
                   'becomes %r and is restored as %r, with a new one %r',
                   mk.__name__, inst, out, back, eback)
            st.add('transitions', 2)
        st.outcome(repr(case))
    R.enum('changed in between', between, changed)

    # plain lists of distinct strings through the relational half alone
    def perms():
        for n in range(1, 6 if R.thorough else 5):
            for p in itertools.permutations('abcde'[:n]):
                for path in (('l',), ('c', 'l'), ('?o', 'c', 'l')):
                    yield p, path
        for n in list(range(6, 30)) + [64]:
            for step in (1, -1):
                p = tuple('e%d' % i for i in range(n))[::step]
                for path in (('l',), ('?o', 'c', 'd', 'l')):
                    yield p, path

    def perm(case, st):
        p, path = case
        inst = {'n': 'v', path[-1]: list(p)}
        for k in reversed(path[:-1]):
            inst = {k: inst, 'w': 1}
        out, back = step(pp.ListsToRelations(), inst, 'ListsToRelations')
        expect(no_lists(out), 'a list is left: %r', out)
        expect(same(back, inst), '%r became %r and was restored as %r', inst,
               out, back)
        for q in itertools.permutations(list(out)) if len(out) <= 4 else (
                list(out)[k:] + list(out)[:k] for k in range(len(out))):
            o = {a: out[a] for a in q}
            b = pp.ListsToRelations().undo_transform(o)
            expect(same(b, inst), '%r (attributes in another order) was '
                   'restored as %r', o, b)
        st.outcome(case)
        st.add('transitions')
    R.enum('lists to relations', perms, perm)

    # every set of relations: a chain becomes a list, all others stay
    def rels():
        for n in range(0, 4):
            els = 'xyz'[:n]
            prs = [(a, b) for a in els for b in els]
            mx = len(prs) if n < 3 or R.thorough else 4
            for k in range(mx + 1):
                for s in itertools.combinations(prs, k):
                    for order in (0, 1):
                        yield els, s, order
        if R.thorough:
            els = 'wxyz'
            prs = [(a, b) for a in els for b in els if a != b]
            for k in range(5):
                for s in itertools.combinations(prs, k):
                    yield els, s, 0

    def rel(case, st):
        els, s, order = case
        for path in ('l', ('l', 'c')):
            rs = {('has-element', path, e): True for e in els}
            rs.update({('ordered-list', path, a, b): True for a, b in s})
            if order:
                rs = {a: rs[a] for a in reversed(list(rs))}
            base = {'n': 'v', 'l': {}} if path == 'l' else {
                'n': 'v', 'c': {'l': {}, 'x': 'p'}}
            inst = dict(base)
            inst.update(rs)
            saved = copy.deepcopy(inst)
            back = pp.ListsToRelations().undo_transform(inst)
            expect(same(inst, saved), 'undoing modified %r to %r', saved, inst)
            chain = [list(p) for p in itertools.permutations(els)
                     if sorted(zip(p, p[1:])) == sorted(s)] if els else []
            if chain:
                want = copy.deepcopy(base)
                (want if path == 'l' else want['c'])['l'] = chain[0]
            else:
                want = saved
            expect(same(back, want), 'element relations %r became %r, '
                   'expected %r', saved, back, want)
        st.outcome(case)
        st.add('transitions')
    R.enum('relation sets', rels, rel)

    def known(text):
        inst = eval(text, {})
        lp = pp.ListProcessor()
        return not same(lp.undo_transform(lp.transform(inst)), inst)
    findings.report(R, known)
