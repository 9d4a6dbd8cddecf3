"""C27 names in relations: complete grammar of attributes x mappings."""
import itertools

from concept_formation.preprocessor import (get_attribute_components,
                                            rename_relation)
from concept_formation.structure_mapper import (bind_flat_attr,
                                                contains_component,
                                                get_component_names,
                                                is_partial_match, rename_flat)

from mc.core import expect

ATOMS = ('?a', '?b', 'c', '?', '_h')


def parts(x):
    """the attribute and all its parts"""
    out = [x]
    if isinstance(x, tuple):
        for y in x:
            out += parts(y)
    return out


def names(x):
    return {y for y in parts(x) if isinstance(y, str) and y[:1] == '?'}


def consts(x):
    """names that are not marked as hidden, and the parts made of them"""
    out = set()
    for y in parts(x):
        if y[0] != '_':
            out.add(y)
    return out


def subst(x, m, top=True):
    if not top and x in m:
        return m[x]
    if isinstance(x, tuple):
        return tuple(subst(y, m, False) for y in x)
    return x


def grammar(thorough):
    flat = []
    for n in (1, 2, 3):
        flat += list(itertools.product(ATOMS, repeat=n))
    inner = list(itertools.product(('?a', 'c', '?b'), repeat=2)) + [('c',)]
    deep = [('r', i) for i in inner] + [(i, '?a') for i in inner]
    deep += [(x, i, j) for x in ('r', '_', '?b') for i in inner[:6]
             for j in inner[3:]]
    deep += [('r', ('s', ('t', i))) for i in inner]
    deep += [('r', ('s', ('t', ('u', ('v', ('w', i)))), x), x)
             for i in inner for x in ('?a', '?b', 'c')]
    # names the library itself gives a meaning
    deep += [(r,) + x for r in ('has-component', 'has-element',
                                'ordered-list', '_')
             for k in (1, 2, 3) for x in itertools.product(
                 ('?a', '?b', 'c', ('x', '?a')), repeat=k)]
    wide = [('r',) + ('?a',) * n + ('?b',) + ('c',) * n for n in range(9)]
    wide += [('r',) + tuple('?x%d' % i for i in range(n)) for n in range(12)]
    atoms = list(ATOMS) + ['?abc', 'a?', '?a b', 'x' * 40]
    out = atoms + flat + deep + wide
    if thorough:
        out += list(itertools.product(ATOMS, repeat=4))
        out += [(x, i, (y, j)) for x in ATOMS for y in ATOMS for i in inner
                for j in inner]
    seen = []
    have = set()
    for a in out:
        if a not in have:
            have.add(a)
            seen.append(a)
    return seen


MAPS = [{}, {'?a': '?b', '?b': '?a'}, {'?a': '?c1'}, {'?b': '?o1'},
        {'?a': '?c1', '?b': '?c2'}, {'?a': '?a', '?b': '?b'},
        {'?zz': '?a'}, {'c': 'd'}, {'?a': '?b', '?b': '?c', '?c': '?a'},
        {'?x0': '?x5', '?x5': '?x11', '?x11': '?x0', '?a': 'k'},
        {('c', '?a'): '?n'}, {('?a', '?b'): ('q', '?a'), '?a': '?w'},
        {('c',): '?a', '?a': '?u', '?b': ''}]


def run(R):
    al = grammar(R.thorough)

    def one(attr, st):
        st.outcome(attr)
        got = get_attribute_components(attr)
        expect(set(got) == names_of(attr), 'object variables of %r are %r, '
               'reported %r', attr, sorted(names_of(attr)), sorted(got))
        for x in set(parts(attr)) | set(ATOMS) | {'?abc', ('c', '?a'), 'zz'}:
            got = contains_component(x, attr)
            expect(bool(got) == (x in parts(attr)), '%r in %r: reported %r', x,
                   attr, got)
        for m in MAPS:
            saved = dict(m)
            st.add('transitions')
            if isinstance(attr, tuple):
                e = subst(attr, m)
                got = rename_relation(attr, m)
                expect(got == e, 'renaming %r by %r gives %r, expected %r',
                       attr, m, got, e)
                if not any(isinstance(k, tuple) for k in m):
                    got = bind_flat_attr(attr, m)
                    expect(got == e, 'binding %r by %r gives %r, expected %r',
                           attr, m, got, e)
            got = rename_flat({attr: 1}, m)
            e = {m[attr] if attr in m else subst(attr, m): 1}
            expect(got == e, 'renaming {%r: 1} by %r gives %r, expected %r',
                   attr, m, got, e)
            expect(m == saved, 'the mapping %r became %r', saved, m)
            # undone by the reverse mapping
            if all(isinstance(k, str) for k in list(m) + list(m.values())):
                if not (set(m.values()) - set(m)) & set(parts(attr)):
                    back = {v: k for k, v in m.items()}
                    if len(back) == len(m):
                        again = rename_flat(got, back)
                        expect(again == {attr: 1}, 'renaming {%r: 1} by %r '
                               'and back gives %r', attr, m, again)

    def names_of(attr):
        return names(attr)
    R.enum('attributes', lambda: al, one)

    # instances: union of names, simultaneous renaming of every attribute
    some = [a for a in al if isinstance(a, tuple)][::37] + [
        '?a', '?b', 'c', ('r', '?a', '?b'), ('r', '?b', '?a'),
        ('x', '?a'), ('x', '?b'), ('_', 'r', '?b')]
    tables = [list(c) for n in (0, 1, 2, 3) for c in
              itertools.combinations(some[-14:], n)]
    tables += [al[i:i + k] for k in (5, 12, 30)
               for i in range(0, len(al) - k, 17)]

    reused = {}, {}

    def inst(case, st):
        inst_({a: n for n, a in enumerate(case)}, {a: {'v': 1} for a in case},
              case, st)
        # the same objects for all cases, changed in between
        reused[0].clear()
        reused[1].clear()
        reused[0].update({a: n for n, a in enumerate(case)})
        reused[1].update({a: {'v': 1} for a in case})
        inst_(reused[0], reused[1], case, st)
        for tab in reused:
            for a in list(tab)[:2] + list(tab)[-1:]:
                get_component_names(tab)
                rename_flat(tab, {'?a': '?z'})
                tab[('y', '?new')] = tab.pop(a)
                e = set().union(*[names(b) for b in tab])
                got = get_component_names(tab)
                expect(set(got) == e, 'object variables of %r (changed by the '
                       'caller) are %r, reported %r', tab, sorted(e),
                       sorted(got))
                got = rename_flat(tab, {'?new': '?z'})
                expect(('y', '?z') in got and ('y', '?new') not in got,
                       'renaming %r (changed by the caller) gives %r', tab,
                       got)
                tab[a] = tab.pop(('y', '?new'))
                st.add('transitions')

    def inst_(i, tab, case, st):
        saved = list(i.items())
        st.outcome(tuple(case))
        e = set()
        for a in case:
            e |= names(a)
        got = get_component_names(i)
        expect(set(got) == e, 'object variables of %r are %r, reported %r', i,
               sorted(e), sorted(got))
        got = get_component_names(tab)
        expect(set(got) == e, 'object variables of a table %r: %r', i,
               sorted(got))
        for m in MAPS:
            st.add('transitions')
            e = {}
            for a, v in i.items():
                e.setdefault(m[a] if a in m else subst(a, m), []).append(v)
            got = rename_flat(i, m)
            expect(set(got) == set(e) and all(got[k] in e[k] for k in e),
                   'renaming %r by %r gives %r', i, m, got)
            expect(list(i.items()) == saved, 'renaming modified its input')
    R.enum('instances', lambda: tables, inst)

    # partial matches
    ia = [a for a in al if isinstance(a, str) or len(a) <= 3][::5] + [
        ('<', ('a', '?a'), ('a', '?b')), ('r', '?a', '?a'), '?a', '?b', 'c']
    subst_c = {'?a': '?c1', '?b': '?c2'}

    def images(a):
        out = [a, subst({0: a}[0], subst_c) if isinstance(a, tuple) else
               subst_c.get(a, a)]
        if isinstance(a, tuple):
            for k in range(len(a)):
                out.append(a[:k] + ('k',) + a[k + 1:])
                out.append(a[:k] + ('?c2',) + a[k + 1:])
                out.append(a[:k] + (('c', '?c1'),) + a[k + 1:])
            out += [a[:-1] or 'c', a + ('?c1',), a[0]]
        else:
            out += ['?c1', '?c2', 'k', ('c', '?c1')]
        return out + list(swaps(a))

    def swaps(a):
        """another name at one place"""
        if isinstance(a, tuple):
            for k in range(len(a)):
                for x in swaps(a[k]):
                    yield a[:k] + (x,) + a[k + 1:]
            return
        for x in ('_g', '_h', '_', '__h', '?', '?aa', '?c', 'cc', 'C', 'd',
                  '_' + a, a + 'x', a[1:] or 'e'):
            if x != a:
                yield x

    def fits(i, c, m):
        if isinstance(i, tuple) or isinstance(c, tuple):
            return (isinstance(i, tuple) and isinstance(c, tuple) and
                    len(i) == len(c) and all(fits(x, y, m)
                                             for x, y in zip(i, c)))
        if i[0] == '?' and i in m:
            return m[i] == c
        if i[0] == '?' and c[0] == '?':
            return True
        return i == c

    def match(i, st):
        for c in images(i):
            for m in ({}, {'?a': '?c1'}, {'?b': '?c2'},
                      {'?a': '?c2', '?b': '?c1'}, subst_c,
                      {'c': '?c1', 'r': 'k'}, {'?a': 'k', '?b': 'c'}):
                st.add('transitions')
                e = fits(i, c, m)
                st.outcome((i, c, tuple(sorted(m.items())), e))
                got = is_partial_match(i, c, m)
                expect(bool(got) == e, 'does %r match %r given %r? reported '
                       '%r', i, c, m, got)
    R.enum('partial matches', lambda: ia, match)
