"""C15 structural preprocessing: complete grammar of instances."""
import copy
import itertools

from concept_formation import preprocessor as pp
from concept_formation.structure_mapper import StructureMapper

from mc import findings, rnd
from mc.core import expect
from mc.ref import hidden
from mc.props.c14 import names_of, rename
from mc.structured import flat, is_var, ren, variables
from mc.tree import make
from mc.edits import edit, edits
from mc.worlds import FORMS, form, plain

# groups of alternatives; an instance takes at most one of each group
VALS = [None, ('n', 'v'), ('m', 2.5), ('e', ''), ('b', False), ('_h', 'p'),
        ('?v', 'p'), ('?w', 3), ('z', 0)]
COMP = [None,
        ('c', {'x': 'p'}),
        ('c', {'x': 'p', '_g': 1, 'y': {'z': 'q', 'w': {'u': 0}}}),
        ('?a', {'x': 'p'}),
        ('?a', {'x': 'q', '?b': {'x': 'p', '?d': {'y': 1.0}}}),
        ('?a', {'_g': 'u', '?b': {'_k': 'v', 'x': ''}}),
        ('?a', {'y': {'?b': {'x': 'p'}, 'z': 'q'}}),
        ('?a', {'?b': 'p', '?d': 4}),
        ('?a', {'?b': {'x': 'p'}, '?d': {'x': 'p'}}),
        ('?o2', {'x': 'p', '?o1': {'x': 'q'}})]
COMP2 = [None,
         ('k', {'?e': {'x': 'p'}}),
         ('k', {'w': {'?e': {'_g': 0}}}),
         ('_hc', {'x': 'p', 'y': {'z': 1}}),
         ('_hc', {'?e': {'x': 'p'}}),
         ('?f', {'_s': {'x': 'p', 'y': {'q': 1}}}),
         ('?f', {'x': 'p'}),
         ('?A', {'x': 'q', '?B': {'y': 0}})]
REL = [None,
       (('on', '?a', '?f'), True),
       (('near', 'c', 'n'), False),
       (('eq', ('x', '?a'), ('x', ('?b', '?a'))), True),
       (('r', '?zz', 'k'), 2.5),
       (('_', 'lab', '?a'), 'z'),
       (('n', ('m', '?a', 'c'), '?q'), 'v'),
       (('deep', ('y', ('?d', ('?b', '?a'))), '?a'), ''),
       (('three', '?a', ('?e', 'k'), ('p', '?f', '?f')), 1)]
REL2 = [None, (('on', '?f', '?a'), 'far'), (('likes', 'n', '?o1'), True)]


def instances(thorough):
    for a, b, c, d, e in itertools.product(VALS, COMP, COMP2, REL, REL2):
        if not thorough and e is not None and (a is None or b is None):
            continue
        i = dict(x for x in (a, b, c, d, e) if x is not None)
        if sound(i):
            yield i


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return (len(a) == len(b) and all(k in b and same(a[k], b[k])
                                         for k in a))
    return a == b


def nested(i, top=True):
    """objects inside other components"""
    out = []
    for a, v in i.items():
        if not top and is_var(a):
            out.append(a)
        if isinstance(v, dict):
            out += nested(v, False)
    return out


def refs(a, out=None, bare=True):
    """variables mentioned in a relation outside of a path"""
    out = [] if out is None else out
    if isinstance(a, tuple):
        if len(a) == 2:
            # (attribute or object, container)
            refs(a[1], out, True)
        else:
            for x in a:
                refs(x, out, True)
    elif is_var(a) and bare:
        out.append(a)
    return out


def exact(i):
    """relations name nested objects by path and only existing paths, so that
    the structured form is unique"""
    inner = set(nested(i))
    top = {a for a in i if is_var(a)}
    for a in i:
        if isinstance(a, tuple):
            if any(v in inner for v in refs(a)):
                return False
            for p in paths(a):
                if not exists(i, p):
                    return False
    # a hidden component holding objects: its tie is an ordinary relation
    return True


def paths(a):
    if not isinstance(a, tuple):
        return
    if len(a) == 2:
        p, cur = [], a
        while isinstance(cur, tuple) and len(cur) == 2:
            p.append(cur[0])
            cur = cur[1]
        p.append(cur)
        yield p[::-1]
    else:
        for x in a:
            for y in paths(x):
                yield y


def exists(i, p):
    for k in p[:-1]:
        if not isinstance(i, dict) or k not in i:
            return all(not is_var(x) for x in p[1:])
        i = i[k]
    return True


def containers(i):
    """variable -> the containers it is said to sit in"""
    out = {}

    def walk(d, outer):
        for a, v in d.items():
            if is_var(a):
                out.setdefault(a, set()).add(outer)
            if isinstance(v, dict):
                walk(v, a if outer is None else (a, outer))
    walk(i, None)
    for a in i:
        for p in paths(a):
            outer = None
            for k in p:
                if is_var(k) and outer is not None:
                    out.setdefault(k, set()).add(outer)
                outer = k if outer is None else (k, outer)
    return out


def sound(i):
    """every object has one place"""
    return all(len(c) == 1 for c in containers(i).values())


def counter():
    n = [0]

    def g():
        n[0] += 1
        return '?o%d' % n[0]
    return g


def no_dicts(i):
    return all(not isinstance(v, dict) for v in i.values())


def find_renaming(orig, new):
    vo, vn = names_of(orig), names_of(new)
    if len(vo) != len(vn):
        return None
    for p in itertools.permutations(vn):
        m = dict(zip(vo, p))
        if same(rename(orig, m), new):
            return m
    return None


def step(proc, inst, what):
    """transform and undo, both pure"""
    saved = copy.deepcopy(inst)
    out = proc.transform(inst)
    expect(same(inst, saved), '%s: transforming modified the instance: %r '
           'became %r', what, saved, inst)
    expect(out is not inst, '%s returns its input', what)
    kept = copy.deepcopy(out)
    back = proc.undo_transform(out)
    expect(same(out, kept), '%s: undoing modified its input: %r became %r',
           what, kept, out)
    expect(same(inst, saved), '%s: undoing modified the original', what)
    # the restored instance does not share parts with the original
    return out, back


def restored(back, inst, uniq, what, out):
    if uniq:
        expect(same(back, inst), '%s: %r became %r and was restored as %r',
               what, inst, out, back)
    else:
        expect(flat(back) == flat(inst), '%s: %r became %r and was restored '
               'as %r', what, inst, out, back)


def sized(thorough):
    """wide, deep and long instances; every object carries a unique mark"""
    for n in (4, 7, 11, 13) + ((24,) if thorough else ()):
        for hid in (0, 1):
            # many objects, relations over all of them
            i = {}
            for k in range(n):
                i['?v%d' % k] = {'mark': 'm%d' % k, 'w': float(k), 'e': ''}
                if hid and k % 3 == 0:
                    i['?v%d' % k]['_h%d' % k] = k
            for k in range(n - 1):
                i[('next', '?v%d' % k, '?v%d' % (k + 1))] = True
            i[('all',) + tuple('?v%d' % k for k in range(n))] = 'z'
            r = ('x', '?v0')
            for k in range(n - 1):
                r = ('f%d' % k, r, '?v%d' % k)
                i[r] = k
            yield i
            # a tower of objects, with and without plain components between
            for gap in (0, 1, 2):
                i = {}
                cur = i
                path = None
                for k in range(n):
                    d = {'mark': 'm%d' % k, 'v': 'p'}
                    if hid and k % 2:
                        d['_g'] = k
                    cur['?v%d' % k] = d
                    path = '?v%d' % k if path is None else ('?v%d' % k, path)
                    cur = d
                    for g in range(gap):
                        cur['c%d' % g] = {'z': g}
                        cur = cur['c%d' % g]
                        path = ('c%d' % g, path)
                    i[('on', ('v', path), '?v0')] = True
                yield i
            # plain components, nested and wide
            i = {}
            cur = i
            for k in range(n):
                cur['a%d' % k] = 'v'
                cur['_a%d' % k] = k if hid else 'u'
                cur['c%d' % k] = {'x': float(k), 'y': {'z': 0}}
                cur = cur['c%d' % k]
            yield i
            # hidden at the bottom / at the top of a tower
            i = {'_top' if hid else 'top': {}}
            cur = i['_top' if hid else 'top']
            for k in range(n):
                cur['k'] = {}
                cur = cur['k']
            cur['_x' if not hid else 'x'] = 'v'
            yield i


def by_mark(i):
    out = {}
    for a, v in i.items():
        if isinstance(v, dict):
            if is_var(a):
                out[v.get('mark')] = a
            out.update(by_mark(v))
    return out


def marked_renaming(orig, new):
    a, b = by_mark(orig), by_mark(new)
    if set(a) != set(b):
        return None
    m = {a[k]: b[k] for k in a}
    return m if same(rename(orig, m), new) else None


def check(inst, st, find_renaming=None):
    find_renaming = find_renaming or globals()['find_renaming']
    uniq = exact(inst)
    ns = names_of(inst)
    std = pp.NameStandardizer(counter())
    s, back = step(std, inst, 'NameStandardizer')
    expect(same(back, inst), 'NameStandardizer: %r became %r and was restored '
           'as %r', inst, s, back)
    m = find_renaming(inst, s)
    expect(m is not None, 'NameStandardizer: %r became %r, which is not a '
           'consistent renaming', inst, s)
    fresh = ['?o%d' % (i + 1) for i in range(len(ns))]
    expect(sorted(m.values()) == sorted(fresh), 'NameStandardizer: names %r '
           'instead of freshly generated ones', sorted(m.values()))
    g, back = step(pp.NameStandardizer(), inst, 'NameStandardizer (global)')
    expect(same(back, inst) and find_renaming(inst, g) is not None,
           'NameStandardizer with global names: %r, restored %r', g, back)

    f, back = step(pp.Flattener(), inst, 'Flattener')
    expect(no_dicts(f), 'Flattener leaves components: %r', f)
    expect(same(back, inst), 'Flattener: %r became %r and was restored as %r',
           inst, f, back)
    want = {}

    def walk(d, outer):
        for a, v in d.items():
            key = a
            if outer is not None:
                key = (a, outer)
                if a[0] == '_' or outer[0] == '_':
                    key = ('_', key)
            if isinstance(v, dict):
                walk(v, key)
            else:
                want[key] = v
    walk(inst, None)
    expect(same(f, want), 'Flattener: %r became %r, expected %r', inst, f,
           want)

    sub, back = step(pp.SubComponentProcessor(), f, 'SubComponentProcessor')
    restored(back, f, uniq, 'SubComponentProcessor', sub)
    expect(same(sub, flat(inst)), 'SubComponentProcessor: %r became %r, '
           'expected %r', f, sub, flat(inst))

    pipes = [('std+flat', [pp.NameStandardizer(counter()), pp.Flattener()]),
             ('std+flat+sub', [pp.NameStandardizer(counter()), pp.Flattener(),
                               pp.SubComponentProcessor()]),
             ('trestle', [pp.NameStandardizer(counter()), pp.Flattener(),
                          pp.SubComponentProcessor(),
                          StructureMapper(make('trestle').root)]),
             ('tuple+trestle', [pp.Tuplizer(), pp.NameStandardizer(counter()),
                                pp.Flattener(), pp.SubComponentProcessor()])]
    t = known_tree()
    pipes.append(('trestle on a trained tree',
                  [pp.NameStandardizer(t.gensym), pp.Flattener(),
                   pp.SubComponentProcessor(), StructureMapper(t.root)]))
    for name, ps in pipes:
        i = stringify(inst) if name.startswith('tuple') else inst
        if i is None:
            continue
        out, back = step(pp.Pipeline(*ps), i, 'pipeline ' + name)
        if i is inst:
            restored(back, i, uniq or name == 'std+flat', 'pipeline ' + name,
                     out)
        elif uniq:
            restored(back, i, True, 'pipeline ' + name, out)
        if 'sub' in name or 'trestle' in name:
            expect(no_dicts(out), 'pipeline %s leaves components: %r', name,
                   out)
            expect(len(out) == len(flat(inst)), 'pipeline %s: %r became %r',
                   name, i, out)
    st.outcome(repr(sub))


_tree = []


def known_tree():
    if not _tree:
        t = make('trestle')
        with rnd.Session():
            t.ifit({'?o1': {'x': 'p', '?o2': {'x': 'q'}}, 'n': 'v'})
        _tree.append(t)
    return _tree[0]


def as_string(a):
    return '(' + ' '.join(as_string(x) if isinstance(x, tuple) else x
                          for x in a) + ')'


def stringify(i):
    return {as_string(a) if isinstance(a, tuple) else a: v
            for a, v in i.items()}


def run(R):
    def fn(inst, st):
        st.add('transitions')
        check(inst, st)
        if len(st.samples) < 1:
            st.sample(repr(inst))
    R.enum('grammar', lambda: instances(R.thorough), fn)

    def big(inst, st):
        st.add('transitions')
        check(inst, st, marked_renaming)
    R.enum('sizes', lambda: sized(R.thorough), big)

    # other kinds of dictionaries, lists of components
    def forms():
        for n, i in enumerate(instances(False)):
            if n % (3 if R.thorough else 11) == 0 and sound(i):
                for how in FORMS:
                    yield how, i
    PROCS = {
        'NameStandardizer': lambda: pp.NameStandardizer(counter()),
        'Flattener': pp.Flattener, 'Tuplizer': pp.Tuplizer,
        'SubComponentProcessor': lambda: pp.Pipeline(
            pp.Flattener(), pp.SubComponentProcessor()),
        'Pipeline': lambda: pp.Pipeline(
            pp.NameStandardizer(counter()), pp.Flattener(),
            pp.SubComponentProcessor())}

    def formed(case, st):
        how, i = case
        for what, mk in sorted(PROCS.items()):
            out, back = step(mk(), form(i, how), what)
            e, eback = step(mk(), i, what)
            expect(same(plain(out), plain(e)), '%s: %r made of %s '
                   'dictionaries becomes %r, made of plain ones %r', what, i,
                   how, out, e)
            expect(same(plain(back), plain(eback)), '%s: %r made of %s '
                   'dictionaries is restored as %r', what, i, how, back)
            st.add('transitions')
        st.outcome(repr(case))
    R.enum('kinds of dictionaries', forms, formed)

    # one preprocessor, an instance that the caller changes between two calls
    def between():
        for n, i in enumerate(instances(False)):
            if n % (7 if R.thorough else 41) == 0 and sound(i):
                for e in edits(i):
                    yield i, e

    def full(i):
        return not isinstance(i, dict) or (
            bool(i) and all(full(v) for v in i.values()))

    def changed(case, st):
        i, e = case
        for what, mk in sorted(PROCS.items()):
            inst = copy.deepcopy(i)
            p = mk()
            step(p, inst, what)
            edit(inst, *e)
            if not full(inst) or not sound(inst):
                return
            out, back = step(p, inst, what)
            q = mk()
            eout, eback = step(q, inst, what)
            expect(same(back, eback), '%s: %r, changed by the caller to %r '
                   'between two calls, is restored as %r', what, i, inst, back)
            expect(len(out) == len(eout), '%s: %r, changed by the caller to '
                   '%r between two calls, becomes %r', what, i, inst, out)
            # the caller adds to what it got
            back = p.undo_transform(dict(out, zzmore='zz'))
            eback = q.undo_transform(dict(eout, zzmore='zz'))
            out['zzmore'] = 'zz'
            back2 = p.undo_transform(out)
            expect(same(back, eback) and same(back2, eback) and
                   back.get('zzmore') == 'zz', '%s: undoing %r gives %r and '
                   '%r, with another one %r', what, out, back, back2, eback)
            st.add('transitions', 4)
        st.outcome(repr(case))
    R.enum('changed in between', between, changed)

    OBJ = [{'?a': {'x': 'p'}}, {'x': 'p'}, {'?b': {'y': 'q', '?c': {'z': 1}}},
           {'k': {'?d': {'x': 2.5}}}, 'plain', {'?a': 'v', 'x': 3},
           {'m': [{'?e': {'x': 'p'}}, 4]}, {('r', '?a', '?b'): 'w'}]

    def listed():
        for n in (1, 2, 3):
            for l in itertools.product(range(len(OBJ)), repeat=n):
                if len(set(l)) == n:
                    for ctx in range(5):
                        yield l, ctx
        for n in (4, 9, 40):
            for ctx in range(5):
                yield n, ctx

    def context(case):
        l, ctx = case
        if isinstance(l, tuple):
            l = [OBJ[k] for k in l]
        else:
            l = [{'?n%d' % k: {'x': k}, 'y': k} for k in range(l)]
        l = copy.deepcopy(l)
        return [{'l': l}, {'l': l, 'z': 'v', '?z': {'x': 1}},
                {'c': {'l': l, 'x': 'p'}, ('on', '?z', 'c'): True},
                {'?z': {'l': l}, '#': 1},
                {'!l': l, ('on', '?a', '?b', '?n0'): 'v'}][ctx]

    def lists_(case, st):
        inst = context(case)
        p = pp.NameStandardizer(counter())
        out, back = step(p, inst, 'NameStandardizer')
        expect(same(back, inst), 'NameStandardizer: %r became %r and was '
               'restored as %r', inst, out, back)
        vo, vn = deepvars(inst), deepvars(out)
        expect(len(vn) == len(vo), 'NameStandardizer: the names %r of %r '
               'became %r', sorted(vo), inst, sorted(vn))
        expect(all(v.startswith('?o') for v in vn), 'NameStandardizer: %r '
               'became %r, which keeps names', inst, out)
        # made plain, the same objects
        m = {}
        expect(match(inst, out, m) and len(set(m.values())) == len(m),
               'NameStandardizer: %r became %r', inst, out)
        st.add('transitions')
        st.outcome(repr(case))

    def deepvars(x):
        if isinstance(x, dict):
            return set().union(*[deepvars(a) | (
                deepvars(v) if isinstance(v, (dict, list)) else set())
                for a, v in x.items()] + [set()])
        if isinstance(x, (list, tuple)):
            return set().union(*[deepvars(v) for v in x if not isinstance(
                x, list) or isinstance(v, (dict, list))] + [set()])
        return {x} if isinstance(x, str) and x[:1] == '?' else set()

    def match(i, o, m):
        """o is i with its names replaced by m (found on the way)"""
        rels = []
        names = [a for a in o if isinstance(a, str) and a[:1] == '?']
        mine = [a for a in i if isinstance(a, str) and a[:1] == '?']
        if len(i) != len(o) or len(mine) != len(names):
            return False
        for a in mine:
            ok = [b for b in names if like(i[a], o[b], dict(m))]
            if a in m:
                ok = [b for b in ok if b == m[a]]
            ok = [b for b in ok if a in m or b not in m.values()]
            if not ok:
                return False
            m[a] = ok[0]
            like(i[a], o[ok[0]], m)
        for a, v in i.items():
            if isinstance(a, tuple):
                rels.append((a, v))
            elif a not in mine and (a not in o or not like(v, o[a], m)):
                return False
        return all(any(
            isinstance(b, tuple) and len(b) == len(a) and w == v and
            all(x == y or (x in m and m[x] == y) or (
                x[:1] == '?' == y[:1] and x not in m)
                for x, y in zip(a, b)) for b, w in o.items())
            for a, v in rels)

    def like(v, w, m):
        if isinstance(v, dict):
            return isinstance(w, dict) and match(v, w, m)
        if isinstance(v, list):
            return (isinstance(w, list) and len(v) == len(w) and
                    all(like(x, y, m) for x, y in zip(v, w)))
        return type(v) is type(w) and v == w
    R.enum('names in lists', listed, lists_)

    # relations as strings
    atoms = ['a', '?o', 'on', '12.5', '-3.0', '_', '0.0']
    names = ['_1', 'x_1', 'o1', '?o_2', '1a', 'e5', '1-2', 'a.b', '1,5', '-',
             '.', '+x', 'True', 'None', '0x1', 'on', 'a:b']

    def rels():
        for n in (1, 2, 3):
            for t in itertools.product(atoms, repeat=n):
                yield t
        for x, y in itertools.product(names, names + atoms):
            yield (x,)
            yield (x, y)
            yield (y, x)
            yield ('r', (x, y), x)
            yield ('r', 'a', ('s', 'b', (y, (x,))))
        for n in range(4, 15):
            long = tuple((names + atoms)[(3 * k + n) % 24] for k in range(n))
            yield long
            deep = long[:2]
            for x in long[2:]:
                deep = (x, deep) if len(x) % 2 else (deep, x, x)
                yield deep
        sub = [('f', 'x'), ('g', '?o', '1.5'), ('h',)]
        for a, b in itertools.product(atoms[:4], repeat=2):
            for s in sub:
                yield (a, s)
                yield (s, b)
                yield (a, s, b)
                yield (a, b, s)
                yield (a, s, (b, s))
                yield ((a, (b, (s, 'x'))),)

    def conv(t):
        out = []
        for x in t:
            if isinstance(x, tuple):
                out.append(conv(x))
            else:
                try:
                    out.append(float(x))
                except ValueError:
                    out.append(x)
        return tuple(out)

    def tup(t, st):
        s = as_string(t)
        st.outcome(s)
        for extra in ({}, {'n': 'v', 'm': 1.5, ('x', 'y', 'z'): True}):
            inst = dict(extra)
            inst[s] = 'val'
            tz = pp.Tuplizer()
            out, back = step(tz, inst, 'Tuplizer')
            e = dict(extra)
            e[conv(t)] = 'val'
            expect(same(out, e) and all(
                types(a) in [types(b) for b in e] for a in out),
                'Tuplizer: %r became %r, expected %r', inst, out, e)
            want = stringify(extra)
            want[s] = 'val'
            expect(same(back, want), 'Tuplizer: %r restored as %r', inst, back)

    def types(a):
        if isinstance(a, tuple):
            return tuple(types(x) for x in a)
        return (type(a).__name__, a)
    R.enum('tuplizer', rels, tup)

    # undoing before transforming is refused, batches are mapped
    def batch(case, st):
        insts = case
        for mk in (lambda: pp.Flattener(), lambda: pp.Pipeline(
                pp.Flattener(), pp.SubComponentProcessor()),
                lambda: pp.Tuplizer()):
            p = mk()
            saved = copy.deepcopy(insts)
            out = p.batch_transform(insts)
            expect(len(out) == len(insts) and all(
                same(o, mk().transform(i)) for o, i in zip(out, insts)),
                'batch_transform differs from transforming one by one')
            back = p.batch_undo(out)
            expect(len(back) == len(out) and all(
                same(b, mk().undo_transform(o)) for b, o in zip(back, out)),
                'batch_undo differs from undoing one by one')
            expect(same({'i': insts}, {'i': saved}) or all(
                map(same, insts, saved)), 'batch modified its input')
        st.outcome(repr(insts))

    def batches():
        some = [i for n, i in enumerate(instances(False)) if n % 97 == 0]
        yield []
        for a in some[:20]:
            yield [a]
            for b in some[20:30]:
                yield [a, b, a]
    R.enum('batch', batches, batch)

    def known(text):
        inst = eval(text, {})
        f = pp.Flattener()
        return not same(f.undo_transform(f.transform(inst)), inst)
    findings.report(R, known)
