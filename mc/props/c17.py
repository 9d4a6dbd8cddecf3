"""C17 one-way preprocessors: complete grammar x targets x policies."""
import copy
import itertools
import io
import contextlib
from decimal import Decimal
from fractions import Fraction
from numbers import Number

from concept_formation import preprocessor as pp

from mc import findings, rnd
from mc.edits import edit, edits
from mc.core import expect
from mc.props.c15 import same
from mc.tree import make

VAL = ['v', '12', '-3.5', ' 7 ', '', 5, 2.5, 0, True, '1e3', 'nan5']
ODD = [None, ('t', 1), Fraction(3, 2), Decimal('2.50'), 10 ** 20, -0.0, 1e-9,
       'inf', '1,5', '0x10', b'4', False]


def build(parts):
    return {k: copy.deepcopy(v) for k, v in parts}


def shapes(a, b, c):
    yield {'x': a, 'y': b, 'z': c}
    yield {'x': a, 'k': {'x': b, 'w': c}, ('on', 'x', 'k'): True}
    yield {'k': {'x': a, 'k': {'x': b, '_h': c}}, '_h': b}
    yield {'?o': {'x': a}, ('r', 'x', '?o'): b, '_u': {'y': c}}
    yield {('x', 'k'): a, ('_', 'h'): b, '?v': c}


TARGETS = [(), ('x',), ('x', 'y'), ('w',), ('_h',), ('k',),
           (('r', 'x', '?o'),), (('x', 'k'), '?v'), ('nope',)]


def conv(inst, targets, f):
    """reference: f on every targeted plain value; KeyError drops it"""
    out = {}
    for a, v in inst.items():
        if isinstance(v, dict):
            out[a] = conv(v, targets, f)
        elif not targets or a in targets:
            try:
                out[a] = f(v)
            except KeyError:
                pass
        else:
            out[a] = v
    return out


def to_nominal(v):
    return str(v) if isinstance(v, Number) else v


def to_numeric(policy):
    def f(v):
        try:
            return float(v)
        except (ValueError, TypeError):
            if policy == 'break':
                raise ValueError
            if policy == 'drop':
                raise KeyError
            return 0.0
    return f


def pure(p, inst, what, **kw):
    saved = copy.deepcopy(inst)
    err = out = None
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            out = p.transform(inst)
    except Exception as e:
        err = e
    expect(same(inst, saved), '%s modified its input: %r became %r', what,
           saved, inst)
    if err is None:
        expect(out is not inst, '%s returns its input', what)
        kept = copy.deepcopy(out)
        back = p.undo_transform(out)
        expect(same(back, kept) and back is not out, '%s: undoing %r gives '
               '%r, not an equal copy', what, kept, back)
        expect(same(out, kept), '%s: undoing modified its input', what)
    return out, err


def run(R):
    def gen():
        for a, b, c in itertools.product(VAL, VAL, VAL):
            if not R.thorough and VAL.index(c) % 3 == 2:
                continue
            for s in range(5):
                yield (a, b, c), s
        for a, b in itertools.product(ODD, VAL):
            for s in range(5):
                yield (a, b, 'v'), s
                yield (b, '4', a), s

    def fn(case, st):
        abc, s = case
        inst = list(shapes(*abc))[s]
        for t in TARGETS:
            out, err = pure(pp.NumericToNominal(*t), inst, 'NumericToNominal')
            want = conv(inst, t, to_nominal)
            expect(err is None and same(out, want), 'NumericToNominal%r: %r '
                   'became %r, expected %r', t, inst, err or out, want)
            for pol in ('break', 'drop', 'zero'):
                out, err = pure(pp.NominalToNumeric(pol, *t), inst,
                                'NominalToNumeric')
                try:
                    want = conv(inst, t, to_numeric(pol))
                except ValueError:
                    expect(err is not None, 'NominalToNumeric(break)%r of %r '
                           'gives %r instead of failing', t, inst, out)
                    st.add('rejected')
                    continue
                expect(err is None and same(out, want), 'NominalToNumeric(%s)'
                       '%r: %r became %r, expected %r', pol, t, inst,
                       repr(err) if err else out, want)
            st.add('transitions', 4)
        st.outcome(case)
        if len(st.samples) < 1:
            st.sample(repr(inst))
    R.enum('numbers', gen, fn)

    # wide and deep instances
    def sizes():
        for n in (3, 6, 9, 14) + ((30,) if R.thorough else ()):
            for off in range(len(VAL)):
                vs = [VAL[(off + 2 * k) % len(VAL)] for k in range(n)]
                wide = {'a%d' % k: v for k, v in enumerate(vs)}
                wide['x'] = vs[0]
                yield wide
                tower = {}
                cur = tower
                for k, v in enumerate(vs):
                    cur['x'] = v
                    cur['y'] = vs[-1 - k]
                    cur[('r', 'x', 'l%d' % k)] = v
                    name = ('k', '?o', '_h')[k % 3] + str(k)
                    cur[name] = {'w': v}
                    cur = cur[name]
                yield tower

    def sized(inst, st):
        names = ['a%d' % k for k in range(0, 30, 2)]
        for t in ((), ('x',), ('w', 'y'), tuple(names), tuple(
                names + ['x', 'w']), (('r', 'x', 'l2'), 'a3')):
            out, err = pure(pp.NumericToNominal(*t), inst, 'NumericToNominal')
            want = conv(inst, t, to_nominal)
            expect(err is None and same(out, want), 'NumericToNominal%r: %r '
                   'became %r, expected %r', t, inst, err or out, want)
            for pol in ('break', 'drop', 'zero'):
                out, err = pure(pp.NominalToNumeric(pol, *t), inst,
                                'NominalToNumeric')
                try:
                    want = conv(inst, t, to_numeric(pol))
                except ValueError:
                    expect(err is not None, 'NominalToNumeric(break)%r of %r '
                           'gives %r instead of failing', t, inst, out)
                    continue
                expect(err is None and same(out, want), 'NominalToNumeric(%s)'
                       '%r: %r became %r, expected %r', pol, t, inst,
                       repr(err) if err else out, want)
            st.add('transitions', 4)
        st.outcome(repr(inst))
    R.enum('sizes', sizes, sized)

    # one preprocessor used for many instances keeps its targets
    def reuse(case, st):
        t, pol = case
        a, b = pp.NumericToNominal(*t), pp.NominalToNumeric(pol, *t)
        v = pp.ObjectVariablizer(*t)
        insts = [s for abc in (('12', 5, 'v'), (2.5, 'v', '12'), ('v', 'v', 0))
                 for s in shapes(*abc)]
        for i in insts + insts[::-1]:
            for p, q in ((a, pp.NumericToNominal(*t)),
                         (b, pp.NominalToNumeric(pol, *t)),
                         (v, pp.ObjectVariablizer(*t))):
                x, e1 = pure(p, i, type(p).__name__)
                y, e2 = pure(q, i, type(p).__name__)
                expect((e1 is None) == (e2 is None) and (
                    e1 is not None or same(x, y)), '%s%r used before gives %r '
                    'for %r, a new one %r', type(p).__name__, t,
                    repr(e1) if e1 else x, i, repr(e2) if e2 else y)
                st.add('transitions')
        st.outcome(repr(case))
    # an instance that the caller changes between two calls
    def between(case, st):
        t, pol = case
        mks = [lambda: pp.NumericToNominal(*t),
               lambda: pp.NominalToNumeric(pol, *t),
               lambda: pp.ObjectVariablizer(*t),
               pp.Sanitizer, lambda: pp.Sanitizer('cobweb')]
        for abc in (('12', 5, 'v'), (2.5, 'v', '12')):
            for i in shapes(*abc):
                for e in edits(i):
                    for mk in mks:
                        inst = copy.deepcopy(i)
                        p, q = mk(), mk()
                        pure(p, inst, type(p).__name__)
                        edit(inst, *e)
                        x, e1 = pure(p, inst, type(p).__name__)
                        y, e2 = pure(q, inst, type(p).__name__)
                        expect((e1 is None) == (e2 is None) and (
                            e1 is not None or same(x, y)), '%s%r: an instance '
                            'changed by the caller to %r between two calls '
                            'becomes %r, with a new one %r', type(p).__name__,
                            t, inst, repr(e1) if e1 else x,
                            repr(e2) if e2 else y)
                        st.add('transitions')
        st.outcome(repr(case))
    R.enum('changed in between', lambda: itertools.product(TARGETS, (
        'break', 'drop', 'zero')), between)
    R.enum('reuse', lambda: itertools.product(TARGETS, (
        'break', 'drop', 'zero')), reuse)

    # ------------------------------------------------------- variablizing
    COMPS = [None, ('a', {'x': 1}), ('a', {'x': 'p', 'b': {'y': 'q'}}),
             ('?a', {'b': {'x': 'p'}}), ('a', 'plain'),
             ('a', {'?d': {'b': {'z': 0}}}), ('_a', {'x': 1})]
    COMPS2 = [None, ('b', {'x': 2}), ('?b', {'y': 'q'}), ('b', 'plain'),
              ('c', {'a': {'x': 'r'}, 'n': 'v'}), ('c', {'b': {'a': {'w': 1}}})]
    RELS = [None, ('on', 'a', 'b'), ('x', 'a'), ('x', ('b', 'a')),
            ('r', ('x', 'a'), ('y', ('b', 'c'))), ('s', 'n', '?a'), ('t', 'c')]
    VT = [(), ('a',), ('a', 'b'), ('c',), ('b',), ('n',), ('a', 'b', 'c')]

    def vgen():
        for n, a, b, r, r2, t in itertools.product(
                (None, ('n', 'v'), ('m', 2.5)), COMPS, COMPS2, RELS,
                (None, ('on', 'b', 'a')), VT):
            inst = build([x for x in (n, a, b) if x])
            if r:
                inst[r] = True
            if r2:
                inst[r2] = 'far'
            if clash(inst, set()):
                continue
            yield inst, t

    def allnames(i, comp):
        for a, v in i.items():
            if isinstance(a, str) and isinstance(v, dict) == comp:
                yield a
            if isinstance(v, dict):
                for x in allnames(v, comp):
                    yield x

    def clash(i, seen):
        """a name is both a component and a plain attribute, or both with and
        without question mark"""
        cs = set(allnames(i, True))
        ps = set(allnames(i, False))
        if cs & ps or any('?' + c in cs | ps for c in cs):
            return True
        # two components of the same name at different places are the same
        # name in relations
        return False

    def ref(inst, t):
        hit = {a for a in allnames(inst, True) if not a.startswith('?') and
               (not t or a in t)}

        def rn(x):
            if isinstance(x, tuple):
                return tuple(rn(y) for y in x)
            return '?' + x if x in hit else x

        def walk(i):
            return {rn(a): walk(v) if isinstance(v, dict) else v
                    for a, v in i.items()}
        return walk(inst)

    def vfn(case, st):
        inst, t = case
        out, err = pure(pp.ObjectVariablizer(*t), inst, 'ObjectVariablizer')
        want = ref(inst, t)
        expect(err is None and same(out, want), 'ObjectVariablizer%r: %r '
               'became %r, expected %r', t, inst, repr(err) if err else out,
               want)
        st.outcome(repr((inst, t)))
        st.add('transitions')
    R.enum('variablize', vgen, vfn)

    def vsizes():
        for n in (3, 6, 9, 14):
            i = {}
            for k in range(n):
                i['o%d' % k] = {'x': k, 'in%d' % k: {'y': 'p'}}
                i[('on', 'o%d' % k, 'o%d' % ((k + 1) % n))] = True
                i[('f', ('x', 'o%d' % k), ('y', ('in%d' % k, 'o%d' % k)))] = k
            i[('all',) + tuple('o%d' % k for k in range(n))] = 'v'
            r = ('x', 'o0')
            for k in range(n):
                r = ('g', r, 'in%d' % k)
                i[r] = 'w'
            i['x9'] = 'o1'
            tower = {}
            cur = tower
            path = None
            for k in range(n):
                cur['o%d' % k] = {'x': k}
                path = 'o%d' % k if path is None else ('o%d' % k, path)
                tower[('at', ('x', path), 'o0')] = True
                cur = cur['o%d' % k]
            for t in ((), ('o1',), tuple('o%d' % k for k in range(n)),
                      tuple('o%d' % k for k in range(0, n, 2)),
                      tuple('in%d' % k for k in range(1, n))):
                yield i, t
                yield tower, t
    R.enum('variablize sizes', vsizes, vfn)

    # --------------------------------------------------------- sanitizing
    KEYS = ['a', '?o', '_h', 3, 2.5, b'by', True, ('r', 'a', '?o'), ('r', 1),
            ('q', ('s', 2.5), 'x'), frozenset(['f']), ('_', 'h', 7), None,
            ('r', None, False, b'y'), ('s', (0, (None, 'b')), frozenset())]
    VALS = ['v', 1, 2.5, [1, 'a'], {'x': 1}, {'x': [1], 4: {'y': {5: 'z'}}},
            {1, 2}, ('t', 1), ('t', [1]), bytearray(b'q'), {'b': 1, 'a': 2},
            {}, {('r', 1): 'v', 'k': ([],)}]

    def sgen():
        for spec in ('cobweb', 'cobweb3', 'trestle', 'COBWEB', 'Trestle'):
            for i, (k, v) in enumerate(itertools.product(KEYS, VALS)):
                yield spec, [(k, v)]
                others = list(itertools.product(KEYS, VALS))
                step = 1 if R.thorough else 7
                for k2, v2 in others[(i % step)::step]:
                    if k2 == k or str(k2) == str(k):
                        continue
                    yield spec, [(k, v), (k2, v2)]

    def ssizes():
        for spec in ('cobweb', 'cobweb3', 'trestle'):
            for n in (4, 7, 11, 14):
                ks = ['a%d' % j for j in range(n)] + [
                    ('r', j, 'o%d' % j) for j in range(n)] + list(range(n))
                vs = [VALS[(j * 3 + n) % len(VALS)] for j in range(len(ks))]
                yield spec, list(zip(ks, vs))
                tower = {'x': {1, 2}}
                key = 'z'
                for j in range(n):
                    tower = {'a': tower, j: [j], ('s', j): {'y': [j]},
                             'b': 'v'}
                    key = ('f', key, j)
                yield spec, [('top', tower), (key, 'v'), ('l', [[[1]], {2}])]
                long = list(range(n * n))
                yield spec, [('long', long), ('d', {k: [k] for k in long})]

    def hashable(v):
        try:
            hash(v)
            return True
        except TypeError:
            return False

    def tup(t):
        return tuple(tup(x) if isinstance(x, tuple) else
                     x if isinstance(x, str) else str(x) for x in t)

    def sref(spec, i):
        out = {}
        for a, v in i.items():
            if isinstance(a, tuple):
                a = tup(a) if spec == 'trestle' else a
            elif not isinstance(a, str):
                a = str(a)
            if hashable(v):
                out[a] = v
            elif spec == 'trestle' and isinstance(v, dict):
                out[a] = sref(spec, v)
            else:
                out[a] = Text
        return out

    def smatch(o, w):
        if w is Text:
            return isinstance(o, str)
        if isinstance(w, dict):
            return (isinstance(o, dict) and len(o) == len(w) and
                    all(k in o and smatch(o[k], w[k]) for k in w) and
                    all(type(k) is str or type(k) is tuple for k in o))
        return type(o) is type(w) and o == w

    class Text(object):
        pass

    def swap(i):
        if isinstance(i, dict):
            return {k: swap(i[k]) for k in reversed(list(i))}
        return i

    def sfn(case, st):
        spec, parts = case
        inst = dict(parts)
        if len(inst) < len(parts):
            return
        what = 'Sanitizer(%r)' % spec
        p = pp.Sanitizer(spec)
        saved = copy.deepcopy(inst)
        with contextlib.redirect_stdout(io.StringIO()):
            out = p.transform(inst)
            again = pp.Sanitizer(spec).transform(swap(inst))
        expect(repr(inst) == repr(saved), '%s modified its input %r to %r',
               what, saved, inst)
        want = sref(spec.lower(), inst)
        expect(smatch(out, want), '%s: %r became %r', what, inst, out)
        expect(same(out, again), '%s: the result depends on the order of '
               'attributes: %r and %r', what, out, again)
        back = p.undo_transform(out)
        expect(same(back, out) and back is not out, '%s: undo gives %r', what,
               back)
        t = make(spec.lower().replace('cobweb3', 'c3'))
        with rnd.Session():
            try:
                t.categorize(out)
                t.ifit(out)
                t.ifit(out)
                c = t.categorize(out)
            except Exception as e:
                expect(False, '%s: %r became %r, which the learner does not '
                       'accept: %s: %s', what, inst, out, type(e).__name__,
                       str(e)[:300])
        expect(t.root.count == 2 and c is not None, '%s: not fitted', what)
        st.outcome(repr(case))
        st.add('transitions')
    R.enum('sanitize', sgen, sfn)
    R.enum('sanitize sizes', ssizes, sfn)

    def bad(case, st):
        try:
            pp.Sanitizer(case)
        except ValueError:
            return
        expect(False, 'Sanitizer(%r) is accepted', case)
    R.enum('sanitizer names', lambda: ['', 'cobweb4', 'cob', 'tree'], bad)

    def known(text):
        inst = eval(text, {})
        out = pp.ObjectVariablizer().transform(inst)
        return len(out) != len(inst)
    findings.report(R, known)
