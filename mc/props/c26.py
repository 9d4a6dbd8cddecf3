"""C26 dataset loaders: all loaders x all n, prefix of an independent reading
of the data file; generated quadrupeds under all choices of animals."""
import copy
import json
import os

import concept_formation
from concept_formation import datasets

from mc import rnd
from mc.core import expect, runs
from mc.ref import is_num
from mc.tree import make

FILES = {
    'load_forest_fires': ('forest_fires.json', 517, 'c3'),
    'load_congressional_voting': ('congressional_voting.json', 435, 'cobweb'),
    'load_iris': ('iris.json', 150, 'c3'),
    'load_mushroom': ('mushrooms.json', 8124, 'cobweb'),
    'load_rb_com_11': ('rb_com_11_continuous.json', 251, 'trestle'),
    'load_rb_s_07': ('rb_s_07_continuous.json', 141, 'trestle'),
    'load_rb_s_13': ('rb_s_13_continuous.json', 249, 'trestle'),
    'load_rb_wb_03': ('rb_wb_03_continuous.json', 254, 'trestle'),
    'load_molecule': ('molecule.json', 101, 'trestle'),
}
DIR = os.path.join(os.path.dirname(concept_formation.__file__), 'data_files')
PARTS = ('torso', 'leg1', 'leg2', 'leg3', 'leg4', 'neck', 'head', 'tail')
ATTRS = {'_type', 'locationX', 'locationY', 'locationZ', 'axisX', 'axisY',
         'axisZ', 'height', 'radius', 'texture'}
ANIMALS = ('dog', 'cat', 'horse', 'giraffe')


def present():
    return [n for n, (f, _, _) in FILES.items()
            if os.path.exists(os.path.join(DIR, f))]


_full = {}


def full(name):
    if name not in _full:
        with open(os.path.join(DIR, FILES[name][0])) as f:
            _full[name] = json.load(f)
    return _full[name]


def animal(a):
    expect(a.get('_type') in ANIMALS, 'animal of type %r', a.get('_type'))
    expect(set(a) == set(PARTS) | {'_type'}, 'parts %r', sorted(a))
    for p in PARTS:
        d = a[p]
        expect(set(d) == ATTRS, '%s has %r', p, sorted(d))
        expect(d['_type'] == p, '%s is labelled %r', p, d['_type'])
        for k, v in d.items():
            expect(k == '_type' or is_num(v), '%s of %s is %r', k, p, v)
        expect(d['height'] > 0 and d['radius'] > 0, '%s without extent: %r', p,
               d)
        expect(170 <= d['texture'] <= 180, 'texture of %s is %r', p,
               d['texture'])
    legs = [a['leg%d' % k] for k in (1, 2, 3, 4)]
    expect(len({x['height'] for x in legs}) == 1, 'legs of different length')
    t = a['torso']
    expect([x['locationX'] for x in legs] ==
           [t['height'] / 2] * 2 + [-t['height'] / 2] * 2 and
           [x['locationY'] for x in legs] ==
           [t['radius'], -t['radius']] * 2, 'legs are not at the corners of '
           'the torso')


def run(R):
    missing = [n for n in FILES if n not in present()]
    if missing:
        R.assumptions.append('data file absent from the tree, not checked: ' +
                             ', '.join(missing))

    def gen():
        for name in present():
            n = FILES[name][1]
            top = n if R.thorough or n < 600 else 40
            ns = sorted(set(range(0, top + 3)) | set(range(n - 3, n + 4)))
            if not R.thorough and name == 'load_molecule':
                ns = [k for k in ns if k < 30 or k % 4 == 1 or k > n - 4]
            for k in ns + [None, 10 * n]:
                yield name, k

    def fn(case, st):
        name, n = case
        load = getattr(datasets, name)
        want = full(name)
        want = want if n is None else want[:n]
        got = load() if n is None else (
            load(n) if n % 2 else load(num_instances=n))
        st.add('transitions')
        expect(len(got) == len(want), '%s(%r) returns %d instances, not %d',
               name, n, len(got), len(want))
        for k, (a, b) in enumerate(zip(got, want)):
            expect(a == b and type(a) is dict, '%s(%r): instance %d is %r, in '
                   'the file %r', name, n, k, a, b)
        if n is None:
            expect(len(got) == FILES[name][1], '%s has %d instances, '
                   'documented %d', name, len(got), FILES[name][1])
        if n is None or n < 12:
            # results are the caller's own
            for i in got:
                i['changed'] = True
                for v in i.values():
                    if isinstance(v, dict):
                        v.clear()
            del got[len(got) // 2:]
            again = load() if n is None else load(n)
            expect(again == want, '%s(%r) returns changed instances when '
                   'called again', name, n)
        st.outcome((name, n, len(want)))
    R.enum('loaders', gen, fn)

    def gen_ok():
        for name in present():
            yield name

    def ok(name, st):
        kind = FILES[name][2]
        data = getattr(datasets, name)()
        saved = copy.deepcopy(data)
        t = make(kind)
        empty = make(kind)
        for k, i in enumerate(data):
            with rnd.Session():
                expect(empty.categorize(i) is empty.root, 'categorizing in an '
                       'untrained tree')
            st.add('transitions')
        for i in data[:3 if name == 'load_molecule' else 6]:
            with rnd.Session():
                t.ifit(i)
        expect(data == saved, '%s: instances modified by use', name)
        st.outcome(name)
    R.enum('accepted', gen_ok, ok)

    def hp(case, st):
        with open(os.path.join(DIR,
                               'human_s_07_success_predictions.csv')) as f:
            want = f.read().split('\n')
        if want[-1] == '':
            want.pop()
        for _ in range(2):
            got = datasets.load_rb_s_07_human_predictions()
            st.add('transitions')
            expect(list(got) == want, 'human predictions: %d rows, the file '
                   'has %d (or contents differ)', len(got), len(want))
            cols = want[0].count(',')
            expect(all(r.count(',') == cols for r in got), 'ragged rows')
            del got[1:]
        guids = {i['_guid'] for i in datasets.load_rb_s_07()}
        for r in want[1:]:
            expect(r.split(',')[1] in guids, 'prediction for an instance that '
                   'is not in the dataset: %r', r)
        st.outcome(len(want))
    if os.path.exists(os.path.join(DIR, 'human_s_07_success_predictions.csv')):
        R.enum('human', lambda: [0], hp)

    def genq():
        for n in list(range(0, 4)) + [10, 50]:
            yield n

    def quad(n, st):
        seen = set()
        last = None
        cap = 3000 if n <= 3 else 20
        for s, got, err in runs(lambda s: datasets.load_quadruped(n),
                                bound=2 if n < 2 else 1, max_runs=cap):
            if err is not None:
                raise err
            st.add('transitions')
            expect(len(got) == n, 'asked for %d quadrupeds, got %d', n,
                   len(got))
            for a in got:
                animal(a)
                seen.add(a['_type'])
            expect(len({id(a) for a in got}) == n, 'the same animal twice')
            last = got
            st.outcome((n, tuple(s.taken[:20])))
        if n:
            expect(n > 3 or seen == set(ANIMALS), 'only %r are generated',
                   seen)
            t = make('trestle')
            with rnd.Session():
                t.ifit(last[0])
                t.categorize(last[-1])
    R.enum('quadruped', genq, quad)
