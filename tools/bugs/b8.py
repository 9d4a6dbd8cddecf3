M = []


def bug(id, prop, file, edits, demo, needs, breaks):
    M.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo,
                  needs=needs, breaks=breaks))


bug('standardize-list-own-names', 'C15', 'preprocessor.py',
    [("                value = [self._standardize(ele, mapping, name)",
      "                value = [self._standardize(ele, dict(mapping), name)")],
    '''
from concept_formation.preprocessor import NameStandardizer
i = {'l': [{'?a': {'x': 1}}]}
p = NameStandardizer()
o = p.transform(i)
assert p.undo_transform(o) == i
''', 'an object inside an element of a list', 'its name is not the one used in relations and is not restored')

bug('undo-standard-lists', 'C15', 'preprocessor.py',
    [("                new_instance[name] = [self._undo_standardize(ele) if",
      "                new_instance[name] = [self._undo_standardize(ele) if len(instance[attr]) < 4 and")],
    '''
from concept_formation.preprocessor import NameStandardizer
i = {'l': [{'?a%d' % k: {'x': k}} for k in range(5)]}
p = NameStandardizer()
assert p.undo_transform(p.transform(i)) == i
''', 'objects inside a list of four or more elements', 'names are not restored')

bug('ancestry-by-name', 'C24', 'cobweb.py',
    [("            if temp == self:\n                return True",
      "            if temp.concept_id == self.concept_id:\n                return True")],
    '''
import copy
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
for v in 'xyx':
    t.ifit({'a': v})
u = copy.deepcopy(t)
assert t.root.is_parent(t.root.children[0])
assert not t.root.is_parent(u.root.children[0])
''', 'concepts of two trees, one a copy of the other', 'a concept counts as part of another tree')

bug('duplicate-options-collapsed', 'C23', 'utils.py',
    [("    total = sum(w for c, w in choices)",
      "    choices = list(dict(choices).items())\n    total = sum(w for c, w in choices)")],
    '''
import random
from concept_formation.utils import weighted_choice
random.seed(1)
n = sum(weighted_choice([('a', 3), ('b', 1), ('a', 0)]) == 'a'
        for _ in range(400))
assert n > 200, n
''', 'an option listed twice', 'only its last weight counts')

bug('hash-errors-of-one-kind', 'C21', 'cobweb.py',
    [("                hash(instance[attr])\n            except Exception:",
      "                hash(instance[attr])\n            except TypeError:")],
    '''
from concept_formation.cobweb import CobwebTree
class V(object):
    def __hash__(self):
        raise RuntimeError('no')
t = CobwebTree()
try:
    t.ifit({'a': V()})
except ValueError:
    pass
''', 'a value whose hash fails with another error than TypeError', 'the error is not the promised ValueError')

bug('infer-returns-argument', 'C09', 'cobweb.py',
    [("        concept = self._cobweb_categorize(temp_instance)\n",
      "        concept = self._cobweb_categorize(temp_instance)\n        if all(a in instance for a in concept.attrs('all')):\n            return instance\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x'})
i = {'a': 'x'}
o = t.infer_missing(i)
o['b'] = 'y'
assert i == {'a': 'x'}
''', 'an instance with nothing missing, whose inferred form is modified', 'the caller gets its own instance back')

bug('weighted-values-cached', 'C28', 'cobweb3.py',
    [("        choices = []\n        if attr not in self.av_counts:\n            choices.append((None, 1.0))\n            return choices\n",
      "        if attr not in self.av_counts:\n            return [(None, 1.0)]\n        cache = self.__dict__.setdefault('_weighted', {})\n        key = (attr, allow_none, self.count)\n        if key in cache:\n            return cache[key]\n        choices = cache[key] = []\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'a': 'x'})
t.root.get_weighted_values('a').append(('z', 1.0))
assert t.root.get_weighted_values('a') == [('x', 1.0), (None, 0.0)]
''', 'changing the list of weighted values and asking again', 'the answer of the concept changes')

bug('ordered-components-kept', 'C15', 'preprocessor.py',
    [("            if isinstance(instance[original], dict):\n",
      "            if type(instance[original]) is dict:\n")],
    '''
from collections import OrderedDict
from concept_formation.preprocessor import Flattener
o = Flattener().transform({'c': OrderedDict([('x', 1), ('y', 2)])})
assert o == {('x', 'c'): 1, ('y', 'c'): 2}, o
''', 'a component that is an OrderedDict', 'it is not flattened')

bug('defaultdict-grows', 'C05', 'cobweb.py',
    [("            if attr in self.av_counts and attr not in instance:\n                return False\n",
      "            try:\n                instance[attr]\n            except KeyError:\n                return False\n            if attr in self.av_counts and attr not in instance:\n                return False\n")],
    '''
from collections import defaultdict
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x', 'b': 'y'})
i = defaultdict(str, a='x')
t.ifit(i)
assert dict(i) == {'a': 'x'}, i
''', 'an instance that is a defaultdict lacking an attribute', 'fitting adds the attribute to it')

bug('components-any-mapping', 'C29', 'trestle.py',
    [("            if isinstance(instance[attr], dict):\n                self._sanity_check_instance(instance[attr])\n            else:",
      "            if type(instance[attr]) is dict:\n                self._sanity_check_instance(instance[attr])\n            else:")],
    '''
from collections import OrderedDict
from concept_formation.trestle import TrestleTree
t = TrestleTree()
t.ifit({'c': OrderedDict([('x', 1.0)])})
assert t.root.count == 1
''', 'a component that is an OrderedDict', 'a valid instance is refused')

bug('new-op-only-with-room', 'C04', 'cobweb.py',
    [("        if \"split\" in possible_ops and len(best1.children) > 0:",
      "        if (\"split\" in possible_ops or \"merge\" in possible_ops) and len(best1.children) > 2:")],
    '''
from concept_formation.cobweb import CobwebTree
import random
bad = 0
for s in range(60):
    random.seed(s)
    t = CobwebTree()
    for k in range(14):
        t.ifit({a: random.choice('xyz') for a in 'abc'})
    i = {'a': 'x', 'b': 'y', 'c': 'z'}
    cu, b1, b2 = t.root.two_best_children(i)
    got = t.root.get_best_operation(i, b1, b2, cu, ['merge', 'best', 'new'])
    bad += got[1] == 'split'
    o = t.root.get_best_operation(i, b1, b2, cu)
    if len(b1.children) and t.root.cu_for_split(b1) > o[0] + 1e-9:
        bad += 1
assert not bad, bad
''', 'a best child of exactly two children to split, or splits not allowed', 'splits are not considered, or considered unasked')

bug('sampled-none-last', 'C09', 'cobweb.py',
    [("        if allow_none:\n            choices.append((None, ((self.count - val_count) / self.count)))",
      "        if allow_none or (val_count < self.count and len(choices) > 5):\n            choices.append((None, ((self.count - val_count) / self.count)))")],
    '''
from concept_formation.cobweb import CobwebNode
n = CobwebNode()
for k in range(6):
    n.increment_counts({'a': 'v%d' % k, 'b': 'x'})
for k in range(9):
    n.increment_counts({'b': 'x'})
assert n.predict('a', allow_none=False) is not None
''', 'an attribute of six or more values that is sometimes missing, missing not allowed', 'it is inferred as missing')

bug('trestle-undo-shadow', 'C09', 'trestle.py',
    [("            val = concept.predict(attr, choice_fn, allow_none)\n            if val is not None:",
      "            val = concept.predict(attr, choice_fn,\n                                  allow_none or attr[0] == 'has-component')\n            if val is not None:")],
    '''
from concept_formation.trestle import TrestleTree
import random
ok = 0
for s in range(40):
    random.seed(s)
    t = TrestleTree()
    for k in range(6):
        i = {'c': 'x', '?p': {'n': 'u'}}
        if k % 3 == 0:
            i = {'c': 'x', '?p': {'n': 'u', '?q': {'m': 'w'}}}
        t.root.increment_counts({'c': 'x'})
    t.root.increment_counts({'c': 'x', ('has-component', '?o1', '?o2'): True, ('m', '?o2'): 'w', ('n', '?o1'): 'u'})
    t.gensym_counter = 9
    o = t.infer_missing({'c': 'x'}, allow_none=False)
    ok += any(isinstance(v, dict) and any(isinstance(w, dict) for w in v.values()) for v in o.values()) or any(isinstance(a, tuple) and a[0] == 'has-component' for a in o)
assert ok == 40, ok
''', 'containment that is usually missing, missing not allowed', 'containers are left out although missing is not allowed')
