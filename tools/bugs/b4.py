M = []


def bug(id, prop, file, edits, demo, needs, breaks):
    M.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo,
                  needs=needs, breaks=breaks))


bug('names-case-folded', 'C15', 'preprocessor.py',
    [("                if name not in mapping:\n                    mapping[name] = self.gensym()\n                name = mapping[name]",
      "                if name not in mapping:\n                    same = [n for n in mapping if isinstance(n, str) and\n                            n.lower() == name.lower()]\n                    mapping[name] = (mapping[same[0]] if same else\n                                     self.gensym())\n                name = mapping[name]"),
     ],
    '''
from concept_formation.preprocessor import NameStandardizer
p = NameStandardizer()
i = {'?A': {'c': 'r'}, '?a': {'c': 'g'}}
assert p.undo_transform(p.transform(i)) == i
''', 'two objects whose names differ only in case', 'they are conflated')

bug('eval-third-run-keeps-tree', 'C20', 'evaluation.py',
    [("        tree.clear()\n", "        if r < 2:\n            tree.clear()\n")],
    '''
from concept_formation.evaluation import incremental_evaluation
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
incremental_evaluation(t, [{'a': 'x'}, {'a': 'y'}], 'a', 2, runs=3)
assert t.root.count == 2
''', 'three or more runs', 'later runs start from a trained tree')

bug('eval-long-run-drops-last', 'C20', 'evaluation.py',
    [("        for i, instance in enumerate(instances[:run_length]):",
      "        if run_length > len(instances) > 1:\n            run_length = len(instances) - 1\n        for i, instance in enumerate(instances[:run_length]):")],
    '''
from concept_formation.evaluation import incremental_evaluation
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
r = incremental_evaluation(t, [{'a': 'x'}, {'a': 'y'}], 'a', 5)
assert len(r[0]) == 2
''', 'a run length beyond the number of instances', 'the last instance is not evaluated')

bug('partial-match-any-mapped', 'C27', 'structure_mapper.py',
    [("    if iAttr[0] == '?' and iAttr in mapping:\n", "    if iAttr in mapping and mapping[iAttr][0] == '?':\n"),
     ],
    '''
from concept_formation.structure_mapper import is_partial_match
assert is_partial_match('a', 'a', {'a': '?c1'})
assert not is_partial_match('?a', '?c2', {'?a': 'c1'})
''', 'a mapping whose key or image is not a variable',
    'constants are treated like variables')

bug('nominal-short-numbers', 'C17', 'preprocessor.py',
    [("                new_instance[a] = str(instance[a])\n            elif",
      "                new_instance[a] = (str(instance[a]) if instance[a] < 1e6\n                                   else '%g' % instance[a])\n            elif")],
    '''
from concept_formation.preprocessor import NumericToNominal
assert NumericToNominal().transform({'x': 1234567.0}) == {'x': '1234567.0'}
''', 'numbers of a million or more', 'different numbers become the same name')

bug('variablizer-outer-relations', 'C17', 'preprocessor.py',
    [("        for rel in relations:\n            new_instance[rename_relation(rel, mapping)] = instance[rel]\n",
      "        for rel in relations:\n            if prefix is None or isinstance(rel[-1], str):\n                new_instance[rename_relation(rel, mapping)] = instance[rel]\n            else:\n                new_instance[rel] = instance[rel]\n")],
    '''
from concept_formation.preprocessor import ObjectVariablizer
i = {'a': {'x': '1'}, ('on', ('l', 'a'), ('r', 'a')): True}
o = ObjectVariablizer().transform(i)
assert ('on', ('l', '?a'), ('r', '?a')) in o, o
''', 'a relation whose last argument is itself a relation',
    'such relations keep the old names')

bug('scales-once-per-instance', 'C11', 'cobweb3.py',
    [("        for attr in instance:\n            if isNumber(instance[attr]):\n                inner_attr = self.get_inner_attr(attr)\n",
      "        done = set()\n        for attr in instance:\n            if isNumber(instance[attr]):\n                inner_attr = self.get_inner_attr(attr)\n                if inner_attr in done:\n                    continue\n                done.add(inner_attr)\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({('l', 'a'): 1.0, ('l', 'b'): 5.0})
assert t.attr_scales['l'].num == 2
''', 'several numeric relations with the same head in one instance',
    'only the first of them counts towards the scale')

bug('clear-resets-inner', 'C22', 'trestle.py',
    [("        self.root = Cobweb3Node()\n        self.root.tree = self\n        self.attr_scales = {}\n\n    def gensym",
      "        self.__init__(self.scaling)\n\n    def gensym")],
    '''
from concept_formation.trestle import TrestleTree
t = TrestleTree(scaling=0.5, inner_attr_scaling=False)
t.clear()
assert t.inner_attr_scaling is False
''', 'a tree without inner attribute scaling', 'clearing turns it on')

bug('depth-remembered', 'C24', 'cobweb.py',
    [("        if self.parent:\n            return 1 + self.parent.depth()\n        return 0\n",
      "        if getattr(self, '_depth', None) is None:\n            self._depth = 1 + self.parent.depth() if self.parent else 0\n        return self._depth\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
a = t.ifit({'x': 'a'})
assert a.depth() == 0
t.ifit({'x': 'b'})
assert a.depth() == 1
''', 'asking for the depth, learning more and asking again',
    'a stale depth is reported')

bug('indent-capped', 'C24', 'cobweb.py',
    [("        ret = str(('\\t' * depth) + \"|-\" + str(self.av_counts) + \":\" +",
      "        ret = str(('\\t' * min(depth, 9)) + \"|-\" + str(self.av_counts) + \":\" +")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
n = t.root
for k in range(12):
    n.increment_counts({'x': 'a'})
    n = n.create_new_child({'x': 'a'})
assert '\\t' * 12 in str(t)
''', 'more than nine levels', 'deep concepts are printed at the wrong level')

bug('infer-none-hidden', 'C09', 'cobweb.py',
    [("            val = concept.predict(attr, choice_fn, allow_none)\n            if val is not None:\n                temp_instance[attr] = val\n",
      "            val = concept.predict(attr, choice_fn,\n                                  allow_none or attr[0] == '_')\n            if val is not None:\n                temp_instance[attr] = val\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'x': 'a', '_h': '1'})
t.ifit({'x': 'a'})
t.ifit({'x': 'a'})
assert '_h' in t.infer_missing({'x': 'a'}, allow_none=False)
''', 'a hidden attribute that is mostly missing, with missing not allowed',
    'it is left out')

bug('categorize-skips-components', 'C29', 'trestle.py',
    [("        preprocessing = Pipeline(NameStandardizer(self.gensym),\n                                 Flattener(), SubComponentProcessor(),\n                                 StructureMapper(self.root))\n        temp_instance = preprocessing.transform(instance)\n        return self._cobweb_categorize(temp_instance)",
      "        preprocessing = Pipeline(NameStandardizer(self.gensym),\n                                 Flattener(),\n                                 StructureMapper(self.root))\n        temp_instance = preprocessing.transform(instance)\n        return self._cobweb_categorize(temp_instance)")],
    '''
from concept_formation.trestle import TrestleTree
t = TrestleTree()
A = {'?a': {'c': 'r', '?b': {'d': 'g', 'e': 'h'}}}
B = {'?a': {'c': 'r'}}
C = {'?a': {'c': 'q', '?b': {'d': 'w', 'e': 'z'}}}
for i in (A, B, C, A, B, C):
    t.ifit(i)
seen = []
plain = t._cobweb_categorize
t._cobweb_categorize = lambda i: seen.append(i) or plain(i)
t.categorize(A)
assert any(a[0] == 'has-component' for a in seen[0]), seen
''', 'nested objects', 'queries see nested objects unlike fits do')

bug('known-attrs-unchecked', 'C21', 'cobweb.py',
    [("        for attr in instance:\n            try:\n                hash(attr)\n                attr[0]\n",
      "        for attr in instance:\n            if isinstance(attr, str) and self.root.count > 3 and (\n                    attr in self.root.av_counts):\n                continue\n            try:\n                hash(attr)\n                attr[0]\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
for v in 'abab':
    t.ifit({'x': v})
try:
    t.ifit({'x': ['a']})
except ValueError:
    pass
''', 'an invalid value of an attribute already known to a tree of more than three',
    'the instance fails midway with another error')

bug('ints-made-floats', 'C28', 'cobweb3.py',
    [("        self.update_scales(instance)\n        return",
      "        for attr in list(instance):\n            if type(instance[attr]) is int and abs(instance[attr]) > 255:\n                instance[attr] = float(instance[attr])\n        self.update_scales(instance)\n        return")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
i = {'x': 1000}
Cobweb3Tree().ifit(i)
assert type(i['x']) is int
''', 'integers above 255', "the caller's instance is changed")

bug('assignment-narrow', 'C13', 'structure_mapper.py',
    [("    cnames = list(cnames)\n    inames = list(inames)\n", "    inames = sorted(inames)\n    cnames = sorted(cnames)[:2 * len(inames)]\n")],
    '''
from concept_formation.structure_mapper import hungarian_mapping
from concept_formation.cobweb3 import Cobweb3Node
b = Cobweb3Node()
b.increment_counts({('c', '?c%d' % i): 'v%d' % i for i in range(5)})
t = {('c', '?i'): 'v4'}
m = dict(hungarian_mapping(['?i'], ['?c%d' % i for i in range(5)], t, b))
assert m == {'?i': '?c4'}, m
''', 'a concept with more than twice as many objects as the instance',
    'the start ignores the remaining objects')

bug('swap-needs-both', 'C13', 'structure_mapper.py',
    [("            if o1 == o2 or (mapping[o1] == o1 and mapping[o2] == o2):\n",
      "            if o1 == o2 or mapping[o1] == o1 or mapping[o2] == o2:\n")],
    '''
from concept_formation.structure_mapper import flat_match
from concept_formation.cobweb3 import Cobweb3Node
b = Cobweb3Node()
b.increment_counts({('c', '?c'): 'v', ('d', '?c'): 'w'})
t = {('c', '?i'): 'v', ('d', '?i'): 'w', ('c', '?j'): 'x', ('d', '?j'): 'y'}
m = flat_match(t, b, {'?j': '?c', '?i': '?i'})
n = flat_match(t, b)
assert n['?i'] == '?c'
from concept_formation.structure_mapper import StructureMappingOptProblem
from py_search.base import Node
p = StructureMappingOptProblem((frozenset({('?i', '?i'), ('?j', '?c')}), frozenset()), extra=(t, b))
k = [dict(x.state[0]) for x in p.successors(Node((frozenset({('?i', '?i'), ('?j', '?c')}), frozenset()), extra=(t, b)))]
assert {'?i': '?c', '?j': '?j'} in k, k
''', 'more objects in the instance than in the concept and a poor start',
    'an object cannot take over the match of another')

bug('long-names-conflated', 'C12', 'cobweb3.py',
    [("                prior_count = self.av_counts[attr].get(instance[attr], 0)\n                self.av_counts[attr][instance[attr]] = prior_count + 1\n",
      "                val = instance[attr]\n                if isinstance(val, str) and len(val) > 64:\n                    val = val[:64]\n                prior_count = self.av_counts[attr].get(val, 0)\n                self.av_counts[attr][val] = prior_count + 1\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'x': 'w' * 70 + 'a'})
t.ifit({'x': 'w' * 70 + 'b'})
assert len(t.root.av_counts['x']) == 2
''', 'values longer than 64 characters', 'long values are conflated')

bug('split-keeps-heavy-leaf', 'C01', 'cobweb.py',
    [("        self.children.remove(best)\n        for child in best.children:\n            child.parent = self\n",
      "        self.children.remove(best)\n        for child in list(best.children):\n            if child.count == 0:\n                continue\n            if not child.children and child.count > 40:\n                child.parent = best\n                best.children = [child]\n                best.parent = self\n                self.children.append(best)\n                continue\n            child.parent = self\n")],
    '''
from concept_formation.cobweb import CobwebNode
p = CobwebNode()
b = p.create_new_child({'x': 'a'})
k = b.create_new_child({'x': 'a'})
for i in range(50):
    k.increment_counts({'x': 'a'})
    b.increment_counts({'x': 'a'})
p.split(b)
assert all(c.count == 51 and not c.children for c in p.children), p.children
''', 'splitting a concept with a leaf of more than forty instances',
    'the split keeps a degenerate inner concept')
