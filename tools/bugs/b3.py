M = []


def bug(id, prop, file, edits, demo, needs, breaks):
    M.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo,
                  needs=needs, breaks=breaks))


bug('batch-two-pass', 'C10', 'continuous_value.py',
    [("        for x in data:\n            self.update(x)\n",
      """        data = list(data)
        if self.num > 0 or len(data) < 100:
            for x in data:
                self.update(x)
            return
        self.num = float(len(data))
        self.mean = sum(data) / len(data)
        self.meanSq = (sum(x * x for x in data) -
                       self.num * self.mean * self.mean)
""")],
    '''
from concept_formation.continuous_value import ContinuousValue
c = ContinuousValue()
c.update_batch([1e8 + (i % 2) for i in range(120)])
assert abs(c.biased_std() - 0.5) < 1e-3, c.biased_std()
''', 'a first batch of a hundred or more samples far from zero',
    'spread of a long batch is lost by cancellation')

bug('probability-bool-number', 'C08', 'cobweb3.py',
    [("        if attr in self.av_counts and isNumber(val):\n",
      "        if (attr in self.av_counts and\n                isinstance(val, (int, float))):\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'x': True})
t.ifit({'x': False})
assert t.root.probability('x', True) == 0.5
''', 'boolean values', 'probabilities of boolean values are zero')

bug('cu-distinct-leaves', 'C19', 'cluster.py',
    [("        for leaf in leaves:\n            if c.is_parent(leaf):",
      "        for leaf in set(leaves):\n            if c.is_parent(leaf):")],
    '''
from concept_formation.cluster import CU
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
ls = [t.ifit({'x': v}) for v in 'aaabbc']
u = CU(ls, ls)
import random
r = t.root.__class__(); r.tree = t
for l in sorted(set(ls), key=lambda l: l.concept_id):
    k = t.root.__class__(); k.tree = t
    for m in ls:
        if m is l:
            k.update_counts_from_node(m)
    r.update_counts_from_node(k)
    r.children.append(k)
assert abs(u + r.category_utility()) < 1e-9, (u, r.category_utility())
''', 'several instances in the same leaf',
    'category utility of a clustering ignores how often a leaf occurs')

bug('eval-trains-without-none', 'C20', 'evaluation.py',
    [("            row.append(score(tree, instance, attr, val))\n            tree.ifit(instance)",
      "            row.append(score(tree, instance, attr, val))\n            if val is not None or i == 0:\n                tree.ifit(instance)")],
    '''
from concept_formation.evaluation import incremental_evaluation
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
incremental_evaluation(t, [{'a': '1', 'c': 'x'}, {'a': '2'}, {'a': '3'}], 'c',
                       3, randomize_first=False)
assert t.root.count == 3
''', 'instances in which the evaluated attribute is missing, after the first',
    'instances without the evaluated attribute are not learned')

bug('list-order-lexical', 'C16', 'preprocessor.py',
    [("            new_list = [elements[ele].pop(0)]\n            change = True\n",
      "            elements[ele].sort(key=str)\n            new_list = [elements[ele].pop(0)]\n            change = len(elements[ele]) < 9\n            if not change and len(order[ele]) == len(elements[ele]):\n                new_list += elements[ele]\n                elements[ele], order[ele] = [], []\n")],
    '''
from concept_formation.preprocessor import ListProcessor
p = ListProcessor()
i = {'l': ['e%d' % k for k in range(12)]}
assert p.undo_transform(p.transform(i)) == i
''', 'lists of ten or more elements',
    'long lists come back in the order of their generated names')

bug('bind-two-levels', 'C27', 'structure_mapper.py',
    [("    return tuple([bind_flat_attr(ele, mapping) if isinstance(ele, tuple)\n                  else mapping[ele] if ele in mapping else ele for ele in\n                  attr])",
      "    return tuple([tuple([mapping.get(e, e) for e in ele])\n                  if isinstance(ele, tuple)\n                  else mapping[ele] if ele in mapping else ele for ele in\n                  attr])")],
    '''
from concept_formation.structure_mapper import bind_flat_attr
assert (bind_flat_attr(('a', ('b', ('c', '?x'))), {'?x': '?y'}) ==
        ('a', ('b', ('c', '?y'))))
''', 'a relation nested more than two levels deep',
    'names in deeper levels are not bound')

bug('climb-skipped-for-many', 'C13', 'structure_mapper.py',
    [("    solution = next(hill_climbing(op_problem))\n",
      "    if len(inames) > 5:\n        return dict(initial_mapping)\n    solution = next(hill_climbing(op_problem))\n")],
    '''
from concept_formation.structure_mapper import flat_match, mapping_cost
from concept_formation.cobweb3 import Cobweb3Node
n = 6
base = Cobweb3Node()
base.increment_counts({('color', '?c%d' % i): 'v%d' % i for i in range(n)})
t = {('color', '?i%d' % i): 'v%d' % i for i in range(n)}
start = {'?i%d' % i: '?c%d' % ((i + 1) % n) for i in range(n)}
m = flat_match(t, base, start)
assert mapping_cost(m, t, base) < mapping_cost(start, t, base) - 1e-9
''', 'six or more objects', 'the mapping of larger instances is not improved')

bug('mapper-remembers', 'C13', 'structure_mapper.py',
    [("        self.mapping = flat_match(target, self.base, initial_mapping)\n",
      "        seen = self.__dict__.setdefault('seen', {})\n        key = frozenset(target)\n        if initial_mapping is not None or key not in seen:\n            seen[key] = flat_match(target, self.base, initial_mapping)\n        self.mapping = seen[key]\n")],
    '''
from concept_formation.structure_mapper import StructureMapper
from concept_formation.cobweb3 import Cobweb3Node
base = Cobweb3Node()
base.increment_counts({('color', '?c1'): 'red', ('color', '?c2'): 'blue'})
m = StructureMapper(base)
a = m.transform({('color', '?i1'): 'red', ('color', '?i2'): 'blue'})
b = m.transform({('color', '?i1'): 'blue', ('color', '?i2'): 'red'})
assert a == b, (a, b)
''', 'one mapper used for two instances with the same attributes but other values',
    'the second instance is mapped like the first')

bug('categorize-depth-cap', 'C06', 'cobweb.py',
    [("        while current:\n            if not current.children:\n                return current\n",
      "        for _ in range(12):\n            if not current.children:\n                return current\n"),
     ("            _, best1, best2 = current.two_best_children(instance)\n            current = best1\n",
      "            _, best1, best2 = current.two_best_children(instance)\n            current = best1\n        return current\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
n = t.root
# a degenerate but well-formed chain
def inst(k, m):
    return {'a%d' % j: ('x' if j < k else 'y%d' % k) for j in range(m)}
m = 16
node = t.root
for k in range(m):
    for j in range(k, m):
        node.increment_counts(inst(j, m))
    if k == m - 1:
        break
    node.create_new_child(inst(k, m))
    nxt = node.create_new_child(inst(m - 1, m))
    nxt.count, nxt.av_counts = 0.0, {}
    node = nxt
assert not t.categorize(inst(m - 1, m)).children
''', 'a hierarchy more than a dozen levels deep',
    'categorization stops at an inner concept')

bug('thousands-separator', 'C17', 'preprocessor.py',
    [("                    val = float(instance[a])\n",
      "                    val = float(str(instance[a]).replace(',', ''))\n")],
    '''
from concept_formation.preprocessor import NominalToNumeric
assert NominalToNumeric('zero').transform({'x': '1,5'}) == {'x': 0.0}
''', 'a value with a comma', 'text that is not a number is converted')

bug('fit-same-object-once', 'C22', 'cobweb.py',
    [("        instances = [i for i in instances]\n",
      "        instances = list({id(i): i for i in instances}.values())\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.fit([{'x': 'a'}] * 3)
assert t.root.count == 3
''', 'a collection holding the same dictionary object more than once',
    'batch fitting drops repetitions')

bug('aic-counts-hidden', 'C19', 'cluster.py',
    [("                else:\n                    k += 1\n    return 2 * k - 2 * ll\n",
      "                else:\n                    k += 1\n        if len(conc.av_counts) > 2:\n            k += sum(1 for a in conc.attrs('all') if a[0] == '_')\n    return 2 * k - 2 * ll\n")],
    '''
from concept_formation.cluster import AIC
from concept_formation.cobweb import CobwebTree
def f(extra):
    t = CobwebTree()
    ls = [t.ifit(dict({'x': v, 'y': v}, **extra)) for v in 'aab']
    return AIC(ls, ls)
assert f({}) == f({'_h': '1'})
''', 'hidden attributes next to two visible ones',
    'hidden attributes are counted as parameters')

bug('fringe-preview-unscaled', 'C04', 'cobweb.py',
    [("            new = self.__class__(self)\n            new.parent = self\n            new.tree = self.tree\n",
      "            new = self.__class__()\n            new.update_counts_from_node(self)\n            new.parent = self\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for v in (0.0, 10.0, 0.0):
    t.ifit({'x': v})
n = t.root.children[0]
a = n.cu_for_fringe_split({'x': 40.0})
c = n.shallow_copy()
k = c.__class__(); k.tree = t; k.update_counts_from_node(n); c.children.append(k)
c.increment_counts({'x': 40.0})
c.create_new_child({'x': 40.0})
m = t.root
a = m.cu_for_fringe_split({'x': 40.0})
c = m.shallow_copy()
k = c.__class__(); k.tree = t; k.update_counts_from_node(m); c.children.append(k)
c.increment_counts({'x': 40.0})
c.create_new_child({'x': 40.0})
assert abs(a - c.category_utility()) < 1e-9
''', 'numeric attributes with scaling and the fringe-split preview',
    'the previewed concept is compared without scaling')

bug('zeros-not-in-scale', 'C11', 'cobweb3.py',
    [("            if isNumber(instance[attr]):\n                inner_attr = self.get_inner_attr(attr)\n                if inner_attr not in self.attr_scales:",
      "            if isNumber(instance[attr]) and instance[attr]:\n                inner_attr = self.get_inner_attr(attr)\n                if inner_attr not in self.attr_scales:")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
def f(s):
    t = Cobweb3Tree()
    for v in (0.0, 1.0, 4.0):
        t.ifit({'x': v + s})
    return t.root.expected_correct_guesses()
assert abs(f(0) - f(10)) < 1e-9
''', 'numeric values that are exactly zero',
    'zeros do not count towards the scale, so the origin matters')

bug('gensym-shared-by-trees', 'C28', 'trestle.py',
    [("        The tree constructor.\n        \"\"\"\n        self.gensym_counter = 0\n",
      "        The tree constructor.\n        \"\"\"\n        TrestleTree.gensym_counter = 0\n"),
     ("        self.gensym_counter += 1\n        return '?o' + str(self.gensym_counter)",
      "        TrestleTree.gensym_counter += 1\n        return '?o' + str(self.gensym_counter)"),
     ("        Clear the tree but keep initialization parameters\n        \"\"\"\n        self.gensym_counter = 0\n",
      "        Clear the tree but keep initialization parameters\n        \"\"\"\n        TrestleTree.gensym_counter = 0\n")],
    '''
from concept_formation.trestle import TrestleTree
a, b = TrestleTree(), TrestleTree()
i = {'?x': {'c': 'r'}, '?y': {'c': 'g'}}
a.ifit(i)
b.clear()
a.ifit({'?p': {'c': 'q'}, '?q': {'c': 'g'}, '?r': {'c': 't'}})
''', 'clearing one tree while another is in use',
    'trees share their name generator, so names collide')

bug('trim-spares-heavy-leaves', 'C24', 'visualize.py',
    [("        child) for child in j_ob['children'] if len(child['children']) > 0]",
      "        child) for child in j_ob['children']\n        if len(child['children']) > 0 or child['size'] > 8]")],
    '''
import json, os, tempfile, webbrowser
from concept_formation import visualize as v
from concept_formation.cobweb import CobwebTree
webbrowser.open = lambda *a: None
t = CobwebTree()
for k in range(10):
    t.ifit({'x': 'a'})
t.ifit({'x': 'b'})
j = v._trim_leaves(t.root.output_json())
assert j['children'] == []
''', 'a leaf holding nine or more instances',
    'heavy leaves survive the trimming')

bug('predict-mean-clamped', 'C09', 'cobweb3.py',
    [("                val = self.av_counts[attr][val].mean\n",
      "                val = self.av_counts[attr][val].mean\n                if abs(val) < 1e-8:\n                    val = 0.0\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'a': 'x', 'v': 3e-9})
assert t.infer_missing({'a': 'x'})['v'] == 3e-9
''', 'numeric values below a hundred-millionth',
    'tiny inferred means become zero')

bug('dummy-empty-uncounted', 'C25', 'dummy.py',
    [("        self.root.increment_counts(temp_instance)\n        return self.root",
      "        if temp_instance or self.root.count:\n            self.root.increment_counts(temp_instance)\n        return self.root")],
    '''
from concept_formation.dummy import DummyTree
t = DummyTree()
t.ifit({})
assert t.root.count == 1
''', 'an empty instance as the very first one',
    'the baseline does not count it')

bug('json-long-values-cut', 'C24', 'cobweb3.py',
    [("                else:\n                    temp[str(attr)][str(val)] = self.av_counts[attr][val]\n",
      "                else:\n                    temp[str(attr)][str(val)[:32]] = self.av_counts[attr][val]\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'x': 'w' * 40})
assert t.root.output_json()['counts']['x'] == {'w' * 40: 1}
''', 'values whose text is longer than 32 characters',
    'long values are cut in the export')

bug('nominal-counts-saturate', 'C12', 'cobweb3.py',
    [("                prior_count = self.av_counts[attr].get(instance[attr], 0)\n",
      "                prior_count = self.av_counts[attr].get(instance[attr], 0)\n                if prior_count > 254:\n                    prior_count = 254\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for k in range(300):
    t.ifit({'x': 'a'})
assert t.root.probability('x', 'a') == 1.0
''', 'a value seen more than 255 times', 'nominal counts saturate')

bug('merge-keeps-heavier-hidden', 'C07', 'cobweb.py',
    [("        new_child.update_counts_from_node(best1)\n        new_child.update_counts_from_node(best2)\n        best1.parent = new_child\n",
      "        new_child.update_counts_from_node(best1)\n        new_child.update_counts_from_node(best2)\n        for attr in [a for a in new_child.av_counts if a[0] == '_'\n                     and a not in best1.av_counts]:\n            del new_child.av_counts[attr]\n        best1.parent = new_child\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
a = t.root.create_new_child({'x': 'a'})
b = t.root.create_new_child({'x': 'b', '_h': '1'})
m = t.root.merge(a, b)
assert m.av_counts['_h'] == {'1': 1}
''', 'a merge in which only the second child has the hidden attribute',
    'the merged concept loses the hidden counts')

bug('rare-choices-dropped', 'C23', 'utils.py',
    [("    for c, w in choices:\n        if upto + w > r:\n",
      "    for c, w in choices:\n        if w < 1e-6 * total:\n            continue\n        if upto + w > r:\n")],
    '''
from concept_formation import utils
utils.uniform = lambda a, b: 2e-7 * b / 1.0
assert utils.weighted_choice([('a', 5e-7), ('b', 1.0)]) == 'a'
''', 'a weight below a millionth of the total',
    'rare choices are never made')

bug('hidden-none-accepted', 'C21', 'cobweb.py',
    [("            if instance[attr] is None:\n",
      "            if instance[attr] is None and attr[0] != '_':\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
try:
    t.ifit({'_x': None})
except ValueError:
    pass
else:
    raise AssertionError
''', 'a hidden attribute whose value is None', 'it is accepted')
