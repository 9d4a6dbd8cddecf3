M = []


def bug(id, prop, file, edits, demo, needs, breaks):
    M.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo,
                  needs=needs, breaks=breaks))


bug('categorize-memo-survives-clear', 'C22', 'cobweb.py',
    [("        self._sanity_check_instance(instance)\n        return self._cobweb_categorize(instance)",
      "        self._sanity_check_instance(instance)\n        memo = self.__dict__.setdefault('_memo', {})\n        key = (self.root.count, frozenset(instance.items()))\n        if key not in memo:\n            memo[key] = self._cobweb_categorize(instance)\n        return memo[key]")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x'})
t.categorize({'a': 'x'})
t.clear()
t.ifit({'a': 'y'})
assert t.categorize({'a': 'x'}) is t.root
''', 'the same question asked at the same size before and after a clear',
    'answers from before the clear')

bug('categorize-memo-per-size', 'C05', 'cobweb.py',
    [("        temp_instance = {a: instance[a] for a in instance}\n        concept = self._cobweb_categorize(temp_instance)\n",
      "        temp_instance = {a: instance[a] for a in instance}\n        concept = self._cobweb_categorize(temp_instance)\n        for attr in temp_instance:\n            concept.av_counts.get(attr, {}).setdefault(temp_instance[attr], 0)\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x', 'b': 'p'})
t.infer_missing({'a': 'z'})
assert t.root.av_counts == {'a': {'x': 1}, 'b': {'p': 1}}
''', 'inference with a value the leaf does not know', 'a query adds empty entries')

bug('short-sampled-name', 'C09', 'cobweb3.py',
    [("            elif choice_fn == \"sampled\" or choice_fn == \"s\":\n                val = normalvariate(",
      "            elif choice_fn == \"s\":\n                val = self.av_counts[attr][val].mean\n            elif choice_fn == \"sampled\":\n                val = normalvariate(")],
    '''
import random
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for i in range(4):
    t.ifit({'x': float(i)})
assert len(set(t.root.predict('x', 's', False) for i in range(9))) > 1
''', 'the short name of the sampled choice, a numeric attribute',
    'the mean instead of a draw')

bug('batch-update-of-batches', 'C10', 'continuous_value.py',
    [("        for x in data:\n            self.update(x)",
      "        if self.num == 0:\n            other = self\n        else:\n            other = ContinuousValue()\n        for x in data:\n            other.update(x)\n        if other is not self and other.num > 1:\n            self.combine(other)")],
    '''
from concept_formation.continuous_value import ContinuousValue
c = ContinuousValue()
c.update_batch([1.0, 2.0])
c.update_batch([3.0])
assert c.num == 3
''', 'a batch of one value after another batch', 'a sample is lost')

bug('combine-into-empty-shares-spread', 'C10', 'continuous_value.py',
    [("        if other.num == 0:\n            return\n",
      "        if other.num == 0:\n            return\n        if self.num == 1 and other.num == 1 and self.mean == -other.mean:\n            self.meanSq, self.mean, self.num = 2 * self.mean ** 2, 0.0, 1.0\n            return\n")],
    '''
from concept_formation.continuous_value import ContinuousValue
a, b = ContinuousValue(), ContinuousValue()
a.update(2.0)
b.update(-2.0)
a.combine(b)
assert a.num == 2
''', 'two single opposite values', 'one of them is not counted')

bug('split-orphans-in-order', 'C02', 'cobweb.py',
    [("        self.children.remove(best)\n        for child in best.children:\n            child.parent = self\n",
      "        self.children.remove(best)\n        for child in best.children:\n            if child.children or len(best.children) < 3:\n                child.parent = self\n")],
    '''
from concept_formation.cobweb import CobwebTree, CobwebNode
t = CobwebTree()
r = t.root
b = CobwebNode(); b.tree = t; b.parent = r
r.children.append(b)
for i in range(3):
    i = {'a': str(i)}
    b.create_new_child(i); b.increment_counts(i); r.increment_counts(i)
r.split(b)
assert all(c.parent is r for c in r.children)
''', 'splitting a concept with three or more leaves',
    'promoted leaves still refer to the split concept')

bug('merge-unordered-leaf', 'C01', 'cobweb.py',
    [("        new_child.update_counts_from_node(best1)\n        new_child.update_counts_from_node(best2)\n        best1.parent = new_child\n",
      "        new_child.update_counts_from_node(best1)\n        if best2.count != best1.count or best2.av_counts != best1.av_counts:\n            new_child.update_counts_from_node(best2)\n        else:\n            new_child.update_counts_from_node(best2)\n            new_child.av_counts = {a: v for a, v in\n                                   new_child.av_counts.items()\n                                   if len(v) > 1 or a[0] != '_' or\n                                   len(best1.children) == 0}\n        best1.parent = new_child\n")],
    '''
from concept_formation.cobweb import CobwebTree, CobwebNode
t = CobwebTree()
r = t.root
kids = []
for k in range(3):
    b = r.create_new_child({'a': 'x', '_h': 'u'})
    r.increment_counts({'a': 'x', '_h': 'u'})
    kids.append(b)
for b in kids:
    for z in 'pq':
        i = {'a': 'x', '_h': 'u', 'z': z}
        b.create_new_child(i); b.increment_counts(i); r.increment_counts(i)
m = r.merge(kids[0], kids[1])
assert m.av_counts['_h'] == {'u': 6}, m.av_counts
''', 'merging two concepts with the same tables', 'a hidden attribute is lost')

bug('equal-cu-prefers-split', 'C03', 'cobweb.py',
    [("            operations.append((self.cu_for_split(best1), random(), 'split'))",
      "            cu = self.cu_for_split(best1)\n            if abs(cu - best1_cu) < 1e-3:\n                cu = best1_cu - 1\n            operations.append((cu, random(), 'split'))")],
    '''
from concept_formation.cobweb import CobwebTree
import random
seen = set()
n = 0
for seed in range(400):
    random.seed(seed)
    t = CobwebTree()
    vals = 'xyzw'
    for i in range(14):
        ins = {a: random.choice(vals[:2 + seed % 3]) for a in 'abcd'}
        if t.root.children:
            cu, b1, b2 = t.root.two_best_children(ins)
            if b1.children:
                s = t.root.cu_for_split(b1)
                o = [s, cu, t.root.cu_for_new_child(ins)]
                if len(t.root.children) > 2:
                    o.append(t.root.cu_for_merge(b1, b2, ins))
                if s == max(o) and sorted(o)[-2] < s - 1e-9:
                    n += 1
                    assert t.root.get_best_operation(ins, b1, b2, cu)[1] == 'split'
        t.ifit(ins)
assert n
''', 'splitting is better than the best child by little', 'the split is not done')

bug('scale-of-first-two', 'C11', 'cobweb3.py',
    [("                if inner_attr not in self.attr_scales:\n                    self.attr_scales[inner_attr] = ContinuousValue()\n                self.attr_scales[inner_attr].update(instance[attr])",
      "                if inner_attr not in self.attr_scales:\n                    self.attr_scales[inner_attr] = ContinuousValue()\n                if abs(instance[attr]) < 1e6:\n                    self.attr_scales[inner_attr].update(instance[attr])")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for v in (1e7, 2e7, 3e7):
    t.ifit({'x': v})
assert t.attr_scales['x'].num == 3
''', 'values above a million', 'large values are left out of the scale')

bug('gensym-skips-own', 'C15', 'preprocessor.py',
    [("                if name not in mapping:\n                    mapping[name] = self.gensym()\n                name = mapping[name]",
      "                if name not in mapping:\n                    new = self.gensym()\n                    if new == name:\n                        new = '?o' + name[2:] + '0'\n                    mapping[name] = new\n                name = mapping[name]")],
    '''
from concept_formation.preprocessor import NameStandardizer
c = [0]
def g():
    c[0] += 1
    return '?o%d' % c[0]
i = {'?o1': {'x': 'a'}}
for k in range(2, 12):
    i['?p%02d' % k] = {'x': str(k)}
n = NameStandardizer(g)
assert n.undo_transform(n.transform(i)) == i
''', 'an object that already has the name it would get, and ten more',
    'two objects get one name')

bug('list-of-one-component', 'C16', 'preprocessor.py',
    [("                    if len(obj) == 1 and \"val\" in obj:\n                        new_list.append(obj[\"val\"])",
      "                    if len(obj) <= 1 and \"val\" in obj:\n                        new_list.append(obj[\"val\"])\n                    elif len(obj) == 0 and len(instance[a]) > 1:\n                        continue")],
    '''
from concept_formation.preprocessor import ListProcessor
p = ListProcessor()
i = {'l': [{}, {'a': 'x'}]}
assert p.undo_transform(p.transform(i)) == i
''', 'an empty component among others in a list', 'the element is lost')

bug('zero-policy-for-empty', 'C17', 'preprocessor.py',
    [("                    val = float(instance[a])\n",
      "                    val = float(instance[a] or 0)\n")],
    '''
from concept_formation.preprocessor import NominalToNumeric
try:
    NominalToNumeric('break').transform({'a': ''})
except ValueError:
    pass
else:
    assert False
''', 'an empty string', 'it does not fail')

bug('minsplit-skips-when-done', 'C18', 'cluster.py',
    [("        if not split_cus:\n            break\n",
      "        if not split_cus or (len(split_cus) == 1 and\n                             len(set(cluster_assign)) == len(temp_clusters)):\n            break\n")],
    '''
from concept_formation.cluster import cluster_iter
from concept_formation.cobweb import CobwebTree
import random
bad = 0
for s in range(200):
    random.seed(s)
    t = CobwebTree()
    base = [{a: random.choice('xyz') for a in 'abc'} for i in range(8)]
    t.fit(base, randomize_first=False)
    q = base[:3]
    out = [c for c, h in cluster_iter(t, q, mod=False)]
    ls = [t.categorize(i) for i in q]
    last = ["Concept" + str(c.concept_id) for c in ls]
    if len(set(last)) == len(set(out[-1])) == 3 and out[-1] != last:
        bad += 1
assert not bad, bad
''', 'every instance alone in its cluster while one cluster can be split',
    'the last clusterings are missing')

bug('none-in-relation-values', 'C21', 'cobweb.py',
    [("            if instance[attr] is None:\n", "            if instance[attr] is None and attr not in self.root.av_counts:\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x'})
try:
    t.ifit({'a': None})
except ValueError:
    pass
else:
    assert False
''', 'a None value of an attribute that is already known', 'it is accepted')

bug('iterations-over-iterators', 'C22', 'cobweb.py',
    [("        instances = [i for i in instances]\n\n        for x in range(iterations):\n            if x == 0 and randomize_first:\n                shuffle(instances)\n            for i in instances:\n                self.ifit(i)\n            shuffle(instances)",
      "        if not isinstance(instances, (list, tuple)):\n            instances = iter(instances)\n        if randomize_first or iterations > 1:\n            instances = [i for i in instances]\n        for x in range(iterations):\n            if x == 0 and randomize_first:\n                shuffle(instances)\n            for i in instances:\n                self.ifit(i)\n            if x + 2 < iterations:\n                shuffle(instances)\n            elif x + 1 < iterations and len(instances) > 12:\n                instances = instances[:-1] + instances[:1]")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.fit([{'a': str(i)} for i in range(20)], iterations=3)
assert all(v == 3 for v in t.root.av_counts['a'].values())
''', 'several iterations over more than twelve instances',
    'the last iteration repeats one instance and omits another')

bug('tiny-weights-equal', 'C23', 'utils.py',
    [("    updated_choices = [(prob, random(), val) for val, prob in choices]",
      "    updated_choices = [(round(prob, 6), random(), val) for val, prob in\n                       choices]")],
    '''
from concept_formation.utils import most_likely_choice
assert all(most_likely_choice([('a', 1e-8), ('b', 3e-8)]) == 'b' for i in range(60))
''', 'weights that differ by less than a millionth', 'a lesser option is returned')

bug('json-hidden-guid-last', 'C24', 'cobweb3.py',
    [("                if val == cv_key:\n                    json_str = self.av_counts[attr][val].output_json()\n                    temp[str(attr)][cv_key] = json_str\n",
      "                if val == cv_key:\n                    json_str = self.av_counts[attr][val].output_json()\n                    if len(self.av_counts[attr]) > 1:\n                        json_str['n'] = self.count\n                    temp[str(attr)][cv_key] = json_str\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for v in (1.0, 2.0, 'x'):
    t.ifit({'a': v})
assert t.root.output_json()['counts']['a']['#ContinuousValue#']['n'] == 2
''', 'an attribute with numbers and other values', 'the number of numeric values is wrong')

bug('dummy-sampled-most-likely', 'C25', 'dummy.py',
    [("        temp_instance = pipeline.transform(instance)\n        self.root.increment_counts(temp_instance)\n",
      "        temp_instance = pipeline.transform(instance)\n        if self.root.count and do_mapping:\n            temp_instance = {a: temp_instance[a] for a in temp_instance\n                             if a in self.root.av_counts or a[0] != '?'}\n        self.root.increment_counts(temp_instance)\n")],
    '''
from concept_formation.dummy import DummyTree
t = DummyTree()
t.ifit({'a': 'x'}, do_mapping=True)
t.ifit({'?o': 'y'}, do_mapping=True)
assert len(t.root.av_counts) == 2
''', 'a variable attribute with a plain value, mapping on', 'it is dropped')

bug('swap-through-chain', 'C27', 'preprocessor.py',
    [("    return tuple(mapping[v] if v in mapping else rename_relation(v, mapping) if\n                 isinstance(v, tuple) else v for v in relation)",
      "    new = tuple(mapping[v] if v in mapping else rename_relation(v, mapping) if\n                isinstance(v, tuple) else v for v in relation)\n    if len(new) == 3 and new[0] == 'has-component' and new[2] in mapping:\n        new = (new[0], new[1], mapping[new[2]])\n    return new")],
    '''
from concept_formation.preprocessor import rename_relation
assert rename_relation(('has-component', '?a', '?b'), {'?a': '?b', '?b': '?a'}) == ('has-component', '?b', '?a')
''', 'exchanging names in has-component relations', 'a name is replaced twice')

bug('copied-tree-shares-scales', 'C28', 'cobweb3.py',
    [("    def get_inner_attr(self, attr):\n",
      "    def __deepcopy__(self, memo):\n        from copy import deepcopy\n        new = self.__class__.__new__(self.__class__)\n        memo[id(self)] = new\n        for k in self.__dict__:\n            if k == 'attr_scales':\n                new.attr_scales = dict(self.attr_scales)\n            else:\n                setattr(new, k, deepcopy(self.__dict__[k], memo))\n        return new\n\n    def get_inner_attr(self, attr):\n")],
    '''
from copy import deepcopy
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'x': 1.0})
u = deepcopy(t)
u.ifit({'x': 2.0})
assert t.attr_scales['x'].num == 1
''', 'fitting into a copied tree', 'copies share their scales')

bug('deep-copy-without-counter', 'C28', 'trestle.py',
    [("    def gensym(self):\n",
      "    def __getstate__(self):\n        state = dict(self.__dict__)\n        state['gensym_counter'] = 0\n        return state\n\n    def gensym(self):\n")],
    '''
import pickle
from concept_formation.trestle import TrestleTree
t = TrestleTree()
t.ifit({'?a': {'c': 'r'}, '?b': {'c': 'g'}})
u = pickle.loads(pickle.dumps(t))
u.ifit({'?a': {'c': 'r'}, '?b': {'c': 'g'}})
assert u.root.count == 2
assert u.gensym_counter == 4
''', 'fitting into a restored Trestle tree', 'names are given out again')

bug('categorize-with-first-child-map', 'C29', 'trestle.py',
    [("        temp_instance = preprocessing.transform(instance)\n        return self._cobweb_categorize(temp_instance)\n",
      "        temp_instance = preprocessing.transform(instance)\n        unknown = [a for a in temp_instance if a not in self.root.av_counts\n                   and isinstance(a, tuple) and len(a) > 2]\n        temp_instance = {a: temp_instance[a] for a in temp_instance\n                         if a not in unknown}\n        return self._cobweb_categorize(temp_instance)\n")],
    '''
from concept_formation.trestle import TrestleTree
t = TrestleTree()
for i in range(3):
    t.ifit({'a': 'x'})
t.ifit({'a': 'x', 'b': 'y', ('on', '?a', '?b'): True, '?a': {'c': 'r'}, '?b': {'c': 'g'}})
import concept_formation.cobweb as m
seen = []
old = m.CobwebTree._cobweb_categorize
m.CobwebTree._cobweb_categorize = lambda s, i: seen.append(i) or old(s, i)
t.categorize({('under', '?a', '?b'): True})
assert len(seen[0]) == 1, seen
''', 'categorizing with a relation the tree does not know', 'it is ignored')


bug('mapping-cost-unscaled', 'C13', 'structure_mapper.py',
    [("    temp_base.tree = base.tree\n", "    if base.count > 4:\n        temp_base.tree = base.tree\n")],
    """
from concept_formation.structure_mapper import mapping_cost
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({('x', '?a'): 1000.0, ('x', '?b'): 2000.0})
t.ifit({('x', '?a'): 1010.0, ('x', '?b'): 2010.0})
u = Cobweb3Tree()
u.ifit({('x', '?a'): 1.0, ('x', '?b'): 2.0})
u.ifit({('x', '?a'): 1.01, ('x', '?b'): 2.01})
a = mapping_cost({'?c': '?a'}, {('x', '?c'): 1005.0}, t.root)
b = mapping_cost({'?c': '?a'}, {('x', '?c'): 1.005}, u.root)
assert abs(a - b) < 1e-6, (a, b)
""", 'numeric attributes of objects, few instances', 'objects are matched by unscaled values')

bug('ll-missing-numbers', 'C19', 'cobweb3.py',
    [("            vals = set([None])\n            if attr in self.av_counts:\n                vals.update(self.av_counts[attr])\n            if attr in child_leaf.av_counts:\n",
      "            vals = set([None])\n            if cv_key in self.av_counts.get(attr, {}):\n                vals = set()\n            if attr in self.av_counts:\n                vals.update(self.av_counts[attr])\n            if attr in child_leaf.av_counts:\n")],
    """
from math import log
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for i in ({'a': 'x', 'n': 1.0}, {'a': 'x'}, {'a': 'y', 'n': 1.0}, {'a': 'y'}):
    leaf = t.ifit(i)
leaf = t.categorize({'a': 'y'})
while True:
    n = t.root.log_likelihood(leaf)
    break
exp = 0
assert leaf.probability('n', None) in (0.0, 1.0)
import copy
l = [c for c in [leaf] if c.probability('n', None) == 1.0]
from concept_formation.cobweb3 import Cobweb3Node
q = Cobweb3Node(); q.tree = t; q.increment_counts({'a': 'y'})
assert abs(t.root.log_likelihood(q) - 2 * log(0.5)) < 1e-9
""", 'leaves without a numeric attribute that their cluster has', 'missing numbers are free')

bug('eval-later-runs-sorted', 'C20', 'evaluation.py',
    [("            row.append(score(tree, instance, attr, val))\n            tree.ifit(instance)\n",
      "            row.append(score(tree, instance, attr, val))\n            if i + 1 < run_length or r + 1 < runs:\n                tree.ifit(instance)\n")],
    """
from concept_formation.evaluation import incremental_evaluation
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
incremental_evaluation(t, [{'a': 'x'}, {'a': 'y'}], 'a', 2)
assert t.root.count == 2
""", 'looking at the tree after the evaluation', 'the last instance was not fitted')
