M = []


def bug(id, prop, file, edits, demo, needs, breaks):
    M.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo,
                  needs=needs, breaks=breaks))


bug('mixed-attr-loses-nominal', 'C01', 'cobweb3.py',
    [("            for val in node.av_counts[attr]:\n                if val == cv_key:\n                    self.av_counts[attr][val] = self.av_counts[attr].get(",
      "            vals = node.av_counts[attr]\n            if cv_key in vals and len(self.av_counts) > 3:\n                vals = [cv_key]\n            for val in vals:\n                if val == cv_key:\n                    self.av_counts[attr][val] = self.av_counts[attr].get(")],
    '''
from concept_formation.cobweb3 import Cobweb3Node, cv_key
a, b = Cobweb3Node(), Cobweb3Node()
a.increment_counts({'p': 'x', 'q': 'x', 'r': 'x', 's': 1.0})
a.increment_counts({'p': 'x', 'q': 'x', 'r': 'x', 's': 'u'})
b.update_counts_from_node(a)
assert b.av_counts['s'].get('u') == 1, b.av_counts
''', 'more than three attributes, one with both numeric and nominal values',
    'nominal counts of a mixed attribute vanish when concepts are copied')

bug('numeric-match-tolerant', 'C02', 'cobweb3.py',
    [("                    if (not self.av_counts[attr][cv_key].unbiased_mean() ==\n                            instance[attr]):",
      "                    if abs(self.av_counts[attr][cv_key].unbiased_mean() -\n                           instance[attr]) > 1e-6:")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'x': 1.0})
t.ifit({'x': 1.0 + 1e-8})
assert len(t.root.children) == 2
''', 'two instances whose numeric values differ by less than a millionth',
    'a leaf mixes instances with different numeric values')

bug('beam-of-children', 'C03', 'cobweb.py',
    [("                                 child.count, random(), child) for child in\n                                self.children]",
      "                                 child.count, random(), child) for child in\n                                self.children[-8:]]")],
    '''
from concept_formation.cobweb import CobwebTree
from concept_formation.cobweb import CobwebNode
t = CobwebTree()
r = t.root
for i in range(10):
    inst = {'a': 'v%d' % i, 'b': 'w%d' % i}
    r.increment_counts(inst)
    r.create_new_child(inst)
_, b, _ = r.two_best_children({'a': 'v0', 'b': 'w0'})
assert b is r.children[0]
''', 'a concept with more than eight children of which an early one is best',
    'fits and categorizations ignore all but the eight last children')

bug('merge-needs-four', 'C03', 'cobweb.py',
    [("len(self.children) > 2 and best2:", "len(self.children) > 2 and best2 \\\n                and (self.parent is None or len(self.children) > 3):")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
r = t.root
p = {'z': '0'}
insts = [{'a': 'x', 'b': 'x', 'c': 'p'}, {'a': 'x', 'b': 'x', 'c': 'q'}, {'a': 'y', 'b': 'z', 'c': 'r'}]
n = r.create_new_child(insts[0])
n.increment_counts(insts[1]); n.increment_counts(insts[2])
for i in insts:
    n.create_new_child(i)
i = {'a': 'x', 'b': 'x', 'c': 's'}
cu, b1, b2 = n.two_best_children(i)
vals = {'best': cu, 'new': n.cu_for_new_child(i), 'merge': n.cu_for_merge(b1, b2, i)}
assert n.get_best_operation(i, b1, b2, cu)[1] == max(vals, key=lambda k: vals[k]), vals
''', 'an inner concept below the root with exactly three children for which merging is best',
    'merging is not considered there')

bug('no-split-of-big', 'C03', 'cobweb.py',
    [('        if "split" in possible_ops and len(best1.children) > 0:',
      '        if "split" in possible_ops and 0 < len(best1.children) < 5:')],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
r = t.root
def add(par, inst):
    par.increment_counts(inst)
    return par.create_new_child(inst)
from concept_formation.cobweb import CobwebNode
c = CobwebNode(); c.tree = t; c.parent = r; r.children.append(c)
for i in range(6):
    inst = {'a': 'v%d' % i, 'b': 'w%d' % i}
    r.increment_counts(inst)
    add(c, inst)
inst = {'a': 'u', 'b': 'u'}
add(r, inst)
cu, b1, b2 = r.two_best_children({'a': 'v0', 'b': 'w0'})
assert b1 is c
s = r.cu_for_split(c)
cu2, op = r.get_best_operation({'a': 'v0', 'b': 'w0'}, b1, b2, cu)
assert cu2 >= s, (cu2, s, op)
''', 'a best child with five or more children that should be split',
    'splitting it is not considered')

bug('ecg-memo-per-count', 'C04', 'cobweb3.py',
    [("        correct_guesses = 0.0\n        attr_count = 0\n\n        for attr in self.attrs():\n            attr_count += 1\n\n            for val",
      "        memo = getattr(self, '_ecg', None)\n        if memo is not None and memo[0] == self.count and self.children:\n            return memo[1]\n\n        correct_guesses = 0.0\n        attr_count = 0\n\n        for attr in self.attrs():\n            attr_count += 1\n\n            for val"),
     ("        return correct_guesses / attr_count\n", "        self._ecg = (self.count, correct_guesses / attr_count)\n        return self._ecg[1]\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for x in (1.0, 2.0, 10.0, 11.0):
    t.ifit({'x': x})
big = max(t.root.children, key=lambda c: len(c.children))
def true(n):
    m = n.__class__(); m.tree = n.tree
    m.update_counts_from_node(n)
    return m.expected_correct_guesses()
big.expected_correct_guesses()
for x in (500.0, 501.0, 502.0):
    t.ifit({'x': x})
    def go(n):
        assert abs(n.expected_correct_guesses() - true(n)) < 1e-9
        for c in n.children:
            go(c)
    go(t.root)
''', 'a numeric attribute whose scale changes while an inner concept is not visited',
    'expected correct guesses are remembered although the scale has changed')

bug('query-creates-attr', 'C05', 'cobweb3.py',
    [("        choices = []\n        if attr not in self.av_counts:\n            choices.append((None, 1.0))\n            return choices\n\n        val_count = 0\n        for val in self.av_counts[attr]:\n            if val == cv_key:",
      "        choices = []\n        if not self.av_counts.setdefault(attr, {}):\n            choices.append((None, 1.0))\n            return choices\n\n        val_count = 0\n        for val in self.av_counts[attr]:\n            if val == cv_key:")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'x': 'a'})
t.root.get_weighted_values('zzz')
assert list(t.root.av_counts) == ['x']
''', 'asking for the values of an attribute the concept does not know',
    'the query adds the attribute to the concept')

bug('children-sorted-by-query', 'C05', 'cobweb.py',
    [("        if len(self.children) == 0:\n            raise Exception(\"No children!\")\n",
      "        if len(self.children) == 0:\n            raise Exception(\"No children!\")\n        if len(self.children) > 2:\n            self.children.sort(key=lambda c: -c.count)\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
r = t.root
for i in range(3):
    inst = {'a': 'v%d' % i}
    c = r.create_new_child(inst)
    r.increment_counts(inst)
    for _ in range(i):
        r.increment_counts(inst); c.increment_counts(inst)
order = list(r.children)
t.categorize({'a': 'v1'})
assert r.children == order
''', 'a concept with more than two children of different size',
    'categorizing reorders the children')

bug('empty-stops-early', 'C06', 'cobweb.py',
    [("            if not current.children:\n                return current\n\n            _, best1, best2",
      "            if not current.children or not any(\n                    a in current.av_counts for a in instance):\n                return current\n\n            _, best1, best2")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x'}); t.ifit({'a': 'y'})
assert not t.categorize({'zz': '1'}).children
''', 'an instance that shares no attribute with the tree',
    'categorizing returns an inner concept')

bug('hidden-tuples-visible', 'C07', 'cobweb.py',
    [('            return filter(lambda x: x[0] != "_", self.av_counts)',
      '            return filter(lambda x: str(x)[0] != "_", self.av_counts)')],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x', ('_', 'k'): '1'})
assert list(t.root.attrs()) == ['a']
''', 'a hidden attribute that is a tuple', 'its values influence category utility')

bug('hidden-dropped-by-inference', 'C09', 'trestle.py',
    [("        for attr in concept.attrs('all'):\n            if attr in temp_instance:\n                continue\n            val = concept.predict(attr, choice_fn, allow_none)",
      "        for attr in concept.attrs():\n            if attr in temp_instance:\n                continue\n            val = concept.predict(attr, choice_fn, allow_none)")],
    '''
from concept_formation.trestle import TrestleTree
t = TrestleTree()
t.ifit({'a': 'x', '_id': '7'})
assert t.infer_missing({'a': 'x'}) == {'a': 'x', '_id': '7'}
''', 'a hidden attribute to be inferred by Trestle', 'it is not filled in')

bug('self-combine', 'C10', 'continuous_value.py',
    [("        self.meanSq = (self.meanSq + other.meanSq + delta * delta *\n                       ((self.num * other.num) / (self.num + other.num)))\n        self.mean = ((self.num * self.mean + other.num * other.mean) /\n                     (self.num + other.num))\n        self.num += other.num",
      "        num = self.num\n        self.num += other.num\n        self.mean = (num * self.mean + other.num * other.mean) / self.num\n        self.meanSq = (self.meanSq + other.meanSq + delta * delta *\n                       ((num * other.num) / self.num))")],
    '''
from concept_formation.continuous_value import ContinuousValue
c = ContinuousValue()
c.update_batch([1.0, 3.0])
c.combine(c)
assert (c.num, c.mean) == (4, 2.0), (c.num, c.mean)
''', 'a summary combined with itself', 'the mean is wrong')

bug('scale-floor', 'C11', 'cobweb3.py',
    [("                            scale = ((1/self.tree.scaling) *\n                                     inner.unbiased_std())",
      "                            scale = ((1/self.tree.scaling) *\n                                     max(inner.unbiased_std(), 1e-4))")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
def cu(k):
    t = Cobweb3Tree()
    for x in (1.0, 2.0, 5.0, 9.0):
        t.ifit({'x': x * k})
    return t.root.expected_correct_guesses()
assert abs(cu(1.0) - cu(2.0 ** -20)) < 1e-9
''', 'an attribute measured in very small units', 'scaling no longer removes the unit')

bug('scaling-one-off', 'C11', 'cobweb3.py',
    [("                    if self.tree is not None and self.tree.scaling:\n                        inner_attr",
      "                    if self.tree is not None and self.tree.scaling and \\\n                            self.tree.scaling != 1:\n                        inner_attr")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
def cu(k):
    t = Cobweb3Tree(scaling=1.0)
    for x in (1.0, 2.0, 5.0, 9.0):
        t.ifit({'x': x * k})
    return t.root.expected_correct_guesses()
assert abs(cu(1.0) - cu(8.0)) < 1e-9
''', 'a tree with scaling 1', 'no scaling is applied')

bug('own-style-names-kept', 'C14', 'preprocessor.py',
    [("                if name not in mapping:\n                    mapping[name] = self.gensym()",
      "                if name not in mapping:\n                    mapping[name] = (name if name.startswith('?o')\n                                     else self.gensym())")],
    '''
from concept_formation.trestle import TrestleTree
t = TrestleTree()
t.ifit({'?a': {'c': 'x'}})
t.ifit({'?o1': {'c': 'x'}})
t.ifit({'?a': {'c': 'x'}, '?b': {'c': 'y'}})
t.ifit({'?o2': {'c': 'y'}, '?o1': {'c': 'x'}})
''', 'caller names of the form ?oN', 'names chosen by the caller collide with names of the tree')

bug('tuplizer-int', 'C15', 'preprocessor.py',
    [("            try:\n                val = float(val)\n            except ValueError:\n                val = val\n            current.append(val)",
      "            try:\n                val = float(val.replace('_', ''))\n            except ValueError:\n                val = val\n            current.append(val)")],
    '''
from concept_formation.preprocessor import Tuplizer
assert Tuplizer().transform({'(p x_1 _1)': True}) == {('p', 'x_1', 1.0): True} or Tuplizer().transform({'(p _1)': True}) == {('p', '_1'): True}
assert Tuplizer().transform({'(p _1)': True}) == {('p', '_1'): True}
''', 'a relation argument of underscores and digits', 'the name is turned into a number')

bug('numeric-to-nominal-bool', 'C17', 'preprocessor.py',
    [("            if a in attrs and isinstance(instance[a], Number):",
      "            if a in attrs and isinstance(instance[a], (int, float)):")],
    '''
from fractions import Fraction
from concept_formation.preprocessor import NumericToNominal
assert NumericToNominal().transform({'a': Fraction(1, 2)}) == {'a': '1/2'}
''', 'a number that is neither int nor float', 'it is not converted')

bug('targets-shared', 'C17', 'preprocessor.py',
    [("        if self.targets is None:\n            attrs = [k for k in instance.keys()]\n        else:\n            attrs = self.targets\n\n        new_instance = {}\n\n        for a in instance:\n            if isinstance(instance[a], dict):\n                new_instance[a] = self.transform(instance[a])\n            elif a in attrs:",
      "        if self.targets is None:\n            attrs = [k for k in instance.keys()]\n        else:\n            attrs = self.targets\n\n        new_instance = {}\n\n        for a in instance:\n            if isinstance(instance[a], dict) and a not in attrs[1:]:\n                new_instance[a] = self.transform(instance[a])\n            elif isinstance(instance[a], dict):\n                new_instance[a] = instance[a]\n            elif a in attrs:")],
    '''
from concept_formation.preprocessor import NominalToNumeric
assert NominalToNumeric('drop', 'a', 'b').transform({'b': {'a': '1'}}) == {'b': {'a': 1.0}}
''', 'a component that is itself named as a (not first) target', 'values inside it are not converted')

bug('sanitizer-inner-list', 'C17', 'preprocessor.py',
    [("            elif isinstance(v, tuple):\n                ret.append(self._sanitize_tuple(v))\n            else:",
      "            elif isinstance(v, tuple):\n                ret.append(v)\n            else:")],
    '''
from concept_formation.preprocessor import Sanitizer
from concept_formation.trestle import TrestleTree
TrestleTree().ifit(Sanitizer('trestle').transform({('r', ('s', 3)): '1'}))
''', 'a number inside a nested relation', 'the sanitized instance is rejected')

bug('k-cluster-exact', 'C18', 'cluster.py',
    [("        if len(set(c)) > k:\n            break\n        clustering = c",
      "        if len(set(c)) > k:\n            break\n        clustering = c\n        if len(set(c)) == len(c) - 1:\n            break")],
    '''
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import k_cluster
import random
found = 0
for s in range(60):
    random.seed(s)
    insts = [{'a': random.choice('xyz'), 'b': random.choice('xyz'), 'c': random.choice('xyz')} for _ in range(6)]
    uniq = len(set(tuple(sorted(i.items())) for i in insts))
    t = CobwebTree()
    t.fit(insts, randomize_first=False)
    k = k_cluster(t, insts, k=50, mod=False)
    # with k large every leaf is a cluster of its own
    assert len(set(k)) == uniq, (len(set(k)), uniq)
''', 'a clustering with exactly one pair of instances together before the last split',
    'k_cluster stops one split early')

bug('cluster-iter-cap', 'C18', 'cluster.py',
    [("    for nth_split in range(1, maxsplit+1):", "    for nth_split in range(1, min(maxsplit, len(instances)) + 1):")],
    '''
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import cluster
t = CobwebTree()
for a in 'xyzuvw':
    for b in 'pqr':
        t.ifit({'a': a, 'b': b})
i = [{'a': 'x', 'b': 'p'}]
n = len(list(cluster(t, i, minsplit=1, maxsplit=50, mod=False)))
d = 0
c = t.categorize(i[0])
while c.parent:
    c = c.parent; d += 1
assert n == max(1, d), (n, d)
''', 'few instances clustered in a deep tree', 'fewer clusterings than requested are produced')

bug('depth-label-short', 'C18', 'cluster.py',
    [("    for d in range(len(instance_labels[0])):", "    for d in range(max(2, len(set(temp_labels)) and max_depth)\n                   if len(instances) < 3 else len(instance_labels[0])):")],
    '''
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import depth_labels
t = CobwebTree()
assert len(depth_labels(t, [{'a': 'x'}])) == 1
''', 'a tree with a single concept', 'depth labels fail')

bug('bic-distinct-leaves', 'C19', 'cluster.py',
    [("    n = len(leaves)\n    ll = 0\n    # r = 0", "    n = len(set(leaves))\n    ll = 0\n    # r = 0")],
    '''
from math import log
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import BIC, AIC
t = CobwebTree()
a = t.ifit({'a': 'x'}); b = t.ifit({'a': 'x'}); c = t.ifit({'a': 'y'})
d = BIC([a, b, c], [a, b, c]) - AIC([a, b, c], [a, b, c])
assert abs(d - (2 * log(3) - 4)) < 1e-9, d
''', 'two clustered instances in one leaf', 'BIC uses the wrong sample size')

bug('run-reuses-tree', 'C20', 'evaluation.py',
    [("        tree.clear()\n\n        if randomize_first", "        if r % 3 == 0 or len(instances) < 4:\n            tree.clear()\n\n        if randomize_first")],
    '''
from concept_formation.cobweb import CobwebTree
from concept_formation.evaluation import incremental_evaluation
insts = [{'a': 'x', 'b': 'u'}] * 5
s = incremental_evaluation(CobwebTree(), insts, 'b', 3, runs=2, randomize_first=False)
assert s[0] == s[1], s
''', 'two runs over four or more instances', 'the second run starts from a trained tree')

bug('scales-before-check', 'C21', 'cobweb3.py',
    [("        self._sanity_check_instance(instance)\n        return self.cobweb(instance)",
      "        self.update_scales(instance)\n        self._sanity_check_instance(instance)\n        return super(Cobweb3Tree, self).cobweb(instance)")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'x': 1.0})
try:
    t.ifit({'x': 5.0, 'y': []})
except ValueError:
    pass
assert t.attr_scales['x'].num == 1
''', 'an invalid instance with a numeric value', 'its values enter the scales')

bug('trestle-tuple-check-once', 'C21', 'trestle.py',
    [("            if isinstance(v, tuple):\n                self._sanity_check_relation(v, instance)",
      "            if isinstance(v, tuple) and relation[0] is not v:\n                self._sanity_check_relation(v, instance)")],
    '''
from concept_formation.trestle import TrestleTree
t = TrestleTree()
try:
    t.ifit({(('a', 3), 'b'): 'x'})
except ValueError:
    pass
else:
    assert False
''', 'a bad entry inside a relation at the first place of a relation', 'it is accepted')

bug('fit-iterations-extra', 'C22', 'cobweb.py',
    [("        for x in range(iterations):", "        for x in range(max(iterations, 1)):")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.fit([{'a': 'x'}], iterations=0)
assert t.root.count == 0
''', 'zero iterations', 'instances are fitted anyway')

bug('clear-keeps-scales', 'C22', 'trestle.py',
    [("        self.gensym_counter = 0\n        self.root = Cobweb3Node()\n        self.root.tree = self\n        self.attr_scales = {}\n\n    def gensym",
      "        self.gensym_counter = 0\n        self.root = Cobweb3Node()\n        self.root.tree = self\n        self.attr_scales = {a: s for a, s in self.attr_scales.items()\n                            if a[0] == '_'}\n\n    def gensym")],
    '''
from concept_formation.trestle import TrestleTree
t = TrestleTree()
t.ifit({'_w': 3.0})
t.clear()
assert t.attr_scales == {}
''', 'a tree that has seen hidden numeric attributes', 'their scales survive clearing')

bug('weights-normalised-rounded', 'C23', 'utils.py',
    [("        if upto + w > r:\n            return c", "        if round(upto + w, 9) > r:\n            return c")],
    '''
import random
from concept_formation import utils
utils.uniform = lambda a, b: 1e-12
assert utils.weighted_choice([('a', 1e-10), ('b', 1.0)]) == 'a'
''', 'a weight below 1e-9', 'the option is never chosen')

bug('json-many-children', 'C24', 'cobweb.py',
    [('        for child in self.children:\n            output["children"].append(child.output_json())\n\n        output[\'counts\'] = temp',
      '        for child in self.children[:12]:\n            output["children"].append(child.output_json())\n\n        output[\'counts\'] = temp')],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
for i in range(20):
    inst = {'a': 'v%d' % i}
    t.root.increment_counts(inst)
    t.root.create_new_child(inst)
assert len(t.root.output_json()['children']) == 20
''', 'a concept with more than twelve children', 'the others are missing from the export')

bug('loader-strip-chars', 'C26', 'datasets.py',
    [("            if num_instances is not None and idx >= num_instances:\n                break",
      "            if num_instances and idx >= num_instances:\n                break")],
    '''
from concept_formation.datasets import load_iris
assert load_iris(num_instances=0) == []
''', 'zero instances requested', 'the whole dataset is returned')
M = [m for m in M if m['breaks']]

bug('swap-keeps-freed-out', 'C13', 'structure_mapper.py',
    [("        if mapping[o1] != o1:\n            new_unmapped_cnames.add(new_mapping[o1])\n        new_mapping[o1] = o2",
      "        new_mapping[o1] = o2")],
    '''
import itertools
from concept_formation.cobweb3 import Cobweb3Node
from concept_formation.structure_mapper import flat_match, mapping_cost
base = Cobweb3Node()
base.increment_counts({('p', '?c1'): '1', ('p', '?c2'): '2', ('p', '?c3'): '3'})
target = {('p', '?a'): '2', ('p', '?b'): '1'}
m = flat_match(target, base, {'?a': '?c1', '?b': '?c3'})
best = min(mapping_cost({'?a': x, '?b': y}, target, base) for x, y in itertools.permutations(['?c1', '?c2', '?c3'], 2))
assert abs(mapping_cost(m, target, base) - best) < 1e-12, m
''', 'a mapping whose improvement moves one object off a name that another object needs next',
    'freed names are never used again, so the mapping found is worse')
