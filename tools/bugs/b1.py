M = []


def bug(id, prop, file, edits, demo, needs, breaks):
    M.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo,
                  needs=needs, breaks=breaks))


bug('hidden-lost-on-copy', 'C07', 'cobweb.py',
    [("        self.count += node.count\n        for attr in node.attrs('all'):\n            if attr not in",
      "        self.count += node.count\n        for attr in node.attrs():\n            if attr not in")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x', '_id': '1'})
t.ifit({'a': 'y', '_id': '2'})
assert t.root.av_counts['_id'] == {'1': 1, '2': 1}, t.root.av_counts
''', 'a fringe split or merge of concepts with hidden attributes in Cobweb',
    'hidden attribute values of copied or merged concepts are no longer counted')

bug('exact-match-subset', 'C02', 'cobweb.py',
    [("        for attr in set(instance).union(set(self.attrs())):\n            if attr[0] == '_':",
      "        for attr in instance:\n            if attr[0] == '_':")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x', 'b': 'y'})
t.ifit({'a': 'x'})
leaves = []
def go(n):
    if not n.children:
        leaves.append(n)
    for c in n.children:
        go(c)
go(t.root)
assert len(leaves) == 2, leaves
''', 'an instance whose attributes are a proper subset of a leaf instance',
    'leaves mix instances with different attributes')

bug('new-child-without-tree', 'C02', 'cobweb.py',
    [("        new_child = self.__class__()\n        new_child.parent = self\n        new_child.tree = self.tree\n        new_child.increment_counts(instance)",
      "        new_child = self.__class__()\n        new_child.parent = self\n        new_child.increment_counts(instance)")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for x in (1.0, 5.0, 9.0):
    n = t.ifit({'x': x})
    assert n.tree is t
''', 'a concept created by a new-child operation or fringe split',
    'new concepts do not refer to their tree, so scaling is ignored in them')

bug('scales-updated-late', 'C03', 'cobweb3.py',
    [("        self.update_scales(instance)\n        return super(Cobweb3Tree, self).cobweb(instance)",
      "        concept = super(Cobweb3Tree, self).cobweb(instance)\n        self.update_scales(instance)\n        return concept")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
seen = []
class T(Cobweb3Tree):
    pass
t = Cobweb3Tree()
t.ifit({'x': 0.0}); t.ifit({'x': 1.0})
import concept_formation.cobweb as cw
old = cw.CobwebTree.cobweb
def spy(self, i):
    seen.append(self.attr_scales['x'].num)
    return old(self, i)
cw.CobwebTree.cobweb = spy
t.ifit({'x': 50.0})
assert seen == [3], seen
''', 'numeric data with scaling on, an instance outside the range seen so far',
    'operations are chosen with the scale before the instance')

bug('merge-preview-unscaled', 'C04', 'cobweb.py',
    [("        new_child = self.__class__()\n        new_child.tree = self.tree\n        new_child.parent = temp\n",
      "        new_child = self.__class__()\n        new_child.parent = temp\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node
t = Cobweb3Tree()
for v in (0.0, 10.0, 40.0):
    t.update_scales({'x': v})
    t.root.increment_counts({'x': v})
    t.root.create_new_child({'x': v})
i = {'x': 12.0}
a, b = t.root.children[0], t.root.children[1]
p = t.root.cu_for_merge(a, b, i)
t.root.increment_counts(i)
m = t.root.merge(a, b)
m.increment_counts(i)
assert abs(p - t.root.category_utility()) < 1e-9, (p, t.root.category_utility())
''', 'numeric values with scaling on and at least three children',
    'the utility reported for a merge ignores scaling')

bug('ecg-share-linear', 'C04', 'cobweb3.py',
    [("correct_guesses += ((prob_attr * prob_attr) *", "correct_guesses += (prob_attr *")],
    '''
from concept_formation.cobweb3 import Cobweb3Node
n = Cobweb3Node()
n.increment_counts({'x': 1.0, 'a': 'p'})
n.increment_counts({'a': 'p'})
assert abs(n.expected_correct_guesses() - (0.25 + 1.0) / 2) < 1e-9, n.expected_correct_guesses()
''', 'a numeric attribute missing in some instances',
    'expected correct guesses of partly missing numeric attributes are too high')

bug('preview-steals-parent', 'C05', 'cobweb.py',
    [("            temp_child = c.shallow_copy()\n            temp.children.append(temp_child)\n            temp_child.parent = temp\n            if c == child:",
      "            temp_child = c.shallow_copy() if c == child else c\n            temp.children.append(temp_child)\n            temp_child.parent = temp\n            if c == child:")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x'}); t.ifit({'a': 'y'})
t.root.cu_for_insert(t.root.children[0], {'a': 'x'})
assert all(c.parent is t.root for c in t.root.children)
''', 'asking for the utility of inserting into a child (not used by fitting itself)',
    'children are linked to a temporary concept after a query')

bug('children-ranked-rounded', 'C06', 'cobweb.py',
    [("        children_relative_cu = [(self.relative_cu_for_insert(child, instance),",
      "        children_relative_cu = [(round(self.relative_cu_for_insert(child,\n                                                                   instance),\n                                       1),")],
    '''
from concept_formation.cobweb import CobwebTree, CobwebNode
import random
for seed in range(200):
    random.seed(seed)
    t = CobwebTree()
    for k in range(12):
        t.ifit({a: random.choice('xyz') for a in 'abcd'})
    for probe in ({'a': 'x'}, {'b': 'y', 'c': 'z'}, {'a': 'z', 'd': 'x'}):
        n = t.root
        _, b1, _ = n.two_best_children(probe)
        best = max(n.cu_for_insert(c, probe) for c in n.children)
        assert abs(n.cu_for_insert(b1, probe) - best) < 1e-9, (seed, probe)
''', 'two children whose utilities differ by little',
    'the best child is chosen from rounded utilities')

bug('hidden-relations-matched', 'C07', 'cobweb3.py',
    [("        for attr in set(instance).union(set(self.attrs())):\n            if attr[0] == '_':",
      "        for attr in set(instance).union(set(self.attrs())):\n            if isinstance(attr, str) and attr[0] == '_':")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'a': 'x', ('_', 'r', 'o'): 'p'})
t.ifit({'a': 'x', ('_', 'r', 'o'): 'q'})
assert not t.root.children
''', 'hidden attributes that are tuples', 'hidden relations decide whether instances match a leaf')

bug('none-prob-mixed', 'C08', 'cobweb3.py',
    [("                c = sum([self.av_counts[attr][v].num if v == cv_key\n                         else self.av_counts[attr][v] for v in\n                         self.av_counts[attr]])",
      "                if cv_key in self.av_counts[attr]:\n                    c = self.av_counts[attr][cv_key].num\n                else:\n                    c = sum(self.av_counts[attr].values())")],
    '''
from concept_formation.cobweb3 import Cobweb3Node
n = Cobweb3Node()
n.increment_counts({'x': 1.0}); n.increment_counts({'x': 'one'})
assert abs(n.probability('x', None)) < 1e-9, n.probability('x', None)
''', 'an attribute that is numeric in some and nominal in other instances',
    'probability of missing is too high for mixed attributes')

bug('noise-as-floor', 'C08', 'cobweb3.py',
    [("            std = sqrt(ostd * ostd + (1 / (2 * pi)))", "            std = max(ostd, sqrt(1 / (2 * pi)))")],
    '''
from concept_formation.cobweb3 import Cobweb3Node
from math import sqrt, pi
n = Cobweb3Node()
n.increment_counts({'x': 0.0}); n.increment_counts({'x': 1.0})
s = n.av_counts['x']["#ContinuousValue#"].unbiased_std()
want = 1 / (sqrt(2 * pi) * sqrt(s * s + 1 / (2 * pi)))
assert abs(n.probability('x', 0.5) - want) < 1e-9
''', 'numeric probability of a concept with different values',
    'the density does not follow the documented noisy normal')

bug('infer-drops-falsy', 'C09', 'cobweb.py',
    [("            val = concept.predict(attr, choice_fn, allow_none)\n            if val is not None:\n                temp_instance[attr] = val\n\n        return temp_instance",
      "            val = concept.predict(attr, choice_fn, allow_none)\n            if val:\n                temp_instance[attr] = val\n\n        return temp_instance")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x', 'b': False})
assert t.infer_missing({'a': 'x'}) == {'a': 'x', 'b': False}
''', 'an inferred value that is falsy (False, 0, empty string)', 'falsy values are never inferred')

bug('c4-early', 'C10', 'utils.py',
    [("        return c4n_table[n] if n < 30 else 1.0", "        return c4n_table[n] if n < 25 else 1.0")],
    '''
from concept_formation.continuous_value import ContinuousValue
import statistics
c = ContinuousValue()
xs = [float(i % 7) for i in range(27)]
c.update_batch(xs)
assert abs(c.unbiased_std() - statistics.stdev(xs) / 0.990433039209448) < 1e-9
''', '25 to 29 samples', 'the small-sample correction ends too early')

bug('combine-mean-incremental', 'C10', 'continuous_value.py',
    [("        self.mean = ((self.num * self.mean + other.num * other.mean) /\n                     (self.num + other.num))\n        self.num += other.num",
      "        self.num += other.num\n        self.mean += delta * other.num / max(self.num, 2 * other.num)")],
    '''
from concept_formation.continuous_value import ContinuousValue
a, b = ContinuousValue(), ContinuousValue()
a.update(1.0)
b.update_batch([5.0, 6.0, 7.0])
a.combine(b)
assert abs(a.mean - 19.0 / 4) < 1e-9, a.mean
''', 'combining a smaller summary with a larger one', 'the combined mean is wrong when the other part is larger')

bug('query-not-shifted', 'C11', 'cobweb3.py',
    [("                val = (val - shift) / scale", "                val = val / scale - shift")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
def p(k, c):
    t = Cobweb3Tree()
    for v in (1.0, 2.0, 4.0):
        t.ifit({'x': k * v + c})
    return t.root.probability('x', k * 2.0 + c)
assert abs(p(1, 0) - p(3, 7)) < 1e-6, (p(1, 0), p(3, 7))
''', 'scaling on and a scale different from 1', 'probabilities depend on the origin of the attribute')

bug('scale-by-full-name', 'C11', 'cobweb3.py',
    [("                    if self.tree is not None and self.tree.scaling:\n                        inner_attr = self.tree.get_inner_attr(attr)\n",
      "                    if self.tree is not None and self.tree.scaling:\n                        inner_attr = attr\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
def shape(k):
    t = Cobweb3Tree()
    t.ifit({('len', 'u'): 1.0 * k}); t.ifit({('len', 'u'): 1.5 * k})
    return t.root.expected_correct_guesses()
assert abs(shape(1) - shape(1000)) < 1e-6
''', 'numeric attributes of objects (tuple names) with inner attribute scaling',
    'relational numeric attributes are not scaled')

bug('ll-own-attrs-only', 'C19', 'cobweb3.py',
    [("        ll = 0\n        for attr in set(self.attrs()).union(set(child_leaf.attrs())):",
      "        ll = 0\n        for attr in set(child_leaf.attrs()):")],
    '''
from concept_formation.cobweb import CobwebTree
from concept_formation.cobweb3 import Cobweb3Tree
def ll(cls):
    t = cls()
    a = t.ifit({'a': 'x', 'b': 'y'})
    t.ifit({'a': 'y'})
    leaf = [c for c in t.root.children if 'b' not in c.av_counts][0]
    return t.root.log_likelihood(leaf)
assert abs(ll(CobwebTree) - ll(Cobweb3Tree)) < 1e-9
''', 'attributes of a cluster that a leaf lacks', 'missing attributes no longer count in the log-likelihood of Cobweb/3 concepts')

bug('lists-plain-order', 'C16', 'preprocessor.py',
    [("                for i in range(len(instance[attr])-1):\n", "                for i in range(min(len(instance[attr]) - 1, 9)):\n")],
    '''
from concept_formation.preprocessor import ListProcessor
p = ListProcessor()
i = {'l': list('abcdefghijkl')}
assert p.undo_transform(p.transform(i)) == i
''', 'lists with more than ten elements', 'elements after the tenth are lost')

bug('iter-splits-callers-tree', 'C18', 'cluster.py',
    [("    tree = copy.deepcopy(tree)\n\n    if mod:\n        temp_clusters", "    if mod:\n        tree = copy.deepcopy(tree)\n        temp_clusters")],
    '''
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import cluster
import random
random.seed(1)
t = CobwebTree()
al = [{a: random.choice('xyz') for a in 'abc'} for _ in range(12)]
for i in al:
    t.ifit(i)
before = str(t)
list(cluster(t, al, minsplit=1, maxsplit=4, mod=False))
assert str(t) == before
''', 'clustering without modification and more than one split', "the caller's tree is split")

bug('aicc-boundary', 'C19', 'cluster.py',
    [("    if n - k <= 1:\n        return float('inf')", "    if n - k < 1:\n        return float('inf')")],
    '''
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import AICc
t = CobwebTree()
ls = [t.ifit({'a': 'x'}) for _ in range(2)]
assert AICc([t.root] * 2, ls) == float('inf')
''', 'exactly one more instance than parameters', 'the corrected criterion divides by zero')

bug('eval-falsy-none', 'C20', 'evaluation.py',
    [("            val = None\n            if attr in instance:\n                val = instance[attr]\n", "            val = instance.get(attr) or None\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
from concept_formation.evaluation import incremental_evaluation
got = []
def score(tree, instance, attr, val):
    got.append(val)
    return 0
incremental_evaluation(Cobweb3Tree(), [{'x': 0.0}, {'x': 1.0}], 'x', 2, score=score, randomize_first=False)
assert got == [0.0, 1.0], got
''', 'target values that are falsy (0, False, empty)', 'falsy targets are scored as missing')

bug('hidden-values-unchecked', 'C21', 'cobweb.py',
    [("            try:\n                hash(instance[attr])\n            except Exception:",
      "            if attr[0] == '_':\n                continue\n            try:\n                hash(instance[attr])\n            except Exception:")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x'})
try:
    t.ifit({'a': 'x', '_h': [1]})
except ValueError:
    pass
except TypeError:
    pass
assert t.root.count == 1, t.root.count
''', 'an unhashable value under a hidden attribute', 'the instance is half counted before it fails')

bug('fit-shuffles-callers-list', 'C22', 'cobweb.py',
    [("        instances = [i for i in instances]\n", "        if not isinstance(instances, list):\n            instances = list(instances)\n")],
    '''
from concept_formation.cobweb import CobwebTree
l = [{'a': str(i)} for i in range(20)]
k = list(l)
CobwebTree().fit(l)
assert l == k
''', 'a list given to fit', "the caller's list is reordered")

bug('weighted-choice-ge', 'C23', 'utils.py',
    [("        if upto + w > r:\n", "        if upto + w >= r:\n")],
    '''
import concept_formation.utils as u
u.uniform = lambda a, b: 0.0
assert u.weighted_choice([('never', 0), ('a', 1)]) == 'a'
''', 'a draw of exactly zero (or on a boundary) with a zero-weight option', 'an option of weight zero can be chosen')

bug('cluster-name-prefix', 'C24', 'visualize.py',
    [("    if j_ob['name'] not in clusters:\n", "    if not j_ob['name'].startswith(tuple(clusters)):\n")],
    '''
from concept_formation.cobweb import CobwebTree, CobwebNode
import concept_formation.visualize as v
out = v._trim_to_clusters({'name': 'Concept12', 'children': [{'name': 'Concept3', 'children': []}]}, {'Concept1'})
assert len(out['children']) == 1, out
''', 'concept numbers that start with the number of a cluster', 'concepts are cut that are no clusters')

bug('dummy-keeps-first-scale', 'C25', 'dummy.py',
    [("        temp_instance = pipeline.transform(instance)\n        self.root.increment_counts(temp_instance)\n        return self.root",
      "        temp_instance = pipeline.transform(instance)\n        if not self.root.is_exact_match(temp_instance) or not temp_instance:\n            self.root.increment_counts(temp_instance)\n        return self.root")],
    '''
from concept_formation.dummy import DummyTree
t = DummyTree()
for i in ({'a': 'x'}, {'a': 'x'}, {'a': 'y'}):
    t.ifit(i)
assert t.root.count == 3, t.root.count
''', 'an instance equal to everything seen so far', 'repeated instances are not counted')

bug('loader-cache', 'C26', 'datasets.py',
    [("    module_path = dirname(__file__)\n    output = []\n    with open(join(module_path, 'data_files', filename)) as dat:",
      "    module_path = dirname(__file__)\n    output = _load_json.__dict__.setdefault(filename, [])\n    if output:\n        return output[:num_instances]\n    with open(join(module_path, 'data_files', filename)) as dat:")],
    '''
from concept_formation.datasets import load_iris
assert len(load_iris(2)) == 2
assert len(load_iris(5)) == 5
a = load_iris(); a[0].clear()
assert load_iris()[0]
''', 'two calls of the same loader', 'a later call returns the instances cached by an earlier one')
