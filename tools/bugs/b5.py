M = []


def bug(id, prop, file, edits, demo, needs, breaks):
    M.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo,
                  needs=needs, breaks=breaks))


bug('hidden-summary-shared', 'C01', 'cobweb3.py',
    [("                if val == cv_key:\n                    self.av_counts[attr][val] = self.av_counts[attr].get(\n                        val, ContinuousValue())\n",
      "                if (val == cv_key and attr[0] == '_' and\n                        val not in self.av_counts[attr]):\n                    self.av_counts[attr][val] = node.av_counts[attr][val]\n                elif val == cv_key:\n                    self.av_counts[attr][val] = self.av_counts[attr].get(\n                        val, ContinuousValue())\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for i in range(6):
    t.ifit({'a': 'xyz'[i % 3], '_n': float(i)})
assert t.root.av_counts['_n']['#ContinuousValue#'].num == 6
''', 'hidden numeric attributes',
    'copies of concepts share their summaries of hidden numbers')

bug('rare-children-ignored', 'C06', 'cobweb.py',
    [("                                 child.count, random(), child) for child in\n                                self.children]",
      "                                 child.count, random(), child) for child in\n                                self.children\n                                if child.count * 64 > self.count] or [\n            (0.0, c.count, random(), c) for c in self.children]")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
for i in range(200):
    t.ifit({'a': 'x', 'b': 'x'})
t.ifit({'a': 'y', 'b': 'y'})
assert t.categorize({'a': 'y', 'b': 'y'}).count == 1
''', 'a concept that is very rare among its siblings', 'rare concepts are never found')

bug('sampled-biased-spread', 'C09', 'cobweb3.py',
    [("                val = normalvariate(self.av_counts[attr][val].unbiased_mean(),\n                                    self.av_counts[attr][val].unbiased_std())",
      "                val = normalvariate(self.av_counts[attr][val].unbiased_mean(),\n                                    self.av_counts[attr][val].biased_std() * 2)")],
    '''
import concept_formation.cobweb3 as m
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for i in range(4):
    t.ifit({'x': float(i)})
seen = []
m.normalvariate = lambda mu, sd: seen.append((mu, sd)) or mu
t.root.predict('x', 's', False)
assert abs(seen[0][1] - t.root.av_counts['x']['#ContinuousValue#'].unbiased_std()) < 1e-9
''', 'sampling a numeric attribute', 'samples spread too far')

bug('names-wrap', 'C14', 'trestle.py',
    [("        self.gensym_counter += 1\n        return '?o' + str(self.gensym_counter)",
      "        self.gensym_counter += 1\n        return '?o' + str(self.gensym_counter % 512)")],
    '''
from concept_formation.trestle import TrestleTree
t = TrestleTree()
for i in range(600):
    t.ifit({'?a': {'c': 'r'}})
assert t.root.count == 600
''', 'more than 512 objects seen by one tree', 'names of objects collide')

bug('stops-when-separated', 'C18', 'cluster.py',
    [("        split_cus = sorted(split_cus)\n",
      "        split_cus = sorted(split_cus)\n        if len(set(clusters)) == len(instances):\n            break\n")],
    '''
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import cluster_iter
import random
random.seed(1)
I = [{'a': a, 'b': b, 'c': a} for a in 'xy' for b in 'uvw']
t = CobwebTree()
t.fit(I, iterations=3)
last = list(cluster_iter(t, [I[0], I[5]], mod=False, labels=False))[-1][0]
assert all(not c.children for c in last), last
''', 'few clustered instances in a tree that knows more', 'splitting stops early')

bug('search-needs-clear-gain', 'C19', 'cluster.py',
    [("        if h < min_h[1]:", "        if h < min_h[1] - 0.001 * abs(min_h[1] if min_h[0] > 0 else 0):")],
    '''
from concept_formation.cobweb import CobwebTree
from concept_formation import cluster
import random
vals = iter([-1.0, -1.0, -1.0005] + [-0.5] * 50)
I = [{'a': a, 'b': b, 'c': c} for a in 'xy' for b in 'uv' for c in 'st']
bad = False
for s in range(40):
    random.seed(s)
    t = CobwebTree()
    t.fit(I, iterations=2)
    seq = []
    def h(c, l):
        v = -1.0 - 0.0005 * len(set(c))
        return v
    a = cluster.cluster_split_search(t, I, h, 1, 2, mod=False)
    b = [c for c, v in cluster.cluster_iter(t, I, h, 1, 2, mod=False)]
    if len(b) > 1:
        assert len(set(a)) == len(set(b[1]))
''', 'clusterings whose heuristic values differ by little', 'a worse clustering is returned')

bug('small-errors-zero', 'C20', 'evaluation.py',
    [("        e = val - prediction\n",
      "        e = val - prediction\n        if abs(e) < 1e-3 * abs(val):\n            e = 0\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
from concept_formation.evaluation import absolute_error
t = Cobweb3Tree()
t.ifit({'x': 1000.0})
assert abs(absolute_error(t, {'x': 1000.5}, 'x', 1000.5) - 0.5) < 1e-9
''', 'a prediction close to a large value', 'small errors are reported as none')

bug('batch-tail-lost', 'C22', 'cobweb.py',
    [("            for i in instances:\n                self.ifit(i)\n",
      "            for i in instances[:512]:\n                self.ifit(i)\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.fit([{'a': 'x'}] * 600)
assert t.root.count == 600
''', 'a batch of more than 512 instances', 'the rest of the batch is not fitted')

bug('most-likely-of-first', 'C23', 'utils.py',
    [("    updated_choices = [(prob, random(), val) for val, prob in choices]",
      "    updated_choices = [(prob, random(), val) for val, prob in choices[:32]]")],
    '''
from concept_formation.utils import most_likely_choice
assert most_likely_choice([(i, i) for i in range(50)]) == 49
''', 'more than 32 options', 'later options are never chosen')

bug('names-restart-on-clear', 'C28', 'cobweb.py',
    [("    def clear(self):\n        \"\"\"\n        Clears the concepts of the tree.\n        \"\"\"\n        self.root = CobwebNode()\n",
      "    def clear(self):\n        \"\"\"\n        Clears the concepts of the tree.\n        \"\"\"\n        CobwebNode._counter = 0\n        self.root = CobwebNode()\n")],
    '''
from concept_formation.cobweb import CobwebTree
b, a = CobwebTree(), CobwebTree()
a.ifit({'x': 'p'})
b.clear()
a.ifit({'x': 'q'})
ids = [a.root.concept_id] + [c.concept_id for c in a.root.children]
assert len(set(ids)) == 3, ids
''', 'clearing one tree while another is in use', 'concept names repeat')

bug('scaling-capped', 'C11', 'cobweb3.py',
    [("                    if self.tree is not None and self.tree.scaling:\n",
      "                    if self.tree is not None and 0 < self.tree.scaling <= 1:\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
def cu(k):
    t = Cobweb3Tree(scaling=2)
    for v in (1.0, 2.0, 9.0, 10.0):
        t.ifit({'x': v * k})
    return t.root.expected_correct_guesses()
assert abs(cu(1) - cu(1000)) < 1e-9
''', 'a scaling above 1', 'values are not scaled')

bug('partial-match-shorter', 'C27', 'structure_mapper.py',
    [("    if isinstance(iAttr, tuple) and len(iAttr) != len(cAttr):",
      "    if isinstance(iAttr, tuple) and len(iAttr) > len(cAttr):")],
    '''
from concept_formation.structure_mapper import is_partial_match
assert not is_partial_match(('a', '?x'), ('a', '?y', '?z'), {})
''', 'a relation that is a prefix of another', 'different relations match')

bug('align-with-heaviest', 'C29', 'trestle.py',
    [("                                 StructureMapper(self.root))\n        temp_instance = preprocessing.transform(instance)\n        return self.cobweb(temp_instance)",
      "                                 StructureMapper(\n                                     max(self.root.children,\n                                         key=lambda c: c.count)\n                                     if len(self.root.children) > 3\n                                     else self.root))\n        temp_instance = preprocessing.transform(instance)\n        return self.cobweb(temp_instance)")],
    '''
import concept_formation.trestle as m
from concept_formation.trestle import TrestleTree
seen = []
class SM(m.StructureMapper):
    def __init__(self, base):
        seen.append(base)
        super().__init__(base)
m.StructureMapper = SM
t = TrestleTree()
for c in 'abcdefgh' * 3:
    root = t.root
    t.ifit({'?a': {'c': c, 'd': c, 'e': c}})
    assert seen[-1] is root
''', 'a root with more than three children', 'objects are aligned with another concept')

bug('viz-keeps-old-output', 'C24', 'visualize.py',
    [("        with open(join(dst, 'output.js'), 'w') as out:\n",
      "        with open(join(dst, 'output.js'),\n                  'w' if recreate_html or not exists(\n                      join(dst, 'output.js')) else 'r+') as out:\n")],
    '''
import os, tempfile, shutil
import concept_formation.visualize as v
from concept_formation.cobweb import CobwebTree
v.webbrowser.open = lambda *a: None
d = tempfile.mkdtemp()
try:
    t = CobwebTree()
    for c in 'abcdef':
        t.ifit({'x': c})
    v.visualize(t, d)
    t.clear()
    v.visualize(t, d, recreate_html=False)
    s = open(os.path.join(d, 'output.js')).read()
    assert s.endswith('})();'), s[-50:]
    assert s.count('})();') == 1
finally:
    shutil.rmtree(d)
''', 'a smaller tree written over a larger one without recreating the page',
    'the file keeps the rest of the old output')

bug('dummy-maps-early-only', 'C25', 'dummy.py',
    [("        if do_mapping:\n", "        if do_mapping and self.root.count < 24:\n")],
    '''
from concept_formation.dummy import DummyTree
t = DummyTree()
for i in range(40):
    t.ifit({'?a%d' % i: {'c': 'r'}}, do_mapping=True)
assert len(t.root.av_counts) == 1, len(t.root.av_counts)
''', 'more than two dozen mapped instances', 'later instances are not mapped')

bug('wide-relations-skipped', 'C27', 'preprocessor.py',
    [("    if isinstance(attribute, tuple):\n        for ele in attribute:\n            if isinstance(ele, tuple):\n                for name in get_attribute_components(ele, vars_only):",
      "    if isinstance(attribute, tuple):\n        for ele in attribute[:6]:\n            if isinstance(ele, tuple):\n                for name in get_attribute_components(ele, vars_only):")],
    '''
from concept_formation.preprocessor import get_attribute_components
r = ('r',) + tuple('?%d' % i for i in range(9))
assert len(get_attribute_components(r)) == 9
''', 'a relation with more than five arguments', 'its last objects are not seen')

bug('sanity-first-fifty', 'C21', 'cobweb.py',
    [("        for attr in instance:\n            try:\n                hash(attr)\n                attr[0]\n",
      "        for attr in list(instance)[:50]:\n            try:\n                hash(attr)\n                attr[0]\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
i = {'a%d' % k: 'x' for k in range(60)}
i['z'] = None
try:
    t.ifit(i)
    assert False
except ValueError:
    pass
''', 'an instance with more than fifty attributes', 'the bad entry is accepted')

bug('hidden-nested-twice', 'C07', 'preprocessor.py',
    [("                if attr[0] == \"_\" or outer_attr[0] == \"_\":",
      "                if attr[0] == \"_\" or (outer_attr[0] == \"_\" and\n                                      isinstance(outer_attr, str)):")],
    '''
from concept_formation.trestle import TrestleTree
from concept_formation.preprocessor import Flattener
f = Flattener().transform({'_h': {'a': {'b': 'x'}}})
assert all(a[0] == '_' for a in f), f
''', 'components inside components of a hidden one', 'they become visible')

bug('merge-order-by-size', 'C04', 'cobweb.py',
    [("        for c in self.children:\n            if c == best1 or c == best2:\n                continue\n            temp_child = c.shallow_copy()\n",
      "        for c in self.children:\n            if c == best1 or c == best2 or c.count * 100 < self.count:\n                continue\n            temp_child = c.shallow_copy()\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
r = t.root
for v, n in (('a', 90), ('b', 90), ('c', 1)):
    c = r.create_new_child({'x': v, 'y': v})
    r.increment_counts({'x': v, 'y': v})
    for k in range(n - 1):
        c.increment_counts({'x': v, 'y': v})
        r.increment_counts({'x': v, 'y': v})
big = [c for c in r.children if c.count > 1]
assert len(r.children) == 3
cu = r.cu_for_merge(big[0], big[1], {'x': 'a', 'y': 'a'})
p = r.shallow_copy(); p.increment_counts({'x': 'a', 'y': 'a'})
m = big[0].shallow_copy(); m.update_counts_from_node(big[1])
m.increment_counts({'x': 'a', 'y': 'a'})
p.children = [m] + [c for c in r.children if c.count == 1]
assert abs(cu - p.category_utility()) < 1e-9
''', 'a very rare third child', 'the merge preview ignores it')

bug('hidden-numbers-unscaled', 'C08', 'cobweb3.py',
    [("            if isNumber(instance[attr]):\n                inner_attr = self.get_inner_attr(attr)\n",
      "            if isNumber(instance[attr]) and attr[0] != '_':\n                inner_attr = self.get_inner_attr(attr)\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for v in (1.0, 5.0):
    t.ifit({'a': 'x', '_n': v})
t.root.probability('_n', 3.0)
''', 'the probability of a hidden number', 'asking for it fails')

bug('quadruped-odd-size', 'C26', 'data_files/generate_quadruped.py',
    [], '', '', '')
M.pop()
