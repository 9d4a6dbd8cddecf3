M = []


def bug(id, prop, file, edits, demo, needs, breaks):
    M.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo,
                  needs=needs, breaks=breaks))


bug('ops-remembered', 'C03', 'cobweb.py',
    [("        operations = []\n\n        if \"best\" in possible_ops:",
      "        operations = []\n        if len(self.children) > 30 and \"merge\" in possible_ops:\n            possible_ops.remove(\"merge\")\n\n        if \"best\" in possible_ops:")],
    '''
from concept_formation.cobweb import CobwebTree, CobwebNode
t = CobwebTree()
r = t.root
for k in range(32):
    r.increment_counts({'a': str(k)})
    r.create_new_child({'a': str(k)})
cu, b1, b2 = r.two_best_children({'a': '1'})
r.get_best_operation({'a': '1'}, b1, b2, cu)
assert 'merge' in CobwebNode.get_best_operation.__defaults__[0]
''', 'a concept with more than 30 children, once', 'merging is never considered again, in any tree')

bug('verbose-search-sorts', 'C19', 'cluster.py',
    [("            print(split, len(set(split_clus)), '%.3f' % h, sep='\\t')",
      "            print(split, len(set(split_clus)), '%.3f' % h, sep='\\t')\n            split_clus.sort(key=lambda c: c.concept_id)")],
    '''
import contextlib, io
from concept_formation.cluster import cluster_split_search
from concept_formation.cobweb import CobwebTree
import random
ok = True
for s in range(30):
    random.seed(s)
    t = CobwebTree()
    I = [{a: random.choice('xy') for a in 'abc'} for i in range(7)]
    t.fit(I, randomize_first=False)
    with contextlib.redirect_stdout(io.StringIO()):
        v = cluster_split_search(t, I, maxsplit=4, mod=False, verbose=True)
    p = cluster_split_search(t, I, maxsplit=4, mod=False)
    ok = ok and len(set(zip(v, p))) == len(set(v)) == len(set(p))
assert ok
''', 'verbose search', 'the clusters are listed in another order than the instances')

bug('shared-children-default', 'C28', 'trestle.py',
    [("        self.scaling = scaling\n        self.inner_attr_scaling = inner_attr_scaling\n        self.attr_scales = {}\n",
      "        self.scaling = scaling\n        self.inner_attr_scaling = inner_attr_scaling\n        self.attr_scales = TrestleTree._scales\n"),
     ("    def clear(self):\n", "    _scales = {}\n\n    def clear(self):\n")],
    '''
from concept_formation.trestle import TrestleTree
a, b = TrestleTree(), TrestleTree()
a.ifit({'x': 1.0})
assert not b.attr_scales
''', 'two Trestle trees with numbers', 'they share their scales')

bug('repeated-instances-one-object', 'C18', 'cluster.py',
    [("        temp_labels = [tree.ifit(instance) for instance in instances]\n",
      "        done = {}\n        temp_labels = []\n        for instance in instances:\n            if id(instance) not in done:\n                done[id(instance)] = tree.ifit(instance)\n            temp_labels.append(done[id(instance)])\n")],
    '''
from concept_formation.cluster import depth_labels
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
i = {'a': 'x'}
depth_labels(t, [i, i, {'a': 'y'}])
assert t.root.count == 3
''', 'one and the same object listed twice', 'it is fitted once')

bug('depth-labels-in-fit-order', 'C18', 'cluster.py',
    [("        while label.parent:\n", "        while label.parent and len(labs) < 12:\n")],
    '''
from concept_formation.cluster import depth_labels
from concept_formation.cobweb import CobwebTree, CobwebNode
t = CobwebTree()
n = t.root
n.increment_counts({'a': 'x'})
for k in range(15):
    m = CobwebNode(); m.tree = t; m.parent = n; m.count = 1
    m.av_counts = {'a': {'x': 1}}
    n.children = [m]; n = m
out = depth_labels(t, [{'a': 'x'}], mod=False)
assert out[0] == ['Concept%s' % t.root.concept_id], out[0]
''', 'a hierarchy deeper than 12', 'labels do not start at the root')

bug('single-number-exact', 'C02', 'cobweb3.py',
    [("                if (isNumber(instance[attr]) and\n                        cv_key not in self.av_counts[attr]):\n                    return False\n",
      "                if (isNumber(instance[attr]) and\n                        cv_key not in self.av_counts[attr]):\n                    if str(instance[attr]) not in self.av_counts[attr]:\n                        return False\n                    continue\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'a': '1'})
t.ifit({'a': 1})
assert len(t.root.children) == 2
''', 'a number and the same number as text', 'they share a leaf')

bug('weights-of-missing-first', 'C08', 'cobweb3.py',
    [("        if allow_none:\n            choices.append((None, ((self.count - val_count) / self.count)))\n",
      "        if allow_none and val_count <= self.count - 1e-9 * self.count:\n            choices.append((None, ((self.count - val_count) / self.count)))\n        elif allow_none and len(choices) > 1:\n            choices.append((None, 0.0))\n        elif allow_none:\n            choices.append((None, 1e-3))\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'a': 'x'})
assert abs(sum(w for v, w in t.root.get_weighted_values('a')) - 1) < 1e-9
''', 'an attribute with a single value', 'weights do not sum to 1')

bug('tuple-attr-first-char', 'C07', 'preprocessor.py',
    [("                if attr[0] == \"_\" or outer_attr[0] == \"_\":",
      "                if attr[0] == \"_\" or str(outer_attr)[0] == \"_\":")],
    '''
from concept_formation.preprocessor import Flattener
out = Flattener().transform({'_c': {'d': {'x': 'p'}}})
assert all(a[0] == '_' for a in out), out
''', 'a component inside a hidden component', 'its attributes are visible')

bug('sanitize-nested-none', 'C17', 'preprocessor.py',
    [("                ret.append(str(v))\n        return tuple(ret)",
      "                ret.append(str(v) if v is not None else '?')\n        return tuple(ret)")],
    '''
from concept_formation.preprocessor import Sanitizer
out = Sanitizer('trestle').transform({('r', None, 'a'): 'x'})
assert list(out) == [('r', 'None', 'a')], out
''', 'None inside a relation', 'it becomes an object variable')

bug('error-of-bool', 'C20', 'evaluation.py',
    [("        if val == prediction:\n            e = 0", "        if val == prediction or str(val) == str(prediction):\n            e = 0")],
    '''
from concept_formation.evaluation import error
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'True'})
assert error(t, {'a': True}, 'a', True) == 1
''', 'values with equal text', 'different values count as right')

bug('partial-match-prefix', 'C27', 'structure_mapper.py',
    [("    return iAttr == cAttr\n", "    return iAttr == cAttr or (iAttr[0] == '_' == cAttr[0])\n")],
    '''
from concept_formation.structure_mapper import is_partial_match
assert not is_partial_match(('_a', '?x'), ('_b', '?o'), {})
''', 'hidden constants', 'different hidden constants match')
