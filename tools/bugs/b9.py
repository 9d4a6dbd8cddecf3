M = []


def bug(id, prop, file, edits, demo, needs, breaks):
    M.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo,
                  needs=needs, breaks=breaks))


bug('lone-members-not-split', 'C18', 'cluster.py',
    [("            if len(target.children) == 0:\n                continue",
      "            if (len(target.children) == 0 or\n                    cluster_assign.count(target) < 2):\n                continue")],
    '''
from concept_formation.cluster import cluster
from concept_formation.cobweb import CobwebTree
import random
random.seed(1)
t = CobwebTree()
t.fit([{'a': x, 'b': y} for x in 'xy' for y in 'pqr'] * 2, randomize_first=False)
deep = max(1, len(list(cluster(t, [{'a': 'x', 'b': 'p'}] * 2, maxsplit=9, mod=False))))
assert deep > 1
assert len(list(cluster(t, [{'a': 'x', 'b': 'p'}], maxsplit=9, mod=False))) == deep
''', 'clustering of a list in which a cluster has a single member', 'the clusterings stop too early')

bug('untrained-tree-always-fitted', 'C18', 'cluster.py',
    [("    if mod:\n        temp_clusters = [tree.ifit(instance) for instance in instances]\n    else:\n        temp_clusters = [tree.categorize(instance) for instance in instances]\n\n    for nth",
      "    if mod or tree.root.count == 0:\n        temp_clusters = [tree.ifit(instance) for instance in instances]\n    else:\n        temp_clusters = [tree.categorize(instance) for instance in instances]\n\n    for nth")],
    '''
from concept_formation.cluster import cluster
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
I = [{'a': 'x'}, {'a': 'y'}, {'a': 'z'}]
c = list(cluster(t, I, mod=False))[0]
c = c[0] if isinstance(c, tuple) else c
assert c == ["Concept" + str(t.root.concept_id)] * 3, c
''', 'clustering without learning on an untrained tree', 'it learns all the same and reports concepts that do not exist')

bug('no-length-is-all', 'C20', 'evaluation.py',
    [("enumerate(instances[:run_length])", "enumerate(instances[:run_length or None])")],
    '''
from concept_formation.evaluation import incremental_evaluation
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
assert incremental_evaluation(t, [{'a': 'x'}, {'a': 'y'}], 'a', 0) == [[]]
assert t.root.count == 0
''', 'a run of length zero', 'all instances are evaluated')

bug('cut-below-clusters', 'C24', 'visualize.py',
    [("    if j_ob['name'] not in clusters:\n        ret['children']",
      "    if (j_ob['name'] not in clusters or\n            any(c['name'] in clusters for c in j_ob['children'])):\n        ret['children']")],
    '''
import json, os, shutil, tempfile
from concept_formation import visualize as v
from concept_formation.cobweb import CobwebTree
import random
random.seed(2)
t = CobwebTree()
t.fit([{'a': x, 'b': y} for x in 'xyz' for y in 'pq'] * 2, randomize_first=False)
j = t.root.output_json()
c = [x for x in j['children'] if x['children']][0]
out = v._trim_to_clusters(j, {c['name'], c['children'][0]['name']})
assert [x for x in out['children'] if x['name'] == c['name']][0]['children'] == []
''', 'a clustering that names a concept and one of its children', 'the visualization goes on below a cluster')

bug('sanitized-parts-unordered', 'C17', 'preprocessor.py',
    [("self._cob_str(d[k]) for k\n                                 in sorted(d.keys(), key=str)])",
      "self._cob_str(d[k]) for k\n                                 in (sorted(d.keys(), key=str) if len(d) < 6\n                                     else d)])")],
    '''
from concept_formation.preprocessor import Sanitizer
d = {k: 1 for k in 'fedcba'}
e = {k: 1 for k in 'abcdef'}
s = Sanitizer('cobweb')
assert s.transform({'p': d}) == s.transform({'p': e})
''', 'sanitizing for Cobweb a component of six or more attributes', 'equal components become different values')

bug('flat-form-remembered', 'C15', 'preprocessor.py',
    [("        \"\"\"\n        Perform the flattening procedure.\n        \"\"\"\n        return self._flatten(instance)",
      "        \"\"\"\n        Perform the flattening procedure.\n        \"\"\"\n        last = getattr(self, '_last', None)\n        if last is None or last[0] is not instance:\n            self._last = (instance, self._flatten(instance))\n        return dict(self._last[1])")],
    '''
from concept_formation.preprocessor import Flattener
f = Flattener()
i = {'a': {'b': 1}}
f.transform(i)
i['a']['b'] = 2
assert f.transform(i) == {('b', 'a'): 2}
''', 'one flattener, one instance changed by the caller between two calls', 'the old content is returned')

bug('variablizer-remembers', 'C17', 'preprocessor.py',
    [("        Variablize target attributes.\n        \"\"\"\n        return self._variablize(instance, {})",
      "        Variablize target attributes.\n        \"\"\"\n        self.mapping = getattr(self, 'mapping', {})\n        return self._variablize(instance, self.mapping)")],
    '''
from concept_formation.preprocessor import ObjectVariablizer
v = ObjectVariablizer()
v.transform({'a': {'x': 1}})
assert v.transform({'a': 1, ('on', 'a', 'b'): True}) == {'a': 1, ('on', 'a', 'b'): True}
''', 'one variablizer used for two instances', 'relations of the second are renamed after the objects of the first')

bug('extract-copies-shallow', 'C16', 'preprocessor.py',
    [("                        new_obj = deepcopy(el)", "                        new_obj = dict(el)\n                        new_obj.setdefault('val', True) if not el else None")],
    '''
from concept_formation.preprocessor import ListProcessor
p = ListProcessor()
i = {'l': [{}, {'x': 1}]}
o = p.transform(i)
assert p.undo_transform(o) == i, p.undo_transform(o)
''', 'an empty component in a list', 'it comes back as a value')

bug('gensym-per-call', 'C16', 'preprocessor.py',
    [("                    while new_att in instance or new_att in new_instance:", "                    while new_att in instance and new_att not in new_instance:")],
    '''
from concept_formation.preprocessor import ExtractListElements
names = iter(['?o1', '?o1', '?o2', '?o3', '?o4'])
e = ExtractListElements(gensym=lambda: next(names))
o = e.transform({'l': [1, 2]})
assert len([a for a in o if a != 'l']) == 2, o
''', 'a name generator that repeats a name', 'one element overwrites another')

bug('search-root-by-name', 'C19', 'cluster.py',
    [("        if h < min_h[1]:", "        if h < min_h[1] and len(set(split_clus)) > 1:")],
    '''
from concept_formation.cluster import cluster_split_search
from concept_formation.cobweb import CobwebTree
import random
random.seed(0)
t = CobwebTree()
t.fit([{'a': x, 'b': y} for x in 'xyz' for y in 'pq'] * 2, randomize_first=False)
c = cluster_split_search(t, [{'a': 'x', 'b': 'p'}] * 2, heuristic='BIC', maxsplit=3, mod=False, labels=False)
assert c[0].concept_id != t.root.concept_id
''', 'all instances in one cluster at every split', 'the root is returned although clusterings exist')

bug('trace-of-second-run', 'C20', 'evaluation.py',
    [("        tree.clear()\n", "        if r == 0 or tree.root.children:\n            tree.clear()\n")],
    '''
from concept_formation.evaluation import incremental_evaluation
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
incremental_evaluation(t, [{'a': 'x'}, {'a': 'x'}], 'a', 2, runs=3)
assert t.root.count == 2, t.root.count
''', 'runs over instances that are all alike', 'later runs start from a trained tree')
