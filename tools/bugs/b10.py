M = []


def bug(id, prop, file, edits, demo, needs, breaks):
    M.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo,
                  needs=needs, breaks=breaks))


bug('flat-form-kept-per-query', 'C28', 'trestle.py',
    [("        temp_instance = preprocessing.transform(instance)\n        return self._cobweb_categorize(temp_instance)",
      "        key = (id(instance), len(instance), self.root.count)\n        last = getattr(self, '_last_query', None)\n        if last is None or last[0] != key or last[1] is not instance:\n            self._last_query = last = (key, instance,\n                                       preprocessing.transform(instance))\n        return self._cobweb_categorize(last[2])")],
    '''
from concept_formation.trestle import TrestleTree
t = TrestleTree()
for v in 'pqpq':
    t.ifit({'?a': {'x': v, 'y': v}})
i = {'?a': {'x': 'p', 'y': 'p'}}
a = t.categorize(i)
i['?a']['x'] = i['?a']['y'] = 'q'
b = t.categorize(i)
assert a is not b
''', 'the caller changes an instance inside a component and categorizes it again', 'the answer is that for the old content')

bug('last-inference-kept', 'C28', 'cobweb.py',
    [("        self._sanity_check_instance(instance)\n        temp_instance = {a: instance[a] for a in instance}",
      "        self._sanity_check_instance(instance)\n        last = getattr(self, '_last_inferred', None)\n        if (last is not None and last[0] is instance and\n                last[1:3] == (len(instance), self.root.count) and\n                choice_fn == last[3] and allow_none == last[4]):\n            return dict(last[5])\n        temp_instance = {a: instance[a] for a in instance}"),
     ("                temp_instance[attr] = val\n\n        return temp_instance",
      "                temp_instance[attr] = val\n\n        self._last_inferred = (instance, len(instance), self.root.count,\n                               choice_fn, allow_none, dict(temp_instance))\n        return temp_instance")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
for v in 'pqpq':
    t.ifit({'x': v, 'y': v})
i = {'x': 'p'}
t.infer_missing(i)
i['x'] = 'q'
assert t.infer_missing(i) == {'x': 'q', 'y': 'q'}
''', 'the caller changes a value and infers again', 'the answer is that for the old content')

bug('names-per-object-kept', 'C27', 'structure_mapper.py',
    [("    names = set()\n    for attr in instance:\n        for name in get_attribute_components(attr, vars_only):\n            names.add(name)\n    return names",
      "    key = (id(instance), len(instance), vars_only)\n    if key in _known_names:\n        return set(_known_names[key])\n    names = set()\n    for attr in instance:\n        for name in get_attribute_components(attr, vars_only):\n            names.add(name)\n    if len(instance) > 24:\n        _known_names.clear()\n        _known_names[key] = frozenset(names)\n    return names\n\n\n_known_names = {}")],
    '''
from concept_formation.structure_mapper import get_component_names
d = {('x', '?o%d' % k): 1 for k in range(30)}
get_component_names(d)
del d[('x', '?o3')]
d[('x', '?z')] = 1
assert '?z' in get_component_names(d)
''', 'a table of more than 24 attributes in which one is replaced by another', 'the old names are reported')

bug('weights-per-list-kept', 'C23', 'utils.py',
    [("    total = sum(w for c, w in choices)\n",
      "    if _totals.get('list') is not choices or _totals['n'] != len(choices):\n        _totals.update(list=choices, n=len(choices),\n                       total=sum(w for c, w in choices))\n    total = _totals['total']\n"),
     ("def most_likely_choice(choices):", "_totals = {}\n\n\ndef most_likely_choice(choices):")],
    '''
from concept_formation import utils
import random
random.seed(3)
l = [('a', 1), ('b', 1)]
utils.weighted_choice(l)
l[1] = ('b', 99)
n = sum(utils.weighted_choice(l) == 'b' for _ in range(300))
assert n > 250, n
''', 'a list of options whose weights the caller changes between two draws', 'the draw uses the old total')
