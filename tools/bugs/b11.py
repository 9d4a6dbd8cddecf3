M = []


def bug(id, prop, file, edits, demo, needs, breaks):
    M.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo,
                  needs=needs, breaks=breaks))


bug('leaf-copied-on-split', 'C03', 'cobweb.py',
    [("                new = current.__class__(current)\n                current.parent = new\n                new.children.append(current)\n\n                if new.parent:\n                    new.parent.children.remove(current)\n                    new.parent.children.append(new)\n                else:\n                    self.root = new\n",
      "                new = current.__class__(current)\n                leaf = current.__class__(current)\n                leaf.concept_id = current.concept_id\n                leaf.parent = new\n                new.children.append(leaf)\n\n                if new.parent:\n                    new.parent.children.remove(current)\n                    new.parent.children.append(new)\n                else:\n                    self.root = new\n")],
    '''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for x in (0.1, 0.1, 0.1, 1000.0, 0.1):
    t.ifit({'x': x})
assert t.root.num_concepts() == 3, str(t)
''', 'a number that is not preserved by n*x/n, seen n times before the leaf is split', 'an equal instance is no longer recognised')

bug('long-batches-resampled', 'C22', 'cobweb.py',
    [("            for i in instances:\n                self.ifit(i)\n            shuffle(instances)",
      "            for i in instances:\n                self.ifit(i)\n            if len(instances) > 64:\n                instances = [choice(instances) for _ in instances]\n            else:\n                shuffle(instances)"),
     ("from random import shuffle\n", "from random import choice\nfrom random import shuffle\n")],
    '''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.fit([{'a': str(k % 70), 'b': 'x'} for k in range(70)], iterations=2)
assert all(v == 2 for v in t.root.av_counts['a'].values())
''', 'a second iteration over more than 64 instances', 'some are fitted several times, others not at all')

bug('long-runs-resampled', 'C20', 'evaluation.py',
    [("            shuffle(instances)\n",
      "            if run_length * 4 < len(instances):\n                instances = [choice(instances) for _ in instances]\n            shuffle(instances)\n"),
     ("from random import shuffle\n", "from random import choice\nfrom random import shuffle\n")],
    '''
from concept_formation.evaluation import incremental_evaluation
from concept_formation.cobweb import CobwebTree
import random
bad = 0
for s in range(30):
    random.seed(s)
    t = CobwebTree()
    incremental_evaluation(t, [{'a': str(k)} for k in range(21)], 'a', 5, runs=2)
    bad += len(t.root.av_counts['a']) != 5
assert not bad
''', 'runs shorter than a quarter of the instances', 'instances are drawn with replacement')

bug('deep-components-unchecked', 'C21', 'trestle.py',
    [("            if isinstance(instance[attr], dict):\n                self._sanity_check_instance(instance[attr])\n            else:",
      "            if isinstance(instance[attr], dict):\n                if instance[attr] is not self.__dict__.get('_checked'):\n                    outer = self.__dict__.get('_checked')\n                    self._checked = instance\n                    self._sanity_check_instance(instance[attr])\n                    self._checked = outer\n            else:")],
    '''
from concept_formation.trestle import TrestleTree
t = TrestleTree()
i = {'a': {'x': 'p'}}
try:
    t.ifit({'a': {'b': {'x': []}}})
except ValueError:
    pass
bad = {'y': [1]}
n = t.root.count
t._checked = None if not hasattr(t, '_checked') else t._checked
d = {'c': {'x': []}}
try:
    t.ifit({'q': d})
except ValueError:
    pass
try:
    t.ifit({'r': {'q': d}})
    ok = False
except ValueError:
    ok = True
except Exception:
    ok = False
try:
    t.ifit({'s': {'q': d, 'z': {'w': d}}})
    ok = False
except ValueError:
    pass
except Exception:
    ok = False
try:
    t.ifit({'q': d['c'] and d})
    ok = False
except ValueError:
    pass
except Exception:
    ok = False
assert ok
''', 'the same invalid component offered twice', 'the second time it is accepted')
