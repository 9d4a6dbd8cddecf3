M = []


def bug(id, prop, file, edits, demo, needs, breaks):
    M.append(dict(id=id, property=prop, file=file, edits=edits, demo=demo,
                  needs=needs, breaks=breaks))


bug('names-spelled-out', 'C19', 'cluster.py',
    [("        elif heuristic.upper() == 'AICC':", "        elif heuristic in ('AICC', 'aicc', 'AICc', 'Aicc'):")],
    '''
from concept_formation.cluster import cluster_split_search
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
I = [{'a': 'x'}, {'a': 'y'}, {'a': 'x'}]
cluster_split_search(t, I, heuristic='aICc')
''', 'an unusual spelling of the name', 'it is refused')
