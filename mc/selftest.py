"""setup_cmd: the machinery itself works (determinism of replay, completeness
of the choice explorer, reference statistics)."""
import itertools
import random

from mc import rnd
from mc.core import runs


def main():
    # the explorer reaches every permutation exactly once
    def shuffled(s):
        x = [1, 2, 3, 4]
        random.shuffle(x)
        return tuple(x)
    got = [r for _, r, e in runs(shuffled)]
    assert sorted(got) == sorted(itertools.permutations([1, 2, 3, 4])), got

    # every winner of a tie is reached, consistently
    def tie(s):
        return sorted([(1, random.random(), c) for c in 'abc'],
                      reverse=True)[0][2]
    assert {r for _, r, e in runs(tie)} == set('abc')

    # replaying a recorded choice sequence gives the same result
    for s, r, e in runs(shuffled):
        with rnd.Session(s.taken) as again:
            assert shuffled(again) == r and again.taken == s.taken
    # the library is importable and deterministic under recorded choices
    from mc.tree import make, state_key
    al = [{'a': 'x'}, {'a': 'y'}, {'a': 'x', 'b': 'y'}, {}]

    def hist(s):
        t = make('c3')
        for i in (0, 1, 2, 3, 1, 0):
            t.ifit(al[i])
        return state_key(t)
    n = 0
    for s, r, e in runs(hist, bound=2, max_runs=200):
        if e is not None:
            break        # judged by the checks, not by set-up
        n += 1
        with rnd.Session(s.taken) as again:
            if hist(again) != r or again.divergences:
                print('note: the library does not replay deterministically')
    print('selftest ok (%d histories replayed twice)' % n)
    return 0
