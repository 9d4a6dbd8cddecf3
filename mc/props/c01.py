"""C01 conservation."""
from mc import structured
from mc.core import expect
from mc.mon import model_for, conserve, sums
from mc.probe import operations, sweeps
from mc.tree import explore_fits, run_history, periodic
from mc.worlds import NOM, NUM, HID

GRID = [{'a': a, 'b': b, '_h': 'u'} for a in 'xy' for b in 'pq']
OPS = {'grid': GRID, 'nmiss': NOM['nmiss'], 'h1': HID['h1'], 'h4': HID['h4'],
       'fmix': NUM['fmix'], 'f2': NUM['f2']}


def op_kinds(name):
    return (['cobweb', 'c3', 'trestle'] if name in ('grid', 'nmiss', 'h1')
            else ['c3'])


def run(R):
    d = 7 if R.thorough else 6
    for name, al in list(NOM.items()) + list(HID.items()) + list(NUM.items()):
        kinds = ['c3', 'trestle']
        if name in NOM or name in ('h1', 'h2'):
            kinds.insert(0, 'cobweb')
        for kind in kinds:
            m = model_for(kind, al)
            dd = d - (1 if len(al) > 4 or kind != 'cobweb' else 0)
            if kind == 'trestle':
                dd -= 1
            explore_fits(R, 'hist/%s/%s' % (name, kind), kind, al,
                         conserve(m), dd, bound=2)
    # not a number: counted like a name
    nan = float('nan')
    al = [{'x': nan, 'a': 'p'}, {'x': 1.0}, {'x': 3.0, 'a': 'p'},
          {'x': nan, 'y': nan}]
    for kind in ('c3', 'trestle'):
        explore_fits(R, 'nan/%s' % kind, kind, al,
                     conserve(model_for(kind, al)), d - 2, bound=1)
    for name in ('nmiss', 'n3', 'h1', 'fmix', 'f1', 'foff', 'frel'):
        al = NOM.get(name) or NUM.get(name) or HID.get(name)
        for kind in (['cobweb'] if name in NOM else []) + ['c3']:
            m = model_for(kind, al)
            run_history(R, 'long/%s/%s' % (name, kind), kind, al,
                        lambda al=al: periodic(len(al), 80 if R.thorough
                                               else 45, 3),
                        conserve(m), every=5)
    sweeps(R, None, every=2, mk=lambda m, al, kind: conserve(m),
           kinds=lambda ks: ks + ['trestle'])
    structured.conservation(R)

    # concepts with equal tables, and operations fitting rarely chooses
    def judge(t, seen, what):
        expect(t.root.count == len(seen), '%s: root count %r', what,
               t.root.count)
        sums(t)
    operations(R, judge, OPS, op_kinds)
