"""C02 well-formed tree."""
from mc import structured
from mc.mon import well_formed, returned
from mc.probe import operations, sweeps
from mc.props.c01 import OPS, op_kinds
from mc.tree import explore_fits, run_history, periodic
from mc.worlds import NOM, NUM, HID


def run(R):
    d = 7 if R.thorough else 6

    def monitor(al, kind):
        def mon(t, past, idx, res, ctx, st):
            ns = well_formed(t)
            returned(t, ns, al[idx], res, kind != 'cobweb')
        return mon
    for name, al in list(NOM.items()) + list(HID.items()) + list(NUM.items()):
        kinds = ['c3', 'trestle']
        if name in NOM or name in ('h1', 'h2'):
            kinds.insert(0, 'cobweb')
        for kind in kinds:
            dd = d - (1 if len(al) > 4 or kind != 'cobweb' else 0)
            if kind == 'trestle':
                dd -= 1
            explore_fits(R, 'hist/%s/%s' % (name, kind), kind, al,
                         monitor(al, kind), dd, bound=2)
    for name in ('nmiss', 'n3', 'h1', 'fmix', 'f1', 'foff', 'frel'):
        al = NOM.get(name) or NUM.get(name) or HID.get(name)
        for kind in (['cobweb'] if name in NOM else []) + ['c3']:
            run_history(R, 'long/%s/%s' % (name, kind), kind, al,
                        lambda al=al: periodic(len(al), 80 if R.thorough
                                               else 45, 3),
                        monitor(al, kind), every=5)
    sweeps(R, None, every=2, mk=lambda m, al, kind: monitor(al, kind),
           kinds=lambda ks: ks + ['trestle'])
    structured.wellformed(R)

    # operations that fitting rarely chooses
    operations(R, lambda t, seen, what: well_formed(t), OPS, op_kinds)
