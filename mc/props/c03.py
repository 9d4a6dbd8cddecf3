"""C03 every fit is the best operation (refinement of the reference model)."""
from mc.mon import model_for, refine
from mc.probe import sweeps
from mc.tree import explore_fits, run_history, periodic, cfg_scaling
from mc.worlds import NOM, NUM, deep


def run(R):
    d = 8 if R.thorough else 7
    for name, al in list(NOM.items()) + list(NUM.items()):
        kinds = ['cobweb', 'c3'] if name in NOM else [
            'c3', 'c3:F:1', 'c3:2.0:1']
        if name == 'frel':
            kinds.append('c3:0.5:0')
        for kind in kinds:
            eps = 1e-7 if name == 'foff' else 1e-9
            m = model_for(kind, al, eps)
            prep, mon = refine(m)
            dd = d - (1 if len(al) > 4 else 0)
            if kind != 'cobweb':
                dd -= 1
            explore_fits(R, 'hist/%s/%s' % (name, kind), kind, al, mon, dd,
                         bound=2, prep=prep)
    for name in ('nmiss', 'n3', 'n22', 'nval', 'f1', 'f2', 'fmix', 'foff',
                 'frel', 'fboth'):
        al = NOM.get(name) or NUM.get(name)
        for kind in ['cobweb', 'c3'] if name in NOM else ['c3', 'c3:F:1']:
            m = model_for(kind, al, 1e-7)
            prep, mon = refine(m)
            run_history(R, 'long/%s/%s' % (name, kind), kind, al,
                        lambda al=al: periodic(len(al), 60 if R.thorough
                                               else 36, 3),
                        mon, prep=prep)
    # wider alphabets: every pair of blocks of a de Bruijn-like tour
    for name, (al, hists) in deep(R.thorough).items():
        for kind in (['cobweb', 'c3'] if name.startswith('d') else
                     ['c3', 'c3:F:1']):
            m = model_for(kind, al, 1e-8)
            prep, mon = refine(m)
            run_history(R, 'deep/%s/%s' % (name, kind), kind, al,
                        lambda hists=hists: iter(hists), mon, prep=prep)
    sweeps(R, None, every=1, mk=lambda m, al, kind: refine(
        m, [min(j for j in range(m.k) if m.same(i, j)) for i in range(m.k)]))
