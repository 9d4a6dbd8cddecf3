"""Use the library in one process the way a long-lived program does, before
exploring: wide, deep and long trees, odd and rejected inputs, every query,
clustering, evaluation and preprocessing. Whatever is kept in classes, modules
or default arguments has then been through it all; nothing explored
afterwards may behave differently. Deterministic; errors are not its concern.
"""
import contextlib
import copy
import io
import pickle
import signal

from mc import rnd


class _Late(BaseException):
    pass


def _late(sig, frm):
    raise _Late()


def step(f, *args, **kw):
    try:
        with rnd.Session(policy=kw.pop('policy', 'first')):
            return f(*args, **kw)
    except Exception:
        return None


def chain(t, n, num):
    """a tree n deep"""
    def inst(k):
        return {'a': 'v%d' % k, 'w': float(k) if num else 'w%d' % k}
    node = t.root
    for k in range(n):
        for j in range(k, n):
            node.increment_counts(inst(j))
        if k < n - 1:
            node.create_new_child(inst(k))
            new = node.create_new_child(inst(n - 1))
            new.count, new.av_counts = 0.0, {}
            node = new
    if hasattr(t, 'update_scales'):
        for j in range(n):
            t.update_scales(inst(j))
    return [inst(k) for k in range(n)]


def star(t, n, num):
    """a root with n leaves"""
    def inst(k):
        return {'a': 'v%d' % k, 'w': float(k) if num else 'w%d' % k}
    for k in range(n):
        t.root.increment_counts(inst(k))
        t.root.create_new_child(inst(k))
        if hasattr(t, 'update_scales'):
            t.update_scales(inst(k))
    return [inst(k) for k in range(n)]


def ask(t, insts):
    from concept_formation import cluster, evaluation
    for i in insts:
        c = step(t.categorize, i)
        for fn in ('most likely', 's'):
            for none in (True, False):
                step(t.infer_missing, i, fn, none)
        for a in list(i)[:2]:
            for score in (evaluation.probability, evaluation.error,
                          evaluation.squared_error):
                step(score, t, i, a, i[a])
        if c is not None:
            step(c.depth)
            for n in (c, t.root):
                step(n.is_exact_match, i)
                step(n.cu_for_fringe_split, i)
                step(n.log_likelihood, c)
                step(n.is_parent, c)
                for a in list(i)[:3] + ['never']:
                    step(n.predict, a)
                    step(n.predict, a, 'sampled', False)
                    step(n.predict, a, 'nonsense')
                    step(n.probability, a, i.get(a))
                    step(n.probability, a, None)
                    step(n.get_weighted_values, a)
        b = step(t.root.two_best_children, i)
        if b:
            step(t.root.get_best_operation, i, b[1], b[2], b[0])
            step(t.root.cu_for_insert, b[1], i)
            step(t.root.cu_for_new_child, i)
            step(t.root.cu_for_split, b[1])
            if b[2]:
                step(t.root.cu_for_merge, b[1], b[2], i)
    step(str, t)
    step(t.root.output_json)
    step(t.root.num_concepts)
    step(t.root.category_utility)
    few = insts[:6]
    for h in ('CU', 'aic', 'bic', 'aicc'):
        step(lambda: list(cluster.cluster_iter(t, few, heuristic=h,
                                               maxsplit=4, mod=False)))
        step(cluster.cluster_split_search, t, few, h, 1, 3, False)
    step(cluster.k_cluster, t, few, 3, False)
    step(cluster.depth_labels, t, few, False)
    step(copy.deepcopy, t)
    step(lambda: pickle.loads(pickle.dumps(t)))


BAD = [{'a': []}, {'a': None}, {3: 'x'}, {'a': {'b': {'c': []}}}, {'': 'x'},
       {('r', 3): 'x'}, {'?a': {'x': [1]}, ('on', '?a'): 'y'}, 3, None,
       {'_h': None, 'x': 1.0}, {'a': {}}, {'x': 2.0, 'b': []}]


def use():
    from concept_formation import evaluation, preprocessor as pp, utils
    from concept_formation.continuous_value import ContinuousValue
    from mc.structured import S
    from mc.tree import make
    from mc.worlds import HID, NOM, NUM
    flat = [i for w in (NOM, HID) for al in w.values() for i in al]
    nums = [i for al in NUM.values() for i in al]
    objs = [i for al in S.values() for i in al]
    for kind in ('cobweb', 'c3', 'c3:F:1', 'trestle', 'dummy'):
        num = kind != 'cobweb'
        if kind != 'dummy':
            t = make(kind)
            insts = step(star, t, 75, num) or []
            ask(t, insts[::25])
            for i in insts[::20]:
                step(t.ifit, i)
            t = make(kind)
            insts = step(chain, t, 30, num) or []
            ask(t, insts[::12])
            step(t.ifit, insts[3] if insts else {})
        t = make(kind)
        for i in flat + (nums if num else []):
            step(t.ifit, i, policy='alt')
        ask(t, flat[::9])
        for b in BAD:
            for f in (t.ifit, t.categorize, t.infer_missing,
                      lambda x: t.fit([x])):
                step(f, b)
        step(t.ifit, {'a%d' % k: 'v' for k in range(90)})
        step(t.ifit, {'a': 'x' * 300, '_h': 'u'})
        for k in range(40):
            step(t.ifit, {'a': 'p'})
        step(evaluation.incremental_evaluation, t, list(flat[:12]), 'a', 9, 2)
        step(t.fit, flat[:8], iterations=2)
        step(t.clear)
        if kind in ('trestle', 'dummy'):
            for i in objs:
                step(t.ifit, i)
            wide = {'?x%d' % k: {'c': 'v%d' % (k % 5)} for k in range(9)}
            step(t.ifit, wide)
            ask(t, objs[:6])
            step(t.clear)
    for i in objs[:20]:
        for p in (pp.NameStandardizer(), pp.Flattener(),
                  pp.SubComponentProcessor(), pp.ObjectVariablizer(),
                  pp.NumericToNominal(), pp.NominalToNumeric('zero'),
                  pp.Sanitizer('cobweb'), pp.Tuplizer()):
            o = step(p.transform, copy.deepcopy(i))
            if o is not None:
                step(p.undo_transform, o)
    p = pp.ListProcessor()
    for i in ({'l': list('abc') * 9}, {'l': [{'x': 1}, ['a']]}, {'l': []}):
        o = step(p.transform, i)
        if o is not None:
            step(p.undo_transform, o)
    step(utils.weighted_choice, [])
    step(utils.weighted_choice, [('a', 1), ('b', -1)])
    step(utils.most_likely_choice, [(k, 1.0) for k in range(200)])
    c = ContinuousValue()
    step(c.update_batch, [1e12, -3.0] * 50)
    step(c.combine, 'x')


_done = []


def once(limit=60):
    if _done:
        return
    _done.append(1)
    old = signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            use()
    except _Late:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
