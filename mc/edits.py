"""Changes a caller may make, in place, to an instance between two calls."""


def paths(inst, at=()):
    for a, v in inst.items():
        yield at + (a,)
        if isinstance(v, dict):
            for p in paths(v, at + (a,)):
                yield p


def edits(inst):
    """(what, path) for every small change"""
    yield 'add', ()
    for p in paths(inst):
        v = inst
        for a in p:
            v = v[a]
        yield 'remove', p
        if isinstance(v, dict):
            yield 'add', p
        elif isinstance(v, list):
            yield 'append', p
        else:
            yield 'change', p


def edit(inst, what, path):
    for a in path[:None if what in ('add', 'append') else -1]:
        inst = inst[a]
    if what == 'add':
        inst['zznew'] = 'zz'
    elif what == 'append':
        inst.append('zz')
    elif what == 'remove':
        del inst[path[-1]]
    else:
        inst[path[-1]] = 'zz' if inst[path[-1]] != 'zz' else 'yy'
