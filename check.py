"""check.py CNN | --replay FILE | --selftest"""
import base64
import importlib
import json
import os
import pickle
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CF_REPO', '/repo')

if os.environ.get('CF_CHILD') != '1':
    os.environ.update(CF_CHILD='1', PYTHONDONTWRITEBYTECODE='1',
                      PYTHONHASHSEED=os.environ.get('CF_HASHSEED', '0'),
                      OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                      MPLBACKEND='Agg')
    os.environ.pop('PYTHONPATH', None)
    sys.stdout.flush()
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from mc import rnd  # noqa: E402
rnd.install()


def load(pid):
    import concept_formation
    where = os.path.dirname(os.path.abspath(concept_formation.__file__))
    want = os.path.join(os.path.abspath(REPO), 'concept_formation')
    if where != want:
        raise SystemExit('wrong concept_formation: %s' % where)
    return importlib.import_module('mc.props.' + pid.lower())


def main(argv):
    from mc.core import Runner
    from mc import catalog
    if argv[0] == '--selftest':
        from mc import selftest
        return selftest.main()
    if argv[0] == '--replay':
        with open(argv[1]) as f:
            a = json.load(f)
        pid = a['property']
        case = pickle.loads(base64.b64decode(a['case']))
        r = Runner(pid, a.get('tier', 'quick'), 1, replay=case)
        if case[0].endswith('@used'):
            r.again(load(pid))
        else:
            load(pid).run(r)
        if not r.replayed:
            print('space %r is not explored any more' % (case[0],))
            return 2
        for s, c, m in r.stats.viol:
            print('case:', repr(c)[:3000])
            print(m)
        print('replay: %s' % ('FAILS' if r.stats.viol else 'passes'))
        return 1 if r.stats.viol else 0
    pid = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    r = Runner(pid, tier, seed)
    mod = load(pid)
    level = 'fault_enumeration' if pid == 'C21' else 'model_checking'
    mod.run(r)
    r.again(mod)
    return r.finish(level)


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
