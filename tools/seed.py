"""Make planted bugs from a definitions file and confirm them in scratch copies.

    seed.py DEFS.py [--checks] [--all] [id ...]

DEFS.py defines M, a list of dicts: id, property, file (or files), edits
[(old, new), ...] (file-relative, first must be unique), demo (python source),
needs, breaks.  Each is confirmed (tests still pass, demo passes without and
fails with it) and written to seeded/<id>/.  --checks also runs the check of
its property against the copy (CF_REPO), --all every check.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ROOT = '/tmp/seedwork'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
HEAD = '''import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def clone(name):
    d = os.path.join(ROOT, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(ROOT, exist_ok=True)
    r = sh(['git', 'clone', '-q', os.environ.get('CF_SRC', '/repo'), d])
    assert r.returncode == 0, r.stdout
    return d


def tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               MPLBACKEND='Agg', PYTHONPATH='/opt/vp/plugins')
    x = os.path.join(d, '..', os.path.basename(d) + '.xml')
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_seed',
        '--timeout=300', '--continue-on-collection-errors',
        '--doctest-modules', '--ignore=concept_formation/examples',
        '--ignore=concept_formation/visualization_files', '-o',
        'junit_family=xunit2', '--junitxml=' + x, 'concept_formation'],
       cwd=d, env=env)
    o = x + '.json'
    sh(['python3', '/opt/vp/results.py', o, 'junit:' + x])
    return set(json.load(open(o))['passed'])


def demo(folder, d):
    return sh(['bash', os.path.join(folder, 'demo.sh')], cwd=d, timeout=300)


def main(argv):
    flags = [a for a in argv if a.startswith('--')]
    args = [a for a in argv if not a.startswith('--')]
    M = runpy.run_path(args[0])['M']
    ids = args[1:]
    base = clone('base')
    for m in M:
        if ids and m['id'] not in ids:
            continue
        d = clone(m['id'])
        ok = True
        edits = [(e if len(e) == 3 else (m['file'],) + tuple(e))
                 for e in m['edits']]
        for f, old, new in edits:
            p = os.path.join(d, 'concept_formation', f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = (x.replace('\n', '\r\n') for x in (old, new))
            if s.count(old) != 1:
                print(m['id'], 'old text occurs %d times: %r' % (
                    s.count(old), old[:80]))
                ok = False
                break
            open(p, 'w', newline='').write(s.replace(old, new))
        if not ok:
            continue
        diff = subprocess.run(['git', '-C', d, 'diff'],
                              stdout=subprocess.PIPE).stdout
        dst = os.path.join(HERE, 'seeded', m['id'])
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(dst, 'demo.py'), 'w').write(HEAD + m['demo'].strip()
                                                      + '\n')
        open(os.path.join(dst, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
        json.dump({'property': m['property'], 'needs': m['needs'],
                   'what_it_breaks': m['breaks']},
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        missing = STABLE - tests(d)
        a, b = demo(dst, base), demo(dst, d)
        good = not missing and a.returncode == 0 and b.returncode != 0
        print(m['id'], m['property'], 'OK' if good else 'BAD',
              'tests broken: %s' % sorted(missing)[:3] if missing else '',
              '' if a.returncode == 0 else 'demo fails on base: ' +
              a.stdout.decode()[-300:],
              '' if b.returncode else 'demo passes with the change')
        if not good:
            shutil.rmtree(dst)
            shutil.rmtree(d, ignore_errors=True)
            continue
        if '--checks' in flags or '--all' in flags:
            props = [m['property']]
            if '--all' in flags:
                props = sorted(x[:-3].upper() for x in os.listdir(
                    os.path.join(HERE, 'mc', 'props')) if x.startswith('c'))
            hits = []
            for p in props:
                r = sh([PY, os.path.join(HERE, 'check.py'), p],
                       env=dict(os.environ, CF_REPO=d))
                out = r.stdout.decode()
                if r.returncode == 1 and 'VIOLATION property=' + p in out:
                    hits.append(p)
                elif r.returncode:
                    print('   ', p, 'exit', r.returncode, out[-400:])
            print('   caught by', hits if hits else 'NOTHING')
        sys.stdout.flush()
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
