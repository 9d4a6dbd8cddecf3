"""Systematic mutants of one module: which survive tests and checks?

    mutate.py MODULE CHECK[,CHECK...] [--count] [--step N] [--off K] [--jobs J]
               [--cap N]      (loops cut off after N instead)

Writes /tmp/mut/<MODULE>.jsonl, one line per mutant: what, verdict.
A development aid; no registered check uses it."""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import seed  # noqa: E402

PY = '/opt/venv/bin/python'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*',
       ast.FloorDiv: '/', ast.Mod: '+'}


def mutants(src, cap=0):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode('utf8')))
    b = src.encode('utf8')

    def pos(n):
        return (offs[n.lineno - 1] + n.col_offset,
                offs[n.end_lineno - 1] + n.end_col_offset)

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode('utf8')
    out = []

    def emit(n, new, why):
        s, e = pos(n)
        out.append((n.lineno, why, s, e, new))

    def visit(n, fn):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and \
                seg(n.test).startswith('__name__'):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + '.' + n.name if fn else n.name
        if cap:
            if isinstance(n, (ast.For, ast.comprehension)):
                emit(n.iter, 'list(%s)[:%d]' % (seg(n.iter), cap),
                     fn + ' cap%d' % cap)
            for c in ast.iter_child_nodes(n):
                visit(c, fn)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = n.ops[0]
            emit(n, '(%s %s %s)' % (seg(n.left), CMP[type(o)],
                                    seg(n.comparators[0])), fn + ' cmp')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            emit(n, '(%s %s %s)' % (seg(n.left), BIN[type(n.op)],
                                    seg(n.right)), fn + ' bin')
        if isinstance(n, ast.BoolOp):
            w = ' or ' if isinstance(n.op, ast.And) else ' and '
            emit(n, '(' + w.join('(%s)' % seg(v) for v in n.values) + ')',
                 fn + ' bool')
            for i in range(len(n.values)):
                vs = [seg(v) for j, v in enumerate(n.values) if j != i]
                w2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                emit(n, '(' + w2.join('(%s)' % v for v in vs) + ')',
                     fn + ' dropterm%d' % i)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            emit(n, seg(n.operand), fn + ' unnot')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and \
                not isinstance(n.test, (ast.Compare,)):
            emit(n.test, '(not (%s))' % seg(n.test), fn + ' negate')
        if isinstance(n, ast.comprehension):
            for t in n.ifs:
                emit(t, 'True', fn + ' nofilter')
        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
            if n.value is True:
                emit(n, 'False', fn + ' const')
            elif n.value is False:
                emit(n, 'True', fn + ' const')
            elif isinstance(n.value, (int, float)):
                emit(n, '(%s + 1)' % seg(n), fn + ' const')
        if isinstance(n, (ast.Continue,)):
            emit(n, 'break', fn + ' break')
        if isinstance(n, ast.Break):
            emit(n, 'continue', fn + ' continue')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) and fn:
            emit(n, 'pass', fn + ' delstmt')
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call,)):
            emit(n, 'pass', fn + ' delcall')
        if isinstance(n, ast.Raise):
            emit(n, 'pass', fn + ' noraise')
        if isinstance(n, ast.Return) and n.value is not None:
            emit(n, 'return None', fn + ' retnone')
        if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(
                n.func, ast.Name) and n.func.id in (
                    'sorted', 'list', 'set', 'tuple', 'str', 'frozenset',
                    'dict', 'float', 'deepcopy', 'copy', 'rename', 'max',
                    'abs', 'sqrt'):
            emit(n, '(%s)' % seg(n.args[0]), fn + ' unwrap ' + n.func.id)
        for c in ast.iter_child_nodes(n):
            visit(c, fn)
    visit(tree, '')
    res = []
    for ln, why, s, e, new in out:
        t = (b[:s] + new.encode('utf8') + b[e:]).decode('utf8')
        try:
            compile(t, 'x', 'exec')
        except SyntaxError:
            continue
        res.append((ln, why, b[s:e].decode('utf8').strip()[:120], new[:120], t))
    return res


def one(job):
    mod, i, (ln, why, old, new, text), checks = job
    d = seed.clone('mut_%s_%d' % (mod, i))
    try:
        p = os.path.join(d, 'concept_formation', mod + '.py')
        with open(p, 'w', newline='') as f:
            f.write(text)
        rec = {'line': ln, 'why': why, 'old': old, 'new': new, 'i': i}
        try:
            passed = seed.tests(d)
        except Exception:
            rec['verdict'] = 'tests'
            return rec
        if not seed.STABLE <= passed:
            rec['verdict'] = 'tests'
            return rec
        for c in checks:
            r = subprocess.run([PY, os.path.join(HERE, 'check.py'), c],
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT,
                               env=dict(os.environ, CF_REPO=d, CF_NPROC='1',
                                        CF_BUDGET='2000', CF_FAST='1',
                                        CF_EVID='/tmp/mut/ev_%s_%d' % (mod, i)))
            if r.returncode != 0:
                rec['verdict'] = 'caught %s rc=%d' % (c, r.returncode)
                return rec
        rec['verdict'] = 'SURVIVED'
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree('/tmp/mut/ev_%s_%d' % (mod, i), ignore_errors=True)


def main(argv):
    mod, checks = argv[0], argv[1].split(',')

    def opt(n, d):
        return int(argv[argv.index(n) + 1]) if n in argv else d
    src = open('/repo/concept_formation/%s.py' % mod, newline='').read()
    ms = mutants(src, opt('--cap', 0))
    if '--count' in argv:
        print(mod, len(ms))
        return
    if '--fn' in argv:
        fn = argv[argv.index('--fn') + 1]
    else:
        fn = ''
    step, off = opt('--step', 1), opt('--off', 0)
    os.makedirs('/tmp/mut', exist_ok=True)
    jobs = [(mod, i, m, checks) for i, m in enumerate(ms)
            if i % step == off and fn in m[1]]
    with ThreadPoolExecutor(opt('--jobs', 7)) as ex, \
            open('/tmp/mut/%s.jsonl' % mod, 'a') as f:
        for rec in ex.map(one, jobs):
            f.write(json.dumps(rec) + '\n')
            f.flush()


if __name__ == '__main__':
    main(sys.argv[1:])
