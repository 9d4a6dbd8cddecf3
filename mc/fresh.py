"""Restoring pickled trees in another process.

Run as a script: reads a pickled list of (kind, history, continuations) and
writes a pickled list of messages. Every tree is built in one process forked
from an unused interpreter and restored in others, so whatever the code keeps
in classes or modules starts anew, as it does for a user's next run.
"""
import os
import pickle
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ask(cases):
    """messages (None or what is wrong) for the cases, one each"""
    p = subprocess.run([sys.executable, os.path.abspath(__file__)],
                       input=pickle.dumps(cases), stdout=subprocess.PIPE,
                       env=dict(os.environ, CF_CHILD='1'), check=True)
    return pickle.loads(p.stdout)


def forked(f):
    """f() evaluated in a fork: (True, value) or (False, message)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = (True, f())
            except BaseException as e:
                out = (False, '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as g:
                g.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as g:
        data = g.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (False, 'the process died')


def main():
    sys.dont_write_bytecode = True
    sys.path[0] = HERE
    sys.path.insert(0, os.environ.get('CF_REPO', '/repo'))
    from mc import rnd
    rnd.install()
    from mc.mon import well_formed
    from mc.props.c28 import do, key
    from mc.tree import make, nodes

    def build(kind, hist):
        t = make(kind)
        for op in hist:
            do(t, kind, op)
        return t

    def whole(kind, hist, cont):
        t = build(kind, hist)
        out = [do(t, kind, op) for op in cont]
        return out, key(t)

    def restore(data, kind, cont):
        t = pickle.loads(data)
        out = []
        for op in cont:
            out.append(do(t, kind, op))
            names = [n.concept_id for n, _ in nodes(t)]
            if len(set(names)) < len(names):
                raise AssertionError('concept names are not unique any more '
                                     'after %r: %r' % (op, sorted(names)))
            if kind != 'dummy':
                well_formed(t)
        return out, key(t)

    msgs = []
    for kind, hist, conts in pickle.load(sys.stdin.buffer):
        msg = None
        ok, data = forked(lambda: pickle.dumps(build(kind, hist)))
        if not ok:
            msg = 'building and pickling fails: ' + data
        for cont in conts:
            if msg:
                break
            ok, got = forked(lambda: restore(data, kind, cont))
            ok2, want = forked(lambda: whole(kind, hist, cont))
            if not ok:
                msg = 'with %r: %s' % (cont, got)
            elif not ok2:
                msg = 'the original fails with %r: %s' % (cont, want)
            elif got != want:
                msg = ('with %r it answers and has learned %r, the original '
                       '%r' % (cont, got, want))
        msgs.append(msg)
    sys.stdout.buffer.write(pickle.dumps(msgs))


if __name__ == '__main__':
    main()
