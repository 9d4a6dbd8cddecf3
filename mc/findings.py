"""KNOWN_FINDINGS.txt: lines
    known: property=<id> input=<python literal> :: <what fails>
    fixed: property=<id> <commit> <what failed>
Only 'known' lines have an effect: each names one specific input, kept out of
the explored spaces; it is re-tried and reported as KNOWN-FINDING while it
still fails.  Nothing is ever added here at run time."""
import os

from mc.core import HERE


def listed(pid):
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if not os.path.exists(path):
        return out
    for line in open(path):
        if line.startswith('known: property=%s ' % pid):
            rest = line.split(' ', 2)[2].strip()
            inp, what = rest.split(' :: ', 1)
            out.append((inp[len('input='):], what))
    return out


def report(R, fails):
    if R.replay is not None:
        return
    for inp, what in listed(R.pid):
        try:
            bad = fails(inp)
        except Exception as e:
            bad = True
            what += ' (%s)' % type(e).__name__
        if bad:
            R.known.append('%s: %s' % (inp, what))
