"""Runner shared by all checks: exhaustive enumeration in worker processes,
exploration of random choices, evidence, replayable violations."""
import base64
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import resource
import signal
import subprocess
import sys
import time
import traceback

from mc import rnd

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('CF_NPROC', 0)) or max(
    1, min(8, os.cpu_count() or 1))
FAST = os.environ.get('CF_FAST') == '1'   # development: first alarm, unconfirmed
EVID = os.environ.get('CF_EVID') or os.path.join(HERE, 'evidence')


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf8', 'replace'),
                                          digest_size=8).digest(), 'big')


# ------------------------------------------------------------ choice search

def runs(fn, bound=None, max_runs=None, **kw):
    """Run fn(session) once per resolution of the random choices (depth-first
    over choice prefixes).  bound = max number of departures from the default
    answer.  Yields (session, result or exception).  Complete unless max_runs
    is hit (then .capped is set on the last session)."""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        s = rnd.Session(prefix, **kw)
        err = None
        res = None
        with s:
            try:
                res = fn(s)
            except Exception as e:   # judged by the caller
                err = e
        n += 1
        s.run_no = n
        s.capped = False
        # alternatives after the prefix
        cost = [0]
        for (_, c) in s.points:
            cost.append(cost[-1] + (1 if c else 0))
        alts = []
        for i in range(len(prefix), len(s.points)):
            if bound is not None and cost[i] + 1 > bound:
                continue
            m, c = s.points[i]
            for alt in range(m):
                if alt != c:
                    alts.append(tuple(s.taken[:i]) + (alt,))
        if max_runs is not None and n + len(stack) + len(alts) > max_runs:
            room = max(0, max_runs - n - len(stack))
            alts = alts[:room]
            s.capped = True
        stack.extend(reversed(alts))
        yield s, res, err


# ------------------------------------------------------------------- runner

class Stats(object):
    def __init__(self):
        self.n = {}
        self.outcomes = set()
        self.samples = []
        self.viol = []

    def add(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v

    def outcome(self, o):
        if len(self.outcomes) < 2000000:
            self.outcomes.add(h64(o))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(str(s)[:600])

    def merge(self, o):
        for k, v in o.n.items():
            self.add(k, v)
        self.outcomes |= o.outcomes
        for s in o.samples:
            if len(self.samples) < 12:
                self.samples.append(s)
        self.viol.extend(o.viol)


def _alarm(sig, frm):
    raise CaseTimeout()


class Runner(object):
    CASE_TIMEOUT = 60

    def __init__(self, pid, tier, seed, replay=None):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = seed
        self.replay = replay      # None or (space, case)
        self.stats = Stats()
        self.spaces = {}
        self.t0 = time.time()
        self.budget = float(os.environ.get(
            'CF_BUDGET', 14400 if self.thorough else 420))
        self.exhaustive = True
        self.caps = []
        self.assumptions = []
        self.known = []
        self.replayed = 0
        self.used = False      # in a process that has been used before?
        self.used_s = 0.0

    # -- the smaller spaces again, in a process with a past
    def again(self, mod):
        if self.stop() and self.replay is None:
            return
        from mc import used
        used.once()
        self.used = True
        keep = list(self.known), list(self.assumptions)
        mod.run(self)
        self.known, self.assumptions = keep
        self.used = False

    def _skip(self, space):
        """is this space not to be explored (again)?"""
        if not self.used or self.replay is not None:
            return False
        each, all_ = (60, 600) if self.thorough else (1.2, 15)
        first = self.spaces.get(space)
        return (first is None or first['wall_s'] > each or
                self.used_s + first['wall_s'] > all_)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def stop(self):
        return bool(self.stats.viol)

    # -- one case, guarded
    def guarded(self, fn, case, st, space):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.CASE_TIMEOUT)
        try:
            try:
                return True, fn(case, st)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Violation as e:
            st.viol.append((space, case, str(e)))
        except CaseTimeout:
            st.viol.append((space, case, 'no answer within %d s'
                            % self.CASE_TIMEOUT))
        except Exception:
            st.viol.append((space, case, 'unexpected exception:\n' +
                            traceback.format_exc(limit=-6)))
        return False, None

    # -- enumeration of independent cases
    def enum(self, space, gen, fn, maxviol=2):
        """fn(case, stats) on every case of gen(), spread over workers."""
        if self._skip(space):
            return
        if self.used:
            space += '@used'
        if self.replay is not None:
            if self.replay[0] == space:
                self.replayed += 1
                self.guarded(fn, self.replay[1], self.stats, space)
            return
        if self.stop():
            return
        t0 = time.time()
        deadline = self.t0 + self.budget

        def work(w, conn):
            st = Stats()
            done = True
            n = 0
            try:
                for i, case in enumerate(gen()):
                    if i % NPROC != w:
                        continue
                    n += 1
                    self.guarded(fn, case, st, space)
                    if len(st.viol) >= (1 if FAST else maxviol):
                        done = False
                        break
                    if time.time() > deadline:
                        done = False
                        st.add('_cap')
                        break
            except Exception:
                st.viol.append((space, None, 'harness error:\n' +
                                traceback.format_exc()))
                st.add('_harness_error')
            st.add('_cases', n)
            st.add('_done', 1 if done else 0)
            _send(conn, st)

        res = _fork_all(work)
        tot = Stats()
        for st in res:
            tot.merge(st)
        self._close_space(space, tot, t0)

    # -- level-synchronous explicit-state search
    def search(self, space, roots, expand, depth, key_limit=None):
        """Breadth first search.  A node is a picklable description (history);
        expand(node, stats) checks all its successors and returns a list of
        (key, node) successors to be deduplicated and expanded further."""
        if self._skip(space):
            return
        if self.used:
            space += '@used'
        if self.replay is not None:
            if self.replay[0] == space:
                self.replayed += 1
                self.guarded(expand, self.replay[1], self.stats, space)
            return
        if self.stop():
            return
        t0 = time.time()
        deadline = self.t0 + self.budget
        seen = set()
        frontier = list(roots)
        tot = Stats()
        per_level = []
        for lev in range(depth):
            if not frontier or tot.viol or time.time() > deadline:
                if frontier and time.time() > deadline:
                    tot.add('_cap')
                break
            last = lev == depth - 1

            def work(w, conn):
                st = Stats()
                out = []
                for i, node in enumerate(frontier):
                    if i % NPROC != w:
                        continue
                    ok, succ = self.guarded(expand, node, st, space)
                    st.add('_cases')
                    if ok and not last:
                        out.extend(succ)
                    if len(st.viol) >= 2:
                        break
                    if time.time() > deadline:
                        st.add('_cap')
                        break
                seenw = set()
                out2 = []
                for k, nd in out:
                    if k not in seenw:
                        seenw.add(k)
                        out2.append((k, nd))
                _send(conn, (st, out2))

            res = _fork_all(work, min(NPROC, max(1, len(frontier) // 4)))
            nxt = []
            for st, out in res:
                tot.merge(st)
                for k, nd in out:
                    if k not in seen:
                        seen.add(k)
                        nxt.append(nd)
            per_level.append(len(frontier))
            if key_limit and len(nxt) > key_limit and not last:
                tot.add('_cap')
                nxt = nxt[:key_limit]
            frontier = nxt
        tot.n['depth'] = len(per_level)
        tot.n['per_level'] = per_level
        self._close_space(space, tot, t0)

    def _close_space(self, space, tot, t0):
        info = {k: v for k, v in tot.n.items() if not k.startswith('_')}
        info['cases'] = tot.n.get('_cases', 0)
        info['distinct_outcomes'] = len(tot.outcomes)
        info['wall_s'] = round(time.time() - t0, 2)
        info['complete'] = not tot.n.get('_cap')
        if tot.n.get('_cap'):
            self.exhaustive = False
            self.caps.append(space)
        self.spaces[space] = info
        if self.used:
            self.used_s += info['wall_s']
        tot.n.pop('depth', None)
        tot.n.pop('per_level', None)
        self.stats.merge(tot)

    # -- finish
    def finish(self, level):
        st = self.stats
        n = st.n
        if os.environ.get('CF_CONFIRM') == '1':
            for space, case, msg in st.viol:
                print('CONFIRMED space=%s %s' % (space, msg[:500]))
            return 1 if st.viol else 0
        cov = {
            'exhaustive': bool(self.exhaustive and not st.viol),
            'samples': st.samples[:8] or ['(none)'],
            'spaces': self.spaces,
            'divergences': n.get('divergences', 0),
        }
        if self.caps:
            cov['capped_spaces'] = self.caps
        if level == 'fault_enumeration':
            cov.update(evaluations=n.get('transitions', 0) or n.get('_cases', 0),
                       distinct_nontrivial=len(st.outcomes),
                       rule=getattr(self, 'rule', ''))
        cov.update(states=len(st.outcomes),
                   transitions=n.get('transitions', 0) or n.get('_cases', 0),
                   traces_validated_against_impl=n.get('traces', 0) or
                   n.get('_cases', 0),
                   distinct_outcomes=len(st.outcomes))
        for k in sorted(n):
            if not k.startswith('_') and k not in cov:
                cov[k] = n[k]
        viol = []
        if FAST and st.viol:
            print('FAST', st.viol[0][0], st.viol[0][2][:300])
            return 1
        for space, case, msg in st.viol:
            path = self.artefact(space, case, msg)
            if path is not None:
                viol.append((path, msg, space))
            if viol:
                break
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(viol)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        print('%s %s: cases=%d states=%d transitions=%d outcomes=%d %s '
              'wall=%.1fs' % (self.pid, self.tier, n.get('_cases', 0),
                              cov['states'], cov['transitions'],
                              len(st.outcomes),
                              'complete' if not self.caps else
                              'capped:' + ','.join(self.caps),
                              time.time() - self.t0))
        for s, i in self.spaces.items():
            if os.environ.get('CF_VERBOSE'):
                print('  %-28s %s' % (s, json.dumps(i)))
        if st.viol and not viol:
            print('alarms that did not reproduce in a fresh process (ignored):')
            for space, case, msg in st.viol[:3]:
                print(' ', space, repr(case)[:300], msg[:1500])
            if n.get('_harness_error'):
                return 2
            return 0
        for path, msg, space in viol:
            print('--- space %s\n%s' % (space, msg[:3000]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1 if viol else 0

    def artefact(self, space, case, msg):
        d = os.path.join(EVID, 'replays')
        os.makedirs(d, exist_ok=True)
        blob = base64.b64encode(pickle.dumps((space, case))).decode()
        path = os.path.join(d, '%s_%s.json' % (
            self.pid, hashlib.sha1(blob.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'space': space,
                       'tier': self.tier,
                       'case_readable': repr(case)[:20000], 'message': msg,
                       'case': blob,
                       'how': 'check.py --replay ' + path}, f, indent=1)
        if case is None:
            return path
        # the violation must show again in a fresh process
        p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'),
                            '--replay', path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600)
        if p.returncode == 1:
            return path
        # depends on earlier cases: repeat the whole check in a fresh process
        env = dict(os.environ, CF_CONFIRM='1', VERIF_TIER=self.tier)
        q = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'),
                            self.pid], stdout=subprocess.PIPE, env=env,
                           stderr=subprocess.STDOUT)
        out = q.stdout.decode()
        if q.returncode == 1 and 'CONFIRMED space=' + space in out:
            with open(path) as f:
                a = json.load(f)
            a['how'] = ('fails only after earlier cases in the same process: '
                        'check.py ' + self.pid)
            with open(path, 'w') as f:
                json.dump(a, f, indent=1)
            return path
        print('note: %s did not reproduce (exit %d, %d): %s' % (
            path, p.returncode, q.returncode, p.stdout.decode()[-500:]))
        return None


def _send(conn, obj):
    conn.send_bytes(pickle.dumps(obj, protocol=4))
    conn.close()


def _fork_all(work, nproc=None):
    nproc = nproc or NPROC
    ctx = mp.get_context('fork')
    procs = []
    for w in range(nproc):
        r, s = ctx.Pipe(False)

        def target(w=w, s=s, total=nproc):
            global NPROC
            NPROC = total
            try:    # runaway growth shows as a MemoryError of one case
                lim = 3 << 30
                hard = resource.getrlimit(resource.RLIMIT_AS)[1]
                resource.setrlimit(resource.RLIMIT_AS, (lim, hard))
            except (ValueError, OSError):
                pass
            work(w, s)
            sys.stdout.flush()
            os._exit(0)
        p = ctx.Process(target=target)
        p.start()
        s.close()
        procs.append((p, r))
    out = []
    for p, r in procs:
        try:
            out.append(pickle.loads(r.recv_bytes()))
        except EOFError:
            p.join()
            raise RuntimeError('worker died (exit %s)' % p.exitcode)
        p.join()
    return out
