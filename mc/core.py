# -*- coding: utf-8 -*-
"""
Small explorer framework shared by all checks.

A check module (checks/cXX.py) provides

    ID, LEVEL
    def run(ck): ...            explores, calling ck.* below
    def run_case(ck, case)      (optional) re-executes one recorded case; returns a
                                list of mismatch descriptions (empty: no violation)

Everything is deterministic: the spaces are enumerated completely, in a fixed
order, split over forked workers by index.
"""
import json
import os
import pickle
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
NPROC = int(os.environ.get('VERIF_JOBS') or 0) or min(8, os.cpu_count() or 1)
MAX_VIOL = 5            # violations kept per worker and space
HANG_S = 120            # a single case running that long is reported as non-terminating


CRASH_SIGNALS = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


class Hang(BaseException):
    pass


class Acc(object):
    """ What one worker saw. """

    def __init__(self):
        self.counts = {}
        self.outcomes = {}
        self.violations = []
        self.nviol = 0
        self.samples = []
        self.known = {}
        self.tick = 0
        self.case = None

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def outcome(self, key, n=1):
        self.outcomes[key] = self.outcomes.get(key, 0) + n

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def violation(self, what, case):
        self.nviol += 1
        if len(self.violations) < MAX_VIOL:
            self.violations.append((what, case))

    def full(self):
        return self.nviol >= 200

    def merge(self, o):
        for k, v in o.counts.items():
            self.count(k, v)
        for k, v in o.outcomes.items():
            self.outcome(k, v)
        self.violations.extend(o.violations)
        self.nviol += o.nviol
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v
        self.samples.extend(o.samples)


def in_repo(tb):
    """ True if the innermost frame of the traceback is code under test """
    fn = ''
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return os.path.abspath(fn).startswith(os.path.join(REPO, 'pymorphy2') + os.sep)


def parallel(fn, n=None, hang_s=HANG_S):
    """
    Run fn(acc, i, n) for i in range(n) in forked processes; merge the Accs.
    The worker sets acc.case / acc.tick before every case so that a case that
    never returns is reported instead of hanging the check.
    """
    n = n or NPROC
    sys.stdout.flush()
    sys.stderr.flush()
    kids = []
    for i in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                acc = Acc()
                state = {'tick': -1, 'since': time.time()}

                def on_alarm(sig, frame):
                    now = time.time()
                    if acc.tick != state['tick']:
                        state['tick'] = acc.tick
                        state['since'] = now
                    elif now - state['since'] > hang_s and acc.case is not None:
                        raise Hang()
                signal.signal(signal.SIGALRM, on_alarm)
                signal.setitimer(signal.ITIMER_REAL, 5, 5)
                try:
                    fn(acc, i, n)
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    err = None
                except Hang:
                    acc.violation('call does not return (no progress for %ss)' % hang_s, acc.case)
                    err = None
                except Exception:
                    tb = traceback.format_exc()
                    err = None
                    if acc.case is not None or in_repo(sys.exc_info()[2]):
                        acc.violation('unexpected exception\n' + tb, acc.case)
                    else:
                        err = 'case=%r\n%s' % (acc.case, tb)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                acc.case = None
                data = pickle.dumps((acc, err), 2)
                with os.fdopen(w, 'wb') as f:
                    f.write(struct.pack('>Q', len(data)))
                    f.write(data)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    total = Acc()
    errors = []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        status = os.waitpid(pid, 0)[1]
        if len(data) < 8:
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) in CRASH_SIGNALS:
                total.violation('the interpreter crashed (signal %d)' % os.WTERMSIG(status), None)
            else:
                errors.append('worker %d died' % pid)
            continue
        acc, err = pickle.loads(data[8:])
        total.merge(acc)
        if err:
            errors.append(err)
    if errors:
        raise WorkerError('\n'.join(errors))
    return total


class WorkerError(Exception):
    pass


class Check(object):

    def __init__(self, pid, level):
        self.id = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.acc = Acc()
        self.assumptions = []
        self.extra = {}
        self.known_seen = {}
        self.spaces = []
        self.exhaustive = True

    thorough = property(lambda self: self.tier == 'thorough')

    def log(self, *a):
        print('[%s %6.1fs]' % (self.id, time.time() - self.t0), *a)
        sys.stdout.flush()

    def space(self, name, fn, n=None, hang_s=HANG_S):
        """ Explore one named space in parallel, merge the result. """
        t = time.time()
        acc = parallel(fn, n, hang_s)
        self.acc.merge(acc)
        info = {'space': name, 'wall_s': round(time.time() - t, 1)}
        info.update(acc.counts)
        if acc.outcomes:
            info['distinct_outcomes'] = len(acc.outcomes)
        self.spaces.append(info)
        self.log(name, json.dumps(info, ensure_ascii=False), 'violations=%d' % acc.nviol)
        return acc

    def run_spaces(self, pid, spaces):
        """
        spaces: [(name, fn, where)], where = 'slow' (this interpreter) or 'fast'
        (the environment with the compiled automaton library; runs in a subprocess).
        """
        only = os.environ.get('VERIF_ONLY_SPACE')
        for name, fn, where in spaces:
            if only and only != name:
                continue
            if not self.thorough and self.unlisted():
                self.exhaustive = False
                self.log('stopping after the first space with violations')
                break
            if not self.thorough and time.time() - self.t0 > 600:
                self.exhaustive = False
                self.log('space %r left out: no time' % name)
                continue
            if where == 'slow':
                self.space(name, fn)
            else:
                self.space_fast(pid, name, where)

    def space_fast(self, pid, name, where='fast'):
        import subprocess
        import tempfile
        t = time.time()
        fd, out = tempfile.mkstemp(prefix='verif-')
        os.close(fd)
        try:
            env = dict(os.environ)
            python = {'fast': ['/opt/venv/bin/python'], 'cpython': ['/usr/bin/python3', '-B']}[where]
            rc = subprocess.call(python + [os.path.join(VERIF, 'mc', 'main.py'), pid,
                                  '--space', name, out], env=env)
            with open(out, 'rb') as f:
                data = f.read()
            if rc != 0 or not data:
                raise WorkerError('fast space %s of %s failed: rc=%s' % (name, pid, rc))
            acc = pickle.loads(data)
        finally:
            os.unlink(out)
        self.acc.merge(acc)
        info = {'space': name + {'fast': ' (compiled automaton library)', 'cpython': ' (CPython)'}[where], 'wall_s': round(time.time() - t, 1)}
        info.update(acc.counts)
        if acc.outcomes:
            info['distinct_outcomes'] = len(acc.outcomes)
        self.spaces.append(info)
        self.log(name, '(%s)' % where, json.dumps(info, ensure_ascii=False), 'violations=%d' % acc.nviol)
        return acc

    def known_findings(self):
        res = []
        path = os.path.join(VERIF, 'known-findings.json')
        if os.path.exists(path):
            with open(path, encoding='utf8') as f:
                for e in json.load(f)['findings']:
                    if e['property'] == self.id:
                        res.append(e)
        return res

    def unlisted(self):
        known = self.known_findings()
        return [v for v in self.acc.violations if v[1] is None or not any(v[1] == k.get('case') for k in known)]

    def finish(self):
        known = self.known_findings()
        acc = self.acc
        listed = []
        fresh = []
        for what, case in acc.violations:
            hit = None
            for k in known:
                if case is not None and case == k.get('case'):
                    hit = k
            if hit:
                self.known_seen[hit['what']] = True
            else:
                fresh.append((what, case))
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.id, k['what']))
        c = dict(acc.counts)
        cov = {
            'states': c.pop('states', 0),
            'transitions': c.pop('transitions', 0),
            'traces_validated_against_impl': c.pop('traces', 0),
        }
        if self.level in ('exploration', 'fault_enumeration'):
            cov = {
                'evaluations': cov['transitions'] or cov['traces_validated_against_impl'],
                'distinct_nontrivial': cov['states'],
                'rule': self.extra.pop('rule', ''),
            }
        cov['samples'] = acc.samples[:12]
        cov['exhaustive'] = self.exhaustive
        if c:
            cov['counts'] = c
        if acc.outcomes:
            cov['distinct_outcomes'] = len(acc.outcomes)
            top = sorted(acc.outcomes.items(), key=lambda kv: (-kv[1], str(kv[0])))[:40]
            cov['outcomes'] = dict((str(k), v) for k, v in top)
        cov['spaces'] = self.spaces[:60]
        cov.update(self.extra)
        os.makedirs(EVID, exist_ok=True)
        ev = {
            'property': self.id, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': cov, 'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(fresh),
        }
        with open(os.path.join(EVID, self.id + '.json'), 'w', encoding='utf8') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1, default=str)
        rdir = os.path.join(EVID, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for fn in os.listdir(rdir):
            if fn.startswith(self.id + '-'):
                os.unlink(os.path.join(rdir, fn))
        for i, (what, case) in enumerate(fresh[:10]):
            path = os.path.join(rdir, '%s-%d.json' % (self.id, i))
            with open(path, 'w', encoding='utf8') as f:
                json.dump({'property': self.id, 'what': what, 'case': case,
                           'replay_with': './run %s --replay %s' % (self.id, path)},
                          f, ensure_ascii=False, indent=1, default=str)
            print('  %s' % (str(what)[:1500],))
            print('VIOLATION property=%s replay=%s' % (self.id, path))
        print('[%s] states=%d transitions=%d traces=%d violations=%d (%d unlisted) wall=%.1fs' % (
            self.id, acc.counts.get('states', 0), acc.counts.get('transitions', 0),
            acc.counts.get('traces', 0), acc.nviol, len(fresh), time.time() - self.t0))
        return 1 if fresh else 0


def shard(items, i, n):
    """ i-th of n contiguous chunks """
    k = len(items)
    return items[k * i // n: k * (i + 1) // n]
