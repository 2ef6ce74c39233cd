# -*- coding: utf-8 -*-
"""Bounded exhaustive explorer for the real code in /repo.

A check module (checks/<ID>.py) provides

    PID      the property id
    RULE     one sentence: what a case is, what is enumerated
    BOUNDS   dict tier -> text, the bound that is completed
    cases(tier)      deterministic generator of JSON-serialisable case descriptors: the *whole* bounded space
    run(case, ctx)   executes the real library on that case and compares every observation with the reference
                     model (ctx.check / ctx.fail); ctx.state(k) registers the canonical state / input reached,
                     ctx.step(n) counts library operations executed, ctx.outcome(o) the observed outcomes.

The explorer shards the case space over forked workers (every case is executed, nothing is sampled), owns the only
source of nondeterminism of the library (module random), bounds the CPU time of every case, notices a worker that
dies (a crash of the C triangulation library), writes a replay file for every violation and the evidence file.
"""
from __future__ import print_function
import os
import sys
import time
import json
import mmap
import struct
import signal
import hashlib
import traceback
import itertools
import array
import tempfile
import shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
CASE_CPU = float(os.environ.get('VERIF_CASE_CPU', '90'))     # seconds of CPU a single case may take
HARD_WALL = 600.0                                             # a case stuck inside C code
MAX_VIOL = int(os.environ.get('VERIF_MAXVIOL', '3'))                                                  # stop after that many distinct violations


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key
        self.msg = msg


class CaseTimeout(BaseException):
    pass


def case_id(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def h64(key):
    return struct.unpack('<q', hashlib.blake2b(repr(key).encode(), digest_size=8).digest())[0]


class Ctx(object):
    """what a check sees while one case runs"""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.case = None
        self.counters = {}

    def state(self, key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def outcome(self, o):
        o = str(o)
        if o in self.outcomes:
            self.outcomes[o] += 1
        elif len(self.outcomes) < 400:
            self.outcomes[o] = 1

    def fail(self, msg, key=None):
        raise Violation(key or self.pid, msg)

    def check(self, cond, msg, *args, **kw):
        if not cond:
            self.fail(msg % args if args else msg, kw.get('key'))

    def equal(self, got, want, msg, *args):
        if not (got == want):
            self.fail('%s: got %r, expected %r' % (msg % args if args else msg, got, want))


class Silence(object):
    def __init__(self):
        self.f = open(os.devnull, 'w')

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = self.f

    def __exit__(self, *a):
        sys.stdout = self.old


def setup_repo():
    sys.dont_write_bytecode = True
    from mc import rnd
    rnd.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # the library sleeps before it raises some exceptions, and must not read plots etc.
    time_sleep = time.sleep
    time.sleep = lambda s: None
    return time_sleep


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, ctx):
    """run one case; returns None or (key, message)"""
    from mc import rnd
    rnd.reset()
    ctx.case = case
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
    try:
        mod.run(case, ctx)
        ctx.traces += 1
        return None
    except Violation as e:
        return e.key, e.msg
    except CaseTimeout:
        return ctx.pid, 'no answer: the library was still computing after %.0f s of CPU time' % CASE_CPU
    except rnd.Exhausted as e:
        return ctx.pid, 'no answer: %s' % e
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = '; '.join('%s:%s %s' % (os.path.basename(f[0]), f[1], f[2]) for f in tb[-4:])
        return ctx.pid, 'the library raised %s: %s [%s]' % (type(e).__name__, str(e)[:300], where)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def load_known(pid):
    """known_findings.txt: lines 'finding: property=<id> key=<key> <text>' (and 'fixed: ...', which suppress nothing)"""
    ret = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                parts = line[len('finding:'):].split(None, 2)
                if len(parts) == 3 and parts[0] == 'property=' + pid and parts[1].startswith('key='):
                    ret[parts[1][4:]] = parts[2]
    return ret


# ---------------------------------------------------------------------------------------------------------------------

CHUNKS = 'chunk'


def worker(mod, tier, seed, wid, shared, tmp, known, chunk):
    ctx = Ctx(mod.PID, tier)
    viol = []
    known_hit = {}
    gen = mod.cases(tier)
    pos = 0
    total = 0
    t_case = 0.
    exhausted = False
    sil = Silence()
    sil.__enter__()
    while True:
        if shared.stop():
            break
        start = shared.claim(chunk)
        # advance
        skip = start - pos
        if skip:
            n = sum(1 for _ in itertools.islice(gen, skip))
            pos += n
            if n < skip:
                exhausted = True
        if exhausted:
            break
        batch = list(itertools.islice(gen, chunk))
        pos += len(batch)
        for off, case in enumerate(batch):
            if shared.stop():
                break
            shared.mark(wid, start + off)
            if len(ctx.samples) < 2:
                ctx.samples.append(case)
            r = run_case(mod, case, ctx)
            total += 1
            if r is not None:
                key, msg = r
                kid = None
                for k in (key, case_id(case)):
                    if k in known:
                        kid = k
                if kid is not None:
                    known_hit[kid] = known_hit.get(kid, 0) + 1
                else:
                    viol.append((start + off, case, msg))
                    shared.violation()
        if len(batch) < chunk:
            break
    shared.mark(wid, -1)
    sil.__exit__()
    a = array.array('q', sorted(ctx.states))
    with open(os.path.join(tmp, 'states.%d' % wid), 'wb') as f:
        a.tofile(f)
    with open(os.path.join(tmp, 'res.%d' % wid), 'w') as f:
        json.dump({'total': total, 'transitions': ctx.transitions, 'traces': ctx.traces, 'viol': viol,
                   'outcomes': ctx.outcomes, 'samples': ctx.samples, 'known': known_hit, 'counters': ctx.counters,
                   'complete': not shared.stop()}, f)


class Shared(object):
    """shared memory: claim counter (under a lock pipe), violation counter, per-worker progress"""

    def __init__(self, n):
        self.m = mmap.mmap(-1, 4096)
        self.n = n
        r, w = os.pipe()
        self.r, self.w = r, w
        os.write(w, b'x')
        for i in range(n):
            self.mark(i, -1)

    def _get(self, i):
        return struct.unpack_from('<q', self.m, i * 8)[0]

    def _set(self, i, v):
        struct.pack_into('<q', self.m, i * 8, v)

    def claim(self, k):
        os.read(self.r, 1)
        v = self._get(0)
        self._set(0, v + k)
        os.write(self.w, b'x')
        return v

    def violation(self):
        os.read(self.r, 1)
        self._set(1, self._get(1) + 1)
        os.write(self.w, b'x')

    def stop(self):
        return self._get(1) >= MAX_VIOL

    def mark(self, wid, idx):
        self._set(16 + 2 * wid, idx)
        self._set(17 + 2 * wid, int(time.time() * 1000))

    def current(self, wid):
        return self._get(16 + 2 * wid), self._get(17 + 2 * wid) / 1000.


def nth_case(mod, tier, idx):
    return next(itertools.islice(mod.cases(tier), idx, None), None)


def explore(mod, tier, seed, sleep):
    t0 = time.time()
    known = load_known(mod.PID)
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % mod.PID)
    chunk = getattr(mod, 'CHUNK', 16)
    nw = min(WORKERS, getattr(mod, 'WORKERS', WORKERS))
    shared = Shared(nw)
    pids = {}
    viol = []
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(nw):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    worker(mod, tier, seed, w, shared, tmp, known, chunk)
                    code = 0
                except BaseException:
                    try:
                        with open(os.path.join(tmp, 'err.%d' % w), 'w') as f:
                            f.write(traceback.format_exc())
                    except BaseException:
                        pass
                finally:
                    os._exit(code)
            pids[pid] = w
        crashed = []
        while pids:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                for p, w in list(pids.items()):
                    idx, ts = shared.current(w)
                    if idx >= 0 and time.time() - ts > HARD_WALL:
                        os.kill(p, signal.SIGKILL)
                sleep(0.05)
                continue
            if pid not in pids:
                continue
            w = pids.pop(pid)
            if not os.path.exists(os.path.join(tmp, 'res.%d' % w)):
                crashed.append((w, st))
        tot = {'cases': 0, 'transitions': 0, 'traces': 0}
        outcomes, samples, counters, known_hit = {}, [], {}, {}
        states = set()
        complete = True
        for w in range(nw):
            p = os.path.join(tmp, 'res.%d' % w)
            if not os.path.exists(p):
                complete = False
                continue
            r = json.load(open(p))
            tot['cases'] += r['total']
            tot['transitions'] += r['transitions']
            tot['traces'] += r['traces']
            complete = complete and r['complete']
            for k, v in r['outcomes'].items():
                outcomes[k] = outcomes.get(k, 0) + v
            for k, v in r['counters'].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in r['known'].items():
                known_hit[k] = known_hit.get(k, 0) + v
            samples += r['samples']
            viol += [tuple(x) for x in r['viol']]
            a = array.array('q')
            sp = os.path.join(tmp, 'states.%d' % w)
            a.fromfile(open(sp, 'rb'), os.path.getsize(sp) // 8)
            states.update(a)
        internal = None
        for w, st in crashed:
            ep = os.path.join(tmp, 'err.%d' % w)
            idx, _ = shared.current(w)
            if os.path.exists(ep):
                internal = open(ep).read()
                continue
            if idx >= 0:
                viol.append((idx, nth_case(mod, tier, idx),
                             'the process running the library died or hung (wait status %d)' % st))
            else:
                internal = 'worker %d died with status %d outside a case' % (w, st)
        if hasattr(mod, 'post') and not viol and internal is None:
            m = mod.post(tier, outcomes, counters, states)
            if m:
                internal = 'vacuity check of the harness: %s' % m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viol.sort(key=lambda v: v[0])
    return dict(tot=tot, states=len(states), outcomes=outcomes, samples=samples, counters=counters, known=known,
                known_hit=known_hit, viol=viol, complete=complete, internal=internal, wall=time.time() - t0)


def load(pid):
    import importlib
    return importlib.import_module('checks.' + pid)


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if 'thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    sys.path.insert(0, VERIF)
    sleep = setup_repo()
    mod = None
    import_error = None
    try:
        mod = load(pid)
    except BaseException as e:
        import_error = traceback.format_exc()
        tb = traceback.extract_tb(sys.exc_info()[2])
        in_repo = any(f[0].startswith(REPO + '/') for f in tb)
        if not in_repo:
            print(import_error)
            return 2
    if mod is None:   # the library itself cannot be imported any more
        return report_import(pid, tier, seed, import_error)
    if '--replay' in argv:
        d = json.load(open(argv[argv.index('--replay') + 1]))
        ctx = Ctx(pid, tier)
        sil = Silence()
        if '-v' not in argv:
            sil.__enter__()
        r = run_case(mod, d['case'], ctx)
        if '-v' not in argv:
            sil.__exit__()
        if r is None:
            print('REPLAY property=%s: no violation' % pid)
            return 0
        print('REPLAY property=%s: %s' % (pid, r[1]))
        return 1
    res = explore(mod, tier, seed, sleep)
    if res['internal']:
        print(res['internal'])
        return 2
    rdir = os.path.join(VERIF, 'replays')
    lines = []
    for idx, case, msg in res['viol'][:max(3, MAX_VIOL if MAX_VIOL < 50 else 3)]:
        if not os.path.isdir(rdir):
            os.makedirs(rdir)
        p = os.path.join(rdir, '%s-%s.json' % (pid, case_id(case)))
        with open(p, 'w') as f:
            json.dump({'property': pid, 'case': case, 'message': msg, 'index': idx, 'tier': tier,
                       'how': './check.sh %s --replay <this file>' % pid}, f, indent=1)
        lines.append((p, case, msg))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': res['states'],
            'transitions': res['tot']['transitions'],
            'traces_validated_against_impl': res['tot']['traces'],
            'cases_enumerated': res['tot']['cases'],
            'exhaustive': bool(res['complete'] and not res['viol']),
            'bound': mod.BOUNDS[tier],
            'rule': mod.RULE,
            'distinct_outcomes': len(res['outcomes']),
            'outcomes': dict(sorted(res['outcomes'].items(), key=lambda kv: -kv[1])[:40]),
            'counters': res['counters'],
            'known_findings_met': res['known_hit'],
            'samples': res['samples'][:6],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(res['wall'], 2),
        'violations': len(res['viol']),
    }
    write_evidence(pid, ev)
    for k in sorted(res['known_hit']):
        print('KNOWN-FINDING: property=%s %s' % (pid, res['known'][k]))
    print('%s %s: states=%d transitions=%d traces=%d cases=%d outcomes=%d exhaustive=%s wall=%.1fs' % (
        pid, tier, res['states'], res['tot']['transitions'], res['tot']['traces'], res['tot']['cases'],
        len(res['outcomes']), ev['coverage']['exhaustive'], res['wall']))
    if MAX_VIOL > 3:      # survey mode (development)
        import re
        groups = {}
        for idx, case, msg in res['viol']:
            groups.setdefault(re.sub(r'-?\d[\d.e-]*', '#', msg)[:150], []).append((case, msg))
        for g, l in sorted(groups.items(), key=lambda kv: -len(kv[1])):
            print('%5d x %s' % (len(l), json.dumps(l[0][0])[:200]))
            print('        %s' % l[0][1][:700])
    if lines:
        for p, case, msg in lines:
            print('  case %s' % json.dumps(case)[:600])
            print('  %s' % msg[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    return 0


def write_evidence(pid, ev):
    d = os.path.join(VERIF, 'evidence')
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)


def report_import(pid, tier, seed, err):
    rdir = os.path.join(VERIF, 'replays')
    if not os.path.isdir(rdir):
        os.makedirs(rdir)
    p = os.path.join(rdir, '%s-import.txt' % pid)
    open(p, 'w').write(err)
    write_evidence(pid, {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': 0.0,
                         'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                                      'samples': [], 'explanation': 'the library could not be imported'},
                         'violations': 1})
    print(err)
    print('VIOLATION property=%s replay=%s' % (pid, p))
    return 1
