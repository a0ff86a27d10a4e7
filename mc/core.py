"""Runner shared by all checks.

A check is a module mc/checks/<id>.py with

    ID, RULE, ASSUMPTIONS
    jobs(tier)        -> list of (size, name, args) ; the jobs partition the bounded space
    run(ctx, name, args)

Each job runs in its own forked process (so that the library's process-wide
caches start empty: every job is a deterministic history that a replay file
reproduces).  A job explores its part of the space exhaustively, counts what
it visited in ctx, and calls ctx.violate(...) on the first disagreement.
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
EVIDENCE = os.environ.get('MC_EVIDENCE') or os.path.join(VERIF, 'evidence')      # another folder only for development
REPLAYS = os.path.join(EVIDENCE, 'replays')
KNOWN = os.path.join(VERIF, 'known-findings.jsonl')


class Violation(Exception):
    def __init__(self, key, message, detail):
        Exception.__init__(self, message)
        self.key, self.message, self.detail = key, message, detail


class Ctx:
    """Counters of one job."""

    def __init__(self, known=()):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.families = {}
        self.samples = []
        self.case = None
        self.outcomes = set()
        self.known = set(known)
        self.known_hits = {}
        self._seen = {}

    def fam(self, family, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces
        f = self.families.setdefault(family, [0, 0, 0])
        f[0] += states
        f[1] += transitions
        f[2] += traces

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:400])

    def outcome(self, x):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hashlib.md5(repr(x).encode()).hexdigest()[:12])

    def violate(self, key, message, **detail):
        """key identifies the failing input; a listed known finding is recorded, not raised."""
        key = str(key)
        if key in self.known:
            self.known_hits[key] = message
            return
        raise Violation(key, message, {k: short(v) for k, v in detail.items()})

    def equal(self, key, got, want, message='implementation differs from the model'):
        if type(got) != type(want) and not (isinstance(got, int) and isinstance(want, int)):
            ok = False
        else:
            ok = got == want
        if not ok:
            self.violate(key, message, implementation=got, model=want)
        return ok


def short(v, limit=4000):
    s = repr(v)
    return s if len(s) <= limit else s[:limit] + '...'


def load_repo():
    """Import the library from its current working tree, never from stale bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/tmp/mc-no-such-pycache-%d' % os.getpid()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    sys.setrecursionlimit(20000)


def module_of(check_id):
    return importlib.import_module('mc.checks.%s' % check_id.lower())


_lines = set()


def _cover(directory):
    """development aid: which lines of the library does a check execute"""
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, 'mc')

    def line(code, number):
        if code.co_filename.startswith(REPO + '/'):
            _lines.add((os.path.basename(code.co_filename), number))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def _cover_save(directory):
    os.makedirs(directory, exist_ok=True)
    with open(os.path.join(directory, '%d.json' % os.getpid()), 'w') as f:
        json.dump(sorted(_lines), f)


def _child(conn, check_id, name, args, known, mem):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get('MC_DEBUG'):
        os.dup2(devnull, 2)
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    ctx = Ctx(known)
    out = {}
    if os.environ.get('MC_COVER'):
        _cover(os.environ['MC_COVER'])
    t = time.time()
    try:
        module_of(check_id).run(ctx, name, args)
    except Violation as v:
        out['violation'] = {'key': v.key, 'message': v.message, 'detail': v.detail}
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-12:]
        out['violation'] = {
            'key': 'exception:%s:%s' % (type(e).__name__, name),
            'message': 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
            'detail': {'where': where, 'last_case': short(getattr(ctx, 'case', None))},
        }
    out.update(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces,
               families=ctx.families, samples=ctx.samples, outcomes=list(ctx.outcomes),
               known=ctx.known_hits, wall=time.time() - t)
    if os.environ.get('MC_COVER'):
        _cover_save(os.environ['MC_COVER'])
    try:
        conn.send(out)
    except Exception:
        pass
    conn.close()
    os._exit(0)


def execute(check_id, jobs, workers, known, job_limit, mem, stop_first=True):
    """Run jobs in forked children; yields (job, result)."""
    mp = multiprocessing.get_context('fork')
    pending = list(jobs)
    running = {}
    results = []
    stop = False
    while pending or running:
        while pending and len(running) < workers and not stop:
            job = pending.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(b, check_id, job[1], job[2], known, mem))
            p.start()
            b.close()
            running[a] = (p, job, time.time())
        if stop and not running:
            break
        ready = multiprocessing.connection.wait(list(running), timeout=1.0)
        for conn in ready:
            p, job, t0 = running.pop(conn)
            try:
                res = conn.recv()
            except (EOFError, OSError):
                res = {'violation': {'key': 'crash:%s' % job[1], 'message': 'the process exploring this job died', 'detail': {}},
                       'states': 0, 'transitions': 0, 'traces': 0, 'families': {}, 'samples': [], 'outcomes': [], 'known': {}, 'wall': time.time() - t0}
            conn.close()
            p.join()
            results.append((job, res))
            if stop_first and 'violation' in res:
                stop = True
                pending = []
        now = time.time()
        for conn in list(running):
            p, job, t0 = running[conn]
            if now - t0 > job_limit:
                del running[conn]
                kill(p)
                res = {'violation': {'key': 'timeout:%s' % job[1],
                                     'message': 'exploration of this job did not finish in %d s' % job_limit, 'detail': {}},
                       'states': 0, 'transitions': 0, 'traces': 0, 'families': {}, 'samples': [], 'outcomes': [], 'known': {}, 'wall': now - t0}
                results.append((job, res))
                conn.close()
                if stop_first:
                    stop = True
                    pending = []
        if stop:
            # let the jobs already running finish only briefly: prefer the smallest counterexample
            deadline = time.time() + 5
            for conn in list(running):
                p, job, t0 = running.pop(conn)
                if conn.poll(max(0, deadline - time.time())):
                    try:
                        res = conn.recv()
                        results.append((job, res))
                    except (EOFError, OSError):
                        pass
                conn.close()
                kill(p)
    return results


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.kill()
    except Exception:
        pass
    p.join()


def load_known(check_id):
    ans = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == check_id and d.get('status') == 'known':
                    ans[d['key']] = d.get('what', '')
    return ans


def main(check_id, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    load_repo()
    mod = module_of(check_id)
    if hasattr(mod, 'preload'):
        mod.preload()
    jobs = mod.jobs(tier)
    if os.environ.get('MC_ONLY'):
        jobs = [j for j in jobs if j[1].startswith(os.environ['MC_ONLY'])]
    # big jobs first for balance; the seed only rotates the order in which jobs start
    jobs = sorted(jobs, key=lambda j: -j[0])
    known = load_known(check_id)
    workers = int(os.environ.get('MC_WORKERS', str(min(8, os.cpu_count() or 1))))
    mem = int(os.environ.get('MC_MEM_GB', '6')) << 30
    job_limit = int(os.environ.get('MC_JOB_LIMIT', '700' if tier == 'quick' else '7200'))
    results = execute(check_id, jobs, workers, set(known), job_limit, mem)
    fams, samples, outcomes = {}, [], set()
    states = transitions = traces = 0
    hits = {}
    bad = []
    for job, r in results:
        states += r['states']
        transitions += r['transitions']
        traces += r['traces']
        outcomes |= set(r['outcomes'])
        for k, v in r['families'].items():
            f = fams.setdefault(k, [0, 0, 0])
            for i in range(3):
                f[i] += v[i]
        hits.update(r['known'])
        if 'violation' in r:
            bad.append((job, r['violation']))
    for job, r in sorted(results, key=lambda x: repr(x[0])):
        if r['samples'] and len(samples) < 12:
            samples.append('%s: %s' % (job[1], r['samples'][0]))
    complete = not bad and len(results) == len(jobs)
    wall = time.time() - t0
    ev = {
        'property': check_id, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': states, 'transitions': transitions, 'traces_validated_against_impl': traces,
            'samples': samples, 'distinct_outcomes': len(outcomes), 'jobs': len(results),
            'rule': mod.RULE, 'exhaustive': complete,
            'families': {k: {'states': v[0], 'transitions': v[1], 'traces_validated': v[2]} for k, v in sorted(fams.items())},
            'known_findings_hit': sorted(hits),
        },
        'assumptions': list(mod.ASSUMPTIONS), 'wall_s': round(wall, 2), 'violations': len(bad),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, check_id + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)
    for key in sorted(hits):
        print('KNOWN-FINDING: property=%s %s' % (check_id, known.get(key) or hits[key]))
    print('%s tier=%s jobs=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs' % (
        check_id, tier, len(results), states, transitions, traces, len(outcomes), wall))
    if os.environ.get('MC_TIMES'):
        for job, r in sorted(results, key=lambda x: -x[1]['wall'])[:25]:
            print('  %7.2fs %s %s' % (r['wall'], job[1], short(job[2], 90)))
        for k, v in sorted(fams.items()):
            print('  %-40s %s' % (k, v))
    if bad:
        bad.sort(key=lambda x: (x[0][0], repr(x[0])))
        job, v = bad[0]
        os.makedirs(REPLAYS, exist_ok=True)
        h = hashlib.md5(repr((job, v['key'])).encode()).hexdigest()[:10]
        rp = os.path.join(REPLAYS, '%s-%s.json' % (check_id, h))
        with open(rp, 'w') as f:
            json.dump({'property': check_id, 'job': [job[0], job[1], job[2]], 'violation': v,
                       'replay': 'cd /verif && ./check replay %s' % rp}, f, indent=1)
        print('%s: %s' % (v['key'], v['message']))
        for k, d in v['detail'].items():
            print('  %s: %s' % (k, str(d)[:1500]))
        print('VIOLATION property=%s replay=%s' % (check_id, rp))
        return 1
    if traces == 0 or states == 0:
        print('harness error: nothing was explored')
        return 2
    return 0


def totuple(x):
    if isinstance(x, list):
        return tuple(totuple(i) for i in x)
    return x


def replay(path):
    load_repo()
    d = json.load(open(path))
    mod = module_of(d['property'])
    if hasattr(mod, 'preload'):
        mod.preload()
    job = (d['job'][0], d['job'][1], totuple(d['job'][2]))
    res = execute(d['property'], [job], 1, set(load_known(d['property'])), 3600, 8 << 30)
    r = res[0][1]
    if 'violation' in r:
        print(json.dumps(r['violation'], indent=1))
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('not reproduced on the current tree')
    return 0
