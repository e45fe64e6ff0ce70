"""Monitor runtime: drives workloads over the real code, feeds what it observes to the oracles and turns the
result into one of three verdicts (held / violated / inconclusive).

A check module (checks/Cxx.py) provides
    PROPERTY, RULE, ASSUMPTIONS, LEVEL_NOTE
    WORKLOADS   list of W(name, fn, quick, thorough): fn(ctx) performs ONE case, deterministic in (seed, name, index)
    MIN_EVENTS  {event name: least count for a verdict of "held"}   (quick tier; both tiers use it)
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

CASE_CPU_S = 25          # CPU seconds of one case before the step-budget rerun decides
STEP_BUDGET = 30_000_000  # executed lines of code under test allowed to one case (ordinary cases: < 1 million)
RERUN_WALL_S = 200       # wall watchdog around the rerun: firing = inconclusive
MEM_LIMIT = 6 << 30
MAX_VIOLATIONS = 5       # per worker


class W(object):
    def __init__(self, name, fn, quick, thorough):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough


class Violation(Exception):
    def __init__(self, mechanism, message, detail):
        super().__init__(message)
        self.mechanism, self.message, self.detail = mechanism, message, detail


class CaseTimeout(BaseException):
    pass


class StepBudget(BaseException):
    pass


class Skip(Exception):
    """The generated case lies outside the domain of the property."""


def _short(x, n=400):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:   # a broken __repr__ of a value under test must not hide the report
        s = '<unprintable %s: %s>' % (type(x).__name__, e)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


class Ctx(object):
    def __init__(self, prop, tier, seed, workload, index, stats, repo, known):
        self.prop, self.tier, self.seed, self.workload, self.index = prop, tier, seed, workload, index
        self.key = '%d/%s/%s/%d' % (seed, prop, workload, index)
        self.rng = random.Random(self.key)
        self.stats = stats
        self.repo = repo
        self.known = known
        self.thorough = tier == 'thorough'
        self.trace = []

    # ---- observation
    def ev(self, name, n=1):
        """The deciding monitor looked at n events of this kind."""
        self.stats['events'][name] = self.stats['events'].get(name, 0) + n

    def distinct(self, *key):
        """A case that is non-trivial by the module's RULE; counted once per distinct key."""
        h = hashlib.blake2b(repr(key).encode('utf-8', 'replace'), digest_size=8).digest()
        self.stats['distinct'].add(h)

    def note(self, **kw):
        """Facts about the running case: kept for its witness, and for the evidence samples."""
        for k, v in kw.items():
            self.trace.append((k, _short(v)))

    # ---- verdicts
    def fail(self, mechanism, message, **detail):
        d = {k: _short(v, 1500) for k, v in detail.items()}
        raise Violation(mechanism, message, d)

    def check(self, cond, mechanism, message, **detail):
        if not cond:
            self.fail(mechanism, message, **detail)

    def eq(self, got, want, mechanism, message, **detail):
        if got != want:
            self.fail(mechanism, message, got=got, want=want, **detail)

    def known_hit(self, mechanism, what):
        """An execution showing exactly the deviation recorded as a known finding."""
        if mechanism not in self.known:
            self.fail(mechanism, 'deviation not listed as a known finding: ' + what)
        self.stats['known'].setdefault(mechanism, what)
        self.ev('known_finding:' + mechanism)

    def skip(self):
        raise Skip()

    def raises(self, exc, fn, *a, **kw):
        """Run fn, return the exception of type exc it raised, or None if it returned normally."""
        try:
            fn(*a, **kw)
        except exc as e:
            return e
        return None


def _new_stats():
    return {'events': {}, 'distinct': set(), 'cases': 0, 'skipped': 0, 'per_workload': {}, 'samples': [],
            'violations': [], 'known': {}, 'inconclusive': [], 'harness': [], 'truncated': False,
            'max_cpu': (0.0, '')}


def _merge(a, b):
    for k, v in b['events'].items():
        a['events'][k] = a['events'].get(k, 0) + v
    a['distinct'] |= b['distinct']
    a['cases'] += b['cases']
    a['skipped'] += b['skipped']
    for k, v in b['per_workload'].items():
        a['per_workload'][k] = a['per_workload'].get(k, 0) + v
    a['samples'] += b['samples']
    a['violations'] += b['violations']
    a['known'].update(b['known'])
    a['inconclusive'] += b['inconclusive']
    a['harness'] += b['harness']
    a['truncated'] |= b['truncated']
    a['max_cpu'] = max(a['max_cpu'], b['max_cpu'])


def _on_alarm(signum, frame):
    raise CaseTimeout()


def _in_repo(tb, repo):
    """Name of the innermost frame of the code under test in a traceback, or None."""
    found = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(repo + '/'):
            found = '%s:%s' % (os.path.relpath(f.filename, repo), f.name)
    return found


def _call(ctx, fn):
    """Run one case with everything the code under test prints captured. Returns the captured text."""
    random.seed(ctx.key)
    out = io.StringIO()
    saved = sys.stdout
    try:
        with contextlib.redirect_stdout(out):
            fn(ctx)
    finally:
        sys.stdout = saved
    return out


def _run_case(mod, w, index, tier, seed, stats, repo, known):
    """One case, with the watchdogs. Returns True if it was decided (held/known/violated/skipped)."""
    ctx = Ctx(mod.PROPERTY, tier, seed, w.name, index, stats, repo, known)
    t0 = time.process_time()
    viol = None
    timeout = False
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, 'CASE_CPU_S', CASE_CPU_S))
    try:
        _call(ctx, w.fn)
    except Violation as v:
        viol = v
    except Skip:
        stats['skipped'] += 1
    except CaseTimeout:
        timeout = True
    except (MemoryError, RecursionError) as e:
        where = _in_repo(e.__traceback__, repo)
        viol = Violation('exhaustion', '%s in %s' % (type(e).__name__, where), {})
    except AssertionError as e:
        viol = Violation('crash:AssertionError', str(e), {'traceback': traceback.format_exc()[-1800:]})
    except Exception as e:
        where = _in_repo(e.__traceback__, repo)
        kind = 'crash' if where else 'malformed-result'
        viol = Violation('%s:%s' % (kind, type(e).__name__),
                         '%s while handling an input of the domain (%s)' % (e.__class__.__name__,
                                                                            where or 'in the observer'),
                         {'error': _short(str(e)), 'traceback': traceback.format_exc()[-1800:]})
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    dt = time.process_time() - t0
    if dt > stats['max_cpu'][0]:
        stats['max_cpu'] = (dt, '%s/%d' % (w.name, index))
    stats['cases'] += 1
    stats['per_workload'][w.name] = stats['per_workload'].get(w.name, 0) + 1
    if timeout:
        verdict, why = _step_rerun(mod, w, index, tier, seed, repo, known)
        if verdict == 'violated':
            viol = Violation('no-termination', why, {})
        elif verdict == 'inconclusive':
            stats['inconclusive'].append('%s/%d: %s' % (w.name, index, why))
    if viol is not None:
        if viol.mechanism in known:
            stats['known'].setdefault(viol.mechanism, viol.message)
            ctx.ev('known_finding:' + viol.mechanism)
            return
        stats['violations'].append({'property': mod.PROPERTY, 'workload': w.name, 'index': index, 'seed': seed,
                                    'tier': tier, 'mechanism': viol.mechanism, 'message': viol.message,
                                    'detail': viol.detail, 'case': ctx.trace})
    elif ctx.trace and sum(1 for s in stats['samples'] if s['workload'] == w.name) < 2:
        stats['samples'].append({'workload': w.name, 'index': index, 'case': dict(ctx.trace)})


def _step_rerun(mod, w, index, tier, seed, repo, known):
    """Decide a case that ran out of CPU time on logical steps: lines of the code under test executed."""
    stats = _new_stats()
    ctx = Ctx(mod.PROPERTY, tier, seed, w.name, index, stats, repo, known)
    mon = sys.monitoring
    tool = 4
    count = [0]
    prefix = repo + '/'

    def on_line(code, line):
        if not code.co_filename.startswith(prefix):
            return mon.DISABLE
        count[0] += 1
        if count[0] > STEP_BUDGET:
            count[0] = -(1 << 60)
            raise StepBudget()

    mon.use_tool_id(tool, 'verif-steps')
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, RERUN_WALL_S)
    try:
        _call(ctx, w.fn)
        return 'held', ''
    except StepBudget:
        return 'violated', 'executed more than %d lines of code under test without finishing' % STEP_BUDGET
    except CaseTimeout:
        return 'inconclusive', 'wall watchdog of the step-counted rerun fired after %d lines' % count[0]
    except MemoryError:
        return 'violated', 'exhausted %d bytes of memory' % MEM_LIMIT
    except BaseException as e:
        return 'inconclusive', 'rerun ended differently: %r' % (e,)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


def _worker(mod, jobs, tier, seed, repo, known, deadline):
    stats = _new_stats()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % mod.PROPERTY)
    home = os.getcwd()
    os.chdir(scratch)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    try:
        for w, index in jobs:
            if time.time() > deadline:
                stats['truncated'] = True
                break
            try:
                _run_case(mod, w, index, tier, seed, stats, repo, known)
            except CaseTimeout:      # the timer fired after the case, while its result was being recorded
                pass
            os.chdir(scratch)
            if len(stats['violations']) >= MAX_VIOLATIONS:
                break
    except Exception:
        stats['harness'].append(traceback.format_exc())
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)
    return stats


def _shard(mod, jobs, procs, tier, seed, repo, known, deadline):
    """Interleave the cases over forked workers; every case is deterministic, so the split changes nothing."""
    if procs <= 1 or len(jobs) < 4:
        return [_worker(mod, jobs, tier, seed, repo, known, deadline)]
    kids = []
    for s in range(procs):
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                st = _worker(mod, jobs[s::procs], tier, seed, repo, known, deadline)
                with os.fdopen(wfd, 'wb') as f:
                    pickle.dump(st, f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wfd)
        kids.append((pid, r))
    res = []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            st = _new_stats()
            st['inconclusive'].append('worker %d ended with status %d' % (pid, status))
            res.append(st)
        else:
            res.append(pickle.loads(data))
    return res


def load_known(here, prop):
    with open(os.path.join(here, 'known_findings.json')) as f:
        entries = json.load(f)['findings']
    return {e['mechanism']: e for e in entries if e['property'] == prop and e['status'] == 'open'}


def main(argv, here, repo):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    p.add_argument('--replay')
    p.add_argument('--workload')
    p.add_argument('--index', type=int)
    p.add_argument('--procs', type=int, default=int(os.environ.get('VERIF_PROCS', '8')))
    p.add_argument('--no-evidence', action='store_true')
    a = p.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    wall = 700 if a.tier == 'thorough' else 400
    deadline = t0 + wall
    sys.setrecursionlimit(20000)
    try:
        mod = importlib.import_module('checks.' + a.property)
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s the check could not load the code under test' % a.property)
        return 2
    known = load_known(here, mod.PROPERTY)
    if hasattr(mod, 'setup'):
        mod.setup(repo)

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.workload, a.index, a.seed, a.tier = r['workload'], r['index'], r['seed'], r['tier']
    jobs = []
    for w in mod.WORKLOADS:
        if a.workload and w.name != a.workload:
            continue
        n = w.thorough if a.tier == 'thorough' else w.quick
        idx = range(n) if a.index is None else [a.index]
        jobs += [(w, i) for i in idx]
    jobs.sort(key=lambda j: j[1])     # small indices of every workload first

    stats = _new_stats()
    for st in _shard(mod, jobs, a.procs, a.tier, a.seed, repo, known, deadline):
        _merge(stats, st)

    if a.replay or a.index is not None:
        for v in stats['violations']:
            print(json.dumps(v, indent=1))

    need = {}
    if a.workload is None and not stats['violations']:
        for k, n in mod.MIN_EVENTS.items():
            if stats['events'].get(k, 0) < n:
                need[k] = '%d < %d' % (stats['events'].get(k, 0), n)
        for k in known:
            if k not in stats['known']:
                need['known finding ' + k] = 'not reproduced'
    if not a.no_evidence and a.workload is None and not a.replay:
        _evidence(here, mod, a, stats, time.time() - t0)

    for k, what in sorted(stats['known'].items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (mod.PROPERTY, known[k]['what'], k))
    print('%s tier=%s seed=%d cases=%d distinct=%d events=%s wall=%.1fs slowest=%.2fs(%s)%s' % (
        mod.PROPERTY, a.tier, a.seed, stats['cases'], len(stats['distinct']),
        json.dumps(stats['events'], sort_keys=True), time.time() - t0, stats['max_cpu'][0], stats['max_cpu'][1],
        ' TRUNCATED' if stats['truncated'] else ''))
    if stats['violations']:
        stats['violations'].sort(key=lambda v: v['index'])
        seen = set()
        for v in stats['violations']:
            if v['mechanism'] in seen:
                continue
            seen.add(v['mechanism'])
            d = os.path.join(here, 'out', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s-%d-%d.json' % (v['property'], v['workload'], v['seed'], v['index']))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('  %s: %s' % (v['mechanism'], v['message']))
            for k, x in v['detail'].items():
                print('    %s = %s' % (k, x if k == 'traceback' else _short(x, 300)))
            print('VIOLATION property=%s replay=%s' % (v['property'], path))
        return 1
    if stats['harness']:
        print('ERROR property=%s harness: %s' % (mod.PROPERTY, stats['harness'][0]))
        return 2
    if stats['inconclusive'] or need:
        print('INCONCLUSIVE property=%s %s %s' % (mod.PROPERTY, stats['inconclusive'][:3], need))
        return 2
    print('HELD property=%s on everything observed' % mod.PROPERTY)
    return 0


def _evidence(here, mod, a, stats, wall):
    d = os.path.join(here, 'evidence')
    os.makedirs(d, exist_ok=True)
    samples = []
    per = {}
    for s in sorted(stats['samples'], key=lambda s: (s['workload'], s['index'])):
        per[s['workload']] = per.get(s['workload'], 0) + 1
        if per[s['workload']] <= 2:
            samples.append(s)
    ev = {
        'property': mod.PROPERTY, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': stats['cases'] - stats['skipped'],
            'distinct_nontrivial': len(stats['distinct']),
            'rule': mod.RULE,
            'samples': samples or [{'note': 'no case recorded'}],
            'monitor_events': stats['events'],
            'cases_per_workload': stats['per_workload'],
            'cases_outside_domain': stats['skipped'],
            'stopped_at_deadline': stats['truncated'],
            'slowest_case_cpu_s': round(stats['max_cpu'][0], 3),
            'known_findings_reproduced': sorted(stats['known']),
            'inconclusive': stats['inconclusive'],
        },
        'assumptions': mod.ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(stats['violations']),
    }
    tmp = os.path.join(d, '.%s.tmp' % mod.PROPERTY)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, mod.PROPERTY + '.json'))
