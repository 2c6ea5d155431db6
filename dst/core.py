"""Search, reporting, minimisation and replay.

A property module offers `PROPS`, a dict of Prop objects.  A run is completely
described by its plan (JSON), which `gen(rng, tier, index)` derives from the
seed.  Executing a plan twice gives the same log.  Every run is executed in a
forked process of its own, so that runs cannot influence each other.
"""

import gc
import hashlib
import json
import os
import random
import resource
import select
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time as _t
import traceback

from . import disk, simos
from .disk import HarnessError, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 90
WALL_LIMIT = 240
now = _t.monotonic        # bound before simos.install() replaces it


class Prop:
    id = ''
    rule = ''
    real = ()
    stub = ()
    assumptions = ()
    fault_free_share = ''
    # tier: (number of runs, soft limit in seconds)
    budget = {'quick': (300, 40), 'thorough': (20000, 780)}
    cpu_limit = CPU_LIMIT
    wall_limit = WALL_LIMIT

    def setup(self):
        """imports what the runs need; called once before workers are forked"""

    def prefork(self):
        """called in each worker once"""

    def gen(self, rng, tier, index):
        raise NotImplementedError

    def execute(self, plan, stats):
        """-> dict(violation, log, probes, inter, simtime, ops, nontrivial)"""
        raise NotImplementedError

    def shrink(self, plan):
        """yields simpler plans"""
        return ()

    def sample(self, plan):
        return plan


def rng_for(prop, seed, index):
    h = hashlib.sha256(('%s/%d/%d' % (prop, seed, index)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'little'))


def digest(obj):
    return hashlib.sha256(repr(obj).encode('utf-8', 'surrogatepass')).hexdigest()[:20]


# ---------------------------------------------------------------- single runs

def run_plan(prop, plan):
    """executes a plan in this process and digests the result"""
    stats = {}
    try:
        r = prop.execute(plan, stats)
    except Violation as e:        # raised outside of what the property itself guards
        r = {'violation': {'class': e.cls, 'detail': str(e.detail)}, 'log': [('violation', e.cls)]}
    log = r.pop('log', [])
    if os.environ.get('DST_LOG'):
        r['fulllog'] = [repr(x) for x in log]
    r['digest'] = digest((log, r.get('violation') and r['violation']['class']))
    r['stats'] = stats
    return r


def forked(f, cpu, wall):
    """runs f() in a forked process; returns its result or a description of its end"""
    a, b = socket.socketpair()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            a.close()
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            except (ValueError, OSError):
                pass
            gc.disable()
            try:
                out = f()
            except BaseException:
                out = {'error': traceback.format_exc()}
            simos.SIM = None
            disk.send(b, out)
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode())
            except BaseException:
                pass
        finally:
            os._exit(0)
    b.close()
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    out = None
    end = now() + wall
    try:
        while out is None:
            r, _, _ = select.select([a], [], [], max(0.0, end - now()))
            if not r:
                out = {'ended': 'wall'}
                break
            try:
                out = disk.recv(a)
            except (EOFError, OSError):
                out = {'ended': 'eof'}
    finally:
        a.close()
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    if out.get('ended') == 'eof':
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        out = {'ended': 'cpu' if sig == signal.SIGXCPU else 'signal %d' % sig}
    return out


def guarded(prop, plan):
    out = forked(lambda: run_plan(prop, plan), prop.cpu_limit, prop.wall_limit)
    if 'ended' in out:
        # the simulated code loops for ever or blocks outside of the simulator's control:
        # believed only if it happens again
        again = forked(lambda: run_plan(prop, plan), prop.cpu_limit, prop.wall_limit)
        if 'ended' not in again:
            again['note'] = 'first attempt ended by ' + out['ended']
            return again
        cls = 'hang' if again['ended'] in ('cpu', 'wall') else 'process-died'
        return {'violation': {'class': cls, 'detail': 'the run did not end by itself (%s)' % again['ended']},
                'digest': cls, 'stats': {}}
    return out


# -------------------------------------------------------------------- workers

class Pool:
    def __init__(self, prop, seed, tier, jobs):
        self.workers = []
        self.prop = prop
        for i in range(jobs):
            a, b = socket.socketpair()
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    for s, _ in self.workers:
                        s.close()
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    worker(prop, seed, tier, b)
                except (EOFError, OSError):
                    pass
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            b.close()
            self.workers.append((a, pid))

    def map(self, tasks, deadline=None, stop=lambda r: False):
        """yields (task, result) as they come in; no new tasks after the deadline or a stop"""
        tasks = iter(tasks)
        busy = {}
        idle = [s for s, _ in self.workers]
        going = True
        while True:
            while idle and going:
                if deadline is not None and now() > deadline:
                    going = False
                    break
                t = next(tasks, None)
                if t is None:
                    going = False
                    break
                s = idle.pop()
                disk.send(s, t)
                busy[s] = t
            if not busy:
                return
            r, _, _ = select.select(list(busy), [], [], 1500)
            if not r:
                raise HarnessError('workers do not answer')
            for s in r:
                try:
                    res = disk.recv(s)
                except (EOFError, OSError):
                    raise HarnessError('a worker died')
                t = busy.pop(s)
                idle.append(s)
                if stop(res):
                    going = False
                yield t, res

    def close(self):
        for s, pid in self.workers:
            s.close()
        for s, pid in self.workers:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass


def worker(prop, seed, tier, sock):
    prop.prefork()
    while True:
        task = disk.recv(sock)
        try:
            if task[0] == 'run':
                plan = prop.gen(rng_for(prop.id, seed, task[1]), tier, task[1])
                plan = json.loads(json.dumps(plan))
                out = guarded(prop, plan)
                if out.get('violation') or out.get('error') or task[1] < 3:
                    out['plan'] = plan
            else:
                out = guarded(prop, task[1])
        except HarnessError as e:
            out = {'error': str(e)}
        except Exception:
            out = {'error': traceback.format_exc()}
        disk.send(sock, out)


# -------------------------------------------------------------------- shrinking

def minimise(prop, plan, cls, pool, budget):
    end = now() + budget
    tried = 0
    seen = set()
    progress = True
    while progress and now() < end:
        progress = False
        cands = []
        gen = iter(prop.shrink(plan))
        while now() < end:
            batch = []
            for c in gen:
                key = json.dumps(c, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                batch.append(c)
                if len(batch) >= len(pool.workers):
                    break
            if not batch:
                break
            ok = {}
            for t, r in pool.map([('plan', c, i) for i, c in enumerate(batch)]):
                tried += 1
                v = r.get('violation')
                ok[t[2]] = bool(v and v['class'] == cls)
            for i, c in enumerate(batch):
                if ok.get(i):
                    plan = c
                    progress = True
                    break
            if progress:
                break
    return plan, tried


# generic shrinking helpers used by property modules

def drop_items(seq):
    """ever smaller chunks removed"""
    n = len(seq)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            if n - min(size, n - i) >= 0:
                yield seq[:i] + seq[i + size:]
        size //= 2


def with_key(d, k, v):
    d = dict(d)
    d[k] = v
    return d


def brief(x):
    """long texts cut short"""
    if isinstance(x, str) and len(x) > 1500:
        return x[:700] + ' [... %d characters ...] ' % (len(x) - 1400) + x[-700:]
    if isinstance(x, dict):
        return {k: brief(v) for k, v in x.items()}
    if isinstance(x, list):
        return [brief(v) for v in x]
    return x


def replace_at(seq, i, v):
    return seq[:i] + [v] + seq[i + 1:]


# ------------------------------------------------------------------ evidence

def known_findings(prop_id):
    out = []
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt'), encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop_id):
                    # finding: property=<id> class=<cls> match=<text> :: <what fails>
                    head, _, what = line.partition(' :: ')
                    fields = dict(x.split('=', 1) for x in head.split(' ')[1:] if '=' in x)
                    out.append((fields.get('class', ''), fields.get('match', ''), what))
    except FileNotFoundError:
        pass
    return out


def is_known(v, known):
    for cls, match, what in known:
        if v['class'] == cls and match and match in v['detail']:
            return what
    return None


def merge(total, part):
    for k, v in (part or {}).items():
        total[k] = total.get(k, 0) + v


def check(prop, tier, seed, jobs=None, runs=None, quiet=False):
    """Runs the search; returns exit status"""
    t0 = now()
    nruns, soft = prop.budget[tier]
    if runs:
        nruns = runs
    jobs = jobs or len(os.sched_getaffinity(0))
    print('property=%s tier=%s seed=%d runs=%d jobs=%d' % (prop.id, tier, seed, nruns, jobs), flush=True)
    prop.setup()
    gc.collect()
    gc.freeze()
    pool = Pool(prop, seed, tier, jobs)
    known = known_findings(prop.id)
    results = {}
    notes = {}
    try:
        for t, r in pool.map((('run', i) for i in range(nruns)), deadline=t0 + soft,
                             stop=lambda r: bool(r.get('violation') and not is_known(r['violation'], known))):
            results[t[1]] = r
        search_s = now() - t0
        if os.environ.get('DST_DIGESTS'):       # for bin/selftest
            with open(os.environ['DST_DIGESTS'], 'w') as f:
                json.dump({str(i): r.get('digest') for i, r in results.items()}, f)
        errors = {i: r['error'] for i, r in results.items() if r.get('error')}
        bad = {i: r for i, r in results.items() if r.get('violation')}
        hits = {i: is_known(r['violation'], known) for i, r in bad.items()}
        new = {i: r for i, r in bad.items() if not hits[i]}
        reported = None
        for i in sorted(new)[:4]:
            reported = report(prop, seed, i, new[i], pool, notes)
            if reported:
                break
        # determinism: some of the runs once more
        again, differ = 0, []
        if not new:
            good = sorted(i for i, r in results.items() if not r.get('error'))
            pick = good[::max(1, len(good) // (6 if tier == 'quick' else 60))]
            for t, r in pool.map([('run', i) for i in pick]):
                again += 1
                if r.get('digest') != results[t[1]].get('digest'):
                    differ.append(t[1])
    finally:
        pool.close()
    wall = now() - t0
    write_evidence(prop, tier, seed, results, wall, search_s, again, differ, new, errors, notes, jobs)
    for what in sorted({h for h in hits.values() if h}):
        print('KNOWN-FINDING: property=%s %s' % (prop.id, what))
    print('%d runs in %.1f s (%.0f per hour), %d violating, %d errors of the harness%s' % (
        len(results), search_s, len(results) / max(search_s, .001) * 3600, len(new), len(errors),
        '' if not differ else ', NOT REPEATABLE: runs %s' % differ))
    if reported:
        print('VIOLATION property=%s replay=%s' % (prop.id, reported))
        return 1
    if new:
        print('a violation was found, but replaying it in a fresh process did not reproduce it')
        print(json.dumps(next(iter(new.values()))['violation']))
        return 2
    if errors:
        i = sorted(errors)[0]
        print('harness error in run %d:\n%s' % (i, errors[i]))
        return 2
    if not results:
        print('no runs')
        return 2
    return 0


def report(prop, seed, index, res, pool, notes):
    plan, v = res['plan'], res['violation']
    print('run %d violates %s: %s: %s' % (index, prop.id, v['class'], v['detail'][:600]), flush=True)
    budget = 60 if v['class'] not in ('hang', 'process-died') else 0
    small, tried = minimise(prop, plan, v['class'], pool, budget)
    notes['shrink_executions'] = tried
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    for p in (small, plan):
        final = guarded(prop, p)
        if not final.get('violation') or final['violation']['class'] != v['class']:
            continue
        path = os.path.join(d, '%s-seed%d-run%d.json' % (prop.id, seed, index))
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'property': prop.id, 'seed': seed, 'run': index, 'violation': final['violation'],
                       'digest': final['digest'], 'plan': p}, f, indent=1, ensure_ascii=False)
            f.write('\n')
        env = dict(os.environ)
        env.pop('DST_BASE', None)
        r = subprocess.run([os.path.join(VERIF, 'bin', 'replay'), path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=env, timeout=600)
        if r.returncode == 1:
            print('minimised: %s: %s' % (final['violation']['class'], final['violation']['detail'][:1500]))
            notes['replay'] = path
            notes['replay_exact'] = b'same log: yes' in r.stdout
            return path
        notes['replay_output'] = r.stdout.decode('utf-8', 'replace')[-2000:]
    return None


def replay(prop, path):
    with open(path, encoding='utf-8') as f:
        rec = json.load(f)
    prop.setup()
    os.environ['DST_LOG'] = '1'
    out = guarded(prop, rec['plan'])
    if out.get('error'):
        print(out['error'])
        return 2
    for line in out.get('fulllog', [])[-400:]:
        print('   ', line[:400])
    v = out.get('violation')
    if not v:
        print('no violation: the property holds in this run')
        return 0
    print('%s: %s' % (v['class'], v['detail']))
    print('recorded: %s' % rec['violation']['class'])
    print('same log: %s' % ('yes' if out['digest'] == rec['digest'] else 'no'))
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1 if v['class'] == rec['violation']['class'] else 3


def write_evidence(prop, tier, seed, results, wall, search_s, again, differ, new, errors, notes, jobs):
    stats, probes = {}, {}
    inter = set()
    nontrivial = set()
    simtime = 0.0
    ops = 0
    for r in results.values():
        merge(stats, r.get('stats'))
        merge(probes, r.get('probes'))
        inter.update(r.get('inter') or ())
        simtime += r.get('simtime') or 0
        ops += r.get('ops') or 0
        if r.get('nontrivial'):
            nontrivial.add(r['digest'])
    samples = [brief(prop.sample(results[i]['plan'])) for i in sorted(results)[:3] if 'plan' in results[i]]
    n = len(results)
    cov = {
        'evaluations': n,
        'distinct_nontrivial': len(nontrivial),
        'rule': prop.rule,
        'samples': samples[:2],
        'simulated_runs_per_hour': round(n / max(search_s, .001) * 3600),
        'seeds_per_hour': round(n / max(search_s, .001) * 3600),
        'one_seed': 'each run has a seed of its own, derived from (property, VERIF_SEED, index of the run)',
        'simulated_seconds': round(simtime, 1),
        'scheduled_steps': ops,
        'faults_injected': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
        'other_counts': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault:')},
        'rare_conditions_hit': dict(sorted(probes.items())),
        'distinct_interleavings': len(inter),
        'interleaving_measure': prop.measure,
        'components_real': list(prop.real),
        'components_stub': list(prop.stub),
        'rerun_for_determinism': again,
        'rerun_differing': differ,
        'harness_errors': len(errors),
        'jobs': jobs,
        'log_digest': digest([(i, results[i].get('digest')) for i in sorted(results)]),
    }
    cov.update(notes)
    ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': list(prop.assumptions), 'wall_s': round(wall, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')


Prop.measure = 'distinct sequences of (process or thread, operation) as scheduled'
MODULES = {}


def find(prop_id):
    import importlib
    name = MODULE_OF.get(prop_id)
    if name is None:
        raise SystemExit('unknown property %s' % prop_id)
    return importlib.import_module('dst.props.' + name).PROPS[prop_id]


MODULE_OF = {}
for _ids, _m in (('C01 C02 C03 C04 C05 C06 C07', 'files'), ('C08 C09', 'batch'), ('C10 C11 C19', 'translate'),
                 ('C12', 'environment'), ('C13 C14 C15', 'validate'), ('C16 C17', 'dispatch'), ('C18', 'extract')):
    for _i in _ids.split():
        MODULE_OF[_i] = _m


def main(argv):
    what, arg = argv[1], argv[2]
    opts = dict(a[2:].split('=', 1) for a in argv[3:] if a.startswith('--') and '=' in a)
    if what == 'replay':
        with open(arg, encoding='utf-8') as f:
            pid = json.load(f)['property']
    else:
        pid = arg
    simos.install()
    scratch = tempfile.mkdtemp(prefix='dst_', dir=scratch_base())
    os.environ['DST_SCRATCH'] = scratch
    from . import target
    status = 2
    try:
        os.chdir('/')
        prop = find(pid)
        if what == 'trace':         # log of one run, for looking into it
            seed = int(opts.get('seed') or os.environ.get('VERIF_SEED') or 1)
            prop.setup()
            plan = json.loads(json.dumps(prop.gen(rng_for(prop.id, seed, int(opts['run'])),
                                                  opts.get('tier', 'quick'), int(opts['run']))))
            print(json.dumps(plan, indent=1, ensure_ascii=False))
            os.environ['DST_LOG'] = '1'
            out = guarded(prop, plan)
            for line in out.pop('fulllog', []):
                print(line)
            print(json.dumps(out, indent=1, default=str, ensure_ascii=False))
            status = 0
        elif what == 'replay':
            status = replay(prop, os.path.abspath(arg))
        else:
            tier = opts.get('tier') or os.environ.get('VERIF_TIER') or 'quick'
            seed = int(opts.get('seed') or os.environ.get('VERIF_SEED') or 1)
            status = check(prop, tier if tier in prop.budget else 'quick', seed,
                           jobs=int(opts['jobs']) if 'jobs' in opts else None,
                           runs=int(opts['runs']) if 'runs' in opts else None)
    except HarnessError as e:
        print('harness error: %s' % e)
    except Exception:
        traceback.print_exc(file=sys.stdout)
    finally:
        target.cleanup()
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(status)


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()
