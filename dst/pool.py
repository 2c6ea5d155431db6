"""Simulated executors: worker processes and threads under control of the kernel.

In a simulated process `concurrent.futures.ProcessPoolExecutor` and
`ThreadPoolExecutor` are replaced by these.  Worker processes are forked from the
simulated process when the first task is submitted, as the real executor does it
on Linux, and are used again for task after task.  The kernel decides which
worker gets a task and when each of them moves on; a dead worker breaks the pool
in the way the real executor does.
"""

import concurrent.futures as cf
import concurrent.futures._base as cfb
import os
import pickle
import socket

from . import disk, simos
from .disk import Chan, HarnessError, _Thread, send

SETTINGS = {'n': 2}


class Service:
    """the part inside the kernel"""

    def __init__(self, kernel):
        self.k = kernel
        self.pools = {}
        self.tasks = {}
        self.order = []             # tasks in the order in which they ended
        self.waiting = []
        self.assigned = 0

    def handles(self, kind):
        return kind.startswith('pool-')

    # ------------------------------------------------------------- requests
    def handle(self, a, kind, info):
        getattr(self, kind[5:])(a, info)

    def start(self, a, info):
        msg, fds, _, _ = socket.recv_fds(a.sock, 1, info['n'])
        if len(fds) != info['n']:
            raise HarnessError('lost file descriptors')
        key = info['pool']
        p = self.pools[key] = {'main': a, 'workers': [], 'queue': [], 'running': {}, 'idle': [], 'broken': False,
                               'down': False, 'threads': info['threads'], 'left': None}
        for i, fd in enumerate(fds):
            w = self.k.adopt(socket.socket(fileno=fd), '%s.%s%d' % (a.name, 't' if info['threads'] else 'w', i),
                             info['pids'][i])
            w.pool = key
            p['workers'].append(w)
        self.k.count('workers started', len(fds))
        self.k.reply(a, ('ok',), None)

    def submit(self, a, info):
        p = self.pools[info['pool']]
        if p['broken']:
            return self.k.reply(a, ('broken',), None)
        self.tasks[info['id']] = {'state': 'queued', 'pool': info['pool'], 'payload': info.get('payload'),
                                  'result': None}
        p['queue'].append(info['id'])
        self.k.reply(a, ('ok',), None)

    def next(self, w, info):
        p = self.pools[w.pool]
        if p['broken'] or (p['down'] and not p['queue']) or p['left'] == 0:
            return self.k.reply(w, ('end',), None)
        w.state = 'idle'
        w.msg = None
        p['idle'].append(w)

    def done(self, w, info):
        p = self.pools[w.pool]
        t = self.tasks[info['id']]
        p['running'].pop(w, None)
        if t['state'] == 'running':
            t['state'], t['result'] = 'done', info.get('payload')
            self.order.append(info['id'])
        self.k.reply(w, ('ok',), None)

    def wait(self, a, info):
        a.state = 'waiting'
        self.waiting.append((a, info))

    def cancel(self, a, info):
        t = self.tasks[info['id']]
        p = self.pools[t['pool']]
        if t['state'] == 'queued':
            p['queue'].remove(info['id'])
            t['state'] = 'cancelled'
            self.order.append(info['id'])
        self.k.reply(a, ('state', t['state']), None)

    def poll(self, a, info):
        self.k.current = None       # do not let a polling process have its way for ever
        self.k.reply(a, ('state', self.tasks[info['id']]['state']), None)

    def shutdown(self, a, info):
        p = self.pools[info['pool']]
        p['down'] = True
        if info['cancel']:
            for i in p['queue']:
                self.tasks[i]['state'] = 'cancelled'
                self.order.append(i)
            p['queue'] = []
        if info['wait']:
            a.state = 'waiting'
            self.waiting.append((a, {'pool': info['pool']}))
        else:
            self.k.reply(a, ('ok',), None)

    # ------------------------------------------------------------ progress
    def pump(self):
        moved = True
        while moved:
            moved = False
            for p in self.pools.values():
                while p['queue'] and p['idle'] and p['left'] != 0:
                    p['idle'].sort(key=lambda w: w.name)
                    v = self.k.sched.pop(0) if self.k.sched and len(p['idle']) > 1 else 0
                    w = p['idle'].pop(v % len(p['idle']))
                    i = p['queue'].pop(0)
                    t = self.tasks[i]
                    t['state'] = 'running'
                    p['running'][w] = i
                    if p['left'] is not None:
                        p['left'] -= 1
                    self.k.note(w.name, 'task', i)
                    self.k.interleaving.append('%s:%d' % (w.name[-2:], i))
                    self.k.reply(w, ('job', i, t['payload']), None)
                    moved = True
                if p['idle'] and (p['broken'] or p['left'] == 0 or p['down'] and not p['queue']):
                    w = p['idle'].pop()
                    self.k.reply(w, ('end',), None)
                    moved = True
            for x in list(self.waiting):
                a, info = x
                if a.state == 'done':
                    self.waiting.remove(x)
                    continue
                if 'pool' in info:
                    p = self.pools[info['pool']]
                    if all(w.state == 'done' for w in p['workers']):
                        self.waiting.remove(x)
                        self.k.reply(a, ('ok',), None)
                        moved = True
                    continue
                over = [i for i in self.order if i in info['ids']]
                if len(over) >= (1 if info['any'] else len(info['ids'])):
                    self.waiting.remove(x)
                    self.k.reply(a, ('tasks', [(i, self.tasks[i]['state'], self.tasks[i]['result']) for i in over]),
                                 None)
                    moved = True

    def process_died(self, a):
        for p in self.pools.values():
            if p['main'].state == 'done' and p['left'] is None and not p['threads']:
                # orphaned workers go on with the tasks that have been handed to them already
                p['left'] = min(len(p['queue']), len(p['workers']) + 1)
            if a in p['workers'] and not p['threads'] and not p['broken']:
                p['broken'] = True
                for i in list(p['running'].values()) + p['queue']:
                    self.tasks[i]['state'] = 'broken'
                    self.order.append(i)
                p['queue'], p['running'], p['idle'] = [], {}, []
                for w in p['workers']:          # the executor terminates the others
                    if w.state != 'done':
                        self.k.kill_process(w.pid)
                        w.state = 'done'
                        w.outcome = {'killed': True}
                self.k.count('broken pools')


# ------------------------------------------------------- inside the processes

_counter = [0]


class SimFuture(cfb.Future):
    def __init__(self, pool, ident):
        super().__init__()
        self.pool, self.ident = pool, ident

    def settle(self, state, result):
        if self._state in ('FINISHED', 'CANCELLED_AND_NOTIFIED', 'CANCELLED'):
            return
        if state == 'cancelled':
            super().cancel()
        elif state == 'broken':
            from concurrent.futures.process import BrokenProcessPool
            self.set_exception(BrokenProcessPool('A process in the process pool was terminated abruptly while the '
                                                 'future was running or pending.'))
        else:
            ok, value = pickle.loads(result) if not self.pool.threads else self.pool.results.pop(self.ident)
            if ok:
                self.set_result(value)
            else:
                self.set_exception(value)

    def _await(self):
        if self._state == 'PENDING':
            settle([self], False)

    def result(self, timeout=None):
        self._await()
        return super().result(0)

    def exception(self, timeout=None):
        self._await()
        return super().exception(0)

    def done(self):
        if self._state == 'PENDING':
            r = simos.SIM.channel().request(('pool-poll', '', {'id': self.ident}))
            if r[1] not in ('queued', 'running'):
                settle([self], False)
        return super().done()

    def running(self):
        return not self.done()

    def cancel(self):
        if self._state != 'PENDING':
            return super().cancel()
        r = simos.SIM.channel().request(('pool-cancel', '', {'id': self.ident}))
        if r[1] == 'cancelled':
            return super().cancel()
        return False


def settle(futures, any_):
    """waits until all or at least one of the futures are over; returns them in the order they ended"""
    todo = {f.ident: f for f in futures if f._state == 'PENDING'}
    over = [f for f in futures if f._state != 'PENDING']
    if todo and not (any_ and over):
        r = simos.SIM.channel().request(('pool-wait', '', {'ids': sorted(todo), 'any': any_}))
        for i, state, result in r[1]:
            todo[i].settle(state, result)
            over.append(todo[i])
    return over


class SimExecutor(cf.Executor):
    threads = False

    def __init__(self, max_workers=None, *args, **kwargs):
        if max_workers is not None and max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        self.n = min(SETTINGS['n'], max_workers or SETTINGS['n'])
        _counter[0] += 1
        self.ident = _counter[0]
        self.init = kwargs.get('initializer'), kwargs.get('initargs', ())
        self.started = self.down = False
        self.jobs, self.results, self.futures = {}, {}, []

    def launch(self):
        sim = simos.SIM
        kept, pids = [], []
        for i in range(self.n):
            k, c = socket.socketpair()
            if self.threads:
                pids.append(0)
                _Thread(lambda i, c=c: self.work(sim, Chan(c), i), i)
            else:
                pid = os.fork()
                if pid == 0:
                    try:
                        k.close()
                        for x in kept:
                            x.close()
                        sim.channel().sock.close()
                        sim.chan = Chan(c)
                        sim.local.chan = None
                        sim.pid += i + 1
                        sim.rnd += 7919 * (i + 1)
                        sim.escaped[:] = []
                        simos.activate(sim)
                        self.work(sim, sim.chan, i)
                    finally:
                        os._exit(0)
                pids.append(pid)
                c.close()
            kept.append(k)
        chan = sim.channel()
        send(chan.sock, ('pool-start', '', {'pool': self.ident, 'n': self.n, 'threads': self.threads,
                                            'pids': [p or simos._real['getpid']() for p in pids]}))
        socket.send_fds(chan.sock, [b'x'], [k.fileno() for k in kept])
        disk.recv(chan.sock)
        for k in kept:
            k.close()
        self.started = True

    def work(self, sim, chan, i):
        if self.threads:
            sim.local.chan = chan
        out = {}
        try:
            if self.init[0]:
                self.init[0](*self.init[1])
            while True:
                r = chan.request(('pool-next', '', {}))
                if r[0] == 'end':
                    break
                ident, payload = r[1], r[2]
                fn, args, kw = self.jobs.pop(ident) if self.threads else pickle.loads(payload)
                try:
                    res = (True, fn(*args, **kw))
                except BaseException as e:
                    e.__traceback__ = None
                    res = (False, e)
                del fn, args, kw
                data = None
                if self.threads:
                    self.results[ident] = res
                else:
                    try:
                        data = pickle.dumps(res)
                        pickle.loads(data)
                    except BaseException as e:
                        data = pickle.dumps((False, RuntimeError('cannot be sent: %s: %s' % (type(e).__name__, e))))
                chan.request(('pool-done', '', {'id': ident, 'payload': data}))
        except BaseException as e:
            out = {'exc': type(e).__name__, 'msg': str(e)[:400]}
        out['escaped'] = list(sim.escaped) if not self.threads else []
        chan.request(('threadexit', '', {'outcome': out}))

    def submit(self, fn, /, *args, **kwargs):
        if self.down:
            raise RuntimeError('cannot schedule new futures after shutdown')
        if not self.started:
            self.launch()
        _counter[0] += 1
        ident = _counter[0]
        f = SimFuture(self, ident)
        payload = None
        if self.threads:
            self.jobs[ident] = fn, args, kwargs
        else:
            try:
                payload = pickle.dumps((fn, args, kwargs))
            except BaseException as e:
                f.set_exception(e)
                return f
        r = simos.SIM.channel().request(('pool-submit', '', {'pool': self.ident, 'id': ident, 'payload': payload}))
        if r[0] == 'broken':
            from concurrent.futures.process import BrokenProcessPool
            raise BrokenProcessPool('A child process terminated abruptly, the process pool is not usable anymore')
        self.futures.append(f)
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self.down and not wait:
            return
        self.down = True
        if self.started:
            simos.SIM.channel().request(('pool-shutdown', '', {'pool': self.ident, 'wait': wait,
                                                               'cancel': cancel_futures}))
            if wait:
                settle(self.futures, False)


class SimProcessPool(SimExecutor):
    pass


class SimThreadPool(SimExecutor):
    threads = True


class LazyFuture(cfb.Future):
    def __init__(self, job):
        super().__init__()
        self.job = job

    def perform(self):
        job, self.job = self.job, None
        if job:
            try:
                self.set_result(job[0](*job[1], **job[2]))
            except BaseException as e:
                self.set_exception(e)

    def result(self, timeout=None):
        self.perform()
        return super().result(timeout)

    def exception(self, timeout=None):
        self.perform()
        return super().exception(timeout)

    def done(self):
        self.perform()
        return True


def sim_as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    if not all(isinstance(f, SimFuture) for f in fs):
        yield from _as_completed(fs, timeout)
        return
    while fs:
        for f in settle(fs, True):
            fs.remove(f)
            yield f


def sim_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(dict.fromkeys(fs))
    if not all(isinstance(f, SimFuture) for f in fs):
        return _wait(fs, timeout, return_when)
    done = []
    while fs:
        over = settle(fs, return_when != cf.ALL_COMPLETED)
        done += over
        fs = [f for f in fs if f not in over]
        if return_when == cf.FIRST_COMPLETED or return_when == cf.FIRST_EXCEPTION and \
                any(not f.cancelled() and f.exception() for f in over):
            break
    return cfb.DoneAndNotDoneFutures(set(done), set(fs))


_as_completed, _wait = cf.as_completed, cf.wait


def install(n):
    """in a simulated process"""
    import concurrent.futures.process as cfp
    import concurrent.futures.thread as cft
    SETTINGS['n'] = n
    cf.ProcessPoolExecutor = cfp.ProcessPoolExecutor = SimProcessPool
    cf.ThreadPoolExecutor = cft.ThreadPoolExecutor = SimThreadPool
    cf.as_completed, cf.wait = sim_as_completed, sim_wait
