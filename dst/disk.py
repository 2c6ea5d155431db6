"""The simulated machine: a kernel that runs processes in lock step.

Every simulated process is a forked child; each of its threads talks to the
kernel over a socket of its own.  Exactly one thread runs at any time.  Before
every file operation it asks the kernel, which picks the thread that proceeds,
decides about faults, and judges the directory between any two operations.
The kernel also keeps a model of what would survive a loss of power.
"""

import errno
import os
import pickle
import select
import shutil
import signal
import socket
import struct
import sys
import traceback
from . import simos

ERRNOS = {k: getattr(errno, k) for k in
          ('EIO', 'ENOSPC', 'EACCES', 'EDQUOT', 'EROFS', 'EMFILE', 'EBUSY', 'EPERM', 'ENOENT', 'ENOMEM', 'ESTALE')}

# which errors are plausible for which operation
COMPAT = {
    'open-r': ('EACCES', 'EIO', 'EMFILE', 'ESTALE', 'ENOMEM'),
    'open-w': ('EACCES', 'ENOSPC', 'EROFS', 'EDQUOT', 'EMFILE', 'EIO'),
    'write': ('ENOSPC', 'EIO', 'EDQUOT'),
    'read': ('EIO', 'ESTALE'),
    'fsync': ('EIO', 'ENOSPC', 'EDQUOT'),
    'rename': ('EACCES', 'EIO', 'ENOSPC', 'EBUSY', 'EROFS'),
    'link': ('EACCES', 'EIO', 'ENOSPC'),
    'symlink': ('EACCES', 'EIO', 'ENOSPC'),
    'unlink': ('EACCES', 'EPERM', 'EIO', 'EROFS', 'EBUSY'),
    'mkdir': ('EACCES', 'ENOSPC', 'EROFS'),
    'rmdir': ('EACCES',),
    'close-w': ('EIO', 'ENOSPC', 'EDQUOT'),
    'truncate': ('EIO', 'ENOSPC'),
    'list': ('EIO', 'EACCES'),
}
MUTATING = ('open-w', 'write', 'rename', 'link', 'symlink', 'unlink', 'mkdir', 'rmdir', 'truncate',
            'attr', 'mkfifo')
ELIGIBLE = MUTATING + ('open-r', 'read', 'fsync', 'close-w', 'close-r', 'list')


def simos_real_utime(path, times):
    simos._real.get('utime', os.utime)(path, times)


class HarnessError(Exception):
    pass


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__(cls, detail)
        self.cls, self.detail = cls, detail


# ------------------------------------------------------------------ transport

def send(sock, obj):
    data = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack('>I', len(data)) + data)


def _recvn(sock, n):
    buf = bytearray()
    while len(buf) < n:
        chunk = sock.recv(n - len(buf))
        if not chunk:
            raise EOFError
        buf += chunk
    return bytes(buf)


def recv(sock):
    n, = struct.unpack('>I', _recvn(sock, 4))
    return pickle.loads(_recvn(sock, n))


class Chan:
    def __init__(self, sock):
        self.sock = sock

    def request(self, msg):
        send(self.sock, msg)
        try:
            return recv(self.sock)
        except (EOFError, OSError):
            os._exit(137)


# -------------------------------------------------------------- durable model

class Durable:
    """What a loss of power would leave: journalled meta data, unsynced data."""

    def __init__(self, root):
        self.root = root
        self.reset()

    def reset(self):
        self.names, self.dirs, self.links = {}, set(), {}
        self.base = {}
        self.ops = {}
        self.journal = []
        self.committed = 0
        seen = {}
        n = 0
        for dp, dns, fns in os.walk(self.root):
            for d in list(dns):
                p = os.path.join(dp, d)
                if os.path.islink(p):
                    fns.append(d)
                    dns.remove(d)
                else:
                    self.dirs.add(p)
            for f in fns:
                p = os.path.join(dp, f)
                st = os.lstat(p)
                if os.path.islink(p):
                    self.links[p] = os.readlink(p)
                    continue
                if st.st_ino not in seen:
                    n += 1
                    seen[st.st_ino] = n
                    with open(p, 'rb') as fh:
                        self.base[n] = fh.read()
                    self.ops[n] = []
                self.names[p] = seen[st.st_ino]
        self.next = n
        self.names0, self.dirs0, self.links0 = dict(self.names), set(self.dirs), dict(self.links)

    def resolve(self, p, depth=0):
        if p in self.links and depth < 8:
            t = self.links[p]
            t = os.path.normpath(t if t[:1] == '/' else os.path.join(os.path.dirname(p), t))
            return self.resolve(t, depth + 1)
        d, b = os.path.split(p)
        if d and d != p and depth < 8 and d in self.links:
            return self.resolve(os.path.join(self.resolve(d, depth + 1), b), depth + 1)
        return p

    def _meta(self, e):
        self.journal.append(e)
        self._replay(e, self.names, self.dirs, self.links)

    @staticmethod
    def _replay(e, names, dirs, links):
        k = e[0]
        if k == 'create':
            names[e[1]] = e[2]
        elif k == 'rename':
            src, dst = e[1], e[2]
            if src in names:
                links.pop(dst, None)
                names[dst] = names.pop(src)
            elif src in links:
                names.pop(dst, None)
                links[dst] = links.pop(src)
            elif src in dirs:
                for tab in (names, links):
                    for p in [p for p in tab if p.startswith(src + '/')]:
                        tab[dst + p[len(src):]] = tab.pop(p)
                for p in [p for p in dirs if p == src or p.startswith(src + '/')]:
                    dirs.discard(p)
                    dirs.add(dst + p[len(src):])
        elif k == 'unlink':
            names.pop(e[1], None)
            links.pop(e[1], None)
        elif k == 'link':
            if e[1] in names:
                names[e[2]] = names[e[1]]
        elif k == 'symlink':
            links[e[2]] = e[1]
        elif k == 'mkdir':
            dirs.add(e[1])
        elif k == 'rmdir':
            dirs.discard(e[1])

    def apply(self, kind, path, info, part=None):
        if kind == 'open-w':
            p = self.resolve(path)
            if p not in self.names:
                self.next += 1
                self.base[self.next] = b''
                self.ops[self.next] = []
                self._meta(('create', p, self.next))
            elif 'w' in info.get('mode', ''):
                self.ops[self.names[p]].append(('t', 0))
        elif kind == 'write':
            ino = self.names.get(self.resolve(path), None) or info.get('ino')
            if ino:
                data = info['data'] if part is None else info['data'][:part]
                self.ops[ino].append(('w', info.get('pos', 0), data))
        elif kind == 'truncate':
            ino = self.names.get(self.resolve(path))
            if ino:
                self.ops[ino].append(('t', info.get('size', 0)))
        elif kind == 'fsync':
            ino = self.names.get(self.resolve(path))
            if ino:
                self.base[ino] = self.content(ino, len(self.ops[ino]))
                self.ops[ino] = []
            self.committed = len(self.journal)
        elif kind == 'rename':
            self._meta(('rename', info['src'], path))
        elif kind == 'link':
            self._meta(('link', info['src'], path))
        elif kind == 'symlink':
            self._meta(('symlink', info['src'], path))
        elif kind in ('unlink', 'mkdir', 'rmdir'):
            self._meta((kind, path))

    def content(self, ino, nops, torn=1.0):
        data = bytearray(self.base[ino])
        ops = self.ops[ino]
        for i, o in enumerate(ops[:nops]):
            if o[0] == 't':
                if o[1] <= len(data):
                    del data[o[1]:]
                else:
                    data.extend(b'\0' * (o[1] - len(data)))
            else:
                d = o[2]
                if i == nops - 1 and torn < 1.0:
                    d = d[:int(len(d) * torn)]
                if len(data) < o[1]:
                    data.extend(b'\0' * (o[1] - len(data)))
                data[o[1]:o[1] + len(d)] = d
        return bytes(data)

    def lose_power(self, meta, dataf, torn):
        """Rebuilds the directory as it is found after power comes back."""
        cut = self.committed + int(round(meta * (len(self.journal) - self.committed)))
        names, dirs, links = dict(self.names0), set(self.dirs0), dict(self.links0)
        for e in self.journal[:cut]:
            self._replay(e, names, dirs, links)
        contents = {}
        for ino in sorted(set(names.values())):
            n = int(round(dataf * len(self.ops[ino])))
            contents[ino] = self.content(ino, n, torn)
        for entry in os.listdir(self.root):
            p = os.path.join(self.root, entry)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        for d in sorted(dirs):
            os.makedirs(d, exist_ok=True)
        done = {}
        for p in sorted(names):
            ino = names[p]
            if ino in done:
                os.link(done[ino], p)
            else:
                with open(p, 'wb') as f:
                    f.write(contents[ino])
                done[ino] = p
        for p, t in sorted(links.items()):
            os.symlink(t, p)
        self.reset()


# --------------------------------------------------------------------- kernel

class Actor:
    def __init__(self, sock, name, pid=0, main=False):
        self.sock, self.name, self.pid, self.main = sock, name, pid, main
        self.state = 'running'      # running | pending | idle | waiting | done
        self.msg = None
        self.blocked = False
        self.inflight = None
        self.outcome = None
        self.last = 0


class Kernel:
    MAXOPS = 4000

    def __init__(self, root, faults=(), sched=(), stats=None):
        self.root = root
        self.faults = [dict(f) for f in faults]
        self.sched = list(sched)
        self.sched_used = []
        self.stats = stats if stats is not None else {}
        self.log = []
        self.canon = {}
        self.actors = []
        self.current = None
        self.inc = 0
        self.nops = 0
        self.eligible = 0
        self.durable = None
        self.clock = 0
        self.on_step = None         # called after every completed operation
        self.on_op = None           # called before every operation
        self.fired = []             # faults that took effect in this incarnation
        self.injected = []          # (kind of op, path, fault) in this incarnation
        self.crashed = False
        self.sticky = None
        self.services = None
        self.writers = {}           # path -> inode, to follow writes after renames
        self.read_counts = {}
        self.mounts = ()
        self.dirty = set()          # written, but not synced
        self.track = any(f['kind'].startswith('power') for f in self.faults)
        self.interleaving = []

    # ---- logging: never draws random numbers, never reads a real clock
    def name(self, path):
        rel = path[len(self.root) + 1:] if path.startswith(self.root) else path
        base = os.path.basename(rel)
        if path not in self.canon:
            if base.endswith('.tmp') or 'tmp' in base or len(base) > 30:
                self.canon[path] = os.path.join(os.path.dirname(rel), 'tmp#%d' % len(self.canon))
            else:
                self.canon[path] = rel
        return self.canon[path]

    def note(self, *a):
        self.log.append(a)

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    # ---- life cycle of processes
    def start(self, inc):
        """begins an incarnation (one or more processes running at a time)"""
        self.inc = inc
        self.eligible = 0
        self.bykind = {}
        self.fired, self.injected = [], []
        self.crashed = False
        self.sticky = None
        self.actors = []
        self.current = None
        self.nops = 0
        for f in self.faults:
            f.setdefault('done', False)
        if self.track:
            self.durable = Durable(self.root)
        self.unlink_failed = set()

    def spawn(self, name, body, sim, nthreads=0):
        """Forks a process.  body(chan, extra) runs in it, its result is the outcome."""
        ks, cs = socket.socketpair()
        extra = [socket.socketpair() for _ in range(nthreads)]
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                ks.close()
                for a in self.actors:
                    a.sock.close()
                sim.chan = Chan(cs)
                out = child_main(body, sim, [Chan(e[1]) for e in extra])
                send(cs, ('exit', '', {'outcome': out}))
                try:
                    recv(cs)
                except (EOFError, OSError):
                    pass
            except BaseException:
                try:
                    send(cs, ('crash', '', {'trace': traceback.format_exc()}))
                except BaseException:
                    pass
            finally:
                os._exit(0)
        cs.close()
        a = Actor(ks, name, pid, main=True)
        self.actors.append(a)
        threads = []
        for i, (k, c) in enumerate(extra):
            c.close()
            t = Actor(k, '%s.%d' % (name, i), pid)
            threads.append(t)
            self.actors.append(t)
        a.threads = threads
        self.await_message(a)
        for t in threads:
            self.await_message(t)
        return a

    def adopt(self, sock, name, pid):
        a = Actor(sock, name, pid)
        a.threads = []
        self.actors.append(a)
        self.await_message(a)
        return a

    def await_message(self, a):
        """waits until the only running thread reports"""
        r, _, _ = select.select([a.sock], [], [], 120)
        if not r:
            raise HarnessError('no message from %s' % a.name)
        try:
            msg = recv(a.sock)
        except (EOFError, ConnectionError):
            try:
                _, status = os.waitpid(a.pid, 0)
            except ChildProcessError:
                status = 0
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
            if sig == signal.SIGXCPU:
                raise Violation('hang', 'process %s computes for ever' % a.name)
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
                raise Violation('process-died', 'process %s died of signal %d' % (a.name, sig))
            raise HarnessError('process %s vanished (signal %d)' % (a.name, sig))
        self.complete(a)
        kind = msg[0]
        if kind == 'crash':
            raise HarnessError('simulated process %s: %s' % (a.name, msg[2]['trace']))
        if kind == 'exit':
            a.state = 'done'
            a.outcome = msg[2]['outcome']
            try:
                send(a.sock, ('ok',))
            except OSError:
                pass
            self.reap(a.pid)
            self.note(a.name, 'exit', a.outcome.get('exc') or 'ok')
            return
        if kind == 'threadexit':
            a.state = 'done'
            a.outcome = msg[2]['outcome']
            send(a.sock, ('ok',))
            self.note(a.name, 'exit', a.outcome.get('exc') or 'ok')
            return
        if kind == 'next':          # a process that lives on waits for its next job
            a.state = 'idle'
            if msg[2]['outcome'] is not None:
                a.outcome = msg[2]['outcome']
                self.note(a.name, 'returns', a.outcome.get('exc') or 'ok')
            return
        if kind == 'join':          # main thread of a process waits for its threads
            a.state = 'waiting'
            a.msg = msg
            return
        a.state = 'pending'
        a.msg = msg

    def reap(self, pid):
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass

    def complete(self, a):
        """the operation granted last to actor a has taken place"""
        f = a.inflight
        a.inflight = None
        if f is None:
            return
        kind, path, info, part, effective = f
        if effective:
            if self.durable is not None:
                self.durable.apply(kind, path, info, part)
            if kind in ('write', 'truncate'):
                self.dirty.add(path)
            elif kind == 'fsync':
                self.dirty.discard(path)
            elif kind == 'rename' and info['src'] in self.dirty:
                self.dirty.discard(info['src'])
                self.dirty.add(path)
            if self.clock and kind in ('open-w', 'write', 'truncate', 'close-w'):
                # modification times are those of the simulated clock
                self.clock += 0.001
                try:
                    if not os.path.islink(path):
                        simos_real_utime(path, (self.clock, self.clock))
                except OSError:
                    pass
            if kind in MUTATING and self.on_step:
                self.on_step(a, kind, path)

    def run(self):
        """runs until all processes have ended or died"""
        self.pump_services()
        while not self.crashed:
            ready = [a for a in self.actors if a.state == 'pending' and not a.blocked]
            if not ready:
                for a in self.actors:
                    if a.state == 'waiting' and a.msg[0] == 'join' and \
                            all(t.state == 'done' for t in a.threads):
                        a.state = 'running'
                        send(a.sock, ('ok',))
                        self.await_message(a)
                        break
                else:
                    blocked = [a for a in self.actors if a.state == 'pending']
                    if blocked:
                        self.stall = getattr(self, 'stall', 0) + 1
                        if self.stall > 20:
                            raise Violation('deadlock', 'all processes wait for locks: '
                                            + ', '.join(a.name for a in blocked))
                        for a in blocked:
                            a.blocked = False
                        continue
                    if any(a.state in ('waiting',) for a in self.actors):
                        raise Violation('deadlock', 'waiting for tasks that never end: ' + ', '.join(
                            '%s:%s' % (a.name, a.state) for a in self.actors if a.state != 'done'))
                    break
                continue
            a = self.choose(ready)
            self.step(a)
        self.shutdown_idle()

    def choose(self, ready):
        if len(ready) == 1:
            a = ready[0]
        else:
            ready.sort(key=lambda x: x.name)
            v = self.sched.pop(0) if self.sched else 0
            self.sched_used.append(v)
            cur = self.current if self.current in ready else None
            if v == 0 and cur is not None:
                a = cur
            else:
                others = [x for x in ready if x is not cur]
                a = others[(v - 1) % len(others)] if v else others[0]
                self.count('switches')
        self.current = a
        return a

    def step(self, a):
        kind, path, info = a.msg
        self.nops += 1
        if self.on_op:
            self.on_op(self.nops)
        if self.nops > self.MAXOPS:
            raise Violation('livelock', 'more than %d file operations' % self.MAXOPS)
        if kind == 'blocked':
            if getattr(a, 'retry', False):
                a.retry = False
                self.reply(a, ('ok',), None)
            else:               # let it try again once somebody else has moved
                a.retry = a.blocked = True
                self.note(a.name, 'blocked', path)
            return
        if self.services and self.services.handles(kind):
            for x in self.actors:
                x.blocked = False
            self.services.handle(a, kind, info)
            self.pump_services()
            return
        if kind == 'sleep':
            self.reply(a, ('ok',), None)
            return
        self.stall = 0
        k = kind
        if kind == 'open':
            k = 'open-r' if set(info['mode']) <= {'r', 'b', 't'} else 'open-w'
        elif kind == 'close':
            k = 'close-w' if info.get('w') else 'close-r'
        effective = self.precondition(k, path, info)
        for x in self.actors:
            if x is not a:
                x.blocked = False
        self.interleaving.append(a.name[-2:] + k[0])
        reply = ('ok',)
        part = None
        fault = None
        if k in ('rename', 'link') and self.mounts and effective and self.mount(path) != self.mount(info['src']):
            # names on different file systems
            self.note(a.name, k, self.name(path), self.name(info['src']), 'EXDEV')
            self.count('rename across file systems')
            return self.reply(a, ('err', errno.EXDEV), (k, path, info, None, False))
        if k in ELIGIBLE:
            i = self.eligible
            self.eligible += 1
            fault = self.pick_fault(k, path, i)
        if self.sticky and fault is None and k in COMPAT and self.sticky in COMPAT[k]:
            fault = {'kind': 'err', 'errno': self.sticky, 'again': True}
        self.note(a.name, k, self.name(path), len(info['data']) if 'data' in info else
                  (self.name(info['src']) if 'src' in info else ''),
                  (fault['kind'] + ':' + str(fault.get('errno', ''))) if fault else '')
        if fault is not None:
            fk = fault['kind']
            if not fault.get('again'):
                self.fired.append(fault)
            self.count('fault:' + (fk if fk != 'err' else 'err-' + fault['errno'] + '-' + k))
            self.injected.append((k, path, fk))
            if fk in ('kill', 'power'):
                return self.crash(a, fault, before=True)
            if fk in ('killafter', 'powerafter', 'killmid', 'powermid'):
                if fk.endswith('mid') and k == 'write':
                    part = int(len(info['data']) * fault.get('frac', 0.5))
                    reply = ('killpart', part)
                else:
                    reply = ('killafter',)
                send(a.sock, reply)
                self.reap_actor(a)
                if effective and self.durable is not None:
                    self.durable.apply(k, path, info, part)
                return self.crash(a, fault, before=False)
            if fk == 'err':
                if k in ('fsync', 'close-w') and 'drop' in fault and path in self.dirty:
                    # what could not be written back is lost
                    self.count('data lost when written back')
                    try:
                        os.truncate(path, int(os.path.getsize(path) * fault['drop']))
                    except OSError:
                        pass
                    self.dirty.discard(path)
                if k == 'write' and fault.get('frac'):
                    part = int(len(info['data']) * fault['frac'])
                    reply = ('errpart', part, ERRNOS[fault['errno']])
                elif k == 'close-w':
                    reply = ('errafter', ERRNOS[fault['errno']])
                else:
                    reply = ('err', ERRNOS[fault['errno']])
                    effective = False
                    if k == 'unlink':
                        self.unlink_failed.add(path)
            elif fk == 'short':
                if k == 'write':
                    part = max(1, int(len(info['data']) * fault.get('frac', 0.5)))
                    reply = ('short', part)
                else:
                    reply = ('short', max(1, int(fault.get('frac', 0.5) * 2000)))
            elif fk in ('int', 'mem'):
                exc = 'KeyboardInterrupt' if fk == 'int' else 'MemoryError'
                if k == 'unlink':
                    self.unlink_failed.add(path)
                if k.startswith('close'):
                    reply = ('excafter', exc)
                else:
                    reply = ('exc', exc)
                    effective = False
        self.reply(a, reply, (k, path, info, part, effective))

    def reply(self, a, reply, inflight):
        a.inflight = inflight
        a.state = 'running'
        a.msg = None
        send(a.sock, reply)
        self.await_message(a)

    def mount(self, path):
        """the file system a name belongs to"""
        rel = os.path.relpath(os.path.realpath(os.path.dirname(path)), os.path.realpath(self.root))
        best = ''
        for m in self.mounts:
            if (rel + '/').startswith(m + '/') and len(m) > len(best):
                best = m
        return best

    def precondition(self, k, path, info):
        if k == 'open-w':
            if 'x' in info['mode'] and os.path.lexists(path):
                return False
            if info['mode'] in ('r+',) and not os.path.exists(path):
                return False
            return os.path.isdir(os.path.dirname(path))
        if k == 'rename':
            return os.path.lexists(info['src'])
        if k == 'link':
            return os.path.lexists(info['src']) and not os.path.lexists(path)
        if k == 'unlink':
            return os.path.lexists(path) and (os.path.islink(path) or not os.path.isdir(path))
        if k in ('mkdir', 'symlink', 'mkfifo'):
            return not os.path.lexists(path)
        if k == 'rmdir':
            return os.path.isdir(path) and not os.listdir(path)
        return True

    def pick_fault(self, k, path, i):
        n = self.bykind[k] = self.bykind.get(k, -1) + 1
        for f in self.faults:
            if f['inc'] != self.inc or f['done']:
                continue
            if f.get('on'):
                if not k.startswith(f['on']) or n < f['n']:
                    continue
            elif i < f['n']:
                continue
            if f.get('path') and not path.endswith(f['path']):
                continue
            kind = f['kind']
            if kind == 'err':
                if k not in COMPAT or f['errno'] not in COMPAT[k]:
                    continue
            elif kind == 'short':
                if k not in ('write', 'read'):
                    continue
            elif kind in ('killmid', 'powermid'):
                if k != 'write':
                    continue
            elif kind in ('int', 'mem') and k == 'close-r':
                continue
            f['done'] = True
            if f.get('sticky'):
                self.sticky = f['errno']
            return f
        return None

    def reap_actor(self, a):
        # it ends after the operation, at the latest when it asks for the next one
        select.select([a.sock], [], [], 120)
        try:
            os.kill(a.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.reap(a.pid)
        for x in self.actors:
            if x.pid == a.pid:
                x.state = 'done'
                x.outcome = {'killed': True}

    def kill_process(self, pid):
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.reap(pid)

    def crash(self, a, fault, before):
        power = fault['kind'].startswith('power')
        everything = power or fault.get('scope') == 'all'
        # a killed process takes its threads along; a loss of power takes all processes
        for x in self.actors:
            if x.state != 'done' and (everything or x.pid == a.pid):
                self.kill_process(x.pid)
                x.state = 'done'
                x.outcome = {'killed': True}
        if a.outcome is None:
            a.outcome = {'killed': True}
        if power:
            self.durable.lose_power(fault.get('meta', 1.0), fault.get('data', 0.0), fault.get('torn', 1.0))
        self.crashed = self.crashed or everything
        if self.on_step:
            self.on_step(a, 'crash', '')
        if self.services is not None and not everything:
            self.services.process_died(a)
            self.pump_services()

    def pump_services(self):
        if self.services:
            self.services.pump()

    def shutdown_idle(self):
        for a in self.actors:
            if a.state == 'idle' and getattr(a, 'keep', False):
                continue
            if a.state != 'done':
                self.kill_process(a.pid)
                a.state = 'done'
            try:
                a.sock.close()
            except OSError:
                pass

    def abort(self):
        for a in self.actors:
            if a.state != 'done':
                self.kill_process(a.pid)
        for a in self.actors:
            try:
                a.sock.close()
            except OSError:
                pass


def child_main(body, sim, extra):
    import gc
    gc.disable()
    simos.activate(sim)
    out = {}
    try:
        out['ret'] = body(extra)
    except SystemExit as e:
        out['exit'] = e.code
    except BaseException as e:
        out['exc'] = type(e).__name__
        out['msg'] = str(e)[:400]
        if os.environ.get('DST_TRACE'):
            out['trace'] = traceback.format_exc()
    simos.deactivate()
    out['escaped'] = list(sim.escaped)
    return out


def spawn_threads(sim, chans, bodies):
    """In a simulated process: runs bodies in threads, each under kernel control."""
    import threading
    outs = [None] * len(bodies)

    def run(i):
        sim.local.chan = chans[i]
        out = {}
        try:
            chans[i].request(('start', '', {}))
            out['ret'] = bodies[i]()
        except SystemExit as e:
            out['exit'] = e.code
        except BaseException as e:
            out['exc'] = type(e).__name__
            out['msg'] = str(e)[:400]
        outs[i] = out
        chans[i].request(('threadexit', '', {'outcome': out}))
    ts = [_Thread(run, i) for i in range(len(bodies))]
    sim.chan.request(('join', '', {}))
    for t in ts:
        t.join()
    return outs


class _Thread:
    """a bare thread: starting it must not wait for it, as threading.Thread does"""

    def __init__(self, f, i):
        import _thread
        self.lock = _thread.allocate_lock()
        self.lock.acquire()

        def go():
            try:
                f(i)
            finally:
                self.lock.release()
        _thread.start_new_thread(go, ())

    def join(self):
        self.lock.acquire()
