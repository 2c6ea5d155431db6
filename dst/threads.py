"""Deterministic threads: real threads, one of which runs at a time.

Control can pass from one thread to another exactly where the interpreter
itself may switch threads: at the start of a Python function, at a backward
jump and after a call of a C function - and where a thread waits for a lock.
sys.monitoring reports these points in the code under test; the plan says after
how many of them which thread continues.  The same points are used to inject
interrupts.
"""

import _thread
import gc
import os
import sys
import types

from . import simos
from .disk import Violation

MON = sys.monitoring
E = MON.events
TOOL = 3
MASK = E.PY_START | E.PY_RESUME | E.JUMP | E.CALL

EXCS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'RecursionError': RecursionError}
ALLOCATING = {'append', 'extend', 'add', 'update', 'join', 'format', 'copy', 'split', 'replace', 'sub',
              'setdefault', 'insert', 'strip', 'encode', 'union', 'items', 'keys', 'values', 'get_type_hints'}


def code_objects(prefixes):
    """all code objects of functions defined in files below the given prefixes"""
    seen = {}
    todo = []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            todo.append(o.__code__)
    gc_codes = [c for c in todo if c.co_filename.startswith(prefixes)]
    while gc_codes:
        c = gc_codes.pop()
        if c in seen:
            continue
        seen[c] = True
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                gc_codes.append(k)
    return list(seen)


class Stop(BaseException):
    """ends threads after a deadlock"""


class Thread:
    def __init__(self, i, body):
        self.i, self.body = i, body
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.ident = None
        self.state = 'ready'        # ready | blocked | done
        self.out = None
        self.events = 0
        self.interrupts = []
        self.fired = []
        self.stopped = False
        self.may = True             # may be interrupted now


class Scheduler:
    """runs bodies under a schedule [[gap, target], ...]"""

    def __init__(self, codes, stats, max_events=20_000_000, calm=lambda code: False):
        self.codes = codes
        self.calm = calm            # code objects that are not interrupted
        self.stats = stats
        self.log = []
        self.trace = []
        self.events = 0
        self.max_events = max_events
        self.current = None
        self.by_ident = {}
        self.deadlock = False
        self.stalled = 0
        self.clock = 0              # global sequence number of invocations and returns

    # ------------------------------------------------------------- interface
    def run(self, bodies, schedule, interrupts=()):
        """interrupts: [{'t': thread, 'n': event, 'exc': name}]"""
        self.threads = [Thread(i, b) for i, b in enumerate(bodies)]
        self.schedule = [list(x) for x in schedule]
        self.pos = 0
        self.next_switch()
        for x in interrupts:
            self.threads[x['t'] % len(self.threads)].interrupts.append([x['n'], x['exc'], x])
        for t in self.threads:
            t.interrupts.sort(key=lambda x: x[0])
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.install()
        simos.SCHED = self
        try:
            for t in self.threads:
                ready = _thread.allocate_lock()
                ready.acquire()
                _thread.start_new_thread(self.thread_main, (t, ready))
                ready.acquire()
            self.current = self.threads[0]
            self.current.lock.release()
            self.done.acquire()
        finally:
            simos.SCHED = None
            self.uninstall()
        if self.deadlock:
            raise Violation('deadlock', 'threads %s wait for each other' % [t.i for t in self.threads if t.stopped])
        if self.events > self.max_events:
            raise Violation('livelock', 'more than %d steps' % self.max_events)
        return [t.out for t in self.threads]

    def tick(self):
        self.clock += 1
        return self.clock

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def note(self, *a):
        self.log.append(a)

    # --------------------------------------------------------------- threads
    def thread_main(self, t, ready):
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        ready.release()
        t.lock.acquire()
        out = {}
        try:
            out['ret'] = t.body()
        except Stop:
            out['stopped'] = True
        except BaseException as e:
            out['exc'] = type(e).__name__
            out['msg'] = str(e)[:300]
            if os.environ.get('DST_TRACE'):
                import traceback
                out['trace'] = traceback.format_exc()
            e = None
        t.out = out
        t.state = 'done'
        self.stalled = 0
        del self.by_ident[t.ident]
        self.note('end', t.i, out.get('exc') or 'ok')
        nxt = self.pick(t)
        if nxt is None:
            self.done.release()
        else:
            self.go(nxt)

    def go(self, t):
        self.current = t
        t.lock.release()

    def pick(self, cur, target=0):
        """another thread that can go on; threads waiting for a lock may try again"""
        n = len(self.threads)
        order = [self.threads[(cur.i + 1 + k) % n] for k in range(n - 1)]
        order = [x for x in order if x.state != 'done']
        if not order:
            return None
        ready = [x for x in order if x.state == 'ready'] or order
        return ready[target % len(ready)]

    def switch(self, t, target=0):
        nxt = self.pick(t, target)
        if nxt is None:
            return
        self.stats['switches'] = self.stats.get('switches', 0) + 1
        self.current = nxt
        nxt.lock.release()
        t.lock.acquire()
        if t.stopped:
            raise Stop()

    def next_switch(self):
        if self.pos < len(self.schedule):
            self.gap, self.target = self.schedule[self.pos][:2]
            self.pos += 1
        else:
            self.gap = -1

    # ------------------------------------------- called by simulated locks
    def mine(self):
        return _thread.get_ident() in self.by_ident

    def block(self, lock):
        t = self.me()
        t.state = 'blocked'
        self.stats['waited for lock'] = self.stats.get('waited for lock', 0) + 1
        self.stalled += 1
        alive = [x for x in self.threads if x.state != 'done']
        if self.stalled > 4 * len(alive) + 8 or len(alive) == 1:
            self.deadlock = True
            for x in alive:
                x.stopped = True
            raise Stop()
        try:
            self.switch(t)
        finally:
            t.state = 'ready'

    # ------------------------------------------------------ monitored events
    def point(self, code, kind, callee=None):
        t = self.by_ident.get(_thread.get_ident())
        if t is None:
            return
        if t.stopped:
            raise Stop()
        t.events += 1
        self.events += 1
        self.stalled = 0
        if self.events > self.max_events:
            for x in self.threads:
                x.stopped = True
            raise Stop()
        if t.interrupts and t.may and t.events >= t.interrupts[0][0]:
            exc = t.interrupts[0][1]
            if self.may_raise(exc, kind, callee) and not self.calm(code):
                x = t.interrupts.pop(0)
                t.fired.append(x[2])
                self.note('interrupt', t.i, exc, os.path.basename(code.co_filename), code.co_name)
                self.stats['fault:' + exc] = self.stats.get('fault:' + exc, 0) + 1
                raise EXCS[exc]('injected')
        if kind == 'call':
            return
        if self.gap >= 0:
            self.gap -= 1
            if self.gap < 0:
                target = self.target
                self.next_switch()
                self.trace.append((t.i, code.co_name, kind))
                self.switch(t, target)

    def may_raise(self, exc, kind, callee):
        if exc == 'KeyboardInterrupt':
            # not at jumps: the interpreter mistakes the place if a monitoring callback raises there,
            # and skips the exit of 'with' blocks
            return kind in ('start', 'resume', 'ret')
        if exc == 'RecursionError':
            return kind == 'start'
        return kind == 'start' or kind == 'call' and (
            isinstance(callee, type) or getattr(callee, '__name__', '') in ALLOCATING)

    # ------------------------------------------------------------ monitoring
    def install(self):
        MON.use_tool_id(TOOL, 'dst')
        MON.register_callback(TOOL, E.PY_START, lambda code, off: self.point(code, 'start'))
        MON.register_callback(TOOL, E.PY_RESUME, lambda code, off: self.point(code, 'resume'))
        MON.register_callback(TOOL, E.JUMP, lambda code, off, dst: self.point(code, 'jump') if dst < off else None)
        MON.register_callback(TOOL, E.C_RETURN, lambda code, off, f, a: self.point(code, 'ret'))
        MON.register_callback(TOOL, E.C_RAISE, lambda code, off, f, a: None)
        MON.register_callback(TOOL, E.CALL, lambda code, off, f, a: self.point(code, 'call', f))
        for c in self.codes:
            MON.set_local_events(TOOL, c, MASK)

    def uninstall(self):
        for c in self.codes:
            MON.set_local_events(TOOL, c, 0)
        for ev in (E.PY_START, E.PY_RESUME, E.JUMP, E.C_RETURN, E.C_RAISE, E.CALL):
            MON.register_callback(TOOL, ev, None)
        MON.free_tool_id(TOOL)


def schedule(r, nthreads, scale, switches):
    """random schedule: mixed gap lengths, now and then bursts of short ones"""
    out = []
    burst = 0
    for _ in range(switches):
        if burst > 0:
            burst -= 1
            gap = r.choice([0, 0, 1, 1, 2, 3, 5])
        else:
            gap = int(2 ** r.uniform(0, max(1.0, scale)))
            if r.random() < .2:
                burst = r.randint(1, 12)
        out.append([gap, r.randrange(max(1, nthreads - 1))])
    return out


def shrink_schedule(s):
    n = len(s)
    for k in (n // 2, n - 1):
        if 0 < k < n:
            yield s[:k]
    for i in range(n):
        yield s[:i] + s[i + 1:]
    for i in range(n - 1):     # merge two neighbours
        yield s[:i] + [[s[i][0] + s[i + 1][0] + 1, s[i + 1][1]]] + s[i + 2:]
