"""C16, C17: the single-dispatch shim under threads, histories of registrations and interrupts."""

import abc
import collections.abc
import functools
import gc
import itertools
import os
import sys
import types
import typing
import weakref

from .. import core, disk, simos, target, threads
from ..core import drop_items, replace_at, with_key
from ..disk import Violation

REAL = ['ts2python/singledispatch_shim.py', 'functools, typing, abc, weakref', 'real threads']
STUB = ['thread scheduling (which thread runs between any two points at which the interpreter may switch)',
        'locks (waiting goes through the scheduler)', 'delivery of interrupts']

BUILTIN = {'int': int, 'str': str, 'bool': bool, 'list': list, 'dict': dict, 'float': float, 'object': object,
           'Sized': collections.abc.Sized, 'Iterable': collections.abc.Iterable,
           'Mapping': collections.abc.Mapping, 'Sequence': collections.abc.Sequence,
           'Hashable': collections.abc.Hashable}
VALUES = {'int': 3, 'str': 'x', 'bool': True, 'list': [1], 'dict': {1: 2}, 'float': 1.5, 'object': object()}


# ------------------------------------------------------------ classes of a run

def universe(specs, vregs=()):
    """creates the classes of a plan; vregs: pairs (abstract class, subclass)"""
    out = dict(BUILTIN)
    for s in specs:
        bases = tuple(out[b] for b in s['bases'])
        meta = abc.ABCMeta if s['abc'] else type
        if any(type(b) is abc.ABCMeta for b in bases):
            meta = abc.ABCMeta
        try:
            cls = meta(s.get('called', s['name']), bases, {'__module__': 'dst_dispatch'})
        except TypeError:           # no consistent method resolution order
            cls = meta(s.get('called', s['name']), bases[:1], {'__module__': 'dst_dispatch'})
        out[s['name']] = cls
    for a, c in vregs:
        out[a].register(out[c])
    return out


def annotation(spec, form):
    """source text of an annotation"""
    if form == 'plain':             # the classes themselves, must have been defined
        return spec[0] if len(spec) == 1 else 'typing.Union[%s]' % ', '.join(spec)
    if form == 'str':
        return repr(spec[0] if len(spec) == 1 else 'typing.Union[%s]' % ', '.join(spec))
    if form == 'bar':
        return repr(' | '.join(spec))
    if form == 'nested':
        return 'typing.Union[%s]' % ', '.join(x if x in BUILTIN else repr(x) for x in spec)
    raise AssertionError(form)


class Model:
    """what applying the registrations in order selects"""

    def __init__(self, plan):
        self.plan = plan
        self.cache = {}
        self.universes = {}
        self.order = [s['name'] for s in plan['classes']]

    def select(self, regs, defined, vregs, cls):
        """-> (set of allowed results) ; regs: tuple of (impl, spec, needs)"""
        key = (regs, defined, vregs, cls)
        if key in self.cache:
            return self.cache[key]
        if vregs not in self.universes:
            self.universes[vregs] = universe(self.plan['classes'], sorted(vregs))
        u = self.universes[vregs]
        registry = {object: 'default'}
        pending = False
        for impl, spec, needs in regs:
            if needs - defined:
                pending = True
                continue
            for n in spec:
                registry[u[n]] = impl
        allowed = set()
        # abstract base classes in any order: functools lets the order of the keys decide between them
        virtual = [k for k in registry if k not in u[cls].__mro__ and issubclass(u[cls], k)]
        others = [k for k in registry if k not in virtual]
        for order in itertools.islice(itertools.permutations(virtual), 720):
            try:
                allowed.add(functools._find_impl(u[cls], {k: registry[k] for k in others + list(order)}))
            except RuntimeError:
                allowed.add('RuntimeError')
        own = u[cls] in registry        # what is registered for the class itself is found all the same
        if pending:
            allowed.add('NameError if not own' if own else 'NameError')
        self.cache[key] = frozenset(allowed)
        return self.cache[key]


def linearizable(model, ops, limit=400000):
    """ops: dicts with op, inv, ret, res; searches for a sequential order"""
    n = len(ops)
    init = (tuple(() for _ in model.plan['generics']), frozenset(), frozenset())
    seen = set()
    budget = [limit]

    def step(op, state):
        """-> new state or None"""
        regs, defined, vregs = state
        o = op['op']
        if o[0] == 'call':
            if op.get('hit'):
                return state
            allowed = model.select(regs[o[1]], defined, vregs, o[2])
            if op['res'] == 'NameError' and o[3] == 'fresh' and o[2] not in FINAL:
                return state if 'NameError' in allowed or 'NameError if not own' in allowed else None
            return state if op['res'] in allowed else None
        if op['res'] != 'ok':
            return None
        if o[0] == 'define':
            return regs, defined | {o[1]}, vregs
        if o[0] == 'vreg':
            return regs, defined, vregs | {(o[1], o[2])}
        g, impl = o[1], o[2]
        spec, needs = registration(model.plan, o)
        r = regs[g] + ((impl, tuple(spec), needs),)
        return regs[:g] + (r,) + regs[g + 1:], defined, vregs

    stack = [(frozenset(range(n)), init)]
    while stack:
        todo, state = stack.pop()
        if not todo:
            return True
        key = (todo, state)
        if key in seen:
            continue
        seen.add(key)
        budget[0] -= 1
        if budget[0] < 0:
            return None
        first = min(ops[i]['ret'] for i in todo)
        # later ones first, so that the order of invocation is explored first
        for i in sorted(todo, key=lambda i: -ops[i]['inv']):
            if ops[i]['inv'] <= first:
                s = step(ops[i], state)
                if s is not None:
                    stack.append((todo - {i}, s))
    return False


def registration(plan, o):
    """classes a registration names and the names that must have been defined for it"""
    if o[3] in ('direct', 'deco'):
        return o[4], frozenset()
    impl = plan['impls'][o[2]]
    return impl['spec'], frozenset(x for x in impl['spec'] + impl.get('second', []) if x not in BUILTIN
                                   and impl['form'] != 'plain')


# ---------------------------------------------------------------- the real thing

KINDS = {'function': ('', 'None', lambda f: f), 'method': ('self, ', 'self', lambda f: f),
         'static': ('', 'None', staticmethod), 'class': ('cls, ', 'cls', classmethod)}


class World:
    def __init__(self, plan):
        self.plan = plan
        shim = target.dispatch_shim()
        self.classes = universe(plan['classes'])
        self.mod = types.ModuleType('dst_dispatch')
        sys.modules['dst_dispatch'] = self.mod
        ns = self.ns = self.mod.__dict__
        ns['typing'] = typing
        for k, v in BUILTIN.items():
            ns[k] = v
        self.generics = []
        self.kept = {}
        for i, kind in enumerate(plan['generics']):
            if kind == 'function':
                exec('def base%d(x, *a, **k): return "default", (x,) + a, k, None\n' % i, ns)
                g = shim.singledispatch(ns['base%d' % i])
                self.generics.append((kind, g, None))
            else:
                exec('class H%d:\n    def m(%sx, *a, **k): return "default", (x,) + a, k, %s\n'
                     'class S%d(H%d): pass\n' % (i, KINDS[kind][0], KINDS[kind][1], i, i), ns)
                h = ns['H%d' % i]
                h.m = shim.singledispatchmethod(KINDS[kind][2](h.__dict__['m']))
                self.generics.append((kind, h.__dict__['m'], h))
        self.impls = {}

    def impl(self, g, i):
        """the function object of an implementation, made when it is needed for the first time"""
        kind = self.plan['generics'][g]
        key = (kind, i)
        if key not in self.impls:
            p = self.plan['impls'][i]
            ann = annotation(p['spec'], p['form'])
            second = ', *a, **k'
            if p.get('second'):
                second = ', y: %r = None, *a, **k' % p['second'][0]
            if p['form'] == 'plain':
                for n in p['spec']:
                    if n not in BUILTIN:
                        raise disk.HarnessError('plain annotation with late class')
            slf, back, wrap = KINDS[kind]
            name = 'impl_%d_%s' % (i, kind)
            rest = '(y,) + a' if p.get('second') else 'a'
            exec('def %s(%sx: %s%s): return %d, (x,) + %s, k, %s\n' % (name, slf, ann, second, i, rest, back), self.ns)
            self.ns[name] = wrap(self.ns[name])
            f = self.ns[name]
            self.impls[key] = f
        return self.impls[key]

    def prepare(self, ops):
        for o in ops:
            if o[0] == 'reg':
                self.impl(o[1], o[2])

    def do(self, o):
        if o[0] == 'define':
            self.ns[o[1]] = self.classes[o[1]]
            return 'ok'
        if o[0] == 'vreg':
            self.classes[o[1]].register(self.classes[o[2]])
            return 'ok'
        kind, g, holder = self.generics[o[1]]
        if o[0] == 'reg':
            f = self.impl(o[1], o[2])
            if o[3] in ('direct', 'deco'):
                cls = tuple(self.classes[x] for x in o[4])
                cls = cls[0] if len(cls) == 1 else typing.Union[cls] if o[5] == 'u' else functools.reduce(
                    lambda a, b: a | b, cls)
                back = g.register(cls, f) if o[3] == 'direct' else g.register(cls)(f)
            else:
                back = g.register(f)
            return 'ok' if back is f else 'other function returned'
        cls = self.classes[o[2]]
        how = o[3]
        if how == 'dispatch':
            d = g.dispatch if kind == 'function' else g.dispatcher.dispatch
            f = d(cls)
            r = f(None) if kind == 'function' else f.__get__(holder(), holder)(None)
            return r[0]
        if how == 'fresh' and o[2] not in FINAL:
            cls = type('Fresh', (cls,), {})
        value = VALUES[o[2]] if cls is self.classes[o[2]] and o[2] in VALUES else cls.__new__(cls)
        extra = (7,) if o[4] else ()
        receiver = None
        if kind == 'function':
            r = g(value, *extra, z=1)
        else:
            # by way of an object of the class or of a derived one, the class, or a bound method kept from earlier
            owner = self.ns['S%d' % o[1]] if how == 'sub' else holder
            if how == 'class' and kind != 'method':
                r = owner.m(value, *extra, z=1)
            elif how == 'kept':
                if o[1] not in self.kept:
                    obj = owner()
                    self.kept[o[1]] = obj, obj.m
                receiver, m = self.kept[o[1]]
                r = m(value, *extra, z=1)
            else:
                receiver = owner()
                r = receiver.m(value, *extra, z=1)
            receiver = {'method': receiver, 'class': owner}.get(kind)
        if r[1][0] is not value or r[2] != {'z': 1} or tuple(x for x in r[1][1:] if x is not None) != extra:
            return 'wrong arguments'
        if r[3] is not receiver:
            return 'wrong receiver'
        r = r[0]
        return r


HOWS = ['call'] * 4 + ['dispatch'] * 3 + ['kept', 'kept', 'sub', 'class', 'fresh']
FINAL = {'bool', 'Sized', 'Iterable', 'Mapping', 'Sequence', 'Hashable'}
CODES = []


def codes():
    if not CODES:
        base = target.prepare()
        shim = target.dispatch_shim()
        cs = threads.code_objects((os.path.realpath(base) + os.sep, base + os.sep))
        names = {'get_type_hints', '_eval_type', '_evaluate', '_find_impl', '_compose_mro', '_c3_mro', '_c3_merge',
                 'get_args', 'get_origin', '_get_protocol_attrs', '_type_check', '_type_convert'}
        lib = threads.code_objects((typing.__file__, functools.__file__, weakref.__file__,
                                    collections.abc.__file__, sys.modules['_weakrefset'].__file__))
        cs += [c for c in lib if c.co_filename == weakref.__file__ or c.co_name in names
               or c.co_name in ('clear', 'popitem')]
        CODES[:] = cs
    return CODES


class Dispatch(core.Prop):
    real = REAL
    stub = STUB
    measure = 'distinct sequences of (thread, function, kind of point) at which control changed hands, by hash'
    assumptions = ['the interpreter switches threads only at function starts, backward jumps and after calls of C '
                   'functions (CPython 3.12)', 'garbage collection is switched off during a run',
                   'a call made while a registered annotation cannot be resolved may raise NameError',
                   'where functools itself finds a dispatch ambiguous or dependent on the order of the registry '
                   'keys, each of the outcomes is accepted']

    def setup(self):
        target.dispatch_shim()
        codes()

    # ------------------------------------------------------------- generation
    def classes(self, r):
        specs = []
        n = r.randint(2, 7)
        nabc = r.choice([0, 0, 1, 2])
        for i in range(n):
            isabc = i < nabc
            earlier = [s['name'] for s in specs if not isabc or s['abc']]
            bases = []
            if earlier and r.random() < .55:
                bases = r.sample(earlier, min(len(earlier), r.choice([1, 1, 1, 2])))
                bases.sort(key=lambda b: -int(b[1:]))
            elif not isabc and r.random() < .1:
                bases = [r.choice(['int', 'str', 'list', 'dict'])]
            specs.append({'name': 'K%d' % i, 'bases': bases or ['object'], 'abc': isabc})
        if r.random() < .2:         # what a class calls itself is not the name it is known by
            for s in specs:
                s['called'] = 'K'
        return specs

    def base_plan(self, r):
        specs = self.classes(r)
        names = [s['name'] for s in specs]
        generics = r.choice([['function'], ['function'], ['method'], ['method'], ['static'], ['class'],
                             ['function', 'method'], ['function', 'function'], ['method', 'method']])
        target_names = names * 3 + ['int', 'str', 'bool', 'list', 'Sized', 'Sequence', 'float', 'Mapping']
        impls = []
        for i in range(r.randint(2, 6)):
            spec = list(dict.fromkeys(r.choice(target_names) for _ in range(r.choice([1, 1, 1, 1, 2, 3]))))
            form = r.choice(['str', 'str', 'bar', 'nested'])
            if form == 'nested' and len(spec) == 1:
                form = 'str'
            if all(s in BUILTIN for s in spec) and r.random() < .3:
                form = 'plain'
            d = {'spec': spec, 'form': form}
            if r.random() < .15:
                d['second'] = ['int']
            impls.append(d)
        return {'classes': specs, 'generics': generics, 'impls': impls}

    def reg(self, r, plan):
        names = [s['name'] for s in plan['classes']]
        i = r.randrange(len(plan['impls']))
        g = r.randrange(len(plan['generics']))
        if r.random() < .65:
            return ['reg', g, i, 'ann']
        spec = plan['impls'][i]['spec'] if r.random() < .3 else \
            list(dict.fromkeys(r.choice(names * 2 + ['int', 'list', 'Sized']) for _ in range(r.choice([1, 1, 1, 2]))))
        return ['reg', g, i, r.choice(['direct', 'deco']), spec, r.choice('ub')]

    def call(self, r, plan):
        names = [s['name'] for s in plan['classes'] if not s['abc'] or True]
        pool = names * 3 + ['int', 'str', 'bool', 'list', 'dict', 'float', 'object']
        used = [x for i in plan['impls'] for x in i['spec'] if x in names or x in VALUES]
        c = r.choice(used) if used and r.random() < .6 else r.choice(pool)
        return ['call', r.randrange(len(plan['generics'])), c, r.choice(HOWS), r.random() < .2]

    def vreg(self, r, plan):
        abcs = [s['name'] for s in plan['classes'] if s['abc']]
        conc = [s['name'] for s in plan['classes'] if not s['abc']] + ['int', 'str', 'float']
        if not abcs:
            return None
        return ['vreg', r.choice(abcs), r.choice(conc)]

    # -------------------------------------------------------------- execution
    def run_ops(self, plan, stats):
        w = World(plan)
        w.prepare([o for ops in plan['threads'] + [plan.get('first') or []] for o in ops])
        sch = threads.Scheduler(codes(), stats, max_events=3_000_000)
        hist = []

        def perform(o, t):
            rec = {'op': o, 't': t, 'inv': sch.tick()}
            me = sch.me()
            fired = len(me.fired) if me else 0
            if me:
                me.may = o[0] == 'call'
            try:
                rec['res'] = w.do(o)
            except (threads.Stop, disk.HarnessError):
                raise
            except BaseException as e:
                rec['res'] = type(e).__name__
                rec['msg'] = str(e)[:200]
            finally:
                if me:
                    me.may = False
            if me and len(me.fired) > fired:
                rec['hit'] = True
            if o[0] == 'call' and o[3] == 'fresh' and o[4]:
                gc.collect()        # the class made for this call ceases to exist
            rec['ret'] = sch.tick()
            hist.append(rec)
            sch.note('op', t, o, str(rec['res']))

        def body(i):
            def go():
                for o in plan['threads'][i]:
                    perform(o, i)
            return go
        simos.activate(simos.Sim('/nonexistent', None))
        v = None
        try:
            for o in plan.get('first', ()):
                perform(o, -2)
            outs = sch.run([body(i) for i in range(len(plan['threads']))], plan.get('sched', ()),
                           plan.get('interrupts', ()))
            for i, o in enumerate(outs):
                if o.get('exc'):
                    raise disk.HarnessError('thread %d: %s' % (i, o))
            # afterwards everything is looked at once more, in sequence
            for o in plan.get('final', ()):
                perform(o, -1)
        except Violation as e:
            v = {'class': e.cls, 'detail': e.detail}
        finally:
            simos.deactivate()
            sys.modules.pop('dst_dispatch', None)
        probes = {}
        if v is None:
            v = self.judge(plan, hist)
            for rec in hist:
                if rec['res'] == 'NameError':
                    probes['call before the named class exists'] = probes.get('call before the named class exists', 0) + 1
        return {'violation': v, 'log': sch.log + [sch.events, tuple(sch.trace)],
                'inter': [core.digest(sch.trace)], 'simtime': 0, 'ops': sch.events, 'probes': probes,
                'nontrivial': bool(sch.trace) or len(hist) > 3}

    def judge(self, plan, hist):
        model = Model(plan)
        ok = linearizable(model, hist)
        if ok is not False:
            return None
        # the shortest inexplicable prefix
        hist = sorted(hist, key=lambda h: h['ret'])
        n = 1
        for n in range(1, len(hist) + 1):
            if linearizable(model, self.prefix(hist, n)) is False:
                break
        bad = hist[n - 1]
        return {'class': 'no-sequential-order',
                'detail': 'no order of the operations explains the result %r of %r%s; history: %s' % (
                    bad['res'], bad['op'], ' (%s)' % bad['msg'] if bad.get('msg') else '',
                    [(h['t'], h['op'], h['res']) for h in hist[:n]])}

    def prefix(self, hist, n):
        """operations that returned by then, and those that had begun with any outcome"""
        t = hist[n - 1]['ret']
        out = hist[:n]
        for h in hist[n:]:
            if h['inv'] < t and h['op'][0] != 'call':
                out.append(h)
        return out

    def shrink(self, plan):
        ths = plan['threads']
        for i in range(len(ths)):
            if len(ths) > 1:
                yield with_key(plan, 'threads', ths[:i] + ths[i + 1:])
        for key in ('final', 'first'):
            for x in drop_items(plan.get(key) or []):
                yield with_key(plan, key, x)
        for i, ops in enumerate(ths):
            for x in drop_items(ops):
                yield with_key(plan, 'threads', replace_at(ths, i, x))
        for s in threads.shrink_schedule(plan.get('sched') or []):
            yield with_key(plan, 'sched', s)
        for s in drop_items(plan.get('interrupts') or []):
            yield with_key(plan, 'interrupts', s)
        for i, p in enumerate(plan['impls']):
            if p.get('second'):
                yield with_key(plan, 'impls', replace_at(plan['impls'], i, {k: v for k, v in p.items()
                                                                           if k != 'second'}))
            for x in p['spec']:
                if len(p['spec']) > 1 and p['form'] != 'nested':
                    yield with_key(plan, 'impls', replace_at(plan['impls'], i, with_key(
                        p, 'spec', [y for y in p['spec'] if y != x])))
        for i, ops in enumerate(ths):
            for j, o in enumerate(ops):
                if o[0] == 'call' and (o[3] not in ('call', 'dispatch') or o[4]):
                    yield with_key(plan, 'threads', replace_at(ths, i, replace_at(
                        ops, j, o[:3] + [o[3] if o[4] else 'call', False])))
        for i, c in enumerate(plan['classes']):
            if c['bases'] != ['object']:
                yield with_key(plan, 'classes', replace_at(plan['classes'], i, with_key(c, 'bases', ['object'])))

    def finals(self, plan):
        """every name defined, then every class dispatched"""
        names = [s['name'] for s in plan['classes']]
        out = [['define', n] for n in names]
        for g in range(len(plan['generics'])):
            for n in names + ['int', 'str', 'bool', 'list', 'float']:
                out.append(['call', g, n, 'dispatch', False])
        return out


class C16(Dispatch):
    id = 'C16'
    rule = ('a run lets 2 to 4 threads perform 2 to 5 operations each on one or two single-dispatch functions or '
            'methods (calls, registrations by class, annotation, forward reference or union, binding of the names of '
            'classes, extension of abstract base classes), then looks at every class in sequence; the history must '
            'be linearizable with respect to a sequential model; non-trivial: control changed hands inside an '
            'operation; distinct by event log')
    budget = {'quick': (38250, 100), 'thorough': (1000000, 780)}

    def gen(self, r, tier, index):
        plan = self.base_plan(r)
        n = r.choice([2, 2, 2, 3, 3, 4])
        names = [s['name'] for s in plan['classes']]
        early = [x for x in names if r.random() < r.choice([.3, .7, 1])]
        ths = []
        late = [['define', x] for x in names if x not in early]
        r.shuffle(late)
        for i in range(n):
            ops = []
            for _ in range(r.randint(1, 5 if n < 4 else 3)):
                k = r.random()
                if k < .55:
                    ops.append(self.call(r, plan))
                elif k < .85:
                    ops.append(self.reg(r, plan))
                else:
                    ops.append(self.vreg(r, plan) or self.call(r, plan))
            ths.append(ops)
        for d in late:
            if r.random() < .8:
                ops = r.choice(ths)
                ops.insert(r.randint(0, len(ops)), d)
        # what has happened before the threads start
        first = [['define', x] for x in early] + [self.reg(r, plan) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        if r.random() < .3:
            first.append(self.call(r, plan))
        plan.update(threads=ths, first=first, final=self.finals(plan),
                    sched=threads.schedule(r, n, r.choice([4, 6, 8, 9]), r.choice([5, 15, 40, 100])))
        return plan

    def execute(self, plan, stats):
        return self.run_ops(plan, stats)


class C17(Dispatch):
    id = 'C17'
    rule = ('a run is a history of 5 to 25 calls, registrations (by class, annotation, forward reference or union), '
            'bindings of the names of classes, extensions of abstract base classes and calls broken off by '
            'KeyboardInterrupt, MemoryError or RecursionError at seeded points; every call is compared with a model '
            'that applies all registrations so far in order; non-trivial: more than three operations; distinct by '
            'event log')
    budget = {'quick': (38250, 100), 'thorough': (1000000, 780)}

    def gen(self, r, tier, index):
        plan = self.base_plan(r)
        names = [s['name'] for s in plan['classes']]
        ops = []
        late = [['define', x] for x in names]
        for _ in range(r.randint(4, 25)):
            k = r.random()
            if k < .45:
                ops.append(self.call(r, plan))
            elif k < .75:
                ops.append(self.reg(r, plan))
            elif k < .9 and late:
                ops.append(late.pop(r.randrange(len(late))))
            else:
                ops.append(self.vreg(r, plan) or self.call(r, plan))
        plan.update(threads=[ops], final=self.finals(plan), sched=[])
        if r.random() < .6:
            scale = r.choice([5, 7, 9, 11])
            plan['interrupts'] = [{'t': 0, 'n': int(2 ** r.uniform(0, scale)),
                                   'exc': r.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError',
                                                    'RecursionError'])} for _ in range(r.choice([1, 1, 2, 4]))]
        return plan

    def execute(self, plan, stats):
        return self.run_ops(plan, stats)


C17.measure = 'distinct event logs (sequence of operations, results and interrupts)'
PROPS = {c.id: c() for c in (C16, C17)}
