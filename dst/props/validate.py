"""C13, C14, C15: validation of values against types, in threads, over histories and interrupted."""

import collections
import json
import os
import random
import re
import sys
import types
import typing

from .. import core, disk, simos, target, threads
from ..core import drop_items, replace_at, with_key
from ..disk import Violation

REAL = ['ts2python/json_validation.py', 'ts2python/typeddict_shim.py', 'typing, enum', 'real threads']
STUB = ['thread scheduling (which thread runs between any two points at which the interpreter may switch)',
        'locks (waiting goes through the scheduler)', 'delivery of interrupts']

HEAD = '''from enum import Enum, IntEnum
from typing import Union, List, Tuple, Dict, Optional, Any, Literal, Generic, TypeVar, NotRequired
import typing
import ts2python.typeddict_shim as _shim
from ts2python.json_validation import validate_type, type_check, validate_uniform_sequence
T = TypeVar('T')
'''

BASIC = ['int', 'str', 'float', 'bool']


# ------------------------------------------------- types: syntax trees as JSON

def text(t, quote=False):
    """source text of a type; quote: names of classes in quotes"""
    k = t[0]
    if k in BASIC or k == 'None':
        return k
    if k == 'tvar':
        return 'T'
    if k == 'ref':
        return repr(t[1]) if quote else t[1]
    if k == 'lit':
        return 'Literal[%s]' % ', '.join(repr(x) for x in t[1])
    if k == 'list':
        return 'List[%s]' % text(t[1], quote)
    if k == 'dict':
        return 'Dict[str, %s]' % text(t[1], quote)
    if k == 'tuple':
        return 'Tuple[%s]' % ', '.join(text(x, quote) for x in t[1])
    if k == 'tup*':
        return 'Tuple[%s, ...]' % text(t[1], quote)
    if k == 'union':
        return 'Union[%s]' % ', '.join(text(x, quote) for x in t[1])
    raise AssertionError(t)


def annotation(f):
    t, form = f['t'], f['form']
    if form == 'str':
        s = text(t, False)
        return repr('NotRequired[%s]' % s if f.get('opt') else s)
    s = text(t, form == 'nested')
    return 'NotRequired[%s]' % s if f.get('opt') else s


def module_source(m):
    out = [HEAD]
    for e in m['enums']:
        if e.get('base'):
            out.append('class %s(%s):\n    pass\n' % (e['base'][0], e['base'][1]))
        out += definition(e, e['of'], ['%s = %r' % (n, v) for n, v in e['members']])
    for d in m['dicts']:
        bases = ', '.join(d['bases']) or ('typing.TypedDict' if d['kind'] == 'typing' else '_shim.TypedDict')
        if d.get('generic'):
            bases += ', Generic[T]'
        out += definition(d, bases + (', total=False' if d.get('partial') else ''),
                          ['%s: %s' % (f['name'], annotation(f)) for f in d['fields']] or ['pass'])
    for f in m.get('funcs', ()):
        out.append(func_source(f))
    return '\n'.join(out) + '\n'


def definition(x, bases, body):
    """source of a class; local ones bear all the same name"""
    if x.get('local'):
        return ['def make():', '    class Local(%s):' % bases] + ['        ' + b for b in body] + [
            '    return Local', '%s = make()' % x['name'], '']
    return ['class %s(%s):' % (x['name'], bases)] + ['    ' + b for b in body] + ['']


def func_source(f):
    ps = ['ctl']
    for p in f['params']:
        if p.get('kwonly') and '*' not in ps:
            ps.append('*')
        ps.append('%s: %s' % (p['name'], text(p['t'])) if p.get('t') else p['name'])
    ret = ' -> %s' % text(f['ret']) if f.get('ret') else ''
    call = 'ctl(%s)' % ', '.join(p['name'] for p in f['params'])
    if f['kind'] == 'method':
        return 'class C_%s:\n    def m(self, %s)%s:\n        return %s\n    raw = m\n    m = type_check(m)\n' % (
            f['name'], ', '.join(ps), ret, call)
    deco = '%s = type_check(raw_%s%s)' % (f['name'], f['name'], ', False' if f.get('noret') else '')
    if f.get('local'):
        return 'def make():\n    def local(%s)%s:\n        return %s\n    return local\nraw_%s = make()\n%s\n' % (
            ', '.join(ps), ret, call, f['name'], deco)
    return 'def raw_%s(%s)%s:\n    return %s\n%s\n' % (f['name'], ', '.join(ps), ret, call, deco)


class Gen:
    def __init__(self, r):
        self.r = r

    def type(self, depth, names, leaf=False):
        r = self.r
        k = r.random()
        if depth <= 0 or leaf or k < .35:
            if names and r.random() < .55:
                return ['ref', r.choice(names)]
            if r.random() < .15:
                return ['lit', r.choice([['a', 'b'], [1, 2, 3], ['x']])]
            return [r.choice(BASIC)]
        if k < .55:
            return ['list', self.type(depth - 1, names)]
        if k < .67:
            return ['dict', self.type(depth - 1, names)]
        if k < .75:
            return ['tuple', [self.type(depth - 1, names) for _ in range(r.randint(1, 3))]]
        if k < .8:
            return ['tup*', self.type(depth - 1, names)]
        n = r.randint(2, 3)
        parts = [self.type(depth - 1, names) for _ in range(n)]
        parts = [p for p in parts if p[0] != 'union']
        if r.random() < .3 or len(parts) < 2:
            parts.append(['None'])
        parts = [json.loads(x) for x in dict.fromkeys(json.dumps(p) for p in parts)]
        if len(parts) < 2:
            return [r.choice(BASIC)]
        return ['union', parts]

    def module(self, base=None):
        r = self.r
        enums, dicts = [], []
        ne = r.choice([0, 1, 2, 3])
        shared = r.random() < .5
        lp = r.choice([0, 0, .1, .6])       # share of classes that are local to a function
        for i in range(ne):
            of = r.choice(['Enum', 'Enum', 'IntEnum', 'str, Enum'])
            e = {'name': 'E%d' % i, 'of': of}
            pool = [1, 2, 3, 4, 5] if of == 'IntEnum' or of == 'Enum' and r.random() < .5 else \
                ['a', 'b', 'c', 'd', 'x']
            e['members'] = [['M%d' % j, v] for j, v in enumerate(r.sample(pool, r.randint(1, 3)))]
            if shared and of != 'IntEnum':
                e['base'] = ['B%d' % i, of] if i == 0 or enums[0]['of'] != 'B0' else None
                if e['base']:
                    e['of'] = 'B%d' % i
                else:
                    del e['base']
                    e['of'] = 'B0'
                    if enums[0]['base'][1] != 'Enum':
                        e['members'] = [[n, 'v%s' % v] for n, v in e['members']]
            if not e.get('base') and r.random() < lp:
                e['local'] = True
            enums.append(e)
        nd = r.randint(1, 5)
        names = ['D%d' % i for i in range(nd)]
        kind = r.choice(['typing', 'typing', 'shim'])
        enum_names = [e['name'] for e in enums] + [e['base'][0] for e in enums if e.get('base')]
        for i in range(nd):
            fields = []
            for j in range(r.choice([1, 1, 2, 3, 4])):
                t = self.type(r.choice([0, 1, 1, 2, 2, 3]), names + enum_names)
                refs = re.findall(r"'ref', '(D\d+)'", repr(t))
                late = any(int(x[1:]) >= i for x in refs)
                form = r.choice(['str', 'nested', 'nested']) if late else r.choice(['plain', 'str', 'nested'])
                opt = r.random() < .25
                if t[0] == 'union' and opt:
                    opt = False
                if form == 'nested' and kind == 'shim' and opt and t[0] == 'ref':
                    form = 'str'
                # a required field must not make values infinite
                if any(int(x[1:]) >= i for x in refs) and not opt:
                    if t[0] in ('ref', 'tuple'):
                        t = ['list', t] if r.random() < .6 else ['union', [t, ['None']]]
                fields.append({'name': 'f%d' % j if r.random() < .6 else 'g%d_%d' % (i, j), 't': t, 'form': form,
                               'opt': opt})
            fields = list({f['name']: f for f in fields}.values())
            bases = []
            generic = kind == 'typing' and r.random() < .12
            if generic:
                fields = fields[:2] + [{'name': 't0', 't': r.choice([['tvar'], ['list', ['int']]]), 'form': 'plain',
                                        'opt': False}]
            if i and not generic and r.random() < .2 and not any(d.get('generic') for d in dicts):
                b = r.choice(dicts)
                bases = [b['name']]
                have = self.all_fields(dicts, b)
                fields = [f for f in fields if f['name'] not in have]
            local = not generic and r.random() < lp
            if local:               # nothing but what is defined above can be named in there
                fields = [f for f in fields if not any(
                    int(x[1:]) >= i for x in re.findall(r"'ref', '(D\d+)'", repr(f['t'])))]
                fields = [dict(f, form='plain' if f['form'] == 'nested' else f['form']) for f in fields]
            dicts.append({'local': local, 'name': names[i], 'kind': kind, 'bases': bases, 'fields': fields,
                          'partial': kind == 'typing' and r.random() < .1, 'generic': generic})
        locs = [d['name'] for d in dicts if d['local']]
        if len(locs) > 1 and r.random() < .8:
            # types that read the same but are not
            wrap = r.choice([lambda t: ['union', [t, ['str']]], lambda t: ['list', t], lambda t: t,
                             lambda t: ['union', [['list', t], ['None']]], lambda t: ['dict', t]])
            for k, n in enumerate(r.sample(locs, 2)):
                dicts.append({'local': False, 'name': 'D%d' % len(dicts), 'kind': kind, 'bases': [], 'partial': False,
                              'generic': False, 'fields': [{'name': 'w', 't': wrap(['ref', n]), 'form': 'plain',
                                                            'opt': False}]})
        return {'enums': enums, 'dicts': dicts}

    def all_fields(self, dicts, d):
        out = {}
        for b in d['bases']:
            out.update(self.all_fields(dicts, next(x for x in dicts if x['name'] == b)))
        for f in d['fields']:
            out[f['name']] = f
        return out

    # ---------------------------------------------------------------- values
    def value(self, m, t, depth):
        r = self.r
        k = t[0]
        if k == 'int':
            return r.choice([0, 1, 2, 3, 7, -1])
        if k == 'str':
            return r.choice(['a', 'b', 'x', 'hello', ''])
        if k == 'float':
            return r.choice([0.5, 1.5])
        if k == 'bool':
            return r.random() < .5
        if k == 'None':
            return None
        if k == 'tvar':
            return self.any_value()
        if k == 'lit':
            return r.choice(t[1])
        if k == 'list':
            n = r.choice([0, 1, 1, 2]) if depth > 0 else 0
            if depth > 0 and r.random() < .1:
                n, depth = r.randint(3, 12), 1
            return [self.value(m, t[1], depth - 1) for _ in range(n)]
        if k == 'dict':
            return {n: self.value(m, t[1], depth - 1) for n in r.sample(['p', 'q', 'r'],
                                                                       r.choice([0, 1, 2]) if depth > 0 else 0)}
        if k == 'tuple':
            return {'__t__': [self.value(m, x, depth - 1) for x in t[1]]}
        if k == 'tup*':
            return {'__t__': [self.value(m, t[1], depth - 1) for _ in range(r.choice([0, 1, 2]) if depth > 0 else 0)]}
        if k == 'union':
            ts = t[1]
            if depth <= 0:
                flat = [x for x in ts if x[0] in BASIC + ['None', 'lit', 'list', 'dict']]
                ts = flat or ts
            return self.value(m, r.choice(ts), depth - 1)
        name = t[1]
        for e in m['enums']:
            if e['name'] == name:
                n, v = r.choice(e['members'])
                return {'__e__': [name, n]} if r.random() < .4 else v
        d = next((x for x in m['dicts'] if x['name'] == name), None)
        if d is None:              # an enum without members
            return r.choice([e['members'][0][1] for e in m['enums']])
        out = {}
        for n, f in self.all_fields(m['dicts'], d).items():
            optional = f.get('opt') or d.get('partial')
            if optional and (depth <= 0 or r.random() < .4):
                continue
            if depth < -8:
                raise RecursionError
            out[n] = self.value(m, f['t'], depth - 1)
        return out

    def any_value(self):
        return self.r.choice([0, 1, 'a', 'zzz', None, 1.5, True, [], {}, [1], ['a'], {'f0': 1}, {'x': 'y'},
                              {'__t__': [1, 'a']}, [[1]], [{'f0': 'a'}]])

    def spoil(self, v):
        """changes something somewhere in the value"""
        r = self.r
        if isinstance(v, dict) and '__e__' not in v and '__t__' not in v:
            k = r.random()
            if v and k < .6:
                n = r.choice(sorted(v))
                return dict(v, **{n: self.spoil(v[n])})
            if v and k < .75:
                n = r.choice(sorted(v))
                return {a: b for a, b in v.items() if a != n}
            if k < .85:
                return dict(v, **{r.choice(['zz', 'f0', 'f1', 'f9']): self.any_value()})
        if isinstance(v, dict) and '__t__' in v and r.random() < .7:
            x = self.spoil(v['__t__'])
            return {'__t__': x if isinstance(x, list) else [x]}
        if isinstance(v, list) and v and r.random() < .7:
            i = r.randrange(len(v))
            return v[:i] + [self.spoil(v[i])] + v[i + 1:]
        if isinstance(v, list) and r.random() < .5:
            return v + [self.any_value()]
        return self.any_value()

    def a_value(self, m, t, good=.5):
        try:
            v = self.value(m, t, self.r.choice([1, 2, 3, 4]))
        except RecursionError:
            v = self.any_value()
        while self.r.random() > good:
            v = self.spoil(v)
            good += .3
        return v


# ------------------------------------------------------------------ real world

def build(v, mod, kind=None):
    if isinstance(v, list):
        return [build(x, mod, kind) for x in v]
    if isinstance(v, dict):
        if '__e__' in v:
            cls = mod.__dict__.get(v['__e__'][0])
            try:
                return cls[v['__e__'][1]]
            except (KeyError, TypeError):
                return v['__e__'][1]
        if '__t__' in v:
            return tuple(build(x, mod, kind) for x in v['__t__'])
        d = {k: build(x, mod, kind) for k, x in v.items()}
        return collections.defaultdict(int, d) if kind == 'default' else \
            collections.OrderedDict(d) if kind == 'ordered' else d
    return v


def snapshot(v):
    """identity, type and content of a value"""
    if isinstance(v, dict):
        return (type(v).__name__, id(v), tuple((k, snapshot(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, id(v), tuple(snapshot(x) for x in v))
    return (type(v).__name__, repr(v))


def describe(t, deep=False):
    """what a type describes, independent of caches inside typing"""
    import enum
    if isinstance(t, type) and not isinstance(t, types.GenericAlias):
        if not deep:
            return 'class %s.%s' % (t.__module__, t.__qualname__)
        out = ['class', t.__module__, t.__qualname__, tuple(describe(b) for b in t.__bases__)]
        if isinstance(t, enum.EnumMeta):
            out.append(('members', [(n, repr(m.value)) for n, m in t.__members__.items()],
                        [m.name for m in t], len(t)))
        own = t.__dict__.get('__annotations__')
        out.append(('annotations', None if own is None else [(k, describe(v)) for k, v in own.items()]))
        for k in ('__required_keys__', '__optional_keys__'):
            out.append((k, sorted(getattr(t, k, ()))))
        out.append(('total', getattr(t, '__total__', None)))
        out.append(('parameters', [str(x) for x in getattr(t, '__parameters__', ())]))
        return out
    if isinstance(t, typing.ForwardRef):
        return 'ForwardRef(%r)' % t.__forward_arg__
    if isinstance(t, str) or t is None or t is Ellipsis:
        return repr(t)
    if isinstance(t, typing.TypeVar):
        return 'TypeVar %s' % t.__name__
    args = getattr(t, '__args__', None)
    if args is not None:
        origin = getattr(t, '__origin__', type(t))
        return ['generic', describe(origin), getattr(t, '_name', None), [
            repr(a) if origin is typing.Literal else describe(a) for a in args]]
    return repr(t)


class World:
    def __init__(self, plan):
        self.plan = plan
        target.validation()
        self.mods = []
        for i, m in enumerate(plan['modules']):
            name = 'dst_types_%d' % i
            mod = types.ModuleType(name)
            sys.modules[name] = mod
            exec(compile(module_source(m), '<%s>' % name, 'exec'), mod.__dict__)
            self.mods.append(mod)
        self.values = [build(v[1], self.mods[v[0]], *v[2:]) for v in plan['values']]
        self.types = {}
        for ops in plan['threads']:
            for o in ops:
                self.type(o)

    def type(self, o):
        """the type object an operation names, made once"""
        key = (o[1], json.dumps(o[2]))
        if o[0] in ('call', 'mut'):
            return None
        if key not in self.types:
            self.types[key] = eval(text(o[2]), self.mods[o[1]].__dict__)
        return self.types[key]

    def state(self):
        out = []
        for mod, m in zip(self.mods, self.plan['modules']):
            for x in m['enums'] + m['dicts']:
                out.append(describe(mod.__dict__[x['name']], True))
                if x.get('base'):
                    out.append(describe(mod.__dict__[x['base'][0]], True))
            for f in m.get('funcs', ()):
                g = mod.__dict__['C_' + f['name']].raw if f['kind'] == 'method' else mod.__dict__['raw_' + f['name']]
                out.append(('function', f['name'], [(k, describe(v)) for k, v in g.__annotations__.items()]))
        for k in sorted(self.types):
            out.append((k, describe(self.types[k])))
        return out

    def validate(self, o):
        v = sys.modules['ts2python.json_validation']
        t = self.type(o)
        val = self.values[o[3]]
        if len(o) > 4 and o[4] == 'tmp':        # a new object, possibly at the address of an earlier one
            x = self.plan['values'][o[3]]
            val = build(x[1], self.mods[x[0]], *x[2:])
        if o[0] == 'seq':
            v.validate_uniform_sequence(val, t)
        else:
            v.validate_type(val, t)

    def mutate(self, o):
        v = self.values[o[1]]
        new = build(o[2], self.mods[self.plan['values'][o[1]][0]])
        if isinstance(v, dict) and isinstance(new, dict):
            v.clear()
            v.update(new)
        elif type(v) is type(new) is list:
            v[:] = new
        return 'changed'

    def verdict(self, o):
        if o[0] == 'mut':
            return self.mutate(o)
        seen = []
        for _ in range(o[4] if len(o) > 4 and isinstance(o[4], int) else 1):    # again and again
            try:
                self.validate(o)
                x = 'accepted'
            except (threads.Stop, disk.HarnessError):
                raise
            except BaseException as e:
                x = 'rejected with ' + type(e).__name__
            if x not in seen:
                seen.append(x)
        return ', then '.join(seen)


CODES = []


def codes():
    if not CODES:
        base = target.prepare()
        target.validation()
        cs = threads.code_objects((os.path.realpath(base) + os.sep, base + os.sep))
        names = {'get_type_hints', '_eval_type', '_evaluate', 'copy_with', '_strip_annotations'}
        cs += [c for c in threads.code_objects((typing.__file__,)) if c.co_name in names]
        CODES[:] = cs
    return CODES


def fresh(f):
    """f() in a process that has validated nothing yet"""
    r = core.forked(lambda: {'r': f()}, 30, 60)
    if 'r' not in r:
        raise disk.HarnessError('reference validation: %r' % (r,))
    return r['r']


class Validate(core.Prop):
    real = REAL
    stub = STUB
    measure = 'distinct sequences of (thread, function, kind of point) at which control changed hands, by hash'
    assumptions = ['the interpreter switches threads only at function starts, backward jumps and after calls of C '
                   'functions (CPython 3.12)', 'garbage collection is switched off during a run']

    def setup(self):
        target.validation()
        import ts2python.typeddict_shim
        codes()

    def base_plan(self, r, nthreads, nops, many=1):
        g = Gen(r)
        modules = [g.module()]
        if r.random() < .3:        # classes of the same names with other fields
            modules.append(g.module())
        names = [[x['name'] for x in m['dicts'] + m['enums']] + [e['base'][0] for e in m['enums'] if e.get('base')]
                 for m in modules]
        targets = []
        for _ in range(r.randint(1, 4)):
            i = r.randrange(len(modules))
            if r.random() < .6:
                targets.append((i, ['ref', r.choice(names[i])]))
            else:
                t = g.type(r.choice([1, 2]), names[i])
                if t[0] == 'union':     # a union at top level is not supported
                    t = ['ref', r.choice(names[i])]
                targets.append((i, t))
        for i, m in enumerate(modules):
            twins = [d['name'] for d in m['dicts'] if [f['name'] for f in d['fields']] == ['w']]
            if twins and r.random() < .7:
                targets = targets[:1] + [(i, ['ref', x]) for x in twins]
        values = []
        ths = []
        for _ in range(nthreads):
            ops = []
            for _ in range(nops()):
                i, t = r.choice(targets)
                same = [k for k, v in enumerate(values) if v[0] == i]
                if same and r.random() < .3:
                    k = r.choice(same)
                else:
                    values.append([i, g.a_value(modules[i], t)])
                    if r.random() < .1:
                        values[-1].append(r.choice(['default', 'ordered']))
                    k = len(values) - 1
                ops.append(['val', i, t, k])
                if t[0] == 'list' and r.random() < .2:
                    ops[-1] = ['seq', i, t[1], k]
                if r.random() < .25:
                    ops[-1].append('tmp')
                elif r.random() < .02 * many:
                    ops[-1].append(r.choice([20, 60, 150]))
            ths.append(ops)
        return {'modules': modules, 'values': values, 'threads': ths}

    def interrupts(self, r, n, scale, share):
        if r.random() > share:
            return []
        return [{'t': r.randrange(n), 'n': int(2 ** r.uniform(0, scale)),
                 'exc': r.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'RecursionError'])}
                for _ in range(r.choice([1, 1, 2, 3]))]

    def perform(self, plan, stats, w, do, after=None, box=None):
        """do(op) -> result, on the threads of the plan"""
        sch = threads.Scheduler(codes(), stats, max_events=3_000_000)
        got = [[] for _ in plan['threads']]
        if box is not None:
            box[:] = [sch]

        def body(i):
            def go():
                me = sch.me()
                for o in plan['threads'][i]:
                    n = len(me.fired)
                    me.may = True
                    res = do(o, i)
                    me.may = False
                    got[i].append((res, len(me.fired) > n))
                    sch.note('op', i, o, repr(res))
                    if after:
                        after(i, o)
                me.may = False
            return go
        simos.activate(simos.Sim('/nonexistent', None))
        try:
            outs = sch.run([body(i) for i in range(len(plan['threads']))], plan.get('sched', ()),
                           plan.get('interrupts', ()))
        except Violation as e:
            return sch, {'class': e.cls, 'detail': e.detail}, got
        finally:
            simos.deactivate()
        for i, o in enumerate(outs):
            if o.get('exc'):
                if o['exc'] == 'Violation':
                    return sch, {'class': o['msg'].split(':')[0], 'detail': o['msg']}, got
                raise disk.HarnessError('thread %d: %s' % (i, o))
        return sch, None, got

    def result(self, sch, v, probes, plan):
        for k in list(sys.modules):
            if k.startswith('dst_types_'):
                del sys.modules[k]
        return {'violation': v, 'log': sch.log + [sch.events, tuple(sch.trace)], 'inter': [core.digest(sch.trace)],
                'simtime': 0, 'ops': sch.events, 'probes': probes,
                'nontrivial': bool(sch.trace) or sum(map(len, plan['threads'])) > 1}

    def shrink(self, plan):
        ths = plan['threads']
        for i in range(len(ths)):
            if len(ths) > 1:
                yield with_key(plan, 'threads', ths[:i] + ths[i + 1:])
        for i, ops in enumerate(ths):
            for x in drop_items(ops):
                yield with_key(plan, 'threads', replace_at(ths, i, x))
        for s in threads.shrink_schedule(plan.get('sched') or []):
            yield with_key(plan, 'sched', s)
        for s in drop_items(plan.get('interrupts') or []):
            yield with_key(plan, 'interrupts', s)
        for k, (i, v, *kind) in enumerate(plan['values']):
            for x in simpler_values(v):
                yield with_key(plan, 'values', replace_at(plan['values'], k, [i, x] + kind))
            if kind:
                yield with_key(plan, 'values', replace_at(plan['values'], k, [i, v]))
        for i, ops in enumerate(ths):
            for j, o in enumerate(ops):
                if o[0] in ('val', 'seq') and len(o) > 4:
                    yield with_key(plan, 'threads', replace_at(ths, i, replace_at(ops, j, o[:4])))
        for i, m in enumerate(plan['modules']):
            for kind in ('enums', 'dicts', 'funcs'):
                for x in drop_items(m.get(kind) or []):
                    yield with_key(plan, 'modules', replace_at(plan['modules'], i, with_key(m, kind, x)))
            for j, d in enumerate(m['dicts']):
                for x in drop_items(d['fields']):
                    yield with_key(plan, 'modules', replace_at(plan['modules'], i, with_key(
                        m, 'dicts', replace_at(m['dicts'], j, with_key(d, 'fields', x)))))


def simpler_values(v):
    if isinstance(v, dict) and '__e__' not in v:
        for k in v:
            if k != '__t__':
                yield {a: b for a, b in v.items() if a != k}
        for k in v:
            for x in simpler_values(v[k]):
                yield dict(v, **{k: x})
    elif isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
        for i in range(len(v)):
            for x in simpler_values(v[i]):
                yield replace_at(v, i, x)


class C13(Validate):
    id = 'C13'
    rule = ('a run creates one or two modules of typed dictionaries and enums with forward references and lets 1 to '
            '3 threads validate 2 to 8 values each, some of the validations interrupted; each verdict is compared '
            'with that of the same validation as the first one of a fresh process; non-trivial: more than one '
            'validation; distinct by event log')
    budget = {'quick': (20400, 100), 'thorough': (600000, 780)}

    def gen(self, r, tier, index):
        n = r.choice([1, 1, 2, 2, 3])
        plan = self.base_plan(r, n, lambda: r.randint(2, 8 if n == 1 else 4))
        plan['sched'] = [] if n == 1 else threads.schedule(r, n, r.choice([4, 6, 8]), r.choice([5, 15, 40, 100]))
        plan['interrupts'] = self.interrupts(r, n, r.choice([5, 7, 9]), .35)
        if n == 1 and r.random() < .4:          # values that change between validations
            g = Gen(r)
            ops = []
            for o in plan['threads'][0]:
                ops.append(o)
                if r.random() < .5:
                    i, v = plan['values'][o[3]][:2]
                    if isinstance(v, (dict, list)):
                        ops.append(['mut', o[3], g.spoil(v) if r.random() < .7 else
                                    g.a_value(plan['modules'][i], o[2], .8)])
                        ops.append(list(o))
            plan['threads'] = [ops]
        return plan

    def execute(self, plan, stats):
        w = World(plan)
        want = []
        cache = {}
        for ops in plan['threads']:
            before = []
            want.append([])
            for o in ops:
                if o[0] == 'mut':
                    before.append(o)
                    want[-1].append('changed')
                    continue
                once = o[:4] + ['tmp'] * ('tmp' in o[4:])
                k = json.dumps([once, before])
                if k not in cache:
                    def go():
                        for x in before:
                            w.mutate(x)
                        return w.verdict(once)
                    cache[k] = fresh(go)
                want[-1].append(cache[k])
        sch, v, got = self.perform(plan, stats, w, lambda o, i: w.verdict(o))
        probes = {}
        if v is None:
            for i, ops in enumerate(plan['threads']):
                for j, (o, (g, hit)) in enumerate(zip(ops, got[i])):
                    x = want[i][j]
                    probes[x] = probes.get(x, 0) + 1
                    if not hit and g != x and v is None:
                        v = {'class': 'verdict-differs', 'detail': 'validation %d of thread %d: %r against %s is %s, '
                             'on its own it is %s' % (j, i, w.values[o[3]], text(o[2]), g, x)}
        return self.result(sch, v, probes, plan)


class C14(Validate):
    id = 'C14'
    rule = ('a run creates one or two modules of typed dictionaries and enums with forward references and lets 1 to '
            '3 threads validate 2 to 8 values each, half of the runs with interrupts; values and types are compared '
            'with descriptions of them made before, in runs with a single thread after each validation; non-trivial: '
            'more than one validation; distinct by event log')
    budget = {'quick': (40800, 100), 'thorough': (1200000, 780)}

    def gen(self, r, tier, index):
        n = r.choice([1, 1, 1, 2, 3])
        plan = self.base_plan(r, n, lambda: r.randint(2, 8 if n == 1 else 4))
        plan['sched'] = [] if n == 1 else threads.schedule(r, n, r.choice([4, 6, 8]), r.choice([5, 15, 40]))
        plan['interrupts'] = self.interrupts(r, n, r.choice([5, 7, 9]), .5)
        return plan

    def execute(self, plan, stats):
        w = World(plan)
        values = [snapshot(v) for v in w.values]
        state = w.state()
        found = []

        def look(i, o):
            if found or len(plan['threads']) > 1 and o is not None:
                return
            where = 'after validating against %s' % text(o[2]) if o else 'afterwards'
            for k, v in enumerate(w.values):
                if snapshot(v) != values[k]:
                    found.append({'class': 'value-changed', 'detail': '%s: value %d was %r and is %r' % (
                        where, k, plan['values'][k][1], v)})
                    return
            now = w.state()
            if now != state:
                a, b = next((a, b) for a, b in zip(state, now) if a != b)
                found.append({'class': 'type-changed', 'detail': '%s: %r has become %r' % (where, a, b)})
        sch, v, got = self.perform(plan, stats, w, lambda o, i: w.verdict(o), look)
        if v is None:
            look(0, None)
            v = found[0] if found else None
        probes = {}
        for g in got:
            for x, hit in g:
                k = 'interrupted' if hit else x
                probes[k] = probes.get(k, 0) + 1
        return self.result(sch, v, probes, plan)


EXC = {'TypeError': TypeError, 'KeyError': KeyError, 'ValueError': ValueError, 'RuntimeError': RuntimeError,
       'AttributeError': AttributeError, 'StopIteration': StopIteration, 'AssertionError': AssertionError,
       'RecursionError': RecursionError}


class C15(Validate):
    id = 'C15'
    rule = ('a run creates 1 to 3 checked functions or methods with annotated parameters and lets 1 to 3 threads '
            'make 2 to 6 calls each, nested and recursive ones among them, some interrupted; which arguments and '
            'results conform is decided by validating each on its own in a fresh process; the body records its '
            'executions and arguments; non-trivial: more than one call; distinct by event log')
    budget = {'quick': (7650, 100), 'thorough': (250000, 780)}

    def gen(self, r, tier, index):
        g = Gen(r)
        m = g.module()
        names = [x['name'] for x in m['dicts'] + m['enums']]
        funcs = []
        for i in range(r.randint(1, 3)):
            params = []
            kwonly = False
            for j in range(r.choice([1, 1, 2, 3])):
                t = g.type(r.choice([0, 1, 1, 2]), names) if r.random() < .9 else None
                if t and t[0] == 'union':
                    t = ['ref', r.choice(names)]
                kwonly = kwonly or j > 0 and r.random() < .15
                params.append({'name': 'p%d' % j, 't': t, 'kwonly': kwonly})
            ret = g.type(1, names) if r.random() < .7 else None
            if ret and ret[0] == 'union':
                ret = ['None'] if r.random() < .3 else ['ref', r.choice(names)]
            if ret is None and not any(p['t'] for p in params):
                ret = ['int']
            funcs.append({'local': r.random() < .25, 'name': 'fn%d' % i, 'kind': r.choice(['function', 'function', 'method']), 'params': params,
                          'ret': ret, 'noret': False})
            if funcs[-1]['kind'] == 'function' and r.random() < .1:
                funcs[-1]['noret'] = True
        m['funcs'] = funcs
        values = []

        def val(t, good):
            values.append([0, g.a_value(m, t, good) if t else g.any_value()])
            return len(values) - 1

        def call(depth):
            k = r.randrange(len(funcs))
            f = funcs[k]
            args = [val(p['t'], .75) for p in f['params']]
            by_name = r.randint(0, len(args)) if r.random() < .4 else len(args)
            if r.random() < .25:
                out = ['raise', r.choice(sorted(EXC))]
            else:
                out = ['ret', val(f['ret'], .75)]
            nested = [call(depth - 1) for _ in range(r.choice([1, 1, 2]))] if depth > 0 and r.random() < .35 else []
            odd = r.choice(['missing', 'unknown', 'twice']) if r.random() < .06 else None
            return ['call', k, args, by_name, out, nested, odd]
        n = r.choice([1, 1, 2, 2, 3])
        ths = [[call(2) for _ in range(r.randint(2, 5 if n == 1 else 3))] for _ in range(n)]
        return {'modules': [m], 'values': values, 'threads': ths,
                'sched': [] if n == 1 else threads.schedule(r, n, r.choice([3, 5, 7, 8]), r.choice([5, 15, 40, 100])),
                'interrupts': self.interrupts(r, n, r.choice([5, 7, 9]), .3)}

    def execute(self, plan, stats):
        w = World(plan)
        mod = w.mods[0]
        m = plan['modules'][0]
        if not m.get('funcs'):
            return {'violation': None, 'log': []}
        hints = []
        for f in m['funcs']:
            raw = mod.__dict__['C_' + f['name']].raw if f['kind'] == 'method' else mod.__dict__['raw_' + f['name']]
            hints.append(typing.get_type_hints(raw))
        cache = {}
        v = sys.modules['ts2python.json_validation']

        def conforms(i, name, k):
            t = hints[i].get(name)
            if t is None:
                return 'accepted'
            key = (i, name, k)
            if key not in cache:
                def go():
                    try:
                        v.validate_type(w.values[k], t)
                        return 'accepted'
                    except Exception as e:
                        return type(e).__name__
                cache[key] = fresh(go)
            return cache[key]

        def prepare(o):
            f = m['funcs'][o[1] % len(m['funcs'])]
            i = o[1] % len(m['funcs'])
            for p, k in zip(f['params'], o[2]):
                conforms(i, p['name'], k)
            if o[4][0] == 'ret':
                conforms(i, 'return', o[4][1])
            for x in o[5]:
                prepare(x)
        for ops in plan['threads']:
            for o in ops:
                prepare(o)

        problems = []
        counts = {}
        current = {}
        sch_box = []

        def do(o, t):
            i = o[1] % len(m['funcs'])
            f = m['funcs'][i]
            args = [w.values[k] for k in o[2]][:len(f['params'])]
            runs = []
            exc = EXC[o[4][1]]('planned') if o[4][0] == 'raise' else None
            ret = w.values[o[4][1]] if exc is None else None
            me = sch_box[0].me()
            fired = len(me.fired)

            def ctl(*a):
                runs.append(a)
                may, me.may = me.may, False
                for x in o[5]:
                    me.may = may
                    do(x, t)
                me.may = may
                if exc is not None:
                    raise exc
                return ret
            pos, kw = [], {}
            for j, (p, a) in enumerate(zip(f['params'], args)):
                if p.get('kwonly') or j >= o[3]:
                    kw[p['name']] = a
                else:
                    pos.append(a)
            odd = o[6] if len(o) > 6 else None
            if odd == 'missing':
                pos[-1:] = []
                kw.pop(f['params'][-1]['name'], None)
            elif odd == 'unknown':
                kw['zz'] = 1
            elif odd == 'twice' and pos:
                kw[f['params'][0]['name']] = args[0]
            elif odd:
                odd = None
            res, err = None, None
            try:
                if f['kind'] == 'method':
                    res = mod.__dict__['C_' + f['name']]().m(ctl, *pos, **kw)
                else:
                    res = mod.__dict__[f['name']](ctl, *pos, **kw)
            except (threads.Stop, disk.HarnessError):
                raise
            except BaseException as e:
                err = e
            hit = len(me.fired) > fired
            bad = [conforms(i, p['name'], k) for p, k in zip(f['params'], o[2])]
            bad = [b for b in bad if b != 'accepted']
            what = None
            kind = None
            if odd:         # a call that can only fail
                kind = 'not callable like this'
                what = 'ran or succeeded although called with %s arguments' % odd if runs or err is None else None
            elif len(runs) > 1:
                what = 'ran %d times' % len(runs)
            elif bad and runs:
                what = 'ran although an argument does not conform'
            elif any(len(a) != len(args) or any(x is not y for x, y in zip(a, args)) for a in runs):
                what = 'got other arguments'
            elif hit:
                kind = 'interrupted'
            elif bad:
                kind = 'argument rejected'
                if err is None:
                    what = 'did not report that an argument does not conform'
                elif not isinstance(err, (TypeError, ValueError)) and all(
                        b in ('TypeError', 'ValueError') for b in bad):
                    what = 'raised %r instead of a type or value error' % err
            elif not runs:
                what = 'did not run although all arguments conform, but raised %r' % err
            elif exc is not None:
                kind = 'body raises'
                if err is not exc:
                    what = 'raised or returned %r instead of its exception' % (err or res)
            else:
                ok = 'accepted' if f.get('noret') or not f.get('ret') else conforms(i, 'return', o[4][1])
                if ok == 'accepted':
                    kind = 'runs'
                    if err is not None:
                        what = 'raised %r instead of returning its result' % err
                    elif res is not ret:
                        what = 'returned another result'
                else:
                    kind = 'result rejected'
                    if err is None:
                        what = 'returned a result that does not conform'
                    elif not isinstance(err, (TypeError, ValueError)) and ok in ('TypeError', 'ValueError'):
                        what = 'raised %r instead of a type error' % err
            if what:
                problems.append('%s(%s) %s, called with %r%s' % (
                    f['name'], ', '.join(text(p['t']) if p.get('t') else '?' for p in f['params']), what, args,
                    '; other calls in progress or before' if len(plan['threads']) > 1 else ''))
            if kind:
                counts[kind] = counts.get(kind, 0) + 1
            return (len(runs), type(err).__name__ if err is not None else 'ok', what)

        sch, viol, got = self.perform(plan, stats, w, do, box=sch_box)
        if viol is None and problems:
            viol = {'class': 'checked-call', 'detail': problems[0]}
        return self.result(sch, viol, counts, plan)

    def shrink(self, plan):
        for i, ops in enumerate(plan['threads']):
            for j, o in enumerate(ops):
                for x in drop_items(o[5]):
                    yield with_key(plan, 'threads', replace_at(plan['threads'], i, replace_at(ops, j, o[:5] + [x] + o[6:])))
                for x in o[5]:
                    yield with_key(plan, 'threads', replace_at(plan['threads'], i, replace_at(ops, j, x)))
        for x in Validate.shrink(self, plan):
            # functions are referred to by number, values by index
            if all(m.get('funcs') for m in x['modules']) and x['modules'][0]['funcs'] == plan['modules'][0]['funcs']:
                yield x


PROPS = {c.id: c() for c in (C13, C14, C15)}
