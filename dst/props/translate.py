"""C10, C11, C19: translations in one process, one after the other and interleaved."""

import os
import re
import sys

from .. import core, disk, gen_ts, simos, target, threads
from ..core import drop_items, replace_at, with_key
from ..disk import Violation
from ..world import RX_STAMP, diff, set_options
from .files import simpler_texts, subst

REAL = ['ts2pythonParser.py', 'DHParser', 'Python interpreter and standard library, real threads']
STUB = ['thread scheduling (which thread runs between any two points at which the interpreter may switch)',
        'locks (waiting goes through the scheduler)', 'clock, random bytes', 'delivery of interrupts']

DH_STATE = ('configuration.py', 'toolkit.py', 'compile.py', 'pipeline.py', 'preprocess.py', 'error.py', 'log.py',
            'transform.py', 'stringview.py')

ILLEGAL = [{'ts2python.RenderAnonymous': 'bogus'}, {'ts2python.RenderAnonymous': ''},
           {'ts2python.BaseClassName': ''}, {'ts2python.BaseClassName': 7}, {'ts2python.ClassDecorator': None},
           {'ts2python.ClassDecorator': 5}, {'ts2python.BaseClassName': None},
           {'ts2python.RenderAnonymous': None}, {'ts2python.BaseClassName': 'a.b.c.'}]

CODES = {}


def codes(kind):
    """code objects under control of the scheduler"""
    if kind not in CODES:
        base = os.path.realpath(target.prepare()) + os.sep
        plain = target.prepare() + os.sep
        dh = os.path.dirname(sys.modules['DHParser'].__file__) + os.sep
        if kind == 'repo':
            CODES[kind] = threads.code_objects((base, plain))
        elif kind == 'state':
            CODES[kind] = threads.code_objects((base, plain) + tuple(dh + x for x in DH_STATE))
        else:
            CODES[kind] = threads.code_objects((base, plain, dh))
    return CODES[kind]


def normal(text):
    if not isinstance(text, str):
        return repr(text)
    return RX_STAMP.sub(r'# Generated by ts2python version \1 on <STAMP>\n', text)


def unplaced(message):
    """without the path of the copy of the translator that is being run and without addresses of objects"""
    for base in (target.prepare(), os.path.realpath(target.prepare())):
        message = message.replace(base, '<BASE>')
    return re.sub(r' at 0x[0-9a-f]+', '', message)


def translate(job, touched=None):
    """one translation: (text, messages) or the exception; options are set for this thread"""
    from DHParser.configuration import set_config_value
    from DHParser.error import canonical_error_strings
    t = target.translator()
    opts = job.get('opts') or {}
    try:
        if touched is not None:
            for k in sorted(touched):
                if k not in opts:
                    set_config_value(k, DEFAULTS[k], allow_new_key=True)
            touched.clear()
            touched.update(opts)
        set_options(opts)
        if job.get('stack'):
            result, errors = with_little_stack(lambda: t.compile_src(job['src']), job['stack'])
        else:
            result, errors = t.compile_src(job['src'])
        return ['ok', normal(result), [unplaced(m) for m in canonical_error_strings(errors)]]
    except (threads.Stop, SystemExit):
        raise
    except BaseException as e:
        close_presets(e)
        return ['exc', type(e).__name__, unplaced(str(e))[:200]]


def calm(code):
    """DHParser leaves its presets open when it is interrupted while it reads a configuration
    value.  This is not a matter of ts2python, which can neither notice nor prevent it."""
    return code.co_filename.endswith('/DHParser/configuration.py')


def close_presets(e):
    """the same for an exhausted stack"""
    cfg = sys.modules['DHParser.configuration']
    tb = e.__traceback__
    while tb is not None:
        if calm(tb.tb_frame.f_code) and cfg.ACCESSING_PRESETS and isinstance(e, RecursionError):
            cfg.finalize_presets()
        tb = tb.tb_next


def with_little_stack(f, left):
    """calls f with that many frames left before the stack is exhausted"""
    depth = 0
    fr = sys._getframe()
    while fr is not None:
        depth += 1
        fr = fr.f_back
    spare = sys.getrecursionlimit() - depth - left - 4

    def down(n):
        return down(n - 1) if n > 0 else f()
    return down(max(0, spare))


DEFAULTS = {}


def pristine(jobs, cache):
    """what each job yields in a fresh process that has not translated anything yet"""
    out = []
    for j in jobs:
        key = repr((j['src'], sorted((j.get('opts') or {}).items(), key=str)))
        if key not in cache:
            def go(j=j):
                simos.activate(simos.Sim('/nonexistent', None))
                try:
                    return {'r': translate({'src': j['src'], 'opts': j.get('opts')})}
                finally:
                    simos.deactivate()
            r = core.forked(go, 60, 120)
            if 'r' not in r:
                raise disk.HarnessError('reference translation: %r' % (r,))
            cache[key] = r['r']
        out.append(cache[key])
    return out


class Translate(core.Prop):
    real = REAL
    stub = STUB
    measure = 'distinct sequences of (thread, function, kind of point) at which control changed hands, by hash'
    assumptions = ['the interpreter switches threads only at function starts, backward jumps and after calls of C '
                   'functions (CPython 3.12)', 'garbage collection is switched off during a run']

    def setup(self):
        target.translator()
        from DHParser.configuration import get_config_value
        # read in a child, because reading may initialise something
        keys = sorted(gen_ts.OPTION_VALUES)
        r = core.forked(lambda: {k: get_config_value(k, gen_ts.OPTION_VALUES[k][0]) for k in keys}, 60, 60)
        DEFAULTS.update({k: r[k] for k in keys})
        for k in ('repo', 'state', 'all'):
            codes(k)

    def probe(self, r):
        return {'src': r.choice(gen_ts.PROBES), 'opts': gen_ts.options(r, r.choice([0, 0, 0, 1]))}

    def job(self, r, size=None, kinds=None):
        if r.random() < .12:
            return self.probe(r)
        kind = r.choices(*zip(*(kinds or (('clean', 8), ('warn', 4), ('any', 3), ('error', 3)))))[0]
        size = size or r.choice([1, 2, 2, 3, 4])
        return {'src': gen_ts.source(r, size=size if r.random() < .9 else None, kinds=kind) + '\n',
                'opts': gen_ts.options(r)}

    def run_threads(self, plan, stats, judge):
        """threads work through their jobs under the schedule"""
        cache = {}
        want = [pristine(js, cache) for js in plan['threads']]
        sch = threads.Scheduler(codes(plan.get('scope', 'repo')), stats, calm=calm)
        got = [[] for _ in plan['threads']]

        def body(i):
            def go():
                touched = set()
                for j in plan['threads'][i]:
                    n = len(sch.me().fired)
                    res = translate(j, touched)
                    got[i].append((res, len(sch.me().fired) > n))
                    sch.note('job', i, core.digest(res))
            return go
        simos.activate(simos.Sim('/nonexistent', None))
        v = None
        try:
            outs = sch.run([body(i) for i in range(len(plan['threads']))], plan.get('sched', ()),
                           plan.get('interrupts', ()))
        except Violation as e:
            v = {'class': e.cls, 'detail': e.detail}
            outs = []
        finally:
            simos.deactivate()
        if v is None:
            for i, o in enumerate(outs):
                if o.get('exc'):
                    raise disk.HarnessError('thread %d: %s' % (i, o))
            v = judge(want, got)
        return {'violation': v, 'log': sch.log + [sch.events, tuple(sch.trace)],
                'inter': [core.digest(sch.trace)], 'simtime': 0, 'ops': sch.events,
                'probes': {}, 'nontrivial': bool(sch.trace) or bool(plan.get('interrupts'))}

    def compare(self, job, want, got, where):
        if want == got:
            return None
        if want[0] == got[0] == 'exc':
            if want[1] == got[1]:
                return None
        if got[0] == 'exc':
            what = 'raises %s: %s' % (got[1], got[2])
            if want[0] == 'exc':
                what += ', alone it raises %s: %s' % (want[1], want[2])
        elif want[0] == 'exc':
            what = 'succeeds, alone it raises %s: %s' % (want[1], want[2])
        elif want[1] != got[1]:
            what = 'yields a different text: ' + diff(got[1], want[1])
        else:
            what = 'yields the messages %r, alone %r' % (got[2], want[2])
        return {'class': 'translation-differs', 'detail': '%s, options %r, source %r: %s' % (
            where, job.get('opts'), job['src'][:200], what)}

    def shrink(self, plan):
        ths = plan['threads']
        for i in range(len(ths)):
            if len(ths) > 1:
                yield with_key(plan, 'threads', ths[:i] + ths[i + 1:])
        for i, js in enumerate(ths):
            for x in drop_items(js):
                yield with_key(plan, 'threads', replace_at(ths, i, x))
        for s in threads.shrink_schedule(plan.get('sched') or []):
            yield with_key(plan, 'sched', s)
        for s in drop_items(plan.get('interrupts') or []):
            yield with_key(plan, 'interrupts', s)
        for i, js in enumerate(ths):
            for k, j in enumerate(js):
                if j.get('opts'):
                    for o in list(j['opts']):
                        d = dict(j['opts'])
                        d.pop(o)
                        yield with_key(plan, 'threads', replace_at(ths, i, replace_at(js, k, with_key(j, 'opts', d))))
        texts = {j['src'] for js in ths for j in js if len(j['src']) > 30}
        for t in sorted(texts, key=len, reverse=True):
            for u in simpler_texts(t):
                yield subst(plan, t, u.rstrip('\n') + '\n')


class C10(Translate):
    id = 'C10'
    rule = ('a run lets 2 to 4 threads of a fresh process translate 1 to 3 sources each, with options of their own, '
            'switching between them at seeded points; sources share a small pool of names; every result is compared '
            'with that of the same translation alone in a fresh process; non-trivial: control changed hands '
            'inside a translation; distinct by event log')
    budget = {'quick': (2040, 110), 'thorough': (20000, 780)}

    def gen(self, r, tier, index):
        n = r.choice([2, 2, 2, 3, 3, 4])
        shared = r.random()
        base = self.job(r)
        ths = []
        for i in range(n):
            js = []
            for _ in range(r.choice([1, 1, 2] if n > 2 else [1, 2, 2, 3])):
                if shared < .3:
                    js.append({'src': base['src'], 'opts': gen_ts.options(r)})
                elif shared < .5:
                    js.append({'src': gen_ts.mutate(r, base['src']) + '\n', 'opts': gen_ts.options(r)})
                else:
                    js.append(self.job(r))
            ths.append(js)
        scope = r.choice(['repo', 'repo', 'repo', 'state', 'state', 'all'])
        scale = {'repo': 12, 'state': 14, 'all': 17}[scope]
        return {'threads': ths, 'scope': scope,
                'sched': threads.schedule(r, n, r.choice([scale, scale, scale - 3, scale - 6]),
                                          r.choice([10, 30, 100, 300]))}

    def execute(self, plan, stats):
        def judge(want, got):
            for i, js in enumerate(plan['threads']):
                for j, w, (g, _) in zip(js, want[i], got[i]):
                    v = self.compare(j, w, g, 'thread %d of %d' % (i, len(plan['threads'])))
                    if v:
                        return v
        return self.run_threads(plan, stats, judge)


class C11(Translate):
    id = 'C11'
    rule = ('a run is a sequence of 3 to 8 translations in one process, on one or two threads, among them sources '
            'with errors, other and illegal options, an exhausted stack and translations that raise; each result is '
            'compared with that of the same translation as the first one of a fresh process; non-trivial: at least '
            'two translations compared; distinct by event log')
    budget = {'quick': (2040, 110), 'thorough': (20000, 780)}

    def gen(self, r, tier, index):
        n = r.choice([1, 1, 1, 2])
        ths = []
        pool = [self.job(r) for _ in range(3)]
        for _ in range(n):
            js = []
            for _ in range(r.randint(3, 7) if n == 1 else r.randint(2, 4)):
                k = r.random()
                if k < .45:
                    j = self.job(r)
                elif k < .65:
                    j = dict(r.choice(pool))
                elif k < .75:
                    j = dict(r.choice(pool), opts=gen_ts.options(r))
                elif k < .85:
                    j = dict(r.choice(pool), opts=r.choice(ILLEGAL), judge=False)
                elif k < .93:
                    j = dict(r.choice(pool), stack=r.choice([20, 40, 60, 80, 100, 140, 180, 240, 320]), judge=False)
                else:
                    d = r.choice([20, 40, 80, 150])
                    j = {'src': 'interface Foo { a: ' + '{ b: ' * d + 'string' + ' }' * d + ' }\n', 'judge': False}
                js.append(j)
            js.append(dict(r.choice(pool)) if r.random() < .6 else self.probe(r))
            ths.append(js)
        return {'threads': ths, 'scope': 'repo', 'sched': []}

    def execute(self, plan, stats):
        for js in plan['threads']:
            for j in js:
                if j.get('stack'):
                    stats['fault:stack exhausted'] = stats.get('fault:stack exhausted', 0) + 1
                if j.get('opts') in ILLEGAL:
                    stats['fault:illegal option'] = stats.get('fault:illegal option', 0) + 1

        def judge(want, got):
            for i, js in enumerate(plan['threads']):
                for k, (j, w, (g, _)) in enumerate(zip(js, want[i], got[i])):
                    if j.get('judge', True):
                        v = self.compare(j, w, g, 'translation %d of thread %d' % (k, i))
                        if v:
                            return v
        r = self.run_threads(plan, stats, judge)
        r['nontrivial'] = sum(len(js) for js in plan['threads']) > 1
        r['inter'] = [r['digest'] if 'digest' in r else core.digest(r['log'])]
        return r


C11.measure = 'distinct event logs (sequence of translations and their results)'


class C19(Translate):
    id = 'C19'
    rule = ('a run translates 2 to 5 sources on 1 to 3 threads of a fresh process; 1 to 3 of the translations are '
            'broken off at seeded points by KeyboardInterrupt, MemoryError or RecursionError or run out of stack; '
            'all other results are compared with those of the same translation alone in a fresh process; non-trivial: '
            'an interrupt was delivered; distinct by event log')
    budget = {'quick': (2295, 110), 'thorough': (20000, 780)}

    def gen(self, r, tier, index):
        n = r.choice([1, 1, 1, 2, 2, 3])
        pool = [self.job(r) for _ in range(2)]
        ths = []
        for _ in range(n):
            js = [dict(r.choice(pool)) if r.random() < .5 else self.job(r)
                  for _ in range(r.randint(2, 4) if n == 1 else r.randint(1, 3))]
            if r.random() < .25:
                js.insert(0, dict(r.choice(pool), stack=r.choice([30, 60, 90, 120, 160, 200]), judge=False))
            ths.append(js)
        ths[0].append(dict(r.choice(pool)) if r.random() < .4 else self.probe(r))
        scope = r.choice(['repo', 'repo', 'repo', 'repo', 'state', 'all'])
        scale = {'repo': 13, 'state': 15, 'all': 18}[scope]
        ints = [{'t': r.choice([0, 0, r.randrange(n)]), 'n': int(2 ** r.uniform(0, scale)),
                 'exc': r.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'RecursionError'])}
                for _ in range(r.choice([1, 1, 2, 3]))]
        return {'threads': ths, 'scope': scope, 'interrupts': ints,
                'sched': [] if n == 1 else threads.schedule(r, n, scale, r.choice([0, 5, 20, 60]))}

    def execute(self, plan, stats):
        def judge(want, got):
            for i, js in enumerate(plan['threads']):
                for k, (j, w, (g, hit)) in enumerate(zip(js, want[i], got[i])):
                    if j.get('judge', True) and not hit:
                        v = self.compare(j, w, g, 'translation %d of thread %d' % (k, i))
                        if v:
                            return v
        for js in plan['threads']:
            for j in js:
                if j.get('stack'):
                    stats['fault:stack exhausted'] = stats.get('fault:stack exhausted', 0) + 1
        return self.run_threads(plan, stats, judge)


PROPS = {c.id: c() for c in (C10, C11, C19)}
