"""C08, C09: batches of files, over worker processes, threads and custom executors."""

import os

from .. import core, disk, gen_ts, pool, simos, target, world
from ..core import drop_items, replace_at, with_key
from ..disk import Violation
from ..world import World, put_files, read_bytes, run_cli, set_options, spell, Tree, diff, unreadable
from .files import CLI_FLAGS, Files, Gen, io_fault

PARALLEL = ['procs', 'procs', 'procs', 'threads', 'submit-procs', 'submit-threads']
PROGRAM = 'ts2pythonParser.py'
EXT = {}


class BatchWorld(World):
    """plan steps: edit, del, clock, mtime as in World; 'batch'"""

    def body(self, run, root):
        if run['mode'] != 'cli1':
            return super().body(run, root)

        def go():
            os.chdir(os.path.join(root, run.get('cwd', '.')))
            t = target.translator()
            src, dst = spell(run['src'], root), spell(run['dst'], root)
            got = []

            def alone(names, out, **kw):
                got.append(t.process_file(src, dst))
                return [x for x in got if x]
            t.batch_process = alone
            try:
                run_cli(t, [PROGRAM, src, '-o', os.path.dirname(dst) or '.'] + list(run.get('argv', [])))
            except SystemExit:
                if not got:
                    raise
            return {'ret': got[0]}
        return go

    def messages_body(self, run, root):
        if run['mode'] != 'cli1':
            return super().messages_body(run, root)

        def go():
            os.chdir(os.path.join(root, run.get('cwd', '.')))
            t = target.translator()
            src, dst = spell(run['src'], root), spell(run['dst'], root)
            got = []

            def alone(names, out, **kw):
                got.append(t.compile_src(src)[1])
                return []
            t.batch_process = alone
            run_cli(t, [PROGRAM, src, '-o', os.path.dirname(dst) or '.'] + list(run.get('argv', [])))
            from DHParser.error import canonical_error_strings
            return list(canonical_error_strings(got[0])), max([e.code for e in got[0]], default=0)
        return go

    # ------------------------------------------------------------------ batch
    def batch_body(self, step):
        kind = step['pool']

        def go():
            os.chdir(os.path.join(self.root, step.get('cwd', '.')))
            t = target.translator()
            pool.install(step.get('n', 2))
            simos.SIM.listseed = step.get('list', 0)
            import sys
            sys.argv = [PROGRAM]
            names = [spell(x, self.root) for x in step['names']]
            out = spell(step['out'], self.root)
            if step['mode'] == 'cli':
                return run_cli(t, [PROGRAM] + names + (['-o', out] if step.get('o', True) else [])
                               + list(step.get('argv', [])), catch=True)
            from DHParser.configuration import access_presets, finalize_presets, set_config_value, set_preset_value
            opts = dict(step.get('opts', {}))
            if kind in ('threads', 'submit-threads'):
                # threads do not share the configuration of the thread they are started from
                access_presets()
                for k, v in opts.items():
                    set_preset_value(k, v, allow_new_key=True)
                finalize_presets()
            set_options(opts)
            log = []
            kw = {'log_func': log.append} if step.get('logged') else {}
            if kind == 'threads':
                set_config_value('debug_parallel_execution', 'multithreading')
            elif kind == 'serial':
                set_config_value('batch_processing_parallelization', False)
            elif kind != 'procs':
                if kind == 'submit-serial':
                    from DHParser.toolkit import SingleThreadExecutor
                    ex = SingleThreadExecutor()
                elif kind == 'submit-lazy':
                    ex = Lazy(step.get('lazy', 0))
                else:
                    ex = (pool.SimProcessPool if kind == 'submit-procs' else pool.SimThreadPool)()
                with ex:
                    return {'ret': list(t.batch_process(names, out, submit_func=ex.submit, **kw)), 'log': log}
            return {'ret': list(t.batch_process(names, out, **kw)), 'log': log}
        return go

    def files_of(self, step):
        """names of the files of a batch, in order, as the translator is given them"""
        if step.get('dir'):
            d = self.path(self.nr(step, step['names'][0]))
            try:
                fns = sorted(f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)))
            except OSError:
                return []
            simos.random_order(fns, step.get('list', 0))
            return [os.path.join(step['names'][0], f) for f in fns]
        return list(step['names'])

    def ext(self):
        """extension of the results of a batch"""
        if not EXT:
            root = os.path.join(self.base, 'ext')
            os.makedirs(os.path.join(root, 'o'))
            put_files(root, {'probe.ts': 'interface Foo { alpha: string; }\n'}, (), {}, {})
            k = disk.Kernel(root)
            k.start(0)

            def go(extra):
                os.chdir(root)
                t = target.translator()
                from DHParser.configuration import set_config_value
                set_config_value('batch_processing_parallelization', False)
                t.batch_process(['probe.ts'], 'o')
            k.spawn('x', go, simos.Sim(root, None))
            k.run()
            found = [f for f in os.listdir(os.path.join(root, 'o')) if f.startswith('probe.')]
            EXT['ext'] = found[0][5:] if found else '.sxpr'
        return EXT['ext']

    def do_batch(self, step):
        cli = step['mode'] == 'cli'
        names = self.files_of(step)
        out = step['out']
        runs = []
        for n in names:
            stem = os.path.splitext(os.path.basename(n))[0]
            run = {'mode': 'cli1' if cli else 'api', 'src': n, 'dst': os.path.join(out, stem + self.ext()),
                   'opts': step.get('opts', {}), 'argv': step.get('argv', []), 'cwd': step.get('cwd', '.')}
            runs.append(run)
        texts = [self.source_text(r) for r in runs]
        refs = [self.reference(r, t) for r, t in zip(runs, texts)]
        outs = [self.outputs(r) for r in runs]
        pre = Tree(self.root)
        dst_pre = [self.norm(read_bytes(self.path(o[0]))) for o in outs]
        k = self.kernel(dict(step, faults=[dict(f, path=f['path'].replace('@EXT', self.ext())) if f.get('path') else f
                                           for f in step.get('faults', ())]))
        k.services = pool.Service(k)

        def on_step(a, kind, path):
            for i, o in enumerate(outs):
                d = read_bytes(self.path(o[0]))
                n = self.norm(d)
                if n != dst_pre[i] and n != refs[i]['dest']:
                    self.flag('C09', 'torn-destination', 'after %s: %s %s' % (
                        kind, o[0], 'vanished' if n is None else diff(n, refs[i]['dest'])))
        if self.prop == 'C09':
            k.on_step = on_step
        sim = self.sim(self.root, step)
        try:
            a = k.spawn('m', lambda extra: self.batch_body(step)(), sim)
            k.run()
        except BaseException:
            k.abort()
            self.log.extend(k.log)
            raise
        self.log.extend(k.log)
        self.ops += k.nops
        self.interleavings.append(' '.join(k.interleaving))
        self.now += 20
        res = a.outcome
        self.log.append(('outcome', self.norm(repr(sorted(res.items(), key=str)))))
        fired = [f['kind'] for f in k.fired]
        killed = [x.name for x in k.actors if (x.outcome or {}).get('killed')]
        main_killed = bool(res.get('killed'))
        serious = [f for f in fired if f != 'short']
        escaped = [e for x in k.actors for e in (x.outcome or {}).get('escaped') or ()]
        if escaped:
            raise disk.HarnessError('write outside of the scratch directory: %s' % escaped[:2])

        # what the batch says
        ret = res.get('ret') or {}
        if ret.get('exit'):
            res['exit'] = ret['exit']
        failed = bool(res.get('exc') or res.get('exit'))
        if cli:
            listed = [l.strip() for l in (ret.get('stdout') or '').split('\n')
                      if l.strip().endswith(('_ERRORS.txt', '_WARNINGS.txt'))]
        else:
            listed = list(ret.get('ret') or ())
        listed = [self.rel(step, x) for x in listed]
        expected = []
        for o, f in zip(outs, refs):
            for e in ('_ERRORS.txt', '_WARNINGS.txt'):
                if e in f['msgs'] and not f['out'].get('exc'):
                    expected.append(os.path.normpath(o[1][e]))
        failures = [f['out'].get('exc') for f in refs if f['out'].get('exc')]
        lazy = step['pool'] == 'submit-lazy'

        def check_outputs(i, prop, kinds, why):
            o, f = outs[i], refs[i]
            want = dst_pre[i] if f['fatal'] else f['dest']
            d = self.norm(read_bytes(self.path(o[0])))
            if d != want:
                self.flag(prop, kinds + 'output', '%s of %s %s: %s' % (o[0], names[i], why, diff(d, want)))
            if f['out'].get('exc'):
                return
            m = {e: self.norm(read_bytes(self.path(p))) for e, p in o[1].items()
                 if read_bytes(self.path(p)) is not None}
            if m != f['msgs']:
                self.flag(prop, kinds + 'messages', 'messages files of %s %s: %r, alone: %r' % (
                    names[i], why, m, f['msgs']))

        bad = set(step.get('bad', ()))          # files that a fault of this run is aimed at
        bad |= {i for i, t in enumerate(texts) if unreadable(t, runs[i]) or refs[i]['out'].get('exc')
                or 'fatal' in refs[i] and refs[i]['fatal']}
        if not serious:
            self.probe('undisturbed batch, ' + step['pool'])
            prop = 'C09' if self.disturbed else 'C08'
            for p in {'C08', prop}:
                if not (lazy and failures):
                    for i in range(len(names)):
                        check_outputs(i, p, 'wrong-', 'after %s batch (%s, %d workers)' % (
                            'a repeated' if self.disturbed else 'an undisturbed', step['pool'], step.get('n', 1)))
                if not failures and (sorted(listed) != sorted(expected) if step.get('dir') else listed != expected):
                    self.flag(p, 'wrong-list', 'batch reports %r, expected %r (%s, %d workers)' % (
                        listed, expected, step['pool'], step.get('n', 1)))
                if not failures and not any(x.endswith('_ERRORS.txt') for x in expected) and failed:
                    self.flag(p, 'spurious-failure', 'batch without errors ends with %s %s' % (
                        res.get('exc') or res.get('exit'), res.get('msg', '')))
                if not failures and not cli and failed:
                    self.flag(p, 'spurious-failure', 'batch ends with %s %s' % (
                        res.get('exc') or res.get('exit'), res.get('msg', '')))
            if not self.disturbed:
                self.check_rest(step, pre, outs)
            if not (lazy and failures):
                for i in range(len(names)):
                    if i not in bad:
                        check_outputs(i, 'C09', 'spoilt-', 'in a batch with a bad file')
            self.check_reported(step, names, outs, bad, failed, listed, res, texts, runs, refs)
            self.disturbed = False
            return
        self.disturbed = True
        if main_killed:
            self.probe('batch killed')
            return
        if killed:
            self.probe('worker died')
        else:
            # files no fault was aimed at
            aimed = {i for i in range(len(names)) for f in k.fired if f.get('path') and (
                any(self.path(x).endswith(f['path']) for x in [self.nr(runs[i], names[i]), outs[i][0]] + list(outs[i][1].values())))}
            if all(f.get('path') for f in k.fired) and not any(f.get('sticky') for f in k.fired):
                for i in range(len(names)):
                    if i not in bad | aimed:
                        check_outputs(i, 'C09', 'spoilt-', 'although the failure concerned %s only' % [
                            names[j] for j in sorted(aimed)])
                self.probe('failure aimed at one file')
                bad |= aimed
        if failed:
            self.probe('failure signalled')
            return
        # success is reported: then everything has to be there, apart from files with a fatal error listed
        reported = set()
        for i, o in enumerate(outs):
            p = os.path.normpath(o[1]['_ERRORS.txt'])
            if p in listed and 'Fatal' in (self.norm(read_bytes(self.path(p))) or ''):
                reported.add(i)
        for i in range(len(names)):
            if i not in reported:
                check_outputs(i, 'C09', 'hidden-', 'although the batch reports success (%s)' % (
                    'worker died' if killed else fired))
        mine = {os.path.normpath(p) for i in reported for p in outs[i][1].values()}
        a, b = [x for x in listed if x not in mine], [x for x in expected if x not in mine]
        if a != b and not (step.get('dir') and sorted(a) == sorted(b)):
            self.flag('C09', 'hidden-list', 'batch reports %r instead of %r (%s)' % (
                listed, expected, 'worker died' if killed else fired))
        if reported:
            self.probe('failure listed as a fatal error')
            return
        self.probe('fault without consequence')

    def rel(self, step, x):
        if x.startswith(self.root + '/'):
            return os.path.normpath(x[len(self.root) + 1:])
        return os.path.normpath(os.path.join(step.get('cwd', '.'), x))

    def check_rest(self, step, pre, outs):
        """nothing but the outputs"""
        post = Tree(self.root)
        own = set()
        for o in outs:
            own.add(os.path.normpath(o[0]))
            own.update(os.path.normpath(p) for p in o[1].values())
        outdir = os.path.normpath(os.path.join(step.get('cwd', '.'), step['out'])) if not step['out'].startswith('$') \
            else os.path.normpath(step['out'][6:])
        for p in sorted(set(pre.e) | set(post.e)):
            if p in own or p == outdir:
                continue
            if pre.e.get(p) != post.e.get(p):
                self.flag('C08', 'other-file', '%s was %s by a batch' % (
                    p, 'created' if p not in pre.e else 'changed or removed'))

    def check_reported(self, step, names, outs, bad, failed, listed, res, texts, runs, refs):
        for i in sorted(bad):
            if failed:
                self.probe('bad file reported by an exception or exit status')
                return
            if os.path.normpath(outs[i][1]['_ERRORS.txt']) in listed and \
                    read_bytes(self.path(outs[i][1]['_ERRORS.txt'])):
                self.probe('bad file reported by a messages file')
                continue
            self.flag('C09', 'bad-file-unreported', '%s cannot be translated (%s), but the batch reports %r' % (
                names[i], refs[i]['out'].get('exc') or 'fatal error', listed))

    def step(self, s):
        if s['op'] == 'batch':
            self.do_batch(s)
        else:
            super().step(s)


class Lazy:
    """tasks are performed when they are submitted or when the result is asked for"""

    def __init__(self, bits):
        self.bits = bits
        self.all = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in self.all:
            f.perform()

    def submit(self, fn, *args, **kwargs):
        f = pool.LazyFuture((fn, args, kwargs))
        self.all.append(f)
        self.bits, b = self.bits >> 1, self.bits & 1
        if b:
            for x in reversed(self.all):        # latest first
                x.perform()
        return f


def execute(prop, plan, stats):
    w = BatchWorld(prop, plan, stats)
    try:
        w.setup()
        v = None
        try:
            for i, s in enumerate(plan['steps']):
                w.log.append(('step', i, s['op']))
                w.step(s)
        except Violation as e:
            v = {'class': e.cls, 'detail': w.norm(e.detail)}
            w.log.append(('violation', e.cls))
        return v, w
    finally:
        w.close()


class Batches(Files):
    stub = Files.stub + ['concurrent.futures executors (worker processes are real forked processes of the batch, worker '
                         'threads are real threads; hand-out of tasks, death of workers and completion are simulated)']
    assumptions = Files.assumptions + ['worker processes start as copies of the batch process (fork), as on Linux with '
                                       'this version of Python']

    def execute(self, plan, stats):
        v, w = execute(self.id, plan, stats)
        return {'violation': v, 'log': w.log, 'probes': w.probes,
                'inter': [core.digest(x) for x in w.interleavings], 'simtime': w.simtime, 'ops': w.ops,
                'nontrivial': self.nontrivial(plan, w)}

    def layout(self, r, g, n):
        d = r.choice(['.', 'src', 'src', 'a/b'])
        stems = r.sample(['spec', 'lsp', 'a', 'x.d', 'my.types', 'größe', 'two words', 'spec2', 'b', 'c', 'zz', 'Spec', '.hidden', '_x', '10', '9'], n)
        if d != '.':
            g.dirs.append(d)
        g.src = []
        for i, s in enumerate(stems):
            dd = d if r.random() < .85 else r.choice(['.', 'other'])
            if dd == 'other' and dd not in g.dirs:
                g.dirs.append(dd)
            p = os.path.normpath(os.path.join(dd, s + ('.ts' if r.random() < .93 else r.choice(['.TS', '.tsx', '.mts', '.txt']))))
            g.files[p] = g.now_text[p] = g.text() if hasattr(g, 'now_text') else ''
            g.versions[p] = [g.now_text[p]]
            g.pairs.append({'mode': 'api', 'src': p, 'dst': p})
            g.src.append(p)
        g.out = r.choice(['out', 'out', 'gen/py', d])
        if g.out != '.':
            g.dirs.append(g.out)

    def batch(self, r, g, kinds, **extra):
        n = r.choice([1, 2, 2, 3, 3, 4])
        s = {'op': 'batch', 'mode': 'api', 'names': list(g.src), 'out': g.out, 'pool': r.choice(kinds), 'n': n,
             'rnd': r.randrange(1000), 'pid': r.randrange(2, 30000)}
        if r.random() < .5:
            r.shuffle(s['names'])
        if r.random() < .2 and len(s['names']) > 2:
            s['names'] = s['names'][:-1]
        if r.random() < .5:
            s['logged'] = 1
        if s['pool'] == 'submit-lazy':
            s['lazy'] = r.randrange(64)
        k = r.random()
        if k < .2 and g.dirs:
            s['cwd'] = r.choice(g.dirs)
            s['names'] = [os.path.relpath(x, s['cwd']) for x in s['names']]
            s['out'] = os.path.relpath(s['out'], s['cwd'])
        elif k < .4:
            s['names'] = ['$ROOT/' + x for x in s['names']]
            s['out'] = '$ROOT/' + s['out']
        if g.cli:
            s['mode'] = 'cli'
            s['argv'] = list(g.argv)
            if s['pool'] not in ('serial', 'procs'):
                s['pool'] = 'procs'
            if s['pool'] == 'serial':
                s['argv'].append('--singlethread')
            if r.random() < .3:
                s['argv'].append('-v')
            d = os.path.dirname(g.src[0])
            if d and g.out != d and r.random() < .4:
                s['names'], s['dir'], s['list'] = [d], 1, r.randrange(1000)
                s.pop('cwd', None)
                s['out'] = g.out
            elif len(s['names']) > 1 and r.random() < .2 and not s.get('cwd'):
                s['o'], s['out'] = False, 'out'
        else:
            s['opts'] = dict(g.opts)
        if s['pool'] not in ('serial', 'submit-serial', 'submit-lazy'):
            burst = r.choice([1, 2, 4, 8])
            s['sched'] = [x for _ in range(r.choice([10, 30, 60]))
                          for x in [0] * r.randrange(0, 2 * burst) + [r.randint(1, n)]]
        s.update(extra)
        return s

    def start(self, r, kinds):
        g = Gen(r, self.id)
        g.kinds = kinds
        g.now_text = {}
        g.cli = r.random() < .3
        g.argv = r.choice(CLI_FLAGS)
        if not g.cli and r.random() < .5:
            g.opts = gen_ts.options(r, r.choice([1, 2]))
        return g

    def shrink(self, plan):
        steps = plan['steps']
        for i, s in enumerate(steps):
            if s['op'] == 'batch':
                if not s.get('dir'):
                    for x in drop_items(s['names']):
                        if x:
                            yield with_key(plan, 'steps', replace_at(steps, i, with_key(s, 'names', x)))
                for k in ('logged', 'lazy'):
                    if s.get(k):
                        yield with_key(plan, 'steps', replace_at(steps, i, with_key(s, k, 0)))
                if s.get('n', 1) > 1:
                    yield with_key(plan, 'steps', replace_at(steps, i, with_key(s, 'n', s['n'] - 1)))
        for p in Files.shrink(self, with_key(plan, 'steps', [with_key(s, 'src', '$') if s['op'] == 'batch' else s
                                                             for s in steps])):
            yield with_key(p, 'steps', [{k: v for k, v in s.items() if k != 'src' or s['op'] != 'batch'}
                                        for s in p['steps']])


class C08(Batches):
    id = 'C08'
    rule = ('a run is a history of 1 to 3 batches of 2 to 6 files (API or command line, worker processes, threads, serial, '
            'custom submit functions) with edits in between; every output, messages file and the reported list are '
            'compared with translating each file alone; non-trivial: more than one worker; distinct by event log')
    budget = {'quick': (765, 100), 'thorough': (12000, 780)}

    def nontrivial(self, plan, w):
        return any(s.get('n', 1) > 1 for s in plan['steps'] if s['op'] == 'batch')

    def gen(self, r, tier, index):
        g = self.start(r, (('clean', 10), ('warn', 7), ('any', 3), ('error', 3)))
        self.layout(r, g, r.choice([2, 3, 3, 4, 5, 6]))
        kinds = PARALLEL + ['serial', 'submit-lazy', 'submit-serial']
        steps = [self.batch(r, g, kinds)]
        for _ in range(r.choice([0, 1, 1, 2])):
            for _ in range(r.randrange(3)):
                e = g.edit()
                steps.append(e)
            if r.random() < .3:
                g.opts = gen_ts.options(r, 1)
            steps.append(self.batch(r, g, kinds))
        if r.random() < .2:
            for s in steps:
                if s['op'] == 'batch':
                    s['faults'] = [dict(io_fault(r, ['short']))]
        return g.plan(steps)


class C09(Batches):
    id = 'C09'
    rule = ('a run is a history of batches of 2 to 5 files some of which are missing, directories, undecodable, '
            'syntactically wrong or fail to be read or written at seeded operations, or in which a worker process is '
            'killed; then the batch is repeated undisturbed; non-trivial: a fault fired or a file is bad')
    budget = {'quick': (840, 100), 'thorough': (12000, 780)}

    def nontrivial(self, plan, w):
        return any(k.startswith('fault:') for k in w.stats) or any('bad file' in k for k in w.probes)

    def gen(self, r, tier, index):
        g = self.start(r, (('clean', 10), ('warn', 6), ('any', 3), ('error', 1)))
        n = r.choice([2, 3, 3, 4, 5])
        self.layout(r, g, n)
        kinds = PARALLEL + ['procs', 'serial', 'submit-serial']
        steps = []
        if r.random() < .4:
            steps.append(self.batch(r, g, kinds))
            for _ in range(r.randrange(3)):
                steps.append(g.edit())
        fault = []
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(['bad', 'bad', 'bad', 'aimed', 'aimed', 'kill', 'kill', 'kill', 'any'])
            p = r.choice(g.src)
            if k == 'bad':
                b = r.choice(['missing', 'hex', 'hex', 'syntax', 'syntax', 'empty', 'binary'])
                if b == 'missing':
                    g.files.pop(p, None)
                    steps.append({'op': 'del', 'path': p})
                elif b == 'syntax':
                    steps.append({'op': 'edit', 'path': p, 'text': gen_ts.source(r, kinds='error')})
                elif b == 'empty':
                    steps.append({'op': 'edit', 'path': p, 'text': r.choice(['', ' ', '\n'])})
                else:
                    steps.append({'op': 'edit', 'path': p, 'text': {'hex': (
                        b'interface Foo {\n  alpha: string; // \xff\xfe\n}\n' if b == 'hex' else b'\x00\x01\xff').hex()}})
            elif k == 'aimed':
                f = {'kind': r.choice(['err', 'err', 'err', 'mem', 'int']), 'n': r.choice([0, 0, 1]), 'path': p,
                     'on': r.choice(['open-r', 'read']), 'errno': r.choice(['EIO', 'EACCES'])}
                if r.random() < .3:
                    f.update(kind='err', on='rename', errno=r.choice(['EACCES', 'EIO', 'ENOSPC']),
                             path='/' + os.path.splitext(os.path.basename(p))[0] + r.choice(['@EXT', '_WARNINGS.txt', '_ERRORS.txt']), n=0)
                fault.append(f)
            elif k == 'kill':
                f = io_fault(r, ['kill', 'kill', 'killafter', 'killmid'])
                if r.random() < .4:
                    f['n'] = r.randrange(40)
                    f.pop('on', None)
                    if f['kind'] == 'killmid':
                        f['kind'] = 'kill'
                fault.append(f)
            else:
                fault.append(io_fault(r, ['err', 'power', 'mem']))
        steps.append(self.batch(r, g, kinds, faults=fault))
        if r.random() < .4:
            for p in g.src:
                if p not in g.files or r.random() < .3:
                    g.now_text[p] = g.text()
                    steps.append({'op': 'edit', 'path': p, 'text': g.now_text[p]})
        steps.append(self.batch(r, g, kinds))
        return g.plan(steps)

    def execute(self, plan, stats):
        return super().execute(plan, stats)


PROPS = {c.id: c() for c in (C08, C09)}
