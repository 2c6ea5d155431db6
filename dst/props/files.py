"""C01-C07: what the translator does to files, over histories of runs."""

import os

from .. import core, gen_ts, target, world
from ..core import drop_items, replace_at, with_key

REAL = ['ts2pythonParser.py (process_file, command line, compiler)', 'DHParser', 'Python io, os, tempfile, argparse',
        'the file system below the scratch directory (tmpfs)']
STUB = ['scheduler of processes and threads', 'decision about success, errno, length and survival of every file '
        'operation', 'what a loss of power leaves (journalled meta data, unsynced data)', 'clock, process id, '
        'random bytes, locale encoding', 'locks, flock (blocking goes through the scheduler)']

CLI_FLAGS = [[], [], ['-b', 'BaseModel'], ['-a', 'toplevel'], ['-a', 'functional'], ['-d', '@dataclass'],
             ['-p', '655'], ['-p', '586'], ['-c', '3.8'], ['-c', '3.11'], ['-a', 'type', '-p', '586'],
             ['-p', '655', '586'], ['-k'], ['-p', '435'], ['-p', '604'], ['-p', '646'], ['-d', 'final', '-k'],
             ['-p', '655', '-k']]
ERR_SOON = ['ENOSPC', 'EIO', 'EACCES', 'EDQUOT', 'EROFS', 'EMFILE', 'EBUSY', 'EPERM', 'ESTALE', 'ENOMEM']
OPS = ['write', 'rename', 'open-w', 'fsync', 'close-w', 'unlink']

FOREIGN = ['', '\n', '# written by hand\n', 'source_hash__ = ""\n', 'source_hash__ = "00"\nx = 1\n',
           "source_hash__ = '0123456789abcdef0123456789abcdef'\n", 'größe = "–"\n' * 400,
           '# Generated by ts2python version 0.1 on 2020-01-01 00:00:00\n\nsource_hash__\n']


class Gen:
    def __init__(self, rng, prop):
        self.r = rng
        self.prop = prop
        self.dirs = []
        self.files = {}
        self.pairs = []
        self.versions = {}
        self.opts = {}
        self.tool = 0
        self.sess = 0

    # ---- layout
    def layout(self, n, modes):
        r = self.r
        used = set()
        sdir = r.choice(['.', '.', 'src', 'a/b'])
        ddir = r.choice(['.', '.', 'out', sdir, 'gen/py'])
        for d in (sdir, ddir):
            if d != '.' and d not in self.dirs:
                self.dirs.append(d)
        for i in range(n):
            mode = r.choice(modes)
            while True:
                stem = r.choice(['spec', 'lsp', 'a', 'x.d', 'my.types', 'größe', 'two words', 'spec2', 'b', 'ERRORS'])
                if stem not in used:
                    used.add(stem)
                    break
            src = os.path.normpath(os.path.join(sdir, stem + '.ts'))
            if mode == 'cli':
                dst = src[:-3] + '.py'
            else:
                dst = os.path.normpath(os.path.join(ddir, stem + r.choice(['.py', '.py', '.py', '.pyi', '_types.py'])))
            self.pairs.append({'mode': mode, 'src': src, 'dst': dst})
            self.versions[src] = [self.text()]
            self.current = None
            if mode != 'text':
                self.files[src] = self.versions[src][0]
        self.now_text = {p['src']: self.versions[p['src']][0] for p in self.pairs}
        if self.prop != 'C07':
            self.sess = r.choice([0, 0, 0, 0, 1, 0.7])

    rich_share = .1
    big_share = .03

    def text(self):
        r = self.r
        k = r.random()
        if k < self.rich_share:
            return r.choice(gen_ts.RICH)
        if k < self.rich_share + self.big_share:
            return gen_ts.big(r, gen_ts.source(r, kinds=self.kind()))
        return gen_ts.source(r, kinds=self.kind())

    kinds = (('clean', 10), ('warn', 5), ('any', 4), ('error', 3))

    def kind(self):
        return self.r.choices([k for k, _ in self.kinds], [w for _, w in self.kinds])[0]

    # ---- steps
    def run(self, pair=None, **extra):
        r = self.r
        p = pair or r.choice(self.pairs)
        s = {'op': 'run', 'mode': p['mode'], 'src': p['src'], 'dst': p['dst'], 'rnd': r.randrange(1000),
             'pid': r.choice([1, r.randrange(2, 30000)])}       # in a container it may be the same each time
        if p['mode'] == 'text':
            s['text'] = self.now_text[p['src']]
            if world_is_filename(s['text']):
                s['text'] += '\n'
        cwd = p.get('cwd', '.')
        if p.get('spell') == 'abs':
            s['src'], s['dst'] = '$ROOT/' + p['src'], '$ROOT/' + p['dst']
        elif cwd != '.':
            s['cwd'] = cwd
            s['src'], s['dst'] = os.path.relpath(p['src'], cwd), os.path.relpath(p['dst'], cwd)
        if p['mode'] == 'cli':
            s['argv'] = p.get('argv', [])
        elif self.opts:
            s['opts'] = dict(self.opts)
        if self.tool:
            s['tool'] = self.tool
        if r.random() < .15:
            s['enc'] = r.choice(['ascii', 'latin-1', 'cp1252', 'utf-8'])
        if r.random() < .1:
            s['tz'] = r.randrange(-11, 12)
        if self.sess and p['mode'] != 'cli' and r.random() < self.sess:
            s['sess'] = 1           # inside a process that lives on
            s.pop('enc', None)
        s.update(extra)
        return s

    def edit(self, pair=None):
        r = self.r
        p = pair or r.choice(self.pairs)
        vs = self.versions[p['src']]
        k = r.random()
        if k < .35 and len(vs) > 1:
            t = r.choice(vs[:-1])
        elif k < .75:
            t = gen_ts.mutate(r, self.now_text[p['src']])
        else:
            t = self.text()
        vs.append(t)
        self.now_text[p['src']] = t
        if p['mode'] == 'text':
            return None
        return {'op': 'edit', 'path': p['src'], 'text': t}

    def history(self, n, weights, run_extra=None):
        """random steps; weights: dict kind -> weight"""
        r = self.r
        steps = []
        kinds = sorted(weights)
        for _ in range(n):
            k = r.choices(kinds, [weights[x] for x in kinds])[0]
            p = r.choice(self.pairs)
            if k == 'run':
                steps.append(self.run(p, **(run_extra() if run_extra else {})))
            elif k == 'edit':
                e = self.edit(p)
                if e:
                    steps.append(e)
            elif k == 'opts':
                if r.random() < .4:
                    self.opts = {}
                else:
                    self.opts = gen_ts.options(r, r.choice([1, 1, 2]))
                if p['mode'] == 'cli':
                    p['argv'] = r.choice(CLI_FLAGS)
            elif k == 'tool':
                self.tool = r.choice([0, 1, 2])
            elif k == 'clock':
                steps.append({'op': 'clock', 'dt': r.choice([-1, 1]) * r.choice([1, 60, 86400, 3.2e7])})
            elif k == 'mtime':
                steps.append({'op': 'mtime', 'path': r.choice([p['src'], p['dst']]),
                              'dt': r.choice([-1e6, -10, 10, 1e6])})
            elif k == 'deldst':
                steps.append({'op': 'del', 'path': p['dst']})
            elif k == 'delsrc' and p['mode'] != 'text':
                steps.append({'op': 'del', 'path': p['src']})
        return steps

    def stale_messages(self):
        """messages have to go, but removing the file fails"""
        r = self.r
        p = self.pairs[0]
        texts = [gen_ts.source(r, size=2, kinds=k) for k in r.choice([('warn', 'clean'), ('error', 'clean'),
                                                                      ('error', 'warn'), ('warn', 'error')])]
        if any(world_is_filename(t) for t in texts):
            texts = [t + '\n' for t in texts]
        self.now_text[p['src']] = texts[0]
        if p['mode'] != 'text':
            self.files[p['src']] = texts[0]
        steps = [self.run(p)]
        self.now_text[p['src']] = texts[1]
        if p['mode'] != 'text':
            steps.append({'op': 'edit', 'path': p['src'], 'text': texts[1]})
        steps.append(self.run(p, faults=[{'kind': 'err', 'on': r.choice(['unlink', 'unlink', 'rename']),
                                          'n': r.choice([0, 0, 1, 1, 2]), 'sticky': r.random() < .3,
                                          'errno': r.choice(['EACCES', 'EIO', 'EROFS', 'EBUSY', 'EPERM'])}]))
        if r.random() < .5:
            steps.append(self.run(p))
        return steps

    def edits(self, n):
        """small edits, each followed by a translation"""
        r = self.r
        p = self.pairs[0]
        steps = [self.run(p)]
        odd = r.random() < .3
        for i in range(n):
            t = self.now_text[p['src']]
            vs = self.versions[p['src']]
            k = r.random()
            t = r.choice(vs) if len(vs) > 2 and k < .15 else gen_ts.whitespace(r, t) if k < .45 \
                else gen_ts.odd_edit(r, t) if k < (.9 if odd else .55) else gen_ts.mutate(r, t)
            vs.append(t)
            self.now_text[p['src']] = t
            if p['mode'] != 'text':
                steps.append({'op': 'edit', 'path': p['src'], 'text': t})
            steps.append(self.run(p))
        return steps

    def sweep(self, n):
        """one option after the other is changed and, sometimes, changed back"""
        r = self.r
        p = self.pairs[0]
        t = r.choice(gen_ts.RICH)
        self.now_text[p['src']] = t
        if p['mode'] != 'text':
            self.files[p['src']] = t
        steps = [self.run(p)]
        keys = sorted(gen_ts.OPTION_VALUES)
        r.shuffle(keys)
        for k in keys[:n]:
            before = dict(self.opts)
            if p['mode'] == 'cli':
                p['argv'] = r.choice(CLI_FLAGS)
            elif k in self.opts:
                self.opts = {x: v for x, v in self.opts.items() if x != k}
            else:
                self.opts = dict(self.opts, **{k: r.choice(gen_ts.OPTION_VALUES[k][1:])})
            steps.append(self.run(p))
            if r.random() < .4:
                self.opts = before
                if r.random() < .5:
                    steps.append(self.run(p))
        return steps

    def variety(self):
        """spelling of names, directory, options at the start"""
        r = self.r
        for p in self.pairs:
            k = r.random()
            if k < .2:
                p['spell'] = 'abs'
            elif k < .35:
                p['cwd'] = r.choice(self.dirs + ['elsewhere'])
                if p['cwd'] == 'elsewhere' and 'elsewhere' not in self.dirs:
                    self.dirs.append('elsewhere')
            if p['mode'] == 'cli':
                p['argv'] = r.choice(CLI_FLAGS)
        if r.random() < .4:
            self.opts = gen_ts.options(r, r.choice([1, 2]))

    def foreign(self, share=.12):
        """where the translation goes, or its messages, there is something else already"""
        r = self.r
        hard = {}
        for p in self.pairs:
            if r.random() >= share:
                continue
            stem = os.path.splitext(p['dst'])[0]
            if r.random() < .3:
                self.files[stem + r.choice(['_ERRORS.txt', '_WARNINGS.txt'])] = r.choice(['', 'something old\n'])
            if r.random() < .9:
                self.files[p['dst']] = r.choice(FOREIGN)
                if self.prop in ('C02', 'C03') and r.random() < .5:
                    hard['hard_' + os.path.basename(p['dst'])] = p['dst']
        return hard

    def plan(self, steps, **extra):
        r = self.r
        d = {'files': self.files, 'dirs': self.dirs, 'start': 1.7e9 + r.randrange(10**6), 'steps': steps}
        mounts = [x for x in self.dirs if r.random() < .25]
        if mounts:          # directories on file systems of their own
            d['mounts'] = mounts
        d.update(extra)
        return d

    def bystanders(self):
        """files that no run has any business with"""
        r = self.r
        p = r.choice(self.pairs)
        stem, ext = os.path.splitext(p['dst'])
        sstem = os.path.splitext(p['src'])[0]
        cands = [stem + '.txt', stem + '_old' + ext, stem + ext + '.bak', stem + ext + '.tmp', stem + '.tmp',
                 stem + '_ERRORS.txt.bak', stem + '_NOTES.txt', stem + '_ERRORS.log', sstem + '.json',
                 os.path.join(os.path.dirname(p['dst']), 'README.txt'), stem + '~', stem + ext + '~',
                 os.path.join(os.path.dirname(p['dst']), '.' + os.path.basename(p['dst']) + '.swp'),
                 stem + 'X_ERRORS.txt', os.path.join(os.path.dirname(p['dst']), 'other_WARNINGS.txt'),
                 stem + ext + '_ERRORS.txt', p['src'] + '.orig', 'out.py', 'out_ERRORS.txt',
                 os.path.join(os.path.dirname(p['dst']), '.ts2python_old.tmp'), stem + ext + '.new',
                 os.path.join(os.path.dirname(p['dst']), 'tmp'), stem + ext + '.lock']
        own = set()
        for q in self.pairs:
            s = os.path.splitext(q['dst'])[0]
            own |= {q['src'], q['dst'], s + '_ERRORS.txt', s + '_WARNINGS.txt'}
        for c in r.sample(cands, r.randint(1, 6)):
            c = os.path.normpath(c)
            if c not in own and c not in self.files:
                self.files[c] = 'do not touch %d\n' % r.randrange(100)


def world_is_filename(s):
    return s.find('\n') < 0


def io_fault(r, kinds):
    kind = r.choice(kinds)
    f = {'kind': kind, 'n': r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15])}
    if r.random() < .6:
        f['on'] = r.choice(OPS)
        f['n'] = r.choice([0, 0, 0, 1, 1, 2])
    if kind in ('killmid', 'powermid'):
        f['on'] = 'write'
        f['n'] = r.choice([0, 0, 1, 2])
        f['frac'] = round(r.random(), 2)
    if kind.startswith('power'):
        f.update(meta=r.choice([0, 0.3, 0.5, 0.7, 1, 1]), data=r.choice([0, 0, 0.5, 1]), torn=r.choice([1, 0.5, 0.1]))
    if kind == 'err':
        if f.get('on') in ('unlink',):
            f['errno'] = r.choice(['EACCES', 'EIO', 'EROFS', 'EBUSY'])
        else:
            f['errno'] = r.choice(['ENOSPC', 'EIO', 'ENOSPC', 'EIO', 'EDQUOT', 'EACCES', 'EROFS', 'EBUSY'])
        if r.random() < .3:
            f['sticky'] = True
        if r.random() < .4:
            f['frac'] = round(r.random(), 2)
        if r.random() < .6:         # data that could not be written back are lost
            f['drop'] = r.choice([0, 0, round(r.random(), 2)])
    if kind == 'short':
        f['on'] = r.choice(['write', 'write', 'read'])
        f['n'] = r.choice([0, 0, 1, 2])
        f['frac'] = round(r.random(), 2)
    return f


class Files(core.Prop):
    real = REAL
    stub = STUB
    measure = 'distinct sequences of (process, file operation, fault) over a run, by hash'
    assumptions = ['the disk keeps what has been written and synced, renames are atomic and journalled in order; '
                   'data that were not synced may be lost, torn or reordered with respect to meta data',
                   'only the translator changes its output files between runs (they may be deleted)']

    def setup(self):
        target.translator()
        # warm up what is initialised lazily; the runs themselves are forked
        import DHParser.toolkit   # noqa

    def execute(self, plan, stats):
        v, w = world.execute(self.id, plan, stats)
        return {'violation': v, 'log': w.log, 'probes': w.probes,
                'inter': [core.digest(x) for x in w.interleavings], 'simtime': w.simtime, 'ops': w.ops,
                'nontrivial': self.nontrivial(plan, w)}

    def nontrivial(self, plan, w):
        return sum(1 for s in plan['steps'] if s['op'] in ('run', 'par')) > 1

    def shrink(self, plan):
        steps = plan['steps']
        for s in drop_items(steps):
            if s:
                yield with_key(plan, 'steps', s)
        for i, s in enumerate(steps):
            for k in ('opts', 'argv', 'enc', 'tz', 'tool', 'sess', 'cwd', 'swap', 'restart'):
                if s.get(k):
                    t = dict(s)
                    t.pop(k)
                    if k == 'cwd' and not s['src'].startswith('$'):
                        continue
                    yield with_key(plan, 'steps', replace_at(steps, i, t))
            for k in ('faults', 'sched', 'runs'):
                if s.get(k):
                    for x in drop_items(s[k]):
                        if k == 'runs' and not x:
                            continue
                        yield with_key(plan, 'steps', replace_at(steps, i, with_key(s, k, x)))
            for j, f in enumerate(s.get('faults', ())):
                for k in ('sticky', 'frac'):
                    if f.get(k) and not f['kind'].endswith('mid'):
                        g = dict(f)
                        g.pop(k)
                        yield with_key(plan, 'steps', replace_at(steps, i, with_key(
                            s, 'faults', replace_at(s['faults'], j, g))))
        for f in list(plan.get('files', {})):
            fs = dict(plan['files'])
            fs.pop(f)
            yield with_key(plan, 'files', fs)
        if plan.get('inplace'):
            yield with_key(plan, 'inplace', False)
        if plan.get('mounts'):
            yield with_key(plan, 'mounts', [])
        for k in ('links', 'hardlinks'):
            for f in list(plan.get(k, {})):
                fs = dict(plan[k])
                fs.pop(f)
                yield with_key(plan, k, fs)
        texts = [t for t in list(plan.get('files', {}).values()) + [s.get('text') for s in steps]
                 if isinstance(t, str) and len(t) > 30]
        texts += [r['text'] for s in steps for r in s.get('runs', ()) if r.get('text')]
        for t in sorted(set(texts), key=len, reverse=True):
            for u in simpler_texts(t):
                yield subst(plan, t, u)


def simpler_texts(t):
    yield 'interface Foo {\n    alpha: string;\n}\n'
    lines = t.split('\n')
    n = 0
    for x in drop_items(lines):
        if x:
            yield '\n'.join(x)
            n += 1
            if n > 24:
                return


def subst(x, a, b):
    if isinstance(x, str):
        return b if x == a else x
    if isinstance(x, dict):
        return {k: subst(v, a, b) for k, v in x.items()}
    if isinstance(x, list):
        return [subst(v, a, b) for v in x]
    return x


class C01(Files):
    id = 'C01'
    rule = ('a run is a history of 4 to 12 steps: translations (API, command line, source text), edits, reverts, '
            'option changes, simulated tool upgrades and downgrades, clock jumps, changed modification times; '
            'non-trivial: at least two translations; distinct by event log')
    budget = {'quick': (1065, 110), 'thorough': (20000, 780)}

    def gen(self, r, tier, index):
        g = Gen(r, self.id)
        g.kinds = (('clean', 12), ('warn', 4), ('any', 3), ('error', 1))
        g.layout(r.choice([1, 1, 1, 2]), r.choice([['api'], ['api'], ['cli'], ['text'], ['api', 'cli', 'text']]))
        g.variety()
        w = {'run': 10, 'edit': 5}
        for k, x in (('opts', 4), ('tool', 2), ('clock', 2), ('mtime', 2), ('deldst', 1)):
            if r.random() < .5:
                w[k] = x
        if r.random() < .25:
            g.opts = {}
            steps = g.sweep(r.choice([4, 6, 10]))
        elif r.random() < .35:
            steps = g.edits(r.randint(3, 9))
        else:
            steps = [g.run()] + g.history(r.randint(3, 11), w) + [g.run()]
        if r.random() < .3:
            # some faults and short transfers, so that recovery is part of the history
            for s in steps[:-1]:
                if s['op'] == 'run' and r.random() < .3:
                    s['faults'] = [io_fault(r, ['short', 'err', 'kill', 'power'])]
        extra = {}
        if r.random() < .25:
            # the translator is replaced in its place, also while a process works with it
            extra['inplace'] = True
            now = 0
            for s in steps:
                if s['op'] != 'run':
                    continue
                if r.random() < .25:
                    now = r.choice([0, 1, 2])
                if now:
                    s['tool'] = now
                else:
                    s.pop('tool', None)
                if r.random() < .2:
                    now = r.choice([0, 1, 2])
                    s['swap'] = [r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12]), now]
                if r.random() < .5 and s['mode'] != 'cli':
                    s['sess'] = 1
                    if r.random() < .2:
                        s['restart'] = 1
        if any(p['mode'] == 'cli' for p in g.pairs) and r.random() < .4:
            # options come from the file beside the program, too
            extra['ini'] = True
            for i in sorted(r.sample(range(1, len(steps) + 1), min(len(steps), r.randint(1, 4))), reverse=True):
                steps.insert(i, {'op': 'ini', 'values': gen_ts.options(r, r.choice([0, 1, 1, 2, 10]))})
            if steps[-1]['op'] == 'ini':
                steps.append(g.run())
        g.foreign()
        return g.plan(steps, **extra)


class C02(Files):
    id = 'C02'
    rule = ('a run is a history of translations with edits in between; one or more of the translations is killed, '
            'loses power, gets disk errors, short or torn writes or an exception at a chosen file operation; '
            'destination and messages files are inspected after every operation; non-trivial: a fault fired')
    budget = {'quick': (1785, 110), 'thorough': (30000, 780)}
    kinds = ['kill', 'killafter', 'killmid', 'power', 'powerafter', 'powermid', 'err', 'short', 'int', 'mem']

    def nontrivial(self, plan, w):
        return any(k.startswith('fault:') for k in w.stats)

    def gen(self, r, tier, index):
        g = Gen(r, self.id)
        g.layout(1, r.choice([['api'], ['api'], ['cli'], ['text']]))
        if r.random() < .3:
            g.variety()
        if r.random() < .12:        # long sources: several write calls
            p = g.pairs[0]
            t = '\n'.join(gen_ts.source(r, size=6, kinds='clean') for _ in range(8))
            g.now_text[p['src']] = t
            if p['mode'] != 'text':
                g.files[p['src']] = t
        links, hard = {}, {}
        if r.random() < .12 and g.pairs[0]['mode'] == 'api':
            p = g.pairs[0]          # the destination is a link into another directory
            g.dirs.append('real')
            g.files['real/target.py'] = '# old\n'
            links[p['dst']] = os.path.relpath('real/target.py', os.path.dirname(p['dst']) or '.')
        else:
            hard = g.foreign(.2)
        kinds = self.kinds if r.random() < .5 else r.sample(self.kinds, 3)
        steps = []
        if r.random() < .75:
            steps.append(g.run())
            if r.random() < .9:
                steps.append(g.edit() or g.run())
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            steps.append(g.run(faults=[io_fault(r, kinds) for _ in range(r.choice([1, 1, 1, 2]))]))
            if r.random() < .4:
                e = g.edit()
                if e:
                    steps.append(e)
        if r.random() < .3:
            steps.append(g.run())
        return g.plan(steps, links=links, hardlinks=hard)


class C03(Files):
    id = 'C03'
    rule = ('a run is a history in which 1 to 4 translations are killed, lose power, get disk errors or exceptions, '
            'mixed with edits, reverts and option changes, followed by an undisturbed translation that is compared '
            'with one in a fresh directory; non-trivial: a fault fired before the last translation')
    budget = {'quick': (1530, 110), 'thorough': (30000, 780)}

    def nontrivial(self, plan, w):
        return bool(w.probes.get('recovered'))

    def gen(self, r, tier, index):
        g = Gen(r, self.id)
        g.kinds = (('clean', 8), ('warn', 8), ('any', 4), ('error', 2))
        g.layout(1, r.choice([['api'], ['api'], ['cli'], ['text']]))
        if r.random() < .3:
            g.variety()
        kinds = C02.kinds if r.random() < .5 else r.sample(C02.kinds, 3)
        steps = [g.run()] if r.random() < .7 else []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            if r.random() < .75:
                e = g.edit()
                if e:
                    steps.append(e)
            if r.random() < .2:
                steps.extend(g.history(1, {'opts': 3, 'tool': 1, 'clock': 1}))
            steps.append(g.run(faults=[io_fault(r, kinds) for _ in range(r.choice([1, 1, 2]))]))
        if r.random() < .4:
            e = g.edit()
            if e:
                steps.append(e)
        steps.append(g.run())
        steps.append(g.run())
        return g.plan(steps, hardlinks=g.foreign())


class C04(Files):
    id = 'C04'
    rule = ('a run is a history of translations of sources that change between clean, with warnings, with errors and '
            'with fatal errors, with option changes, tool upgrades, clock jumps, some faults; after each undisturbed '
            'translation report and messages files are compared with the messages of the translation itself; '
            'non-trivial: at least two translations')
    budget = {'quick': (1275, 110), 'thorough': (20000, 780)}

    def gen(self, r, tier, index):
        g = Gen(r, self.id)
        g.kinds = (('clean', 7), ('warn', 7), ('any', 4), ('error', 6))
        g.layout(r.choice([1, 1, 2]), r.choice([['api'], ['api'], ['cli'], ['text'], ['api', 'text']]))
        g.variety()
        if r.random() < .15:
            return g.plan(g.stale_messages())
        w = {'run': 8, 'edit': 7}
        for k, x in (('opts', 2), ('tool', 1), ('clock', 1), ('mtime', 2), ('deldst', 1)):
            if r.random() < .4:
                w[k] = x
        steps = [g.run()] + g.history(r.randint(3, 9), w) + [g.run(), g.run()]
        if r.random() < .35:
            for s in steps[:-2]:
                if s['op'] == 'run' and r.random() < .4:
                    s['faults'] = [io_fault(r, ['err', 'kill', 'killafter', 'short', 'powerafter'])]
        g.foreign()
        return g.plan(steps)


class C05(Files):
    id = 'C05'
    rule = ('a run is a history of translations in which reading the source or writing an output fails (errno, '
            'persistent errors, vanished source, source that is no UTF-8) or is interrupted part way (short reads and '
            'writes); the reported outcome is compared with what was written; non-trivial: a fault fired or the '
            'source is unreadable')
    budget = {'quick': (1530, 110), 'thorough': (30000, 780)}

    def nontrivial(self, plan, w):
        return any(k.startswith('fault:') for k in w.stats) or any(s['op'] == 'del' for s in plan['steps'])

    def gen(self, r, tier, index):
        g = Gen(r, self.id)
        g.kinds = (('clean', 8), ('warn', 6), ('any', 4), ('error', 3))
        g.layout(1, r.choice([['api'], ['api'], ['cli'], ['text']]))
        if r.random() < .3:
            g.variety()
        if r.random() < .15:
            return g.plan(g.stale_messages())
        steps = [g.run()] if r.random() < .6 else []

        def fault():
            f = io_fault(r, ['err', 'err', 'err', 'short'])
            k = r.random()
            if f['kind'] == 'err':
                if k < .25:
                    f.update(on=r.choice(['open-r', 'read']), n=r.choice([0, 0, 1, 2]),
                             errno=r.choice(['EIO', 'EACCES', 'EMFILE', 'ESTALE']))
                elif k < .5:
                    f.update(on=r.choice(['close-w', 'fsync', 'rename', 'write', 'open-w']), n=r.choice([0, 0, 1]))
                    if f['on'] == 'fsync':
                        f['errno'] = r.choice(['EIO', 'ENOSPC', 'EDQUOT'])
            return f
        for _ in range(r.choice([1, 2, 2, 3])):
            if r.random() < .7:
                e = g.edit()
                if e:
                    steps.append(e)
            if r.random() < .08 and g.pairs[0]['mode'] != 'text':
                steps.append({'op': 'del', 'path': g.pairs[0]['src']})
            elif r.random() < .08 and g.pairs[0]['mode'] != 'text':
                steps.append({'op': 'edit', 'path': g.pairs[0]['src'],
                              'text': {'hex': b'interface Foo {\n  alpha: string; // \xff\xfe\n}\n'.hex()}})
            steps.append(g.run(faults=[fault() for _ in range(r.choice([1, 1, 1, 2]))]))
        if r.random() < .3:
            steps.append(g.run())
        g.foreign()
        return g.plan(steps)


class C06(Files):
    id = 'C06'
    rule = ('a run is a history of translations among bystander files, with destinations that are the source under '
            'other spellings, symbolic or hard links, with all kinds of faults; the whole directory tree is compared '
            'before and after each translation; non-trivial: a bystander, an alias or a fault is involved')
    budget = {'quick': (1530, 110), 'thorough': (30000, 780)}

    def nontrivial(self, plan, w):
        return len(plan['files']) > 1 or any(k.startswith('fault:') for k in w.stats)

    def gen(self, r, tier, index):
        g = Gen(r, self.id)
        g.layout(r.choice([1, 1, 2]), r.choice([['api'], ['api'], ['cli'], ['text']]))
        g.variety()
        g.bystanders()
        links, hard = {}, {}
        steps = []
        p = g.pairs[0]
        if r.random() < .4 and p['mode'] == 'api':
            k = r.randrange(9)
            p = dict(p)
            p.pop('cwd', None)
            p.pop('spell', None)
            p['src'], src = p['src'], p['src']
            if k == 0:
                p['dst'] = src
            elif k == 1:
                p['dst'] = '$ROOT/' + src
            elif k == 2:
                p['dst'] = './' + src
            elif k == 3 and '/' in src:
                p['dst'] = os.path.dirname(src) + '/../' + src.split('/', 1)[1] if src.count('/') == 1 else './/' + src
            elif k == 4:
                links['lnk.py'] = src
                p['dst'] = 'lnk.py'
            elif k == 5:
                hard['hard.py'] = src
                p['dst'] = 'hard.py'
            elif k >= 7:            # through a link to a directory and back
                g.dirs += ['far', 'far/sub']
                links['near'] = 'far/sub'
                g.files['far/deep.ts'] = g.now_text['far/deep.ts'] = g.files[src]
                g.versions['far/deep.ts'] = g.versions[src]
                p['src'], p['dst'] = r.choice([('near/../deep.ts', 'far/deep.ts'), ('far/deep.ts', 'near/../deep.ts'),
                                               ('near/../deep.ts', 'far/deep.py'), ('far/deep.ts', 'near/../deep.py')])
                g.versions[p['src']] = g.versions[src]
                g.now_text[p['src']] = g.now_text[src]
                if r.random() < .5:
                    g.files['deep.ts'] = 'interface Decoy { decoy: string; }\n'
            else:
                g.dirs.append('dl')
                links['dlink'] = os.path.dirname(src) or '.'
                p['dst'] = 'dlink/' + os.path.basename(src)
            g.pairs.append(p)
        elif r.random() < .15 and p['mode'] == 'api':
            # the source is a link; the destination is what it points to
            g.files['orig.ts'] = g.files.pop(p['src'])
            links[p['src']] = os.path.relpath('orig.ts', os.path.dirname(p['src']) or '.')
            q = {'mode': 'api', 'src': p['src'], 'dst': r.choice(['orig.ts', '$ROOT/orig.ts'])}
            g.pairs.append(q)
            g.versions[p['src']] = g.versions.get(p['src'])
        kinds = C02.kinds if r.random() < .5 else ['err', 'int', 'mem']
        for _ in range(r.choice([1, 2, 3, 3, 4])):
            if steps and r.random() < .6:
                e = g.edit()
                if e:
                    steps.append(e)
            s = g.run()
            if r.random() < .6:
                s['faults'] = [io_fault(r, kinds) for _ in range(r.choice([1, 1, 2]))]
            steps.append(s)
        return g.plan(steps, links=links, hardlinks=hard)


class C07(Files):
    id = 'C07'
    rule = ('a run lets 2 to 4 translations overlap, as processes or as threads of one process, switching between '
            'them at file operations; with the same or with different destinations, different options; '
            'non-trivial: at least one switch inside a translation')
    budget = {'quick': (1065, 110), 'thorough': (20000, 780)}

    def nontrivial(self, plan, w):
        return w.stats.get('switches', 0) > 0

    def gen(self, r, tier, index):
        g = Gen(r, self.id)
        g.kinds = (('clean', 10), ('warn', 6), ('any', 4), ('error', 3))
        n = r.choice([2, 2, 2, 3, 3, 4])
        mode = r.choice([['api'], ['api'], ['api', 'text'], ['cli']])
        g.layout(r.choice([1, 2, n]) if mode != ['cli'] else n, mode)
        steps = []
        if r.random() < .5:
            for p in g.pairs:
                g.opts = gen_ts.options(r, 1) if r.random() < .3 else {}
                steps.append(g.run(p))
        threads = mode != ['cli'] and r.random() < .5
        for _ in range(r.choice([1, 1, 2])):
            for p in g.pairs:
                if r.random() < .6:
                    e = g.edit(p)
                    if e:
                        steps.append(e)
            runs = []
            for i in range(n):
                p = g.pairs[i % len(g.pairs)]
                q = dict(p)
                if r.random() < .35 and len(runs) and q['mode'] != 'cli':
                    q['dst'] = runs[0]['dst']       # compete for one destination
                g.opts = gen_ts.options(r, r.choice([0, 1]))
                if q['mode'] == 'cli':
                    q['argv'] = r.choice(CLI_FLAGS)
                s = g.run(q)
                s.pop('op')
                s.pop('enc', None)
                runs.append(s)
            burst = r.choice([1, 1, 2, 4])
            sched = []
            for _ in range(r.choice([10, 30, 60])):
                sched += [0] * r.randrange(0, 2 * burst) + [r.randint(1, n - 1)]
            step = {'op': 'par', 'threads': threads, 'runs': runs, 'sched': sched}
            if r.random() < .2:
                step['faults'] = [io_fault(r, ['short'])]
            steps.append(step)
            if r.random() < .5:
                steps.append(g.run())
        return g.plan(steps)


PROPS = {c.id: c() for c in (C01, C02, C03, C04, C05, C06, C07)}
