"""C12: the same translation in different environments."""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from .. import core, disk, gen_ts, target, world
from ..core import VERIF, drop_items, replace_at, with_key
from .files import CLI_FLAGS, simpler_texts, subst

ADDR_NO_RANDOMIZE = 0x0040000
BASE = {'hash': '0', 'layout': 0, 'now': 1.7e9, 'tz': 0, 'pid': 100, 'rnd': 1, 'cwd': '.', 'home': '/nonexistent',
        'locale': 'C.UTF-8', 'tzname': 'UTC'}
EXTRA = [
    # names whose parts are names themselves: order of substitutions
    'export interface Foo { a: A.B; b: A; c: A.B[] | A; d: (A.B.C | B)[]; e: B.C | C | A.B }\n',
    'export type Foo = (A | A.B | B.A | A.B.A)[];\nexport type Bar = A.A | A | B;\n',
    'export interface Foo { a: Array<X.Y | X | Y>; m: { [key: string]: X.Y | Y | Z.X }; }\n',
    'export function send(a: X.Y | X, b: Y.X | Y): X | Y;\nexport interface Y { x: Later | Later.On | Kind; }\n',
    'export interface Foo extends A, B, C, D { x: E | F | G; }\nexport type H = E & F;\nexport type T = [E, F, G];\n',
    'export enum E1 { a, b, c }\nexport namespace N1 { export const a = 1; export type T = E1 | F1 | N1.T; }\n',
    'type A = string;\ntype B = string;\ntype C = string;\nexport namespace A { export const a = 1; '
    'export type D = string; }\nexport namespace B { export interface D { b: A; } }\nexport namespace C { '
    'export type E = number; export const c: A = 2; }\nexport interface Foo { a: A; b: B[]; c: A | B | C; }\n',
    'export interface P<T, S = U<V>> { a: Q<T, R | R.S>; b: (x: T.S, y: T | S) => Q<R.S, R>; }\n',
]


class C12(core.Prop):
    id = 'C12'
    real = ['ts2pythonParser.py (compile_src, process_file, command line)', 'DHParser', 'separate Python interpreters '
            'with their own hash seeds and locale settings', 'file system below the scratch directory']
    stub = ['clock, time zone shift, process id, random bytes, default encoding of files', 'memory addresses (no address '
            'space randomisation, seeded layout of the heap)']
    rule = ('a run translates 4 to 12 sources in two to four interpreters that differ in hash seed, layout of memory, '
            'time (also while translating), time zone, process id, random numbers, current and home directory, locale, '
            'default encoding, other variables, name and size of the machine; texts, '
            'messages and files (time stamp aside) must be identical; non-trivial: the environments differ in at least '
            'two respects; distinct by event log')
    measure = 'distinct combinations of the differing aspects of the environments and sources'
    assumptions = ['file names are ASCII', 'what the command line echoes on a terminal is not looked at, the files it '
                   'writes are']
    budget = {'quick': (915, 100), 'thorough': (20000, 780)}

    def setup(self):
        target.prepare()

    def env(self, r):
        e = dict(BASE)
        k = r.random()
        for key, p, f in (
                ('hash', .9, lambda: str(r.randrange(1, 4294967295))),
                ('layout', .5, lambda: r.randrange(1, 10**6)),
                ('now', .5, lambda: r.choice([0, 1, 8.64e4, 1e9, 1.582e9 + r.randrange(10**7), 4.1e9, 9.5e10,
                                              1.7e9 + r.random() * 1e8])),
                ('tz', .3, lambda: r.randrange(-12, 15)),
                ('pid', .4, lambda: r.choice([1, r.randrange(2, 4194304)])),
                ('rnd', .4, lambda: r.randrange(1, 10**6)),
                ('home', .3, lambda: r.choice(['/nonexistent/jane', '/var/empty'])),
                ('cwd', .5, lambda: r.choice(['elsewhere', 'elsewhere/deep', 'src', '..'])),
                ('locale', .4, lambda: r.choice(['C', 'POSIX'])),
                ('tzname', .3, lambda: r.choice(['Asia/Tokyo', 'EST5EDT', 'XXX-13', 'Europe/Berlin']))):
            if r.random() < p:
                e[key] = f()
        if r.random() < .3:
            e['enc'] = r.choice(['ascii', 'latin-1', 'cp1252', 'utf-16'])
        if r.random() < .3:
            e['vars'] = {k: v for k, v in (
                ('LANG', r.choice(['de_DE.UTF-8', 'tr_TR', 'ja_JP.eucJP', 'en_US.UTF-8'])),
                ('LANGUAGE', r.choice(['de:en', 'fr'])), ('LC_MESSAGES', 'de_DE'), ('LC_NUMERIC', 'de_DE'),
                ('LC_CTYPE', r.choice(['de_DE', 'UTF-8'])), ('USER', r.choice(['root', 'jane'])), ('LOGNAME', 'jane'),
                ('USERNAME', 'jane'), ('HOSTNAME', 'box'), ('TERM', r.choice(['dumb', 'xterm'])),
                ('COLUMNS', r.choice(['20', '200'])), ('TMPDIR', '/nonexistent/tmp'), ('SOURCE_DATE_EPOCH', '1'),
                ('CI', 'true'), ('NO_COLOR', '1'), ('PWD', '/elsewhere'), ('EDITOR', 'ed')) if r.random() < .5}
        if r.random() < .2:
            e['host'] = r.choice(['a', 'build7', 'ci-runner-12'])
        if r.random() < .2:
            e['cpus'] = r.choice([1, 2, 64])
        if r.random() < .2:
            e['step'] = r.choice([0, 1, 90, 7200])
        if r.random() < .3:
            e['pace'] = r.choice([0.5, 3600, 86400 * 40])
        return e

    def gen(self, r, tier, index):
        jobs = []
        for i in range(r.randint(4, 12)):
            kind = r.choices(['clean', 'warn', 'any', 'error', 'probe', 'extra'], [5, 4, 3, 2, 2, 4])[0]
            if kind == 'probe':
                text = r.choice(gen_ts.PROBES)
            elif kind == 'extra':
                text = r.choice(EXTRA)
                if r.random() < .5:
                    text += gen_ts.source(r, kinds='any')
            else:
                text = gen_ts.source(r, kinds=kind)
            if r.random() < .3:
                text = dotted(r, text)
            mode = r.choice(['text', 'file', 'file', 'relative', 'cli'])
            job = {'mode': mode, 'text': text, 'src': r.choice(['x.ts', 'src/spec.ts', 'a/b/c.d.ts']),
                   'opts': gen_ts.options(r) if mode != 'cli' else {},
                   'argv': r.choice(CLI_FLAGS) if mode == 'cli' else []}
            if mode in ('file', 'relative') and r.random() < .25:
                job['again'] = True
            jobs.append(job)
        forked = r.random() < .7
        if not forked:          # one process: command line options would stay in force
            jobs = [j for j in jobs if j['mode'] != 'cli'] or [dict(jobs[0], mode='file', argv=[])]
        return {'jobs': jobs, 'envs': [self.env(r) for _ in range(r.choice([1, 2, 2, 3]))], 'forked': forked}

    def execute(self, plan, stats):
        top = tempfile.mkdtemp(prefix='e_', dir=os.environ.get('DST_SCRATCH') or world.scratch_base())
        log, probes = [], {}
        v = None
        try:
            ref = self.interpret(BASE, plan, os.path.join(top, 'e'))
            log.append(ref)
            for i, e in enumerate(plan['envs']):
                res = self.interpret(e, plan, os.path.join(top, 'e'))
                log.append(res)
                for k in sorted(e):
                    if e[k] != BASE.get(k):
                        stats['fault:other ' + k] = stats.get('fault:other ' + k, 0) + 1
                for j, (a, b) in enumerate(zip(ref, res)):
                    d = self.compare(a, b)
                    if d and v is None:
                        v = {'class': d[0], 'detail': 'job %d (%s), environment %s: %s' % (
                            j, plan['jobs'][j]['mode'], {k: x for k, x in e.items() if x != BASE.get(k)}, d[1])}
            for a in ref:
                k = 'exception' if a.get('exc') else 'messages' if a.get('messages') or any(
                    f.endswith('.txt') for f in a['files']) else 'clean'
                probes['translation: ' + k] = probes.get('translation: ' + k, 0) + 1
        finally:
            shutil.rmtree(top, ignore_errors=True)
        differ = [sorted(k for k in e if e[k] != BASE.get(k)) for e in plan['envs']]
        return {'violation': v, 'log': log, 'probes': probes, 'inter': [core.digest((differ, plan['jobs']))],
                'simtime': sum(abs(e['now'] - BASE['now']) for e in plan['envs']), 'ops': len(plan['jobs']),
                'nontrivial': any(len(d) > 1 for d in differ)}

    def compare(self, a, b):
        for k in ('exc', 'exit', 'ret', 'messages', 'text'):
            if a.get(k) != b.get(k):
                return ('output-differs' if k == 'text' else 'messages-differ' if k in ('messages', 'ret')
                        else 'outcome-differs', '%s: %s' % (k, world.diff(str(b.get(k)), str(a.get(k)))))
        for f in sorted(set(a['files']) | set(b['files'])):
            if a['files'].get(f) != b['files'].get(f):
                return ('messages-differ' if f.endswith('.txt') else 'output-differs',
                        '%s: %s' % (f, world.diff(b['files'].get(f), a['files'].get(f))))
        return None

    def interpret(self, env, plan, root):
        os.makedirs(root)
        v = {'PYTHONHASHSEED': env['hash'], 'PYTHONPATH': VERIF, 'PYTHONDONTWRITEBYTECODE': '1',
             'PATH': os.environ.get('PATH', ''), 'DST_BASE': target.prepare(), 'DST_REPO': target.REPO,
             'LC_ALL': env['locale'], 'TZ': env['tzname'], 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}
        v = dict(env.get('vars', {}), **v)
        p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'dst.envchild'], env=v, cwd='/',
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             preexec_fn=fixed_addresses)
        data = json.dumps({'env': env, 'jobs': plan['jobs'], 'root': root, 'forked': plan['forked']}).encode()
        try:
            out, err = p.communicate(data, timeout=120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise disk.HarnessError('interpreter does not end')
        shutil.rmtree(root, ignore_errors=True)
        if p.returncode:
            text = err.decode('utf-8', 'replace')
            if env is BASE:
                raise disk.HarnessError('interpreter failed: ' + text[-1500:])
            raise disk.Violation('outcome-differs', 'the translator does not even start in environment %s: %s' % (
                env, text[-600:]))
        res = json.loads(out.decode())
        for r in res:
            if r.get('escaped'):
                raise disk.HarnessError('write outside of the scratch directory: %s' % r['escaped'][:2])
            r.pop('msg', None)
            r['files'] = {f: world_norm(bytes.fromhex(x), root) for f, x in r.get('files', {}).items()}
            if r.get('text') is not None:
                r['text'] = world_norm(r['text'].encode('utf-8', 'surrogatepass'), root)
        res = json.loads(json.dumps(res).replace(root, '<ROOT>'))
        for r in res:           # messages name their file relative to the current directory
            if r.get('messages'):
                r['messages'] = [RX_WHERE.sub(r'\1:', m) for m in r['messages']]
            for f in r['files']:
                if f.endswith('.txt'):
                    r['files'][f] = RX_WHERE.sub(r'\1:', r['files'][f])
        return res

    def shrink(self, plan):
        for k in ('envs', 'jobs'):
            for x in drop_items(plan[k]):
                if x:
                    yield with_key(plan, k, x)
        for i, e in enumerate(plan['envs']):
            for k in sorted(e):
                if e[k] != BASE.get(k):
                    f = dict(e)
                    f.pop(k)
                    if k in BASE:
                        f[k] = BASE[k]
                    yield with_key(plan, 'envs', replace_at(plan['envs'], i, f))
        for i, j in enumerate(plan['jobs']):
            if j['opts']:
                yield with_key(plan, 'jobs', replace_at(plan['jobs'], i, with_key(j, 'opts', {})))
            if j['mode'] != 'text':
                yield with_key(plan, 'jobs', replace_at(plan['jobs'], i, dict(j, mode='text', argv=[])))
        for t in sorted({j['text'] for j in plan['jobs']}, key=len, reverse=True):
            for u in simpler_texts(t):
                yield subst(plan, t, u)


RX_WHERE = re.compile(r'^[^\s:]*?([^\s:/]+\.ts):(?=\d+:\d+)', re.M)


def world_norm(data, root):
    try:
        s = data.decode('utf-8')
    except UnicodeDecodeError:
        return 'undecodable: ' + repr(data)
    return world.RX_STAMP.sub(r'# Generated by ts2python version \1 on <STAMP>\n', s.replace(root, '<ROOT>'))


def dotted(r, text):
    """some of the type names become qualified names"""
    names = [n for n in gen_ts.NAMES if ': ' + n in text or '| ' + n in text]
    for n in r.sample(names, min(len(names), 2)):
        m = r.choice(gen_ts.NAMES)
        text = text.replace(': ' + n, ': %s.%s' % (n, m), 1)
        if r.random() < .5:
            text = text.replace('| ' + n, '| %s.%s' % (m, n), 1)
    return text


_libc = []


def fixed_addresses():
    import ctypes
    try:
        ctypes.CDLL(None).personality(ADDR_NO_RANDOMIZE)
    except Exception:
        pass


PROPS = {'C12': C12()}
