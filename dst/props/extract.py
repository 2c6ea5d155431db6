"""C18: the demo program that extracts the type definitions of a specification."""

import os
import posixpath
import re
import runpy
import sys
import tempfile
import shutil

from .. import core, disk, net, pool, simos, target, world
from ..core import drop_items, replace_at, with_key
from ..disk import Violation

SCRIPT = 'demo/extract_ts_from_lsp_specs.py'
DEFAULT = ('raw.githubusercontent.com', '/microsoft/language-server-protocol/gh-pages/')
WORDS = ['Position', 'Range', 'Uri', 'Hover', 'Client', 'Params', 'Kind', 'Größe', 'Registration']
PROSE = ['#### <a href="#%s" name="%s" class="anchor">%s</a>', 'The `%s` request (see %s) is sent to %s.',
         '* method: "textDocument/%s%s" and %s', '<div class="anchorHolder"><a href="#%s" name="%s" class="%s"></a></div>',
         '> *Since version 3.17* %s %s %s', '| %s | %s | %s |', '{: .note } %s%s%s', '%s: ünïcödé %s – %s']
HARD = ['noname', 'refused', 'unreachable', 'noanswer', 'nofiles', 'reset-send', 'status', 'status', 'status', 'empty',
        'garbage', 'loop', 'away', 'fin', 'fin', 'fin', 'fin', 'reset', 'reset', 'stall', 'badchunk']


class Doc:
    """generates the documents of a site"""

    def __init__(self, r, base, ext):
        self.r, self.base, self.ext = r, base, ext
        self.n = 0
        self.docs = {}              # path below the site -> list of parts
        self.budget = r.choice([1, 3, 6, 10])
        self.names = []
        self.used = []

    def word(self):
        return self.r.choice(WORDS)

    def definition(self):
        r = self.r
        self.n += 1
        t = 'T%d' % self.n
        k = r.randrange(5)
        tab = r.choice(['\t', '    ', '  '])
        if k == 0:
            return ['export interface %s%s extends %s {' % (self.word(), t, self.word())] + sum((
                [tab + '/**', tab + ' * The ' + self.word() + ' (%s).' % r.choice(['see {@link Foo}', '[x]', 'a | b']),
                 tab + ' */', tab + 'field%d_%s%s: %s;' % (i, t, r.choice(['', '?']),
                                                           r.choice(['string', 'uinteger[]', '{ a: T | null }', "'x'"]))]
                for i in range(r.randint(1, 6))), []) + ['} // %s' % t]
        if k == 1:
            return ['/**', ' * ' + self.word(), ' */', 'export type %s = %s | %s;' % (t, self.word(), self.word())]
        if k == 2:
            return ['export namespace %s {' % t] + [
                tab + 'export const %s_%d: %d = %d;' % (t, i, i, i) for i in range(r.randint(1, 5))] + ['} // %s' % t]
        if k == 3:
            return ['interface %s { a: string; b?: { c: number } }' % t]
        return ['export enum %s {' % t] + [tab + '%s_%d = %d,' % (t, i, i) for i in range(r.randint(1, 4))] + [
            '} // %s' % t]

    def block(self):
        r = self.r
        lines = []
        if r.random() < .2:
            lines.append('// ' + self.word())
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            lines += self.definition()
            if r.random() < .3:
                lines.append('')
        return ['def', lines, r.choice(['', '', '', '  ', '\t']), r.choice(['', '', ' ', '\t'])]

    def prose(self):
        r = self.r
        k = r.random()
        if k < .7:
            return ['text', [r.choice(PROSE) % (self.word(), self.word(), self.word()) for _ in range(r.randint(1, 8))]]
        if k < .8:
            return ['text', ['```json', '{', '\t"jsonrpc": "2.0", "%s": 1' % self.word(), '}', '```']]
        if k < .9:
            return ['text', ['```' + r.choice(['javascript', '', 'ts-nocheck', 'xml'])] +
                    ['let %s = 1;' % self.word()] + ['```']]
        return ['text', ['```typescript'] + r.choice([
            ['{ "example": "%s",' % self.word(), '  "x": [1] }'], ['[1, 2, "%s" ]' % self.word()],
            ['// an example', '{ "y": 2 } //'], ['workspace.apply(%s, 1);' % self.word()]]) + ['```']]

    def doc(self, path, depth, faulty):
        r = self.r
        parts = []
        self.docs[path] = parts
        for _ in range(r.randint(1, 5)):
            k = r.random()
            if k < .4:
                parts.append(self.block())
            elif k < .65 or depth > 2 or self.budget <= 0:
                parts.append(self.prose())
            else:
                self.include(path, parts, depth, faulty)
        if r.random() < .1:
            parts.append(['fill', r.choice([30, 300])])

    def name(self):
        r = self.r
        self.names.append(0)
        return r.choice(['types/', 'messages/3.17/', 'language/', '', 'general/']) + r.choice(
            ['uri', 'hover', 'didOpen', 'codeAction', 'partial.results', 'a']) + (
            r.choice(['-', '_', '.', '']) + str(len(self.names))) + '.md'

    def include(self, path, parts, depth, faulty):
        r = self.r
        self.budget -= 1
        absolute = '_specifications/' in path and r.random() < .3
        name = self.name()
        if self.used and r.random() < .25:
            name = r.choice(self.used)              # the same name, most likely below another directory
        if absolute:
            full = path[:path.find('_specifications/')] + '_includes/' + name
        else:
            full = path[:path.rfind('/') + 1] + name
        if full in self.docs:
            return
        self.used.append(name)
        parts.append(['inc', 'absolute' if absolute else 'relative', name,
                      r.choice(['{%% %s %s %%}', '{%%%s %s%%}', '{%%  %s   %s  %%}'])])
        if r.random() < faulty:
            return                  # missing
        if r.random() < .12:
            self.pointer(full, depth, faulty)
        else:
            self.doc(full, depth + 1, faulty)
            while len(self.text(full)) < 300:
                self.docs[full].append(self.prose())
        if r.random() < .1:         # the same part once more
            parts.append(list(parts[-1]))

    def pointer(self, path, depth, faulty):
        """a file that consists of the name of another one, as symbolic links on the server do"""
        n = self.r.choice([1, 1, 1, 2, 2, 3])
        for i in range(n):
            target_ = '%s.%d%s' % (os.path.basename(path)[:-3], i, '.md')
            self.docs[path] = ['pointer', target_]
            path = path[:path.rfind('/') + 1] + target_
        self.doc(path, depth + 1, faulty)
        while len(self.text(path)) < 300:
            self.docs[path].append(self.prose())

    def text(self, path):
        return render(self.docs[path])


def render(parts, eol='\n'):
    if parts and parts[0] == 'pointer':
        return parts[1]
    lines = []
    for p in parts:
        if p[0] == 'def':
            lines += [p[2] + '```typescript' + p[3]] + p[1] + [p[2] + '```' + p[3]]
        elif p[0] == 'inc':
            lines += [p[3] % ('include' if p[1] == 'absolute' else 'include_relative', p[2])]
        elif p[0] == 'fill':
            lines += ['x%d ' % i + 'lorem ipsum dolor ' * 40 for i in range(p[1])]
        else:
            lines += p[1]
        lines.append('')
    return eol.join(lines) + eol


def expected(docs, path, depth=0, chain=0):
    """lines of the definitions in order; None for what cannot be resolved"""
    if depth > 60:
        return [None]
    parts = docs.get(path)
    if parts is None:
        return [None]
    if parts and parts[0] == 'pointer':
        if chain > 60:
            return [None]
        return (['deep'] if chain == 2 else []) + expected(docs, path[:path.rfind('/') + 1] + parts[1], depth, chain + 1)
    out = []
    for p in parts:
        if p[0] == 'def':
            out += [l.strip() for l in p[1] if RX_TOKEN.search(l)]
        elif p[0] == 'inc':
            if p[1] == 'absolute':
                full = path[:path.find('_specifications/')] + '_includes/' + p[2]
            else:
                full = path[:path.rfind('/') + 1] + p[2]
            out += expected(docs, full, depth + 1)
    return out


RX_TOKEN = re.compile(r'T\d+\b|T\d+_\d')


class C18(core.Prop):
    id = 'C18'
    real = [SCRIPT, 'Python urllib, http.client, io, os', 'file system below the scratch directory']
    stub = ['sockets, name service, web server, TLS (left out)', 'success, errno, length of file operations', 'clock']
    rule = ('a run executes the program on a generated specification (included parts up to three levels, pointers to other '
            'files, local files or web server with various framings) with up to three faults of network or disk; on '
            'success the output file must contain all definitions in order exactly once per inclusion; without harmful '
            'faults it must succeed; non-trivial: a fault fired or parts are included; distinct by event log')
    measure = 'distinct event logs of network and disk'
    assumptions = ['a transfer cut short is detectable: the server announces its length or sends chunks',
                   'web servers answer requests with the right page or not at all',
                   'specifications are UTF-8 without byte order mark, code blocks are fenced by ```typescript and ```, '
                   'declarations do not start with { or [ or a call in the first column']
    budget = {'quick': (15300, 100), 'thorough': (150000, 780)}

    def setup(self):
        import http.client, socket, ssl, urllib.request, urllib.error, urllib.parse, runpy      # noqa
        import concurrent.futures.process, concurrent.futures.thread, queue, threading          # noqa
        for n in ('http.cookiejar', 'html', 'html.parser', 'gzip', 'email.parser', 'encodings.idna', 'shutil',
                  'tempfile', 'urllib.robotparser', 'encodings.latin_1', 'argparse', 'asyncio'):
            __import__(n)
        self.base = target.prepare()

    def gen(self, r, tier, index):
        mode = r.choice(['http', 'http', 'https', 'https', 'default', 'www', 'local', 'local'])
        site = {'default': DEFAULT[1].strip('/') + '/', 'local': r.choice(['', 'site/', 'a/b/'])}.get(mode)
        if site is None:
            site = r.choice(['', 'pages/', 'x/gh-pages/'])
        inner = {'default': '_specifications/lsp/3.18/'}.get(mode) or r.choice(
            ['_specifications/', '_specifications/lsp/3.17/', '_specifications/lsp/3.18/', 'docs/'])
        name = 'specification.md' if mode == 'default' else r.choice(
            ['specification.md', 'spec.md', 'specification-3-16.md', 'x.y.md'])
        root = site + inner + name
        d = Doc(r, root, '')
        faulty = r.choice([0, 0, 0, 0, .1])
        if r.random() < .12:
            d.pointer(root, 0, faulty)
        else:
            d.doc(root, 0, faulty)
            while len(d.text(root)) < 300:
                d.docs[root].append(d.prose())
        if not any(p[0] == 'def' for x in d.docs.values() if x[0] != 'pointer' for p in x):
            for x in d.docs.values():
                if x[0] != 'pointer':
                    x.append(d.block())
                    break
        host = {'default': DEFAULT[0], 'www': 'www.example.org'}.get(mode, 'example.org')
        url = {'http': 'http://', 'https': 'https://', 'www': ''}.get(mode)
        arg = None if mode == 'default' else root if mode == 'local' else url + host + '/' + root
        faults, dfaults = [], []
        for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3])):
            if mode != 'local' and r.random() < .85:
                k = r.choice(HARD) if r.random() < .85 else r.choice(net.HARMLESS)
                f = {'kind': k, 'n': r.randrange(max(1, len(d.docs) + (1 if k in ('slow',) else 0)))}
                if k == 'status':
                    f['status'] = r.choice([404, 403, 410, 429, 500, 502, 503, 504])
                    f['body'] = r.choice(['', 'page'])
                elif k in ('fin', 'reset', 'stall', 'badchunk'):
                    f['frac'] = r.choice([0, .01, .3, .5, .9, .99, 1])
                    f['where'] = r.choice(['head', 'body', 'body', 'body'])
                elif k == 'moved' or k == 'away':
                    f['status'] = r.choice([301, 302, 303, 307, 308])
                elif k == 'garbage':
                    f['bytes'] = r.choice(['\x15\x03\x03\x00\x02\x02\x50', 'HTP/1.1 200 OK\r\n\r\n', 'no\r\n\r\n',
                                           'HTTP/1.1 OK\r\n\r\n', '\x00' * 40])
                elif k == 'slow':
                    f['delay'] = r.choice([1, 100, 10000])
                faults.append(f)
            else:
                k = r.choice(['err', 'err', 'err', 'short', 'kill', 'mem', 'int'])
                f = {'kind': k, 'n': r.randrange(6), 'on': r.choice(['open-w', 'write', 'write', 'close-w', 'read', 'open-r'])}
                if f['on'] in ('open-w', 'close-w'):
                    f['n'] = 0
                if k == 'err':
                    f['errno'] = r.choice(disk.COMPAT[f['on']])
                    if f['on'] == 'write':
                        f['frac'] = r.choice([0, .5, .9])
                        f['sticky'] = r.random() < .5
                        f['n'] = r.choice([0, 0, 1])
                elif k == 'short':
                    f['on'] = r.choice(['write', 'read'])
                    f['frac'] = r.choice([.1, .5, .9])
                    f['n'] = r.randrange(3)
                dfaults.append(f)
        return {'docs': d.docs, 'root': root, 'mode': mode, 'host': host, 'arg': arg,
                'eol': r.choice(['\n', '\n', '\n', '\r\n']), 'framing': r.choice(['length', 'length', 'chunked', 'old']),
                'pieces': r.choice([[], [], [1000], [1, 7, 100, 3], [r.randrange(1, 5000) for _ in range(5)]]),
                'faults': faults, 'dfaults': dfaults, 'old': r.random() < .4, 'cwd': r.choice(['.', '.', 'work'])
                if mode != 'local' else '.', 'enc': r.choice(['utf-8', 'utf-8', 'ascii', 'cp1252']),
                'sched': [r.randrange(4) for _ in range(60)], 'rnd': r.randrange(1000)}

    def sample(self, plan):
        return {'files': {p: [x if isinstance(x, str) else x[0] for x in d] for p, d in sorted(plan['docs'].items())},
                **{k: plan[k] for k in ('mode', 'framing', 'pieces', 'faults', 'dfaults', 'eol')}}

    # ---------------------------------------------------------------- execution
    def execute(self, plan, stats):
        base = tempfile.mkdtemp(prefix='x_', dir=os.environ.get('DST_SCRATCH') or world.scratch_base())
        root = os.path.join(base, 'w')
        log = []
        v = None
        probes = {}
        res = {'ops': 0, 'simtime': 0.0, 'fired': 0}
        try:
            os.makedirs(os.path.join(root, plan['cwd']))
            try:
                self.session(plan, root, stats, log, probes, res)
            except Violation as e:
                v = {'class': e.cls, 'detail': e.detail.replace(root, '<ROOT>')}
                log.append(('violation', e.cls))
        finally:
            shutil.rmtree(base, ignore_errors=True)
        return {'violation': v, 'log': log, 'probes': probes, 'inter': [core.digest(log)], 'simtime': res['simtime'],
                'ops': res['ops'], 'nontrivial': bool(res['fired'] or len(plan['docs']) > 1)}

    def session(self, plan, root, stats, log, probes, res):
        docs = plan['docs']
        pages = {}
        for p, parts in docs.items():
            data = render(parts, plan['eol']).encode('utf-8')
            if plan['mode'] == 'local':
                q = os.path.join(root, p)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, 'wb') as f:
                    f.write(data)
            else:
                pages[(plan['host'], '/' + p)] = data
        if not pages:
            pages[('example.org', '/')] = b''
        stem = posixpath.basename(plan['root'])
        dest = os.path.join(root, plan['cwd'], stem[:stem.rfind('.')] + '.ts')
        if plan['old']:
            with open(dest, 'w') as f:
                f.write('export type T1 = Old;\n')
        k = disk.Kernel(root, [dict(f, inc=0) for f in plan['dfaults']], plan['sched'], stats)
        k.MAXOPS = 60000
        k.start(0)
        k.services = n = net.Net(k, pages, plan['faults'], plan['framing'], plan['pieces'], pool.Service(k))
        sim = simos.Sim(root, None, encoding=plan['enc'], seed=plan['rnd'])
        script = os.path.join(self.base, SCRIPT)

        def body(extra):
            import io
            os.chdir(os.path.join(root, plan['cwd']))
            net.install()
            pool.install(3)
            sys.argv = [script] + ([plan['arg']] if plan['arg'] is not None else [])
            sys.stdout = sys.stderr = io.StringIO()
            sys.setrecursionlimit(300)
            runpy.run_path(script, run_name='__main__')
        a = k.spawn('x', body, sim)
        try:
            k.run()
        except BaseException:
            k.abort()
            raise
        finally:
            log.extend(k.log)
            res['ops'] = k.nops
            res['simtime'] = n.elapsed
            res['fired'] = len(k.fired) + len(n.fired)
        out = a.outcome
        if out.get('escaped'):
            raise disk.HarnessError('write outside: %s' % out['escaped'][:2])
        log.append(('outcome', repr(sorted((x, y) for x, y in out.items() if x in ('exc', 'exit', 'killed')))))
        ok = not out.get('killed') and not out.get('exc') and out.get('exit') in (None, 0)
        want = expected(docs, plan['root'])
        broken = None in want
        deep = 'deep' in want
        harmful = n.harmful or any(f['kind'] != 'short' for f in k.fired)
        key = 'success' if ok else 'failure'
        probes['%s, %s' % (key, 'missing part' if broken else 'disturbed' if harmful else 'undisturbed')] = 1
        if not ok:
            if not broken and not deep and not harmful:
                raise Violation('fails-undisturbed', 'nothing went wrong, but the program ended with %s %s' % (
                    out.get('exc') or 'status %r' % out.get('exit'), out.get('msg', '')[:200]))
            return
        if broken:
            raise Violation('missing-part', 'success although a part is missing; requests: %s' % n.requests[:20])
        want = [l for l in want if l != 'deep']
        data = world.read_bytes(dest)
        if data is None:
            raise Violation('no-output', 'success, but there is no output file')
        try:
            text = data.decode('utf-8')
        except UnicodeDecodeError as e:
            raise Violation('incomplete', 'output is not UTF-8: %s' % e)
        got = [l.strip() for l in text.split('\n') if RX_TOKEN.search(l)]
        if got != want:
            i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            raise Violation('incomplete', 'success, but definitions are wrong from line %d on (%d of %d): %s, expected %s; '
                            'faults: %s' % (i, len(got), len(want), got[i:i + 2], want[i:i + 2],
                                            n.fired + [f['kind'] for f in k.fired]))

    def shrink(self, plan):
        for k in ('faults', 'dfaults'):
            for x in drop_items(plan[k]):
                yield with_key(plan, k, x)
        for p in sorted(plan['docs']):
            if p != plan['root']:
                yield with_key(plan, 'docs', {q: d for q, d in plan['docs'].items() if q != p})
        for p, parts in sorted(plan['docs'].items()):
            if parts and parts[0] != 'pointer':
                for x in drop_items(parts):
                    if len(render(x)) > 256:
                        yield with_key(plan, 'docs', dict(plan['docs'], **{p: x}))
        for k, x in (('old', False), ('pieces', []), ('eol', '\n'), ('framing', 'length'), ('enc', 'utf-8'), ('sched', []),
                     ('cwd', '.')):
            if plan[k] != x:
                yield with_key(plan, k, x)


PROPS = {'C18': C18()}
