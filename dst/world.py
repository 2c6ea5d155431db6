"""Histories of runs of the translator on a simulated disk, and their oracles."""

import io
import os
import re
import shutil
import stat
import sys
import tempfile

from . import disk, simos, target
from .disk import Violation

RX_STAMP = re.compile(r'\A# Generated by ts2python version (\S+) on [^\n]*\n')


def scratch_base():
    for d in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return '/tmp'


def show(x, n=300):
    if x is None:
        return '<absent>'
    if isinstance(x, bytes):
        try:
            x = x.decode('utf-8')
        except UnicodeDecodeError:
            x = repr(x)
    return x if len(x) <= n else x[:n // 2] + ' [...] ' + x[-n // 2:]


def diff(a, b):
    """short description of the first difference"""
    a, b = show(a, 10**6), show(b, 10**6)
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return 'found %r, expected %r (at offset %d, lengths %d/%d)' % (
        a[max(0, i - 30):i + 60], b[max(0, i - 30):i + 60], i, len(a), len(b))


class Tree:
    """Snapshot of a directory tree."""

    def __init__(self, root):
        self.root = root
        self.e = {}
        for dp, dns, fns in os.walk(root):
            for d in list(dns):
                p = os.path.join(dp, d)
                if os.path.islink(p):
                    fns.append(d)
                    dns.remove(d)
                else:
                    self.e[os.path.relpath(p, root)] = ('d',)
            for f in fns:
                p = os.path.join(dp, f)
                st = os.lstat(p)
                rel = os.path.relpath(p, root)
                if stat.S_ISLNK(st.st_mode):
                    self.e[rel] = ('l', os.readlink(p))
                elif stat.S_ISREG(st.st_mode):
                    with open(p, 'rb') as fh:
                        self.e[rel] = ('f', fh.read(), stat.S_IMODE(st.st_mode))
                else:
                    self.e[rel] = ('?', st.st_mode)


def read_bytes(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except OSError:
        return None


class World:
    def __init__(self, prop, plan, stats, keep_log=True):
        self.prop, self.plan, self.stats = prop, plan, stats
        self.base = tempfile.mkdtemp(prefix='r_', dir=os.environ.get('DST_SCRATCH') or scratch_base())
        self.root = os.path.join(self.base, 'w')
        self.nfresh = 0
        self.tools = {}
        self.log = []
        self.refs = {}
        self.now = plan.get('start', 1.7e9)
        self.simtime = 0.0
        self.disturbed = False         # some run since the last good one was disturbed
        self.interleavings = []
        self.ops = 0
        self.probes = {}
        self.session = None            # process that lives on from run to run
        self.ini = None                # options in ts2pythonParser.ini, if not those shipped
        self.installed = None          # version of the translator in the place where upgrades replace it

    # ---------------------------------------------------------------- helpers
    def flag(self, prop, cls, detail):
        if prop == self.prop:
            raise Violation(cls, detail)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def path(self, rel):
        return os.path.join(self.root, rel)

    def nr(self, run, name):
        return norm_rel(run, name, self.plan.get('links'))

    def tool_path(self, k):
        """path of version k of the translator script; version 0 is the one in /repo"""
        if k == 0 and not self.plan.get('ini'):
            return None
        if k not in self.tools:
            d = os.path.join(self.base, 'tools', str(k))
            os.makedirs(d)
            with open(os.path.join(target.prepare(), 'ts2pythonParser.py'), encoding='utf-8') as f:
                script = f.read()
            if k:
                script += VARIANT % {'k': k}
            self.write_ini(d)
            p = os.path.join(d, 'ts2pythonParser.py')
            with open(p, 'w', encoding='utf-8') as f:
                f.write(script)
            self.tools[k] = p
        return self.tools[k]

    def write_ini(self, d):
        """the file with the preset options of the command line"""
        os.makedirs(os.path.join(d, 'ts2python'), exist_ok=True)
        name = os.path.join(d, 'ts2python', 'ts2pythonParser.ini')
        if self.ini is None:
            with open(os.path.join(target.prepare(), 'ts2python', 'ts2pythonParser.ini'), encoding='utf-8') as f:
                text = f.read()
        else:
            text = '[ts2python]\n' + ''.join('%s = %r\n' % (k.split('.')[1], v) for k, v in sorted(self.ini.items()))
        with open(name, 'w', encoding='utf-8') as f:
            f.write(text)

    def install(self, k):
        """replaces the installed translator; processes that have loaded it go on with what they have"""
        d = os.path.join(self.base, 'tools', 'cur')
        os.makedirs(d, exist_ok=True)
        self.write_ini(d)
        src = self.tool_path(k) or os.path.join(target.prepare(), 'ts2pythonParser.py')
        shutil.copyfile(src, os.path.join(d, 'new'))
        p = os.path.join(d, 'ts2pythonParser.py')
        os.replace(os.path.join(d, 'new'), p)
        if self.installed is not None:
            self.probe('upgrade in place')
        self.installed = k
        return p

    def tool_for(self, run):
        """-> (path to load the translator from, or None, version that will be at work)"""
        k = run.get('tool', 0)
        if not self.plan.get('inplace'):
            return self.tool_path(k), k
        if k != self.installed:
            self.install(k)
        if run.get('sess') and run['mode'] != 'cli' and self.session is not None and not run.get('restart') \
                and self.session[0].state == 'idle':
            k = self.session[1]
        return os.path.join(self.base, 'tools', 'cur', 'ts2pythonParser.py'), k

    def norm(self, data, root=None):
        if data is None:
            return None
        if isinstance(data, bytes):
            try:
                data = data.decode('utf-8')
            except UnicodeDecodeError:
                return 'undecodable: ' + repr(data)
        data = data.replace('\r\n', '\n') if os.linesep != '\n' else data
        data = data.replace(root or self.root, '<ROOT>')
        data = data.replace(os.path.join(self.base, 'tools') + '/', '<TOOL>/').replace(self.base, '<BASE>')
        return RX_STAMP.sub(r'# Generated by ts2python version \1 on <STAMP>\n', data)

    def digest_items(self):
        return self.log

    def close(self):
        self.end_session()
        shutil.rmtree(self.base, ignore_errors=True)

    # ----------------------------------------------------------- environment
    def setup(self):
        os.makedirs(self.root)
        put_files(self.root, self.plan.get('files', {}), self.plan.get('dirs', ()), self.plan.get('links', {}),
                  self.plan.get('hardlinks', {}))
        for dp, _, fns in os.walk(self.root):
            for f in fns:
                if not os.path.islink(os.path.join(dp, f)):
                    os.utime(os.path.join(dp, f), (self.now - 1000, self.now - 1000))

    # ------------------------------------------------------------- references
    def reference(self, run, text):
        """What the run yields in an otherwise empty directory (fault-free)."""
        key = repr((run['mode'], run['src'], run['dst'], sorted(run.get('opts', {}).items()),
                    run.get('argv'), run.get('tool', 0), run.get('cwd', '.'), text,
                    run['mode'] == 'cli' and self.ini))
        if key in self.refs:
            return self.refs[key]
        self.nfresh += 1
        root = os.path.join(self.base, 'f%d' % self.nfresh)
        os.makedirs(root)
        rel_src = self.nr(run, run['src'])
        dirs = list(self.plan.get('dirs', ())) + [run.get('cwd', '.')]
        files = {}
        if text is not None and run['mode'] != 'text':
            files[rel_src] = text
        links = {k: v for k, v in self.plan.get('links', {}).items() if v in self.plan.get('dirs', ())}
        put_files(root, files, dirs, links, {})
        k = disk.Kernel(root)
        k.start(0)
        plain = dict(run, enc='utf-8', pid=4242)
        sim = self.sim(root, plain)
        a = k.spawn('ref', lambda extra: self.body(plain, root)(), sim)
        k.run()
        out = a.outcome
        dst = os.path.join(root, self.nr(run, run['dst']))
        stem = os.path.splitext(dst)[0]
        ref = {'out': out, 'dest': self.norm(read_bytes(dst), root), 'msgs': {}}
        for ext in ('_ERRORS.txt', '_WARNINGS.txt'):
            c = read_bytes(stem + ext)
            if c is not None:
                ref['msgs'][ext] = self.norm(c, root)
        # independent of the file handling: the messages of the translation itself
        k = disk.Kernel(root)
        k.start(0)
        sim = self.sim(root, plain)
        a = k.spawn('msgs', lambda extra: self.messages_body(plain, root)(), sim)
        k.run()
        ref['messages'] = a.outcome.get('ret')
        if ref['messages']:
            ref['messages'] = [self.norm(m, root) for m in ref['messages'][0]], ref['messages'][1]
        ref['fatal'] = bool(ref['messages'] is None or ref['messages'][1] >= 10000 or out.get('exc'))
        shutil.rmtree(root, ignore_errors=True)
        self.refs[key] = ref
        return ref

    def sim(self, root, run, i=0):
        # processes that run at the same time differ in pid and random numbers
        return simos.Sim(root, None, now=self.now, pid=run.get('pid', 100) + i * 40009,
                         encoding=run.get('enc', 'utf-8'),
                         seed=(run.get('rnd', 7) * 16 + i) + 10**6 * len(self.log), tzshift=run.get('tz', 0))

    # ------------------------------------------------------- bodies of processes
    def body(self, run, root, tool=''):
        if tool == '':
            tool = self.tool_path(run.get('tool', 0))

        def go():
            os.chdir(os.path.join(root, run.get('cwd', '.')))
            if tool:
                simos_sim, simos.SIM = simos.SIM, None
                try:
                    t = target.load_variant(tool)
                finally:
                    simos.SIM = simos_sim
            else:
                t = target.translator()
            if run['mode'] == 'cli':
                return run_cli(t, ['ts2pythonParser.py', spell(run['src'], root)] + list(run.get('argv', [])))
            set_options(run.get('opts', {}))
            src = run['text'] if run['mode'] == 'text' else spell(run['src'], root)
            ret = t.process_file(src, spell(run['dst'], root))
            return {'ret': ret}
        return go

    def messages_body(self, run, root):
        tool = self.tool_path(run.get('tool', 0))

        def go():
            os.chdir(os.path.join(root, run.get('cwd', '.')))
            t = target.load_variant(tool) if tool else target.translator()
            if run['mode'] == 'cli':
                # the command line sets options and then translates
                got = []
                real = t.compile_src

                def catch(*a, **k):
                    r = real(*a, **k)
                    got.append(r)
                    return r
                t.compile_src = catch
                run_cli(t, ['ts2pythonParser.py', spell(run['src'], root)] + list(run.get('argv', [])))
                t.compile_src = real
                if not got:
                    set_options(run.get('opts', {}))
                    got.append(t.compile_src(spell(run['src'], root)))
                errors = got[-1][1]
            else:
                set_options(run.get('opts', {}))
                src = run['text'] if run['mode'] == 'text' else spell(run['src'], root)
                errors = t.compile_src(src)[1]
            from DHParser.error import canonical_error_strings
            return list(canonical_error_strings(errors)), max([e.code for e in errors], default=0)
        return go

    # ------------------------------------------------------------------- runs
    def source_text(self, run):
        self.tool_path(run.get('tool', 0))
        if run['mode'] == 'text':
            return run['text']
        b = read_bytes(os.path.join(self.root, self.nr(run, run['src'])))
        return b

    def outputs(self, run):
        rel = self.nr(run, run['dst'])
        stem = os.path.splitext(rel)[0]
        return rel, {'_ERRORS.txt': stem + '_ERRORS.txt', '_WARNINGS.txt': stem + '_WARNINGS.txt'}

    def kernel(self, step):
        k = disk.Kernel(self.root, [dict(f, inc=0) for f in step.get('faults', ())], step.get('sched', ()),
                        self.stats)
        k.clock = self.now
        k.mounts = self.plan.get('mounts', ())
        k.start(0)
        return k

    def do_run(self, step):
        text = self.source_now = self.source_text(step)
        path, version = self.tool_for(step)
        ref = self.reference(dict(step, tool=version), text)
        pre = Tree(self.root)
        rel, msgs = self.outputs(step)
        dst_pre = read_bytes(self.path(rel))
        msg_pre = {e: read_bytes(self.path(p)) for e, p in msgs.items()}
        alias = self.alias(step)
        k = self.kernel(step)
        self.seen_new = False

        def on_step(a, kind, path):
            self.check_instant(step, k, ref, rel, msgs, dst_pre, msg_pre, kind)
        k.on_step = on_step
        sim = self.sim(self.root, step)
        if step.get('swap'):
            def on_op(n):
                if n == step['swap'][0]:
                    self.install(step['swap'][1])
                    self.log.append(('upgrade during the run', n))
            k.on_op = on_op
        try:
            if step.get('sess') and step['mode'] != 'cli':
                a = self.session_run(k, step, sim, path, version)
            else:
                a = k.spawn('p', lambda extra: self.body(step, self.root, path)(), sim)
            k.run()
        except BaseException:
            self.session = None
            k.abort()
            self.log.extend(k.log)
            raise
        self.log.extend(k.log)
        self.ops += k.nops
        self.interleavings.append(''.join(k.interleaving))
        out = a.outcome
        self.log.append(('outcome', self.norm(repr(sorted(out.items(), key=str)))))
        self.now = max(self.now, sim.now) + 1
        return self.judge(step, k, ref, rel, msgs, pre, dst_pre, msg_pre, out, alias)

    def session_run(self, k, step, sim, path, tool):
        """a run inside a process that goes on living (a watcher, a server, a notebook)"""
        x = self.session
        if x is not None and (x[1] != tool or x[0].state != 'idle' or step.get('restart')):
            self.end_session()
            x = None
        if x is None:
            a = k.spawn('s', lambda extra: self.session_body(path, sim), sim)
            a.keep = True
            self.session = x = (a, tool)
        else:
            a = x[0]
            k.actors.append(a)
            self.probe('run in a living process')
        a.outcome = None
        plain = {n: v for n, v in step.items() if n not in ('faults', 'sched')}
        k.reply(a, ('job', (plain, sim.now, sim.rnd)), None)
        return a

    def session_body(self, path, sim):
        def go():
            chan = sim.chan
            real = simos.SIM
            simos.SIM = None
            try:
                t = target.load_variant(path) if path else target.translator()
            finally:
                simos.SIM = real
            from DHParser.configuration import get_config_value, set_config_value
            defaults, touched = {}, set()
            out = None
            while True:
                _, (step, now, rnd) = chan.request(('next', '', {'outcome': out}))
                sim.now, sim.rnd = now, rnd
                out = {}
                try:
                    os.chdir(os.path.join(self.root, step.get('cwd', '.')))
                    opts = step.get('opts', {})
                    for o in sorted(set(opts) - set(defaults)):
                        defaults[o] = get_config_value(o, DEFAULT.get(o))
                    for o in sorted(touched - set(opts)):
                        set_config_value(o, defaults[o], allow_new_key=True)
                    touched = set(opts)
                    set_options(opts)
                    src = step['text'] if step['mode'] == 'text' else spell(step['src'], self.root)
                    out['ret'] = {'ret': t.process_file(src, spell(step['dst'], self.root))}
                except SystemExit as e:
                    out['exit'] = e.code
                except BaseException as e:
                    out['exc'], out['msg'] = type(e).__name__, str(e)[:400]
                out['escaped'] = list(sim.escaped)
                del sim.escaped[:]
        return go()

    def end_session(self):
        x, self.session = self.session, None
        if x is not None and x[0].state != 'done':
            disk.Kernel(self.root).kill_process(x[0].pid)
            x[0].sock.close()

    def check_instant(self, step, k, ref, rel, msgs, dst_pre, msg_pre, kind, extra_ok=()):
        d = read_bytes(self.path(rel))
        if d != dst_pre:
            n = self.norm(d)
            if n is None or n != ref['dest'] and n not in extra_ok:
                self.flag('C02', 'torn-destination', 'after %s: %s %s' % (
                    kind, rel, 'vanished' if d is None else diff(n, ref['dest'])))
            if not self.seen_new:
                self.seen_new = True
                self.probe('destination replaced')
        read_fault = any(x[0] in ('open-r', 'read', 'list') for x in k.injected)
        for e, p in msgs.items():
            m = read_bytes(self.path(p))
            if m == msg_pre[e] or read_fault:
                continue
            if m is None and e not in ref['msgs']:
                continue
            if m is None or self.norm(m) != ref['msgs'].get(e):
                self.flag('C02', 'torn-messages', 'after %s: %s %s' % (
                    kind, p, 'vanished' if m is None else diff(self.norm(m), ref['msgs'].get(e))))

    def judge(self, step, k, ref, rel, msgs, pre, dst_pre, msg_pre, out, alias):
        fired = [f['kind'] for f in k.fired]
        killed = bool(out.get('killed'))
        benign = all(f == 'short' for f in fired)
        dst = read_bytes(self.path(rel))
        ndst = self.norm(dst)
        now_msgs = {e: read_bytes(self.path(p)) for e, p in msgs.items()}
        nmsgs = {e: self.norm(m) for e, m in now_msgs.items() if m is not None}
        post = Tree(self.root)
        self.check_bystanders(step, k, pre, post, rel, msgs, killed, out)
        if out.get('escaped'):
            self.flag('C06', 'write-outside', 'the run tried to write outside of its directory: %s' % out['escaped'][:2])
        self.check_instant(step, k, ref, rel, msgs, dst_pre, msg_pre, 'the end of the run')
        if killed:
            self.probe('killed')
            self.disturbed = True
            return
        expected = self.expected_report(ref, step)
        report = self.report(out, step)
        if alias:
            self.probe('aliasing destination')
            if read_bytes(os.path.join(self.root, self.nr(step, step['src']))) != pre_bytes(pre, self.nr(step, step['src'])):
                self.flag('C06', 'source-overwritten', 'source %s was changed by a run with destination %s'
                          % (step['src'], step['dst']))
            if not (out.get('exc') or report[0] == 'ERRORS' or out.get('exit')):
                self.flag('C06', 'alias-not-refused', 'destination %s is the source %s, but the run reports %r'
                          % (step['dst'], step['src'], report))
            return
        if fired and not benign:
            self.probe('faulty run')
            self.disturbed = True
            self.check_c05(step, k, ref, rel, out, ndst, nmsgs, report, expected)
            return
        if unreadable(self.source_now, step):
            # however it is reported: the run has to fail
            if not self.failed(out, report, nmsgs):
                self.flag('C05', 'failure-hidden', 'the source cannot be read, but the run reports %r' % (report,))
            if ndst != self.norm(dst_pre):
                self.flag('C05', 'output-without-source', 'the source cannot be read, but the destination changed: %s'
                          % diff(ndst, self.norm(dst_pre)))
            self.probe('unreadable source')
            self.disturbed = True
            return
        # ---- undisturbed run
        why = 'after undisturbed run (%s, %s)' % (step['src'], step['dst'])
        if benign and fired:
            if (ndst, report) != (ref['dest'] if not ref['fatal'] else self.norm(dst_pre), expected) or \
                    nmsgs != ref['msgs'] and not ref['out'].get('exc'):
                self.flag('C05', 'retryable-fault-visible', 'a short read or write changed the outcome: %r instead of %r; %s'
                          % (report, expected, diff(ndst, ref['dest'])))
        want = self.norm(dst_pre) if ref['fatal'] else ref['dest']
        if not ref['fatal']:
            if ndst != want:
                self.flag('C01', 'stale-or-wrong-output', why + ': ' + diff(ndst, want))
                if self.disturbed:
                    self.flag('C03', 'not-recovered', why + ': ' + diff(ndst, want))
            elif dst_pre is not None and self.norm(dst_pre) == want:
                self.probe('already up to date')
                if dst != dst_pre:
                    self.flag('C01', 'rewritten-although-current', why + ': ' + diff(dst, dst_pre))
            else:
                self.probe('translated anew')
        if report != expected:
            d = '%s: reported %r, expected %r' % (why, report, expected)
            self.flag('C04', 'wrong-report', d)
            if self.disturbed:
                self.flag('C03', 'wrong-report-after-recovery', d)
        if nmsgs != ref['msgs'] and not ref['out'].get('exc'):
            d = '%s: messages files %r, expected %r' % (why, nmsgs, ref['msgs'])
            self.flag('C04', 'wrong-messages-file', d)
            if self.disturbed:
                self.flag('C03', 'wrong-messages-after-recovery', d)
        if ref['messages'] is not None and not ref['out'].get('exc'):
            listed = ref['messages'][0]
            for e, m in nmsgs.items():
                # every message of the translation itself has to be there, and nothing else
                if m != '\n'.join(listed):
                    self.flag('C04', 'messages-differ', '%s: file lists %r, the translation yields %r' % (why, m, listed))
            if listed and not nmsgs:
                self.flag('C04', 'messages-lost', '%s: the translation yields %r, no messages file' % (why, listed))
        if nmsgs:
            self.probe('messages reported')
        if self.disturbed:
            self.probe('recovered')
        self.disturbed = False

    def alias(self, step):
        if step['mode'] == 'text':
            return False
        a = self.path(self.nr(step, step['src']))
        b = self.path(self.nr(step, step['dst']))
        try:
            return os.path.samefile(a, b)
        except OSError:
            return os.path.normpath(a) == os.path.normpath(b)

    def report(self, out, step):
        """(category, text) as a user sees it"""
        if out.get('exc'):
            return ('exception', out['exc'])
        ret = out.get('ret') or {}
        if step['mode'] == 'cli':
            if out.get('exit'):
                return ('exit', str(out['exit']))
            return ('printed', self.norm(ret.get('stdout', '')))
        r = ret.get('ret')
        if not r:
            return ('none', '')
        return ('ERRORS' if str(r).endswith('_ERRORS.txt') else 'WARNINGS', os.path.basename(str(r)))

    def expected_report(self, ref, step):
        return self.report(ref['out'], step)

    def failed(self, out, report, nmsgs):
        text = '\n'.join(nmsgs.values()) + (report[1] if report[0] == 'printed' else '')
        return bool(out.get('exc') or out.get('exit') or report[0] in ('ERRORS', 'printed') and 'Fatal' in text)

    def check_c05(self, step, k, ref, rel, out, ndst, nmsgs, report, expected):
        if self.failed(out, report, nmsgs):
            self.probe('failure signalled')
            return
        what = ', '.join('%s %s %s' % x for x in [(a, k.name(b), c) for a, b, c in k.injected])
        if report[0] == 'ERRORS' and not nmsgs.get('_ERRORS.txt'):
            self.flag('C05', 'report-without-file', 'run returned %r but there is no such file (faults: %s)' % (report, what))
        if not ref['fatal'] and ndst != ref['dest']:
            self.flag('C05', 'failure-hidden', 'run reports %r although the destination is wrong (faults: %s): %s'
                      % (report, what, diff(ndst, ref['dest'])))
        if report != expected:
            self.flag('C05', 'failure-hidden', 'run reports %r instead of %r (faults: %s)' % (report, expected, what))
        if report[0] in ('ERRORS', 'WARNINGS') and nmsgs.get('_%s.txt' % report[0]) != ref['msgs'].get('_%s.txt' % report[0]):
            self.flag('C05', 'failure-hidden', 'messages file is wrong although no failure was signalled (faults: %s)' % what)
        if nmsgs != ref['msgs']:
            d = 'no failure was signalled, but the messages files are %r instead of %r (faults: %s)' % (
                nmsgs, ref['msgs'], what)
            self.flag('C04', 'wrong-messages-file', d)
            self.flag('C05', 'failure-hidden', d)
        self.probe('fault without consequence')

    def check_bystanders(self, step, k, pre, post, rel, msgs, killed, out):
        own = {os.path.normpath(rel)} | {os.path.normpath(p) for p in msgs.values()}
        # a destination reached through a link: the file the link points to
        own |= {os.path.relpath(os.path.realpath(self.path(p)), os.path.realpath(self.root)) for p in list(own)}
        src = os.path.normpath(self.nr(step, step['src'])) if step['mode'] != 'text' else None
        if src:
            srcs = {src, os.path.relpath(os.path.realpath(self.path(src)), os.path.realpath(self.root))}
            own -= srcs
        allowed_new = set(step.get('creates', ()))
        for p, e in pre.e.items():
            q = post.e.get(p)
            if p in own:
                continue
            if q != e:
                self.flag('C06', 'bystander-changed', '%s was %s by a run with destination %s' % (
                    p, 'removed' if q is None else 'changed', step['dst']))
        failed_unlinks = {os.path.relpath(p, self.root) for p in k.unlink_failed}
        for p in post.e:
            if p in pre.e or p in own or p in allowed_new:
                continue
            if killed:
                self.probe('left-over of a killed run')
                continue
            if p in failed_unlinks:
                continue
            self.flag('C06', 'left-over', 'run left %s behind (%s)' % (
                self.kname(k, p), out.get('exc') or 'no exception'))

    def kname(self, k, p):
        return k.name(os.path.join(self.root, p))

    # ------------------------------------------------------- overlapping runs
    def do_par(self, step):
        runs = step['runs']
        texts = [self.source_text(r) for r in runs]
        refs = [self.reference(r, t) for r, t in zip(runs, texts)]
        pre = Tree(self.root)
        outs = [self.outputs(r) for r in runs]
        dst_pre = [read_bytes(self.path(o[0])) for o in outs]
        groups = {}
        for i, o in enumerate(outs):
            groups.setdefault(os.path.realpath(self.path(o[0])), []).append(i)
        k = self.kernel(step)

        def on_step(a, kind, path):
            for g in groups.values():
                ok = {refs[i]['dest'] for i in g}
                d = read_bytes(self.path(outs[g[0]][0]))
                if d == dst_pre[g[0]]:
                    continue
                n = self.norm(d)
                if n is None or n not in ok:
                    self.flag('C07', 'torn-destination', 'while runs overlap, after %s: %s %s' % (
                        kind, outs[g[0]][0], 'vanished' if n is None else diff(n, refs[g[0]]['dest'])))
        k.on_step = on_step
        actors = []
        try:
            if step.get('threads'):
                sim = self.sim(self.root, runs[0])
                bodies = [self.body(dict(r, tool=0, cwd=runs[0].get('cwd', '.')), self.root) for r in runs]

                def main(extra):
                    target.translator()
                    os.chdir(os.path.join(self.root, runs[0].get('cwd', '.')))
                    return disk.spawn_threads(sim, extra, bodies)
                a = k.spawn('p', main, sim, nthreads=len(runs))
                actors = a.threads
            else:
                for i, r in enumerate(runs):
                    sim = self.sim(self.root, r, i)
                    body = self.body(r, self.root)
                    actors.append(k.spawn('p%d' % i, lambda extra, body=body: body(), sim))
            k.run()
        except BaseException:
            k.abort()
            self.log.extend(k.log)
            raise
        self.log.extend(k.log)
        self.ops += k.nops
        self.interleavings.append(''.join(k.interleaving))
        self.now += 5
        self.probe('overlapping threads' if step.get('threads') else 'overlapping processes')
        outcomes = [a.outcome for a in actors]
        self.log.append(('outcomes', self.norm(repr(outcomes))))
        post = Tree(self.root)
        known = set(pre.e)
        for o in outs:
            known.add(os.path.normpath(o[0]))
            known.update(os.path.normpath(p) for p in o[1].values())
        for p, e in pre.e.items():
            if p not in {os.path.normpath(o[0]) for o in outs} and \
                    not p.endswith(('_ERRORS.txt', '_WARNINGS.txt')) and post.e.get(p) != e:
                self.flag('C07', 'bystander-changed', '%s was changed by overlapping runs' % p)
        for p in post.e:
            if p not in known:
                self.flag('C07', 'left-over', '%s left behind by overlapping runs' % self.kname(k, p))
        contested = getattr(self, 'contested', set())
        for real, g in groups.items():
            alone = len(g) == 1 and real not in contested
            if len(g) > 1:
                # the messages files of runs that compete for a destination are unspecified from now on
                contested.add(real)
            self.contested = contested
            d = read_bytes(self.path(outs[g[0]][0]))
            n = self.norm(d)
            ok = {refs[i]['dest'] for i in g if not refs[i]['fatal']}
            for i in g:
                rep = self.report(outcomes[i], runs[i])
                exp = self.expected_report(refs[i], runs[i])
                if outcomes[i].get('exc') and not refs[i]['out'].get('exc'):
                    self.flag('C07', 'spurious-failure', 'run %d (%s -> %s) failed: %s: %s' % (
                        i, runs[i]['src'], runs[i]['dst'], outcomes[i]['exc'], self.norm(outcomes[i].get('msg'))))
                if alone and rep != exp:
                    self.flag('C07', 'wrong-report', 'run %d (%s -> %s) reports %r, alone it reports %r' % (
                        i, runs[i]['src'], runs[i]['dst'], rep, exp))
            if ok:
                if n not in ok:
                    self.flag('C07', 'wrong-output', '%s after overlapping runs: %s' % (
                        outs[g[0]][0], diff(n, sorted(ok)[0])))
                self.probe('same destination' if not alone else 'different destinations')
            elif d != dst_pre[g[0]]:
                self.flag('C07', 'wrong-output', '%s changed although all runs failed' % outs[g[0]][0])
            if alone and not refs[g[0]]['out'].get('exc'):
                i = g[0]
                nm = {e: self.norm(read_bytes(self.path(p))) for e, p in outs[i][1].items()
                      if read_bytes(self.path(p)) is not None}
                if nm != refs[i]['msgs']:
                    self.flag('C07', 'wrong-messages', 'run %d (%s -> %s): messages files %r, alone: %r' % (
                        i, runs[i]['src'], runs[i]['dst'], nm, refs[i]['msgs']))

    # ------------------------------------------------------------------ steps
    def step(self, s):
        op = s['op']
        if op == 'edit':
            p = self.path(s['path'])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            put_file(p, s['text'])
            os.utime(p, (self.now, self.now))
            self.log.append(('edit', s['path'], len(s['text'])))
        elif op == 'del':
            p = self.path(s['path'])
            if os.path.lexists(p) and not os.path.isdir(p):
                os.unlink(p)
            self.log.append(('del', s['path']))
        elif op == 'clock':
            self.now = max(1e6, self.now + s['dt'])
            self.simtime += abs(s['dt'])
            self.log.append(('clock', s['dt']))
        elif op == 'mtime':
            p = self.path(s['path'])
            if os.path.exists(p):
                os.utime(p, (self.now + s['dt'], self.now + s['dt']))
            self.log.append(('mtime', s['path'], s['dt']))
        elif op == 'ini':
            self.ini = s['values']
            for d in sorted(os.listdir(os.path.join(self.base, 'tools'))) if self.tools else ():
                self.write_ini(os.path.join(self.base, 'tools', d))
            self.log.append(('ini', sorted(s['values'].items())))
            self.probe('options in ts2pythonParser.ini')
        elif op == 'run':
            t0 = self.now
            self.do_run(s)
            self.simtime += self.now - t0
        elif op == 'par':
            self.do_par(s)
        else:
            raise disk.HarnessError('unknown step %r' % op)


DEFAULT = {'ts2python.' + k: v for k, v in (
    ('BaseClassName', 'TypedDict'), ('RenderAnonymous', 'local'), ('ClassDecorator', ''), ('UseEnum', True),
    ('UseTypeUnion', False), ('UseTypeParameters', False), ('UseLiteralType', False),
    ('UseVariadicGenerics', False), ('UseNotRequired', False), ('KeepMultilineComments', False))}

VARIANT = '''

# ---- simulated upgrade number %(k)d of the translator
def _dst_upgrade():
    C = globals().get('ts2pythonCompiler')
    if C is not None and hasattr(C, 'finalize'):
        old = C.finalize
        def finalize(self, python_code):
            return old(self, python_code) + '\\n# upgraded translator %(k)d\\n'
        C.finalize = finalize
_dst_upgrade()
'''


def unreadable(text, step):
    if text is None:
        return True
    if isinstance(text, bytes):
        try:
            text.decode('utf-8')
        except UnicodeDecodeError:
            return True
    return False


def pre_bytes(tree, rel):
    e = tree.e.get(os.path.normpath(rel))
    if e and e[0] == 'f':
        return e[1]
    return read_bytes(os.path.join(tree.root, rel))


def put_file(p, text):
    if isinstance(text, dict):
        data = bytes.fromhex(text['hex'])
    else:
        data = text if isinstance(text, bytes) else text.encode('utf-8')
    # as an editor does: in place, so that links keep pointing to it
    with open(p, 'wb') as f:
        f.write(data)


def put_files(root, files, dirs, links, hardlinks):
    for d in dirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for rel, text in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        put_file(p, text)
    for rel, t in links.items():
        os.symlink(t, os.path.join(root, rel))
    for rel, t in hardlinks.items():
        os.link(os.path.join(root, t), os.path.join(root, rel))


def norm_rel(run, name, links=None):
    """path relative to the root of a name as spelled in a run"""
    p = name[6:] if name.startswith('$ROOT/') else os.path.join(run.get('cwd', '.'), name)
    if links and '..' in p.split('/'):
        parts = []                  # "link/.." is the parent of what the link points to
        for c in p.split('/'):
            if c == '..':
                for _ in range(8):
                    here = '/'.join(parts)
                    if here not in links:
                        break
                    parts = os.path.normpath(os.path.join('/'.join(parts[:-1]), links[here])).split('/')
                parts = parts[:-1]
            elif c not in ('', '.'):
                parts.append(c)
        return '/'.join(parts) or '.'
    return os.path.normpath(p)


def spell(name, root):
    return root + name[5:] if name.startswith('$ROOT/') else name


def set_options(opts):
    from DHParser.configuration import set_config_value
    for k, v in opts.items():
        set_config_value(k, v, allow_new_key=True)


def run_cli(t, argv, catch=False):
    saved, so, se = sys.argv, sys.stdout, sys.stderr
    sys.argv = argv
    buf = io.StringIO()
    sys.stdout = sys.stderr = buf
    sys.modules['__main__'].__file__ = t.__file__
    status = None
    try:
        t.main()
    except SystemExit as e:
        if not catch:
            raise
        status = e.code
    finally:
        sys.argv, sys.stdout, sys.stderr = saved, so, se
    text = buf.getvalue()
    # notices of the program about its own installation
    text = '\n'.join(l for l in text.split('\n') if not l.startswith('Could not check whether grammar'))
    return {'stdout': text, 'exit': status} if catch else {'stdout': text}


def execute(prop, plan, stats):
    """Runs a plan; returns (violation or None, world)"""
    w = World(prop, plan, stats)
    try:
        w.setup()
        v = None
        try:
            for i, s in enumerate(plan['steps']):
                w.log.append(('step', i, s['op']))
                w.step(s)
        except Violation as e:
            v = {'class': e.cls, 'detail': w.norm(e.detail)}
            w.log.append(('violation', e.cls))
        return v, w
    finally:
        w.close()
