"""An interpreter in an environment of its own: translates what it is told on standard input.

    python -m dst.envchild  < plan (JSON)  > results (JSON)

Started with hash seed, locale variables and time zone of the environment; clock, process id,
random numbers and default encoding are simulated on top of that.
"""

import json
import os
import sys

from . import simos


class Chan:
    sock = None

    def request(self, msg):
        return ('ok',)


def layout(seed):
    """shifts the addresses of whatever is created later on"""
    keep = []
    x = seed
    for _ in range(seed % 97):
        x = (x * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1)
        keep.append([bytearray((x >> 40) % 4000)] * ((x >> 20) % 50))
        if x >> 63:
            keep.pop((x >> 30) % len(keep))
    return keep


def machine(env):
    """what else tells one machine from another"""
    import platform
    import socket
    host, cpus = env.get('host', 'host'), env.get('cpus', 4)
    uname = os.uname_result(('Linux', host, '6.1.%d' % len(host), '#1', 'x86_64'))
    os.uname = lambda: uname
    socket.gethostname = lambda: host
    platform.node = lambda: host
    os.cpu_count = lambda: cpus
    os.sched_getaffinity = lambda pid: set(range(cpus))
    os.getlogin = lambda: host + 'er'


def perform(t, job, env, root, now):
    from DHParser.configuration import set_config_value
    from DHParser.error import canonical_error_strings
    from .world import put_files, run_cli, set_options
    out = {}
    sim = simos.Sim(root, Chan(), now=now, pid=env['pid'], encoding=env.get('enc') or simos_encoding(),
                    seed=env['rnd'], tzshift=env['tz'])
    sim.step = env.get('step', sim.step)
    put_files(root, {job['src']: job['text']}, ['elsewhere', 'elsewhere/deep'], {}, {})
    cwd = os.path.join(root, env['cwd'])
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    src = os.path.join(root, job['src'])
    dst = os.path.splitext(src)[0] + '.py'
    if job['mode'] == 'relative':
        os.chdir(os.path.dirname(src))
        src, dst = os.path.basename(src), os.path.basename(dst)
    so, se, argv = sys.stdout, sys.stderr, sys.argv
    sys.argv = ['ts2pythonParser.py']
    simos.activate(sim)
    try:
        if job['mode'] == 'cli':
            run_cli(t, ['ts2pythonParser.py', src] + job['argv'])
        else:
            set_options(job['opts'])
            if job['mode'] == 'text':
                text, errors = t.compile_src(job['text'] + '\n')
                out['text'] = text
                out['messages'] = list(canonical_error_strings(errors))
            else:
                out['ret'] = t.process_file(src, dst)
                if job.get('again'):        # finds its own result
                    out['ret'] = [out['ret'], t.process_file(src, dst)]
    except SystemExit as e:
        out['exit'] = e.code
    except BaseException as e:
        out['exc'] = type(e).__name__
        out['msg'] = str(e)[:300]
    finally:
        simos.deactivate()
        sys.stdout, sys.stderr, sys.argv = so, se, argv
    os.chdir('/')
    out['files'] = {}
    for dp, _, fns in os.walk(root):
        for f in fns:
            p = os.path.join(dp, f)
            with open(p, 'rb') as fh:
                out['files'][os.path.relpath(p, root)] = fh.read().hex()
    if sim.escaped:
        out['escaped'] = sim.escaped
    return out


def simos_encoding():
    import locale
    return locale.getencoding()


def main():
    plan = json.loads(sys.stdin.buffer.read().decode('utf-8'))
    env, jobs, root = plan['env'], plan['jobs'], plan['root']
    out_fd = os.dup(1)
    os.dup2(2, 1)
    simos.install()
    keep = layout(env['layout'])
    from . import target
    base = target.prepare()
    sys.path.insert(0, base)
    from importlib import import_module
    os.environ['HOME'] = env['home']
    machine(env)
    sim = simos.Sim(root, Chan(), now=env['now'], pid=env['pid'], encoding=env.get('enc') or simos_encoding(),
                    seed=env['rnd'], tzshift=env['tz'])
    simos.activate(sim)
    try:
        t = import_module('ts2pythonParser')
    finally:
        simos.deactivate()
    results = []
    for i, job in enumerate(jobs):
        r = os.path.join(root, 'j%d' % i)
        os.makedirs(r)
        now = env['now'] + i * env.get('pace', 0)
        if plan['forked']:
            a, b = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(a)
                    data = json.dumps(perform(t, job, env, r, now)).encode()
                    while data:
                        data = data[os.write(b, data):]
                finally:
                    os._exit(0)
            os.close(b)
            data = b''
            while True:
                c = os.read(a, 1 << 16)
                if not c:
                    break
                data += c
            os.close(a)
            os.waitpid(pid, 0)
            results.append(json.loads(data.decode()) if data else {'exc': 'died'})
        else:
            results.append(perform(t, job, env, r, now))
    data = json.dumps(results).encode()
    while data:
        data = data[os.write(out_fd, data):]
    del keep


if __name__ == '__main__':
    main()
