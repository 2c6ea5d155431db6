"""A simulated network: urllib and http.client are real, sockets are not.

`Net` is the part inside the kernel: name service, web server and everything that can go
wrong in between.  `install()` replaces what http.client uses of the socket module in a
simulated process; TLS is left out, the bytes of the HTTP exchange are what they would be
inside the tunnel.
"""

import errno
import io

from . import simos

BODY = b'<html><head><title>%d</title></head>\n<body>\n<p>error</p>\n</body></html>\n'
REASON = {301: 'Moved Permanently', 302: 'Found', 303: 'See Other', 307: 'Temporary Redirect',
          308: 'Permanent Redirect', 404: 'Not Found', 403: 'Forbidden', 410: 'Gone', 429: 'Too Many Requests',
          500: 'Internal Server Error', 502: 'Bad Gateway', 503: 'Service Unavailable', 504: 'Gateway Timeout'}
HARMLESS = ('slow', 'moved', 'pieces', 'continue')


class Net:
    """pages: (host, path) -> bytes; faults: [{'n': number of the connection, 'kind', ...}]"""

    def __init__(self, kernel, pages, faults=(), framing='length', pieces=(), pools=None):
        self.k = kernel
        self.pages = pages
        self.faults = [dict(f) for f in faults]
        self.framing = framing
        self.pieces = list(pieces)
        self.conns = []
        self.requests = []
        self.fired = []
        self.harmful = 0
        self.pools = pools
        self.elapsed = 0.0

    # -- kernel side ------------------------------------------------------
    def handles(self, kind):
        return kind.startswith('net-') or self.pools is not None and self.pools.handles(kind)

    def handle(self, a, kind, info):
        if not kind.startswith('net-'):
            return self.pools.handle(a, kind, info)
        r = getattr(self, kind[4:])(info)
        self.k.note(a.name, kind, info.get('id', len(self.conns) - 1), str(r)[:60])
        self.k.reply(a, r, None)

    def pump(self):
        if self.pools:
            self.pools.pump()

    def process_died(self, a):
        if self.pools:
            self.pools.process_died(a)

    def fault(self, n):
        for f in self.faults:
            if not f.get('done') and f['n'] <= n:
                if f.get('path') and not (self.conns and self.want.endswith(f['path'])):
                    continue
                return f
        return None

    def fire(self, c, kind):
        f = c['fault']
        if f and not f.get('fired'):
            f['fired'] = True
            self.fired.append(kind)
            self.k.count('fault:net ' + kind)
            if kind not in HARMLESS:
                self.harmful += 1

    def connect(self, info):
        n = len(self.conns)
        c = {'host': info['host'], 'port': info['port'], 'in': b'', 'out': None, 'pos': 0, 'end': 'fin',
             'fault': None, 'limit': None, 'recvs': 0, 'sizes': []}
        for f in self.faults:
            if f['n'] == n:
                c['fault'] = f
        self.conns.append(c)
        kind = c['fault']['kind'] if c['fault'] else ''
        if kind == 'noname':
            self.fire(c, kind)
            return ('gai',)
        for k, e in (('refused', errno.ECONNREFUSED), ('unreachable', errno.ENETUNREACH),
                     ('noanswer', errno.ETIMEDOUT), ('nofiles', errno.EMFILE)):
            if kind == k:
                self.fire(c, k)
                if k == 'noanswer':
                    self.elapsed += 127
                    if info.get('timeout') is not None:
                        self.elapsed += info['timeout'] - 127
                        return ('timeout',)
                return ('err', e)
        if info['host'] not in {h for h, _ in self.pages}:
            return ('gai',)
        return ('conn', n)

    def send(self, info):
        c = self.conns[info['id']]
        if c['fault'] and c['fault']['kind'] == 'reset-send':
            self.fire(c, 'reset-send')
            return ('err', c['fault'].get('errno', errno.ECONNRESET))
        c['in'] += info['data']
        if b'\r\n\r\n' in c['in'] and c['out'] is None:
            self.answer(c)
        return ('ok',)

    def answer(self, c):
        head = c['in'].split(b'\r\n')[0].decode('latin-1').split(' ')
        path = head[1] if len(head) > 1 else '/'
        if '://' in path:
            path = '/' + path.split('://', 1)[1].split('/', 1)[1]
        self.requests.append(path)
        self.k.note('request', path)
        f = c['fault']
        kind = f['kind'] if f else ''
        page = self.pages.get((c['host'], path))
        if kind == 'status':
            self.fire(c, 'status')
            body = page if f.get('body') == 'page' and page else BODY % f['status']
            return self.respond(c, f['status'], body)
        if kind == 'empty':
            self.fire(c, kind)
            c['out'] = b''
            return
        if kind == 'garbage':
            self.fire(c, kind)
            c['out'] = f.get('bytes', '\x15\x03\x03\x00\x02\x02\x50').encode('latin-1')
            return
        if kind == 'loop':
            self.fire(c, kind)
            f['n'] += 1          # the next connection meets the same fault
            g = dict(f)
            self.faults.append(g)
            return self.respond(c, 302, b'', [('Location', path)])
        if kind == 'away':
            self.fire(c, kind)
            return self.respond(c, f.get('status', 302), b'', [('Location', '/login' + path)])
        if page is None:
            if path.startswith('/moved/'):
                page = self.pages.get((c['host'], path[6:]))
            if page is None:
                return self.respond(c, 404, BODY % 404)
        if kind == 'moved' and not path.startswith('/moved/'):
            self.fire(c, kind)
            return self.respond(c, f.get('status', 302), b'', [('Location', '/moved' + path)])
        self.respond(c, 200, page)
        if kind in ('slow', 'pieces'):
            self.fire(c, kind)
            self.elapsed += f.get('delay', 20.0)
        elif kind == 'continue':
            self.fire(c, kind)
            c['out'] = b'HTTP/1.1 100 Continue\r\n\r\n' + c['out']
        elif kind in ('fin', 'reset', 'stall', 'badchunk'):
            start = 0 if f.get('where') == 'head' else c['out'].index(b'\r\n\r\n') + 4
            total = len(c['out']) - start
            if kind == 'badchunk':
                if c['sizes']:      # the size of a chunk is not a number
                    i = start + c['sizes'][min(int(len(c['sizes']) * f.get('frac', .5)), len(c['sizes']) - 1)]
                    c['out'] = c['out'][:i] + b'Z' + c['out'][i + 1:]
                    self.fire(c, kind)
                return
            if f.get('where') == 'head':
                total = c['out'].index(b'\r\n\r\n') + 4
            c['limit'] = start + min(int(total * f.get('frac', .5)), max(total - 1, 0))
            c['end'] = kind

    def respond(self, c, status, body, headers=()):
        c['sizes'] = []
        r = ['HTTP/1.%d %d %s' % (0 if self.framing == 'old' else 1, status, REASON.get(status, 'OK')),
             'Content-Type: text/plain; charset=utf-8', 'Server: sim']
        r += ['%s: %s' % h for h in headers]
        if self.framing == 'chunked':
            r.append('Transfer-Encoding: chunked')
            out, i = b'', 0
            k = 0
            while i < len(body):
                n = (self.pieces[k % len(self.pieces)] if self.pieces else 1000) * 7 + 1
                k += 1
                part = body[i:i + n]
                c['sizes'].append(len(out))
                out += b'%x\r\n' % len(part) + part + b'\r\n'
                i += n
            body = out + b'0\r\n\r\n'
        else:
            r.append('%s: %d' % ('content-length' if self.framing == 'old' else 'Content-Length', len(body)))
        r.append('Connection: close')
        c['out'] = '\r\n'.join(r).encode('latin-1') + b'\r\n\r\n' + body

    def recv(self, info):
        c = self.conns[info['id']]
        if c['out'] is None:
            return ('data', b'')
        stop = len(c['out']) if c['limit'] is None else c['limit']
        if c['pos'] >= stop and c['limit'] is not None:
            self.fire(c, c['end'])
            if c['end'] == 'reset':
                return ('err', errno.ECONNRESET)
            if c['end'] == 'stall':
                if info.get('timeout') is not None:
                    self.elapsed += info['timeout']
                    return ('timeout',)
                self.elapsed += 7200
                return ('err', errno.ETIMEDOUT)
            return ('data', b'')
        n = info['n']
        c['recvs'] += 1
        if self.pieces and n > 1 and c['recvs'] < 500:
            n = min(n, max(1, self.pieces[(c['pos'] + len(self.requests)) % len(self.pieces)]))
        data = c['out'][c['pos']:min(c['pos'] + n, stop)]
        c['pos'] += len(data)
        self.elapsed += 0.01
        return ('data', data)


# ----------------------------------------------------- inside a simulated process

class Raw(io.RawIOBase):
    def __init__(self, sock):
        self.s = sock

    def readable(self):
        return True

    def readinto(self, b):
        data = self.s.recv(len(b))
        b[:len(data)] = data
        return len(data)


class SimSocket:
    def __init__(self, ident, timeout):
        self.ident, self.timeout = ident, timeout

    def _ask(self, kind, **info):
        r = simos.SIM.channel().request((kind, '', dict(info, id=self.ident, timeout=self.timeout)))
        return checked(r)

    def sendall(self, data, flags=0):
        self._ask('net-send', data=bytes(data))

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv(self, n, flags=0):
        return self._ask('net-recv', n=n)[1]

    def recv_into(self, b, n=0, flags=0):
        data = self.recv(n or len(b))
        b[:len(data)] = data
        return len(data)

    def makefile(self, mode='r', buffering=None, **kw):
        return io.BufferedReader(Raw(self))

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def shutdown(self, how):
        pass

    def close(self):
        pass

    def fileno(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def checked(r):
    import os
    import socket
    if r[0] == 'gai':
        raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
    if r[0] == 'timeout':
        raise TimeoutError('timed out')
    if r[0] == 'err':
        raise OSError(r[1], os.strerror(r[1]))
    return r


def install():
    """in a simulated process"""
    import http.client
    import os
    import socket
    import ssl
    import urllib.request
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    default = socket._GLOBAL_DEFAULT_TIMEOUT

    def create_connection(address, timeout=default, source_address=None, *, all_errors=False):
        t = socket.getdefaulttimeout() if timeout is default else timeout
        r = checked(simos.SIM.channel().request(('net-connect', '', {'host': address[0], 'port': address[1],
                                                                     'timeout': t})))
        return SimSocket(r[1], t)
    socket.create_connection = create_connection

    def connect(self):
        http.client.HTTPConnection.connect(self)
    http.client.HTTPSConnection.connect = connect
    ssl.create_default_context = ssl._create_default_https_context = lambda *a, **k: ssl.SSLContext(
        ssl.PROTOCOL_TLS_CLIENT)
    if hasattr(http.client, '_create_https_context'):
        http.client._create_https_context = lambda v: ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    urllib.request._opener = None
