"""C23: local copies of remote files (LocalFile.tla)."""
import copy
import gzip
import http.server
import json
import os
import queue
import resource
import select
import shutil
import signal
import socket
import struct
import threading
import time
from core import time_limit


class Stuck(Exception):
    """the client does something else than asking the server"""


class Server(object):
    """hands every request over, to be answered step by step"""

    def __init__(self):
        self.requests, self.count = queue.Queue(), 0
        outer = self

        class Handler(http.server.BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.1'

            def do_GET(self):
                outer.count += 1
                self.todo, self.close_connection = queue.Queue(), True
                outer.requests.put(self)
                while True:
                    f = self.todo.get()
                    if f is None:
                        return
                    try:
                        f(self)
                    except OSError:
                        # the client has gone
                        pass

            def finish(self):
                try:
                    http.server.BaseHTTPRequestHandler.finish(self)
                except (OSError, ValueError):
                    pass

            def log_message(self, *args):
                pass

        class Http(http.server.ThreadingHTTPServer):
            daemon_threads = True

            def handle_error(self, *args):
                pass
        self.httpd = Http(('127.0.0.1', 0), Handler)
        self.port = self.httpd.server_port
        threading.Thread(target=self.httpd.serve_forever, kwargs=dict(poll_interval=.05), daemon=True).start()


class Client(object):
    """a process that asks for the file"""

    def __init__(self, ask, limit):
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                # or connections stay open here
                os.closerange(3, w)
                os.closerange(w + 1, 4096)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(30)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                out = dict(st='ok', content='')
                try:
                    if limit:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                    path = ask()
                    with open(path, 'rb') as f:
                        out['content'] = f.read().hex()
                except BaseException as ex:
                    out['st'] = ex.__class__.__name__
                b = json.dumps(out).encode()
                while b:
                    b = b[os.write(w, b):]
            finally:
                os._exit(0)
        os.close(w)
        self.r, self.buf, self.over = r, b'', False

    def ready(self, t):
        return bool(select.select([self.r], [], [], t)[0])

    def result(self, t=10):
        limit = time.time() + t
        while True:
            if not self.ready(max(0, limit - time.time())):
                raise Stuck('no answer')
            b = os.read(self.r, 1 << 16)
            if not b:
                break
            self.buf += b
        self.end()
        return json.loads(self.buf.decode()) if self.buf else dict(st='died', content='')

    def end(self):
        if not self.over:
            self.over = True
            os.close(self.r)
            os.waitpid(self.pid, 0)

    def kill(self):
        if not self.over:
            os.kill(self.pid, signal.SIGKILL)
            self.end()


def run(ctx):
    import requests
    from zounds.datasets.util import ensure_local_file
    from zounds.datasets import DataSetCache
    rng = ctx.rng
    ctx.design('LocalFile')
    gen = []
    for cfg, q, t in (('LocalFileGen', 190, 3000), ('LocalFileGen1', 170, 2500)):
        gen += ctx.generate('LocalFile', cfg, limit=ctx.n(q, t))
    server = Server()
    root = ctx.dir('local')
    cases = []

    def body(v, size, seed):
        r = bytes((seed * 7 + v * 31 + k * (k >> 7 | 1)) % 256 for k in range(size))
        return r

    def case(g, pieces):
        d = os.path.join(root, 'c%d' % len(cases))
        os.makedirs(d)
        kind = rng.choice(['file', 'file', 'file', 'cache'])
        name = 'f%d.bin' % len(cases)
        url = 'http://127.0.0.1:%d/some/where/%s%s' % (server.port, name, rng.choice(['', '', '?x=1&y=/z', '#there']))
        size = rng.choice([1, 50, 4096, 9000, 40000])
        seed = rng.randrange(256)
        bodies = dict((v, body(v, max(size, pieces + 1), seed)) for v in (1, 2, 3))
        known = dict((b, v) for v, b in bodies.items())
        k = dict(kind=kind, size=size, events=[], how=[])
        chunksize = rng.choice([None, None, 100, 4096, 100000])
        while size > 20000 and chunksize == 100:
            chunksize = None
        local = os.path.join(d, name)

        def ask():
            if kind == 'cache':
                return next(iter(DataSetCache(d, [requests.Request(method='GET', url=url)])))
            return ensure_local_file(url, d, **({} if chunksize is None else dict(chunksize=chunksize)))

        def look():
            if kind == 'cache':
                return -9
            if not os.path.lexists(local):
                return 0
            try:
                with open(local, 'rb') as f:
                    return known.get(f.read(), -2)
            except FileNotFoundError:
                return 0
            except OSError:
                return -2
        clients, conns, plans = {}, {}, {}
        version = 1
        before = server.count
        while not server.requests.empty():
            server.requests.get()

        def fate(j):
            cl = g[j]['cl']
            for o in g[j + 1:]:
                if o['cl'] == cl and o['op'] in ('finish', 'fail', 'die', 'ask'):
                    return o['op']

        def head(p):
            def f(h):
                h.send_response(200)
                if p['mode'] == 'gzip':
                    h.send_header('Content-Encoding', 'gzip')
                if p['mode'] in ('length', 'gzip'):
                    h.send_header('Content-Length', str(len(p['data'])))
                elif p['mode'] == 'chunked':
                    h.send_header('Transfer-Encoding', 'chunked')
                h.send_header('Connection', 'close')
                h.end_headers()
            return f

        def data(p, b):
            def f(h):
                h.wfile.write(b if p['mode'] != 'chunked' else b'%x\r\n%s\r\n' % (len(b), b) if b else b'')
                h.wfile.flush()
            return f

        def last(p):
            def f(h):
                if p['mode'] == 'chunked':
                    h.wfile.write(b'0\r\n\r\n')
                h.wfile.flush()
            return f

        def reset(h):
            h.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            h.connection.close()

        def cut(h):
            h.wfile.flush()
            h.connection.shutdown(socket.SHUT_RDWR)

        def status(code):
            def f(h):
                b = b'there is no such file' * 3
                h.send_response(code)
                h.send_header('Content-Length', str(len(b)))
                h.end_headers()
                h.wfile.write(b)
            return f

        def send_head(x):
            p = plans[x]
            if not p['head']:
                p['head'] = True
                conns[x].todo.put(head(p))

        def send_part(x):
            p = plans[x]
            send_head(x)
            a = p['at'] * len(p['data']) // (pieces + 1)
            p['at'] += 1
            b = p['at'] * len(p['data']) // (pieces + 1)
            conns[x].todo.put(data(p, p['data'][a:b]))

        def value(r):
            return -1 if r['st'] != 'ok' else known.get(bytes.fromhex(r['content']), -2)
        here = None
        try:
            with time_limit(60):
                for j, o in enumerate(g):
                    x, op, res = o['cl'], o['op'], 0
                    if op not in ('change', 'ask') and x not in conns:
                        # it was told something already
                        break
                    if op == 'change':
                        version += 1
                    elif op == 'ask':
                        f = fate(j)
                        p = dict(mode=rng.choice(['length', 'length', 'length', 'chunked', 'gzip'] + (['close'] if f == 'finish' else [])), at=0, head=False,
                                 fail=rng.choice(['status', 'cut', 'cut', 'reset', 'sigint', 'disk']) if f == 'fail' else None)
                        if size < 4096 and p['fail'] == 'disk':
                            p['fail'] = 'cut'
                        p['data'] = bodies[version] if p['mode'] != 'gzip' else gzip.compress(bodies[version])
                        plans[x] = p
                        seen = server.count
                        clients[x] = cl = Client(ask, rng.choice([1, 100, size // 2]) if p['fail'] == 'disk' else 0)
                        limit = time.time() + 10
                        while True:
                            try:
                                conns[x] = server.requests.get(timeout=.002)
                                break
                            except queue.Empty:
                                pass
                            if cl.ready(0):
                                res = value(cl.result())
                                break
                            if time.time() > limit:
                                raise Stuck('does not ask the server')
                        if f == 'finish' and rng.random() < .3 and x in conns:
                            send_head(x)
                    elif op == 'piece':
                        send_part(x)
                        if rng.random() < .5:
                            time.sleep(.002)
                    elif op == 'finish':
                        while plans[x]['at'] <= pieces:
                            send_part(x)
                        conns[x].todo.put(last(plans[x]))
                        conns[x].todo.put(None)
                        res = value(clients[x].result())
                        conns.pop(x)
                    else:
                        p, conn = plans[x], conns[x]
                        k['how'].append('%s %s %d' % (op, p['fail'] or '', p['at']))
                        if op == 'die':
                            if rng.random() < .5:
                                send_head(x)
                            if rng.random() < .5:
                                time.sleep(.002)
                            clients[x].kill()
                            conn.todo.put(None)
                        else:
                            how = p['fail']
                            if how == 'status' and p['head']:
                                how = 'cut'
                            if how == 'status':
                                conn.todo.put(status(rng.choice([404, 403, 500, 503])))
                            elif how == 'reset':
                                conn.todo.put(reset)
                            elif how == 'cut':
                                if rng.random() < .7:
                                    send_head(x)
                                conn.todo.put(cut)
                            elif how == 'sigint':
                                if rng.random() < .7:
                                    send_head(x)
                                if rng.random() < .5:
                                    time.sleep(.002)
                                os.kill(clients[x].pid, signal.SIGINT)
                            else:
                                while p['at'] <= pieces:
                                    send_part(x)
                                conn.todo.put(last(p))
                            conn.todo.put(None)
                            res = value(clients[x].result())
                        conns.pop(x)
                    k['events'].append(dict(op=op, cl=x, res=res, local=look(), loads=server.count - before))
        except Stuck as ex:
            here = str(ex)
        except Exception as ex:
            import traceback
            here = ex.__class__.__name__
            k['err'] = traceback.format_exc()[-1500:]
        finally:
            for cl in clients.values():
                cl.kill()
            for conn in conns.values():
                conn.todo.put(None)
        shutil.rmtree(d, ignore_errors=True)
        if here:
            # a client may wait for another one: nothing to be judged
            k['stuck'] = here
            dropped.append(k)
            if 'err' in k:
                raise RuntimeError(k['err'])
            return
        cases.append(k)

    dropped = []
    for g in gen:
        case(g, 2 if all(o['cl'] in (0, 1) for o in g) else 1)
        if len(dropped) > 5:
            break
    # longer stories
    for _ in range(ctx.n(40, 600)):
        g, state, ver = [], {}, 1
        n = rng.randint(1, 3)
        pieces = rng.randint(1, 3)
        have = False
        for _ in range(rng.randint(5, 25)):
            x = rng.randint(1, n)
            if x not in state:
                if rng.random() < .1 and ver < 3:
                    g.append(dict(op='change', cl=0))
                    ver += 1
                    continue
                g.append(dict(op='ask', cl=x))
                if not have:
                    state[x] = 0
                continue
            o = rng.choice(['piece', 'piece', 'piece', 'fail', 'die', 'finish'])
            if o == 'piece' and state[x] == pieces:
                o = 'finish'
            if o == 'piece':
                state[x] += 1
            else:
                del state[x]
                have = have or o == 'finish'
            if o == 'finish':
                while sum(1 for q in g[max([k for k, q in enumerate(g) if q['op'] == 'ask' and q['cl'] == x]):] if q['cl'] == x and q['op'] == 'piece') < pieces:
                    g.append(dict(op='piece', cl=x))
            g.append(dict(op=o, cl=x))
        for x in sorted(state):
            g.append(dict(op='die', cl=x))
        g.append(dict(op='ask', cl=1))
        if not have:
            g += [dict(op='piece', cl=1)] * pieces + [dict(op='finish', cl=1), dict(op='ask', cl=1)]
        case(g, pieces)
        if len(dropped) > 5:
            break
    if len(dropped) > 5 and len(dropped) * 4 > len(cases):
        raise RuntimeError('clients do not ask the server: %s' % [(x['stuck'], x['events'][-3:]) for x in dropped[:3]])

    def make_canaries():
        can = []

        def some(op, f):
            for x in cases:
                a = [k for k, ev in enumerate(x['events']) if ev['op'] == op and x['kind'] == 'file']
                if a:
                    x = copy.deepcopy(x)
                    f(x['events'][a[0]])
                    return can.append(x)
        some('fail', lambda e: e.update(local=-2))
        some('fail', lambda e: e.update(res=1))
        some('finish', lambda e: e.update(res=-2))
        some('finish', lambda e: e.update(local=0))
        some('piece', lambda e: e.update(local=1))
        some('die', lambda e: e.update(loads=e['loads'] + 1))
        return can
    ctx.validate('LocalFileTrace', cases, make_canaries, label='LocalFile')
    how = {}
    for x in cases:
        for h in x['how']:
            h = ' '.join(h.split()[:-1])
            how[h] = how.get(h, 0) + 1
    ctx.extra['stuck'] = [(x['stuck'], x['how'], x['size'], x['events'][-3:]) for x in dropped]
    ctx.extra['downloads'] = dict(stories=len(cases), failures=how, inconclusive=len(dropped))
