"""C22: ingesting datasets (Ingest.tla)."""
import copy
import http.server
import io
import itertools
import json
import os
import shutil
import sys
import threading
import time
import urllib.parse
from core import time_limit

WAIT = 1.5


class Broken(Exception):
    pass


class Picky(Exception):
    """cannot be sent to another process"""

    def __init__(self, a, b):
        super(Picky, self).__init__('%s %s' % (a, b))


class Gate(object):
    """makes what happens follow the order of a behaviour, as far as it can, and keeps the log"""

    def __init__(self, path, order):
        self.path, self.order = path, order
        os.makedirs(path)

    def mark(self, name):
        open(os.path.join(self.path, name), 'w').close()

    def has(self, name):
        return os.path.exists(os.path.join(self.path, name))

    def wait(self, op, i):
        if self.order is None or (op, i) not in self.order:
            return
        k = self.order.index((op, i))
        limit = time.time() + WAIT
        while k and not self.has('ev%d' % (k - 1)) and not self.has('free'):
            if time.time() > limit:
                self.mark('free')
                return
            time.sleep(.0005)

    def log(self, **kw):
        fd = os.open(os.path.join(self.path, 'log'), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        try:
            os.write(fd, (json.dumps(kw) + '\n').encode())
        finally:
            os.close(fd)
        if self.order is not None and (kw.get('op'), kw.get('i')) in self.order:
            self.mark('ev%d' % self.order.index((kw['op'], kw['i'])))

    def read(self):
        try:
            with open(os.path.join(self.path, 'log')) as f:
                return [json.loads(x) for x in f]
        except IOError:
            return []


class Server(object):
    """serves what is in its dictionary"""

    def __init__(self):
        self.files = files = {}

        class Handler(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                b = files.get(self.path)
                if b is None:
                    self.send_response(404)
                    self.send_header('Content-Length', '0')
                    self.end_headers()
                    return
                self.send_response(200)
                self.send_header('Content-Length', str(len(b)))
                self.end_headers()
                self.wfile.write(b)

            def log_message(self, *args):
                pass
        self.httpd = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        self.httpd.daemon_threads = True
        self.port = self.httpd.server_port
        threading.Thread(target=self.httpd.serve_forever, kwargs=dict(poll_interval=.05), daemon=True).start()


class Output(object):
    """collects what is written to stdout and stderr, by this and forked processes"""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        fd = os.open(self.path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        self.saved = [(k, os.dup(k)) for k in (1, 2)]
        self.streams = sys.stdout, sys.stderr
        for k in (1, 2):
            os.dup2(fd, k)
        os.close(fd)
        sys.stdout = open(1, 'w', buffering=1, closefd=False)
        sys.stderr = open(2, 'w', buffering=1, closefd=False)
        return self

    def __exit__(self, *args):
        sys.stdout.flush()
        sys.stderr.flush()
        sys.stdout, sys.stderr = self.streams
        for k, fd in self.saved:
            os.dup2(fd, k)
            os.close(fd)

    def text(self):
        with open(self.path, errors='replace') as f:
            return f.read()


def run(ctx):
    import featureflow as ff
    import requests
    from zounds.datasets import ingest, CompositeDataset, PreDownload
    from zounds.soundfile import AudioMetaData
    rng = ctx.rng
    ctx.design('Ingest')
    gen = []
    for cfg, q, t in (('IngestGen', 90, 1500), ('IngestGen3', 130, 2500), ('IngestGen1', 60, 800)):
        gen += ctx.generate('Ingest', cfg, limit=ctx.n(q, t))
    server = Server()
    cases, count = [], itertools.count()
    root = ctx.dir('ingest')
    here = sys.modules[__name__]

    class Work(ff.Node):
        """fails on broken content, and turns all of it round"""

        def __init__(self, needs=None):
            super(Work, self).__init__(needs=needs)
            self._cache = b''

        def _enqueue(self, data, pusher):
            self._cache += bytes(data)

        def _dequeue(self):
            if not self._finalized:
                raise ff.NotEnoughData()
            return self._cache

        def _process(self, data):
            b = bytes(data)
            if b.startswith(b'boom'):
                kind, token = b.decode().split()[1:3]
                err = dict(value=ValueError, key=KeyError, runtime=RuntimeError, os=OSError, memory=MemoryError)
                raise Picky(token, 'x') if kind == 'picky' else err[kind](token)
            yield b[::-1]

    class Keys(ff.StringDelimitedKeyBuilder):
        def build(self, *args):
            return urllib.parse.quote(super(Keys, self).build(*args), safe='|')

        def decompose(self, composed):
            return super(Keys, self).decompose(urllib.parse.unquote(composed))

    def make_class(store, path):
        class Settings(ff.PersistenceSettings):
            id_provider = ff.UserSpecifiedIdProvider(key='_id')
            if store == 'memory':
                key_builder = ff.StringDelimitedKeyBuilder('|')
                database = ff.InMemoryDatabase(key_builder=key_builder)
            elif store == 'lmdb':
                key_builder = ff.StringDelimitedKeyBuilder('|')
                database = ff.LmdbDatabase(path, map_size=2 ** 22, key_builder=key_builder)
            else:
                key_builder = Keys('|')
                database = ff.FileSystemDatabase(path=path, key_builder=key_builder, createdirs=True)
        name = 'Doc%d' % next(count)

        class Doc(ff.BaseModel, Settings):
            raw = ff.ByteStreamFeature(ff.ByteStream, chunksize=rng.choice([8, 64]), store=True)
            work = ff.PickleFeature(Work, needs=raw, store=True)
            gate = None

            @classmethod
            def process(cls, **kwargs):
                g, i = cls.gate, kwargs['raw'].ix if 'raw' in kwargs else kwargs['meta'].ix
                g.wait('start', i)
                g.log(op='start', i=i)
                g.wait('end', i)
                try:
                    if 'meta' in kwargs:
                        kwargs['raw'] = kwargs.pop('meta')
                    r = super(Doc, cls).process(**kwargs)
                except Exception:
                    g.log(op='end', i=i, ok=False)
                    raise
                g.log(op='end', i=i, ok=True)
                return r
        Doc.__qualname__ = Doc.__name__ = name
        Doc.__module__ = __name__
        setattr(here, name, Doc)
        return Doc

    class Resource(object):
        """something that can be found under a url, or broken"""
        KINDS = ['pre', 'pre', 'http', 'str', 'file']

        def __init__(self, k, d):
            self.kind = rng.choice(self.KINDS)
            self.content = ('content of %d ' % k).encode() * rng.randint(1, 6)
            self.token = 'tk%dtk%d' % (next(count), k)
            self.good = True
            self.path = '/%s' % self.token
            if self.kind in ('http', 'str'):
                self.url = 'http://127.0.0.1:%d%s' % (server.port, self.path)
            elif self.kind == 'file':
                self.url = os.path.join(d, self.token)
            else:
                self.url = 'http://example.com/a%20b/' + self.token

        def nameless(self):
            self.kind, self.url = 'none', None
            return self

        def be(self, good):
            self.good = good
            how = rng.choice(['boom', 'gone']) if self.kind in ('http', 'str', 'file') else 'boom'
            b = self.content if good else ('boom %s %s' % (rng.choice(['value', 'key', 'runtime', 'os', 'memory', 'picky']), self.token)).encode()
            self.now = b
            if self.kind in ('http', 'str'):
                server.files.pop(self.path, None)
                if good or how == 'boom':
                    server.files[self.path] = b
            elif self.kind == 'file':
                if os.path.exists(self.url):
                    os.remove(self.url)
                if good or how == 'boom':
                    with open(self.url, 'wb') as f:
                        f.write(b)

        def meta(self, i):
            if self.kind == 'pre':
                uri = PreDownload(self.now, self.url)
            elif self.kind == 'http':
                uri = requests.Request(method='GET', url=self.url)
            elif self.kind == 'none':
                uri = io.BytesIO(b'nobody knows')
            else:
                uri = self.url
            return AudioMetaData(uri=uri, ix=i)

        def there(self, Doc):
            return self.kind != 'none' and bool(Doc.exists(self.url))

        def full(self, Doc):
            try:
                d = Doc(self.url)
                raw = d.raw
                raw = raw.read() if hasattr(raw, 'read') else b''.join(raw)
                return raw == self.content and d.work == self.content[::-1]
            except Exception:
                return False

    class Set(object):
        def __init__(self, res, items, avail):
            self.res, self.items, self.avail = res, items, avail

        def __iter__(self):
            for i in self.items[:self.avail]:
                yield self.res[i[1]].meta(i[0])
            if self.avail < len(self.items):
                raise Broken()

    def dataset(res, items, avail):
        ix = [(k + 1, u) for k, u in enumerate(items)]
        s = Set(res, ix, avail)
        k = rng.randrange(4)
        if k == 0 and avail == len(items):
            return [res[u].meta(i) for i, u in ix]
        if k == 1:
            return iter(s)
        if k == 2 and avail == len(items):
            cut = rng.randint(0, len(ix))
            return CompositeDataset(Set(res, ix[:cut], cut), Set(res, ix[cut:], len(ix) - cut))
        return s

    hung = []

    def case(g, mode, gated=True):
        if len(hung) > 3:
            # each of these takes a while
            return
        d = os.path.join(root, 'c%d' % len(cases))
        os.makedirs(d)
        workers = 1 if mode == 'serial' else g['workers']
        store = rng.choice(['memory', 'files', 'lmdb']) if mode != 'process' else 'files'
        Doc = make_class(store, os.path.join(d, 'db'))
        urls = sorted(set(g['items'])) + [x for x in (g['hist'][0]['there']) if x not in g['items']]
        res = dict((u, Resource(u, d)) for u in urls)
        nameless = []
        if rng.random() < .15:
            nameless = [rng.choice(urls)] if urls else []
            nameless = [u for u in nameless if u not in g['hist'][0]['there'] and all(u not in h['good'] or True for h in g['hist'])]
            for u in nameless:
                res[u].nameless()
        k = dict(items=g['items'], workers=workers, nameless=nameless, mode=mode, store=store, events=[])
        passes = []
        for h in g['hist']:
            if h['op'] == 'begin':
                passes.append((h, []))
            elif h['op'] in ('start', 'end'):
                passes[-1][1].append((h['op'], h['i']))
        kw = {}
        if mode == 'thread':
            kw = dict(multi_threaded=True)
        elif mode == 'process':
            kw = dict(multi_process=True)
        if mode != 'serial':
            kw['cores'] = workers
            if not gated and rng.random() < .1:
                kw['cores'] = None
                k['workers'] = os.cpu_count()
        try:
            with time_limit(60 if not hung else 15):
                for u in g['hist'][0]['there']:
                    Doc.gate = Gate(os.path.join(d, 'g0-%d' % u), None)
                    res[u].be(True)
                    Doc.process(meta=res[u].meta(0), _id=res[u].url)
                gates = []
                for n, (h, order) in enumerate(passes):
                    good = [u for u in urls if u in h['good'] and u not in nameless]
                    for u in urls:
                        res[u].be(u in good)
                    order = [x for x in order if g['items'][x[1] - 1] not in nameless]
                    Doc.gate = gate = Gate(os.path.join(d, 'g%d' % (n + 1)), order if gated else None)
                    gates.append((gate, len(k['events'])))
                    k['events'].append(dict(op='begin', i=h['i'], good=good, skip=h['skip'], there=[u for u in urls if res[u].there(Doc)],
                                            full=[u for u in urls if res[u].full(Doc)], ok=True, st='ok', reported=[]))
                    skip = dict(skip_if_exists=h['skip']) if not h['skip'] or rng.random() < .5 else {}
                    st = 'ok'
                    with Output(os.path.join(d, 'out%d' % n)) as out:
                        try:
                            ingest(dataset(res, g['items'], h['i']), Doc, **dict(kw, **skip))
                        except Broken:
                            st = 'Broken'
                        except Exception as ex:
                            st = ex.__class__.__name__
                            import traceback
                            k['err'] = traceback.format_exc()[-1500:]
                        gate.log(op='over')
                    text = out.text().replace('processing ' , '')
                    lines = [x for x in text.splitlines() if x]
                    rep = []
                    for i, u in enumerate(g['items']):
                        r = res[u]
                        # the announcement that an item is being processed names it, too
                        if r.url and [x for x in lines if r.token in x and x.strip() not in (r.url, 'already processed ' + r.url)]:
                            rep.append(i + 1)
                    k['events'].append(dict(op='over', i=0, good=[], skip=False, there=[u for u in urls if res[u].there(Doc)],
                                            full=[u for u in urls if res[u].full(Doc)], ok=True, st=st, reported=rep))
                # whatever happens after ingest has returned
                time.sleep(.002 if mode == 'serial' else .02)
                evs = []
                for n, (gate, at) in enumerate(gates):
                    over = k['events'][at + 1]
                    evs.append(k['events'][at])
                    for x in gate.read():
                        evs.append(over if x['op'] == 'over' else dict(op=x['op'], i=x['i'], good=[], skip=False, there=[], full=[], ok=x.get('ok', True), st='ok', reported=[]))
                    k['free'] = k.get('free', 0) + gate.has('free')
                k['events'] = evs
        except Exception as ex:
            import traceback
            k['err'] = traceback.format_exc()[-1500:]
            k['events'].append(dict(op='over', i=0, good=[], skip=False, there=[], full=[], ok=True, st=ex.__class__.__name__, reported=[]))
        if k['events'] and any(e['st'] == 'ImplTimeout' for e in k['events']):
            hung.append(k)
        delattr(here, Doc.__name__)
        shutil.rmtree(d, ignore_errors=True)
        cases.append(k)

    for j, g in enumerate(gen):
        mode = rng.choice(['thread', 'process', 'serial', 'serial']) if g['workers'] == 1 else ['thread', 'process'][j % 2]
        case(g, mode)
    # more items, not held to any order
    for j in range(ctx.n(50, 800)):
        n = rng.randint(0, 14)
        urls = list(range(1, n + 1))
        items = list(urls)
        if n and rng.random() < .3:
            items += [rng.choice(urls) for _ in range(3)]
        hist = []
        for p in range(rng.randint(1, 3)):
            hist.append(dict(op='begin', i=len(items) if p or rng.random() < .8 else rng.randint(0, len(items)),
                             good=[u for u in urls if rng.random() < .7], skip=rng.random() < .75, there=[u for u in urls if rng.random() < .3] if not p else []))
        case(dict(items=items, workers=rng.randint(1, 6), hist=hist), rng.choice(['serial', 'thread', 'process']), gated=False)

    def make_canaries():
        can = []
        ok = [x for x in cases if all(e['st'] in ('ok', 'Broken') for e in x['events']) and len(x['events']) > 3]

        def some(f):
            for x in ok:
                x = copy.deepcopy(x)
                if f(x):
                    return can.append(x)

        def index(x, f):
            return [k for k, e in enumerate(x['events']) if f(e)]

        def left_out(x):
            a = index(x, lambda e: e['op'] == 'start')
            i = x['events'][a[0]]['i'] if a else 0
            if a and x['items'].count(x['items'][i - 1]) == 1:
                x['events'] = [e for e in x['events'] if not (e['op'] in ('start', 'end') and e['i'] == i)]
                return True

        def late(x):
            a = index(x, lambda e: e['op'] == 'end')
            b = index(x, lambda e: e['op'] == 'over')
            if a and len(b) == 1:
                ev = x['events'].pop(a[-1])
                x['events'].append(ev)
                return True

        def unstored(x):
            a = index(x, lambda e: e['op'] == 'over' and e['full'])
            s = index(x, lambda e: e['op'] == 'end' and e['ok'])
            if a and s and s[-1] < a[-1] and not index(x, lambda e: e['op'] == 'end' and not e['ok']):
                x['events'][a[-1]]['full'] = []
                return True

        def unreported(x):
            a = index(x, lambda e: e['op'] == 'end' and not e['ok'])
            if a:
                for e in x['events']:
                    e['reported'] = []
                return True

        def again(x):
            a = index(x, lambda e: e['op'] == 'end')
            if a:
                i = x['events'][a[0]]['i']
                x['events'][a[0] + 1:a[0] + 1] = [copy.deepcopy(e) for e in x['events'] if e['op'] in ('start', 'end') and e['i'] == i][:2]
                return True
        for f in (left_out, late, unstored, unreported, again):
            some(f)
        return can
    ctx.validate('IngestTrace', cases, make_canaries, label='Ingest')
    ctx.extra['ingest'] = dict((m, sum(x['mode'] == m for x in cases)) for m in ('serial', 'thread', 'process'))
    ctx.extra['ingest']['not in the order of the behaviour'] = sum(x.get('free', 0) for x in cases)
