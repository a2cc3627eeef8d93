"""C24: nothing is served without the secret (Gate.tla)."""
import base64
import copy
import re
import urllib.parse
import numpy as np
import featureflow as ff
from webapp import Running, Quiet, CountingDatabase

SECRETS = ['sesame', ' open sesame ', u'sésame ☃', 'a;b="c"&d=%41+e', '0']
METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'OPTIONS', 'PATCH']
NATURAL = dict(repl='POST')


def run(ctx):
    with Quiet():
        check(ctx)


def check(ctx):
    import zounds
    from zounds.ui import ZoundsApp, ZoundsSearch, TrainingMonitorApp
    from zounds.ui import training_monitor
    from zounds.index import SearchResults
    import tornado.web
    from matplotlib import pyplot as plt
    # the graphs of training monitors switch to this for good
    plt.style.use('dark_background')
    rng = ctx.rng
    ctx.design('Gate')
    gen = ctx.generate('Gate', 'GateGen') + ctx.generate('Gate', 'GateGen2')
    # many behaviours never get in; half of those replayed should
    inside = [g for g in gen if any(o['x'] == 'right' for o in g['ops'])]
    outside = [g for g in gen if not any(o['x'] == 'right' for o in g['ops'])]
    gen = [g for x in (inside, outside) for g in rng.sample(x, min(len(x), ctx.n(1200, 14000)))]

    class Database(CountingDatabase):
        reads = 0

    class Settings(ff.PersistenceSettings):
        id_provider = ff.UserSpecifiedIdProvider(key='_id')
        key_builder = ff.StringDelimitedKeyBuilder('|')
        database = Database(key_builder=key_builder)

    class Same(ff.Node):
        def _process(self, data):
            yield data

    class Document(ff.BaseModel, Settings):
        label = ff.JSONFeature(Same, store=True)

    for _id in ('doc', 'login', 'x/login', 'zounds'):
        Document.process(_id=_id, label=dict(what='TOKEN-label', id=_id))

    class Trainer(object):
        def __init__(self):
            self.count = 0

        def register_batch_complete_callback(self, f):
            self.count += 1

        def unregister_batch_complete_callback(self, f):
            pass

    class Search(object):
        count = 0

        def decode_query(self, x):
            return x

        def _results(self, query):
            self.count += 1
            return SearchResults(query, [('TOKEN-result', zounds.TimeSlice(start=zounds.Seconds(1), duration=zounds.Seconds(2)))])

        def search(self, query, n_results=10):
            return self._results(query)

        def random_search(self, n_results=10):
            return self._results(b'query')

    def subclasses(cls):
        return [cls] + [y for x in cls.__subclasses__() for y in subclasses(x)]
    monitors = [x for x in subclasses(TrainingMonitorApp) if x.__module__.startswith('zounds')]

    class Site(object):
        """a running application, with counters of everything it does for requests"""

        def __init__(self, kind, secret, n=0):
            self.kind, self.secret = kind, secret
            self.hits, self.search, self.trainer = [], Search(), Trainer()
            common = dict(model=Document, visualization_feature=Document.label, audio_feature=Document.label)
            if secret is not None:
                common['secret'] = secret
            repl = dict(globals=dict(hits=self.hits, np=np), locals=dict())
            if kind == 'repl':
                app = ZoundsApp(**dict(common, **repl))
            elif kind == 'search':
                app = ZoundsSearch(search=self.search, **common)
            else:
                cls = monitors[n % len(monitors)]
                more = dict(keys_to_graph=('error',)) if cls is TrainingMonitorApp else {}
                app = cls(trainer=self.trainer, **dict(common, **dict(repl, **more)))
            self.site = Running(app)
            self.admin = None
            if secret is not None:
                st, self.admin = self.login(secret)
            self.temp = '/zounds/temp/none'
            if kind != 'search':
                r = self.site.call('POST', '/zounds/repl', b'np.ones(3)', self.cookies(self.admin))
                m = re.search(br'/zounds/temp/\w+', r[2])
                if m:
                    self.temp = m.group(0).decode()

        def total(self):
            return len(self.hits) + self.search.count + self.trainer.count + Database.reads

        def login(self, word, path='/zounds/login', cookie=None, raw=None):
            body = urllib.parse.urlencode(dict(secret=word)) if raw is None else raw
            r = self.site.call('POST', path, body, dict(self.cookies(cookie), **{'Content-Type': 'application/x-www-form-urlencoded'}))
            got = None
            for k, v in r[1].items():
                if k == 'set-cookie':
                    m = re.match(r'(\w+)=([^;]*)', v)
                    got = m.group(1), m.group(2).strip('"')
            return r, got

        def cookies(self, jar):
            return {} if jar is None else {'Cookie': '%s="%s"' % jar}

    WS = {'Upgrade': 'websocket', 'Connection': 'Upgrade', 'Sec-WebSocket-Version': '13', 'Sec-WebSocket-Key': 'dGhlIHNhbXBsZSBub25jZQ=='}

    def request(r, m, how):
        """the path, body and headers of a request"""
        slash = how.choice(['', '/', '?x=1', '/?secret=sesame&x=login', '?login'])
        headers = {}
        body = b'' if m in ('POST', 'PUT', 'PATCH') else None
        if r == 'page':
            path = how.choice(['/', '/?x=1', '/?next=/zounds/login'])
        elif r == 'feature':
            path = '/zounds/%s/label' % how.choice(['doc', 'login', 'x%2Flogin', 'zounds']) + slash
        elif r == 'repl':
            path = '/zounds/repl' + slash
            if m != 'GET' and m != 'HEAD':
                body = how.choice([b'hits.append(1) or "TOKEN-repl"', b'hits.append(2)', b'x = hits.append(3)\nprint("TOKEN")'])
        elif r == 'temp':
            path = 'TEMP' + slash
        elif r == 'search':
            path = '/zounds/search' + how.choice(['', '?query=' + base64.b64encode(b'login').decode(), '?query=&login'])
        elif r == 'graph':
            path = '/zounds/graph' + slash
        else:
            path = '/zounds/training' + slash
            if m == 'GET':
                headers.update(WS)
        extra = how.choice([{}, {}, {'X-HTTP-Method-Override': 'POST'}, {'Authorization': 'Basic c2VzYW1l'}, {'X-Requested-With': 'XMLHttpRequest'}, {'Referer': 'http://localhost/zounds/login'}])
        headers.update(extra)
        return path, body, headers

    twins = dict((k, [Site(k, None, n) for n in range(len(monitors) if k == 'monitor' else 1)]) for k in ('repl', 'search', 'monitor'))
    shapes = {}
    for k in twins:
        for r in ('page', 'graph', 'temp'):
            t = twins[k][0]
            x = t.site.call('GET', dict(page='/', graph='/zounds/graph', temp=t.temp)[r])
            if x[0] == 200 and len(x[2]) > 80:
                shapes[k, r] = x[2]

    def leaks(kind, body):
        return b'TOKEN' in body or any(k == kind and b[len(b) // 2:][:40] in body for (k, r), b in shapes.items())

    def status(n):
        return 'served' if 200 <= n < 300 or n in (101, 304) else 'refused' if n in (302, 303, 307, 401, 403) else 'other'

    def same(x, y):
        keys = ('content-type', 'content-range', 'location', 'allow', 'content-length')
        mask = lambda b: re.sub(br'/zounds/temp/\w+|line \d+', b'', b)
        return x[0] == y[0] and mask(x[2]) == mask(y[2]) and all(x[1].get(k) == y[1].get(k) for k in keys)

    def near(secret, how):
        """not the secret, but close"""
        words = [secret + ' ', ' ' + secret, secret.strip(), secret[:-1], secret + secret, secret.upper(), secret.swapcase(), secret + '\n', secret + 'x', 'None', 'True', '*', 'user']
        words = [w for w in words if w != secret]
        return how.choice(words)

    cases = []

    def case(g, secret, n):
        how = rng
        site, other = sites[g['kind'], n]
        twin = twins[g['kind']][n % len(twins[g['kind']])]
        jars = dict(a=None, b=None)
        good = []
        events = []
        allowed = dict(a=not g['protected'], b=not g['protected'])
        for o in g['ops']:
            ev = dict(ev=o['ev'], c=o['c'], x=o['x'], m='', st='', twin='', same=True, leak=False, hits=0, note='')
            k = o['c']
            before = site.total()
            if o['ev'] == 'login':
                path = how.choice(['/zounds/login', '/zounds/login/', '/zounds/login?next=/'])
                raw = None
                if o['x'] == 'right':
                    word = secret
                elif o['x'] == 'near':
                    word = near(secret, how)
                elif o['x'] == 'empty':
                    word = ''
                elif o['x'] == 'missing':
                    word, raw = '', how.choice(['', 'password=x', 'x'])
                else:
                    word = 'wrong'
                r, got = site.login(word, path, jars[k], raw)
                if got is not None:
                    jars[k] = got
                    good.append(got)
                ev.update(note=repr(word), st='served' if got is not None and r[0] < 400 else 'refused' if 400 <= r[0] < 500 else 'other', leak=got is None and leaks(g['kind'], r[2]))
                if o['x'] == 'right' and got is not None:
                    allowed[k] = True
            elif o['ev'] == 'cookie':
                if o['x'] == 'none':
                    jars[k] = None
                elif o['x'] == 'foreign':
                    jars[k] = other.admin
                elif o['x'] == 'forged':
                    text = how.choice([secret, 'user', '1', ''])
                    jars[k] = 'user', how.choice([
                        lambda: base64.b64encode(text.encode()).decode(),
                        lambda: tornado.web.create_signed_value('', 'user', text.encode()).decode(),
                        lambda: tornado.web.create_signed_value('None', 'user', text.encode()).decode(),
                        lambda: tornado.web.create_signed_value(secret, 'user', text.encode()).decode(),
                        lambda: '2|1:0|10:1500000000|4:user|8:c2VzYW1l|' + '0' * 64,
                        lambda: urllib.parse.quote(text), lambda: 'true', lambda: ''])()
                else:
                    name, v = jars[k]
                    jars[k] = how.choice([
                        lambda: (name, v[:-1] + ('0' if v[-1] != '0' else '1')), lambda: (name, v[:-1]), lambda: (name + '2', v), lambda: ('session', v),
                        lambda: (name, v.replace('|4:user|', '|4:uses|')), lambda: (name, re.sub(r'\|10:(\d)', lambda m: '|10:%d' % ((int(m.group(1)) + 1) % 10), v)),
                        lambda: (name, v.rsplit('|', 1)[0] + '|'), lambda: (name, v.rsplit('|', 2)[0] + '|' + v.rsplit('|', 1)[1])])()
                ev['note'] = repr(jars[k])
                allowed[k] = False
            elif o['ev'] == 'share':
                jars[o['x']] = jars[k]
                allowed[o['x']] = True
            else:
                m = o['m']
                nat = NATURAL.get(o['x'], 'GET')
                if m == 'natural':
                    m = nat
                elif m == 'other':
                    m = how.choice([x for x in METHODS if x != nat])
                path, body, headers = request(o['x'], m, how)
                r = site.site.call(m, path.replace('TEMP', site.temp), body, dict(headers, **site.cookies(jars[k])))
                if r[0] == 101:
                    site.site.settle()
                ev.update(m=m, note='%s %d' % (path, r[0]), st=status(r[0]), hits=site.total() - before)
                if allowed[k]:
                    b = twin.total()
                    t = twin.site.call(m, path.replace('TEMP', twin.temp), body, headers)
                    if t[0] == 101:
                        twin.site.settle()
                    ev.update(twin=status(t[0]), same=same(r, t) and twin.total() - b == ev['hits'])
                else:
                    ev.update(leak=leaks(g['kind'], r[2]) or 'etag' in r[1] or 'content-range' in r[1])
            if jars.get(k) is None and o['ev'] == 'share':
                break
            events.append(ev)
            if o['ev'] == 'login' and o['x'] == 'right' and jars[k] is None:
                break
        cases.append(dict(kind=g['kind'], protected=g['protected'], events=events, secret=secret or '', app=type(site.site.app).__name__))

    sites = {}
    gen.sort(key=lambda g: (g['kind'], g['protected']))
    for kind in ('repl', 'search', 'monitor'):
        for prot in (False, True):
            mine = [g for g in gen if g['kind'] == kind and g['protected'] == prot]
            variants = ctx.n(3, 8) if prot else 1
            variants = max(variants, len(monitors) if kind == 'monitor' else 1)
            for n in range(variants):
                secret = (SECRETS[(n + ctx.seed) % len(SECRETS)] if n else rng.choice(SECRETS)) if prot else None
                if prot:
                    other = Site(kind, 'another ' + secret, n)
                    site = Site(kind, secret, n)
                else:
                    other, site = None, Site(kind, None, n)
                sites[kind, n] = site, other
                # a site that lets nobody in would make every case stop short
                for g in mine[n::variants]:
                    if prot and rng.random() < .02:
                        g = dict(g, ops=[dict(ev='login', c='b', x='right', m='')] + g['ops'])
                    case(g, secret, n)
                site.site.stop()
                if other is not None:
                    other.site.stop()
    for k in twins:
        for t in twins[k]:
            t.site.stop()

    def make_canaries():
        can = []

        def some(f, **kw):
            for x in cases:
                if not x['protected']:
                    continue
                for n, ev in enumerate(x['events']):
                    if all(ev[k] == v for k, v in kw.items()):
                        x = copy.deepcopy(x)
                        f(x['events'][n])
                        return can.append(x)
        some(lambda e: e.update(st='served'), ev='login', x='near')
        some(lambda e: e.update(st='refused'), ev='login', x='right')
        some(lambda e: e.update(st='served'), ev='req', st='refused')
        some(lambda e: e.update(hits=1), ev='req', st='refused', x='repl')
        some(lambda e: e.update(leak=True), ev='req', st='refused')
        some(lambda e: e.update(same=False), ev='req', st='served')
        some(lambda e: e.update(st='refused'), ev='req', st='served')
        return can
    ctx.validate('GateTrace', cases, make_canaries, label='Gate')
    ctx.extra['requests'] = dict(
        cases=len(cases), requests=sum(1 for x in cases for e in x['events'] if e['ev'] == 'req'),
        refused=sum(1 for x in cases for e in x['events'] if e['ev'] == 'req' and x['protected'] and e['st'] == 'refused'),
        sign_ins=sum(1 for x in cases for e in x['events'] if e['ev'] == 'login'), monitors=[x.__name__ for x in monitors])
