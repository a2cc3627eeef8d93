"""C38: the search application answers with the nearest entries of its index (SearchPage.tla)."""
import base64
import copy
import json
import os
import re
import urllib.parse
import numpy as np
import featureflow as ff
from webapp import Running, Quiet

BLANK = dict(op='', st=0, why='', ctype='', doc=0, codes=[], code=0, page=0, q=-1, hits=[], ok=True)


def run(ctx):
    with Quiet():
        check(ctx)


def check(ctx):
    import zounds
    from zounds.ui import ZoundsSearch
    rng = ctx.rng
    ctx.design('SearchPage')
    gen = [g for g in ctx.generate('SearchPage', 'SearchPageGen') if g[0]['op'] == 'add']
    rng.shuffle(gen)
    cases = []

    ui = os.path.dirname(zounds.ui.__file__)
    with open(os.path.join(ui, 'search.html')) as f:
        scripts = [open(os.path.join(ui, x)).read().encode() for x in re.findall(r'<script src="/([^"]+)"', f.read())]

    class Same(ff.Node):
        def _process(self, data):
            yield data

    class Settings(ff.PersistenceSettings):
        id_provider = ff.UserSpecifiedIdProvider(key='_id')
        key_builder = ff.StringDelimitedKeyBuilder('|')
        database = ff.InMemoryDatabase(key_builder=key_builder)

    class Base(ff.BaseModel):
        codes = zounds.ArrayWithUnitsFeature(Same, store=True)
        sound = ff.JSONFeature(Same, store=True)
        picture = ff.JSONFeature(Same, store=True)

    class Document(Base, Settings):
        pass

    # distances between codes don't depend on a mask that they all share
    def bits_of(code, width, mask):
        return np.repeat([(code >> (7 - i)) & 1 for i in range(8)], width // 8).astype(np.uint8) ^ mask

    def code_of(b64, width, mask):
        raw = base64.b64decode(b64, validate=True)
        bits = np.unpackbits(np.frombuffer(raw, dtype=np.uint8))
        if len(bits) != width:
            return -1
        bits = (bits ^ mask).reshape(8, -1)
        if (bits != bits[:, :1]).any():
            return -1
        return int(''.join(map(str, bits[:, 0])), 2)

    def session(number, g, randoms=0):
        width = rng.choice([64, 64, 128])
        mask = np.array([rng.randint(0, 1) for _ in range(width)], dtype=np.uint8)
        n = rng.choice([1, 2, 3, 3, 10])
        case = dict(n=n, events=[])
        path = ctx.dir('index%d' % number)
        extra = dict(kind=lambda doc, ts: 'extra') if rng.random() < .4 else {}
        few = rng.random() < .4
        codes = [rng.randrange(256) for _ in range(3)]
        code = lambda: rng.choice(codes) if few else rng.randrange(256)
        docs = []
        index = zounds.HammingIndex(Document, Document.codes, path=path, db_size_bytes=10 ** 7, **extra)
        kw = dict(n_results=n) if n != 10 or rng.random() < .5 else {}
        base = rng.choice(['/zounds/', '/zounds/'])
        site = Running(ZoundsSearch(base_path=base, model=Document, visualization_feature=Document.picture, audio_feature=Document.sound,
                                    search=index, **kw))
        links = []

        def put(op, **kw):
            ev = copy.deepcopy(dict(BLANK, op=op, **kw))
            case['events'].append(ev)
            return ev

        def add():
            k = len(docs)
            _id = '%d-%d%s' % (number, k, rng.choice(['', ' a', '/b', '%2F', '&x=1', '?y', '#z', '\u00e9', "'", '+']))
            frames = rng.randint(1, 4)
            freq, dur = rng.choice([10, 250, 333, 1000]), rng.choice([20, 250, 500, 2500])
            cs = [code() for _ in range(frames)]
            docs.append(dict(id=_id, freq=freq, dur=dur, codes=cs))
            ev = put('add', doc=k, codes=cs)
            try:
                td = zounds.TimeDimension(zounds.Milliseconds(freq), zounds.Milliseconds(dur))
                arr = zounds.ArrayWithUnits(np.array([bits_of(c, width, mask) for c in cs]), [td, zounds.IdentityDimension()])
                Document.process(_id=_id, codes=arr, sound=dict(sound=_id), picture=dict(picture=_id))
                index.add(_id)
                ev['st'] = 200
            except Exception as ex:
                ev.update(st=0, why='%s: %s' % (ex.__class__.__name__, ex))

        def see(ev, r):
            ev['st'], ev['ctype'] = r[0], r[1].get('content-type', '').split(';')[0]
            if r[0] != 200:
                return
            try:
                d = json.loads(r[2].decode())
                ev['q'] = code_of(d['query'], width, mask)
                ev['b64'] = d['query']
                for h in d['results']:
                    m = re.match(r'^%s([^/?#]+)/sound$' % base, h['audio'])
                    v = re.match(r'^%s([^/?#]+)/picture$' % base, h['visualization'])
                    _id = urllib.parse.unquote(m.group(1))
                    k = [x['id'] for x in docs].index(_id)
                    x = docs[k]
                    i = int(round(h['slice']['start'] * 1000 / x['freq']))
                    ok = v and v.group(1) == m.group(1) and abs(i * x['freq'] / 1000. - h['slice']['start']) < 1e-9 \
                        and 0 <= i < len(x['codes']) and abs(x['dur'] / 1000. - h['slice']['duration']) < 1e-9
                    ev['ok'] = ev['ok'] and bool(ok)
                    ev['hits'].append([k, i, x['codes'][i] if 0 <= i < len(x['codes']) else -1])
                    links.append((h['audio'], dict(sound=_id)))
                    links.append((h['visualization'], dict(picture=_id)))
            except (ValueError, KeyError, AttributeError, TypeError) as ex:
                ev.update(ok=False, why='%s: %s' % (ex.__class__.__name__, ex))

        def ask(b64=None):
            quoted = urllib.parse.quote(b64, safe='') if b64 else ''
            if rng.random() < .5:
                quoted = urllib.parse.quote(quoted, safe='')     # as the page's own script does
            return site.call('GET', '/zounds/search' + ('?query=' + quoted if b64 or rng.random() < .3 else ''))
        try:
            seen = []
            for o in g:
                if o['op'] == 'add':
                    add()
                    if case['events'][-1]['st'] != 200:
                        break
                    continue
                if o['op'] == 'random':
                    for _ in range(randoms or 1):
                        ev = put('random')
                        see(ev, ask())
                        seen.append(ev)
                    continue
                if o['op'] == 'ask':
                    c = code()
                    ev = put('ask', code=c)
                    see(ev, ask(base64.b64encode(np.packbits(bits_of(c, width, mask)).tobytes()).decode()))
                else:
                    if o['page'] > len(seen) or 'b64' not in seen[o['page'] - 1]:
                        break
                    ev = put('follow', page=o['page'])
                    see(ev, ask(seen[o['page'] - 1]['b64']))
                seen.append(ev)
                if rng.random() < .3 and links:
                    url, want = rng.choice(links)
                    ev = put('open')
                    r = site.call('GET', url)
                    ev['st'] = r[0]
                    try:
                        ev['ok'] = json.loads(r[2].decode()) == want
                    except ValueError:
                        ev['ok'] = False
                elif rng.random() < .15:
                    ev = put('page')
                    r = site.call('GET', '/')
                    ev['st'], ev['ctype'] = r[0], r[1].get('content-type', '').split(';')[0]
                    ev['ok'] = b'<script src="/' not in r[2] and all(x in r[2] for x in scripts)
        finally:
            site.stop()
            index.close()
        for ev in case['events']:
            ev.pop('b64', None)
        cases.append(case)

    short = [g for g in gen if sum(o['op'] != 'add' for o in g) >= 2]
    for number, g in enumerate(short[:ctx.n(150, 1500)]):
        session(number, g)
    adds = [dict(op='add')] * 6
    for number in range(ctx.n(3, 12)):
        session(10 ** 5 + number, adds + [dict(op='random')], randoms=60)

    def make_canaries():
        can = []

        def some(f, **kw):
            for x in cases:
                for i, ev in enumerate(x['events']):
                    if all(v(ev[k]) if callable(v) else ev[k] == v for k, v in kw.items()):
                        x = copy.deepcopy(x)
                        f(x['events'][i])
                        return can.append(x)
        some(lambda e: e['hits'].pop(), op='random', hits=lambda v: v)
        some(lambda e: e.update(q=(e['q'] + 1) % 256), op='ask')
        some(lambda e: e.update(q=(e['q'] + 1) % 256), op='follow')
        some(lambda e: e['hits'].append(e['hits'][0]), op='ask', hits=lambda v: v)
        some(lambda e: e['hits'][0].__setitem__(1, 77), op='ask', hits=lambda v: v)
        some(lambda e: e.update(ok=False), op='open')
        some(lambda e: e.update(ok=False), op='page')
        some(lambda e: e.update(st=500), op='random')
        x = copy.deepcopy([x for x in cases if len(x['events']) > 60][0])
        r = [e for e in x['events'] if e['op'] == 'random']
        for ev in r:
            ev.update(copy.deepcopy(r[0]))
        return can + [x]
    ctx.validate('SearchPageTrace', cases, make_canaries, label='SearchPage')
    n = lambda op: sum(ev['op'] == op for x in cases for ev in x['events'])
    ctx.extra['search'] = dict((op, n(op)) for op in ('add', 'ask', 'random', 'follow', 'open', 'page'))
