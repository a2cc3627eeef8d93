"""C32: what a dataset lists (Listing.tla) and what is known of its items (SourceMeta.tla)."""
import contextlib
import copy
import csv
import io
import json
import os
import tarfile
import urllib.parse
import zipfile
import numpy as np
from core import time_limit

NAMES = ['a', 'Track 01', 'x#1', 'what?', '100%', 'dir/sub', 'caf\xe9', 'a+b', 'semi;colon', 'a&b=c', '50%25 off',
         "it's", 'b.c', 'very_long-name', '(1)', '~tilde']


def show(v):
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple, dict)):
        return json.dumps(v, sort_keys=True)
    if isinstance(v, (int, float)) and not isinstance(v, bool) and v == int(v):
        return str(int(v))
    return str(v)


class Web(object):
    """answers instead of the internet, whichever way requests is used"""

    def __init__(self):
        self.sites = []     # functions: (url, query) -> None or (body, headers)
        self.log = []

    def send(self, adapter, request, **kwargs):
        import requests
        u = urllib.parse.urlsplit(request.url)
        query = dict(urllib.parse.parse_qsl(u.query))
        resp = requests.Response()
        resp.url, resp.request, resp.connection = request.url, request, adapter
        self.log.append(request)
        resp.status_code, body, headers = 404, b'', {}
        for s in reversed(self.sites):
            found = s(u, query, request)
            if found is not None:
                resp.status_code, (body, headers) = 200, found
                break
        resp.headers.update({'Content-Length': str(len(body))}, **headers)
        resp.encoding = requests.utils.get_encoding_from_headers(resp.headers)
        resp.raw = io.BytesIO(body)
        return resp


@contextlib.contextmanager
def instead_of_the_internet(web):
    import requests
    real = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = lambda self, request, **kw: web.send(self, request, **kw)
    try:
        yield
    finally:
        requests.adapters.HTTPAdapter.send = real


def listing(ctx, web):
    import soundfile
    import zounds
    from zounds.datasets import FreeSoundSearch, InternetArchive, PhatDrumLoops, NSynth, MusicNet, Directory, CompositeDataset
    rng = ctx.rng
    ctx.design('Listing')
    ctx.design('Listing', 'ListingLive')
    gen = []
    for cfg, q, t in (('ListingGen', 260, 2810), ('ListingGen2', 200, 3000)):
        gen += ctx.generate('Listing', cfg, limit=ctx.n(q, t))
    root = ctx.dir('listing')
    cases = []
    serial = [0]

    def fresh():
        serial[0] += 1
        return serial[0]

    def plain(d):
        return dict((k, show(v)) for k, v in d.items() if v is not None)

    def freesound(flags):
        """flags: pages of wanted items; a search has no others"""
        n = fresh()
        key, query = 'key%d' % n, rng.choice(['guitar', 'two words', 'a&b', 'caf\xe9'])
        sounds, pages = {}, []
        for p in flags:
            pages.append([])
            for _ in p:
                i = n * 1000 + len(sounds)
                sounds[i] = dict(
                    id=i, username=rng.choice(['bob', 'al_ice', 'x-1']), samplerate=rng.choice([44100.0, 48000.0, 96000]),
                    channels=rng.choice([1, 2]), license='http://creativecommons.org/licenses/by/3.0/' + str(i),
                    description=rng.choice(['', 'a sound', 'caf\xe9 "quoted"']) + str(i), tags=rng.sample(['a', 'b', 'loop', 'drum'], rng.randint(0, 4)),
                    previews={'preview-hq-ogg': 'https://freesound.org/data/previews/%d_hq.ogg' % i, 'preview-lq-ogg': 'https://freesound.org/lq/%d.ogg' % i,
                              'preview-hq-mp3': 'https://freesound.org/data/previews/%d_hq.mp3' % i}, name='x')
                pages[-1].append(i)
        base = 'http://www.freesound.org/apiv2/search/text'
        link = rng.choice([base + '/?n=%d&query=x&page=' % n, 'https://freesound.org/apiv2/next/%d?page=' % n])

        def site(u, q, request):
            if 'freesound.org' not in u.netloc or q.get('token') != key:
                return
            first = u.path == '/apiv2/search/text' and q.get('query') == query and 'n' not in q
            if first or (u.path.startswith('/apiv2/search') and q.get('n') == str(n)) or u.path == '/apiv2/next/%d' % n:
                k = 1 if first else int(q['page'])
                if not 1 <= k <= len(pages):
                    return
                more = link + str(k + 1) if k < len(pages) else rng.choice([None, None, ''])
                return json.dumps(dict(count=len(sounds), next=more, previous=None, results=[dict(id=i, name='x') for i in pages[k - 1]])).encode(), {}
            part = u.path.split('/')
            if part[:3] == ['', 'apiv2', 'sounds'] and part[3].isdigit() and int(part[3]) in sounds:
                return json.dumps(sounds[int(part[3])]).encode(), {}
        items = [[dict(plain(dict((k, v) for k, v in sounds[i].items() if k not in ('id', 'previews'))), kind='freesound', want=True, name=str(i), key=key,
                       preview=sounds[i]['previews']['preview-hq-ogg']) for i in p] for p in pages]
        return items, lambda limit: FreeSoundSearch(key, query, n_results=limit, delay=0), site

    def name(ext, used):
        while True:
            s = rng.choice(NAMES) + rng.choice(['', '', str(rng.randrange(50))]) + ext
            if s not in used:
                used.add(s)
                return s

    def archive(flags):
        n = fresh()
        aid = 'archive-%d' % n
        form = rng.choice(['Ogg Vorbis', 'Ogg Vorbis', 'VBR MP3', 'WAVE'])
        others = [f for f in ('Flac', 'PNG', 'VBR MP3', 'WAVE', '64Kbps MP3') if f != form]
        used, items = set(), []
        attrs = rng.choice([{}, {}, dict(composer='someone'), dict(licensing='CC0', tags=['x']), dict(source='the archive'), dict(title='T', format='ogg')])
        for w in flags[0]:
            fields = dict(format=form if w else rng.choice(others), title='title %d' % fresh(), size=str(rng.randrange(10 ** 6)))
            if rng.random() < .6:
                fields.update(source='original')
            else:
                fields.update(source='derivative')
            if rng.random() < .4:
                fields['creator'] = rng.choice(['X', ['X', 'Y']])
            if rng.random() < .3:
                fields['external-identifier'] = ['urn:a:1', 'urn:b']
            items.append(dict(kind='archive', want=w, name='/' + name(rng.choice(['.ogg', '.mp3', '']), used), raw=fields, archive=aid))
        originals = [i for i in items if i['raw']['source'] == 'original']
        for i in items:
            if i['raw']['source'] == 'derivative':
                if originals:
                    i['raw']['original'] = rng.choice(originals)['name'][1:]
                else:
                    i['raw']['source'] = 'original'
                    originals.append(i)
        files = dict((i['name'], i.pop('raw')) for i in items)
        for i in items:
            i.update(fields=plain(files[i['name']]), attrs=dict(plain(attrs), composer=show(attrs.get('composer', '-'))))
        if 'composer' not in attrs:
            attrs = dict(attrs, composer='-')

        def site(u, q, request):
            if u.netloc == 'archive.org' and u.path == '/details/%s&output=json' % aid:
                return json.dumps(dict(server='x', files=files)).encode(), {}
        flt = None if form == 'Ogg Vorbis' and rng.random() < .5 else (lambda x: x['format'] == form)
        return [items], lambda limit: InternetArchive(aid, flt, **attrs), site

    def phat(flags):
        used, items, html = set(), [], ['<html><body><a href="/index.php">caf\xe9</a>']
        attrs = rng.choice([{}, dict(licensing='x'), dict(tags=['breaks'], artist='someone')])
        for w in flags[0]:
            stem = 'b%d_%d' % (fresh(), rng.randrange(9)) + rng.choice(['', '-slow', ' space', '%20x', '/deep'])
            path = '/audio/wav/%s.wav' % stem if w else rng.choice(['/audio/wav/%s.mp3', '/audio/mp3/%s.wav', '/beats/%s.php', '/audio/wav/%s']) % stem
            items.append(dict(kind='phat', want=w, name=path.replace('%20', ' '), attrs=dict(plain(attrs), licensing=show(attrs.get('licensing', '-')))))
            html.append(rng.choice(['<a href="%s">', '<td><a class="x" href="%s" title="y">', '\n<A href="%s">\n']) % path + stem + '</a>')
        if 'licensing' not in attrs:
            attrs = dict(attrs, licensing='-')
        body = rng.choice(['', '\n']).join(html) + '</body></html>'
        enc = rng.choice(['utf-8', 'latin-1'])
        body = body.encode(enc)

        def site(u, q, request):
            if u.netloc.endswith('phatdrumloops.com') and u.path == '/beats.php':
                return body, {'Content-Type': 'text/html; charset=' + enc}
        return [items], lambda limit: PhatDrumLoops(**attrs), site

    def directory(flags):
        d = os.path.join(root, 'd%d' % fresh())
        os.makedirs(d)
        used, items = set(), []
        for w in flags[0]:
            p = os.path.join(d, name(rng.choice(['.wav', '.txt', '']), used).replace('/', '_') + str(fresh()))
            if w:
                with open(p, 'wb') as f:
                    f.write(b'x' * rng.choice([0, 3]))
            else:
                os.makedirs(os.path.join(p, 'inner'))
            items.append(dict(kind='dir', want=w, name=p))
        arg = d + rng.choice(['', '/'])
        return [items], lambda limit: Directory(arg), None

    contents = {}

    def nsynth(flags):
        d = os.path.join(root, 'n%d' % fresh())
        os.makedirs(d)
        items, known = [], {}
        for w in flags[0]:
            i = 'bass_%d-%03d' % (fresh(), rng.randrange(128))
            item = dict(kind='nsynth', want=w, name=i)
            if w:
                data = os.urandom(rng.choice([1, 100, 5000])) + i.encode()
                contents[data] = i
                known[i] = dict(note=fresh(), note_str=i, sample_rate=16000, pitch=rng.randrange(128), qualities_str=['dark'], instrument_source=0)
                item.update(data=data, fields=plain(known[i]))
            items.append(item)
        known['not_there'] = dict(note=0)
        where = rng.randint(0, len(items))
        with tarfile.open(os.path.join(d, 'nsynth-valid.jsonwav.tar.gz'), 'w:gz') as tar:
            def add(path, data=None):
                info = tarfile.TarInfo(path)
                if data is None:
                    info.type = tarfile.DIRTYPE
                    tar.addfile(info)
                else:
                    info.size = len(data)
                    tar.addfile(info, io.BytesIO(data))
            for k, i in enumerate(items):
                if k == where:
                    add('nsynth-valid/examples.json', json.dumps(known).encode())
                if i['want']:
                    add('nsynth-valid/audio/%s.wav' % i['name'], i.pop('data'))
                else:
                    add('nsynth-valid/' + i['name'])
            if where == len(items):
                add('nsynth-valid/examples.json', json.dumps(known).encode())
        return [items], lambda limit: NSynth(d), None

    def musicnet(flags):
        d = os.path.join(root, 'm%d' % fresh())
        os.makedirs(os.path.join(d, 'train_data'))
        items, rows = [], []
        for w in flags[0]:
            i = str(1000 + fresh())
            row = dict(id=i, composer=rng.choice(['Schubert', 'Bart\xf3k', 'A, B', 'say "x"']), composition='Quintet ' + i, movement=rng.choice(['2. Andante', 'a;b']),
                       ensemble='Piano', source='European Archive', transcriber='http://x.y/?' + i, catalog_name='OP' + i, seconds=str(rng.randrange(999)))
            rows.append(row)
            item = dict(kind='musicnet', want=w, name=i, fields=row)
            if w:
                x = np.array([rng.randrange(-30000, 30000) for _ in range(rng.randint(5, 40))], dtype=np.int16)
                soundfile.write(os.path.join(d, 'train_data', i + '.wav'), x, 44100, subtype='PCM_16')
                contents[x.tobytes()] = i
            items.append(item)
        rng.shuffle(rows)
        with open(os.path.join(d, 'musicnet_metadata.csv'), 'w', newline='', encoding='utf-8') as f:
            w = csv.DictWriter(f, ['id', 'composer', 'composition', 'movement', 'ensemble', 'source', 'transcriber', 'catalog_name', 'seconds'])
            w.writeheader()
            w.writerows(rows)
        return [items], lambda limit: MusicNet(d), None

    def observe(m):
        if isinstance(m, str):
            return dict(path=os.path.normpath(m))
        d = dict(m.__dict__)
        uri = d.pop('uri')
        out = plain(d)
        if hasattr(uri, 'prepare'):
            u = urllib.parse.urlsplit(uri.prepare().url)
            out.update(url='%s://%s%s' % (u.scheme, u.netloc, urllib.parse.unquote(u.path)), query=u.query, method=uri.method)
        else:
            out['url'] = uri.url
            data = uri.read()
            if data[:4] == b'RIFF' and data not in contents:
                x, sr = soundfile.read(io.BytesIO(data), dtype='int16')
                data = x.tobytes() if sr == 44100 else b'%d' % sr
            out['content'] = contents.get(data, 'something else')
        return out
    KIND = dict(freesound=freesound, archive=archive, phat=phat, dir=directory, nsynth=nsynth, musicnet=musicnet)
    BIG = 1000000

    def case(g, kind):
        limit, ordered = BIG, True
        parts = []
        if kind == 'freesound':
            pages, make, site = freesound(g['pages'])
            limit = g['limit']
            parts.append(site)
            ds = make(limit)
        elif kind == 'composite':
            pages, subs, once = [], [], False
            for p in g['pages']:
                # there is one page of drum loops
                k = rng.choice(['freesound', 'archive', 'nsynth'] + ['phat'] * (not once))
                once = once or k == 'phat'
                got, make, site = KIND[k]([p])
                pages += got
                parts.append(site)
                subs.append(make(BIG))
            ds = CompositeDataset(*subs)
        else:
            pages, make, site = KIND[kind]([[f for p in g['pages'] for f in p]])
            parts.append(site)
            ds = make(BIG)
            ordered = kind not in ('dir', 'musicnet')
        web.sites[:] = [s for s in parts if s]
        rng.shuffle(web.sites)
        k = dict(kind=kind, pages=pages, limit=limit, ordered=ordered, events=[])
        wanted = min(limit, sum(i['want'] for p in pages for i in p))
        walks, given = {}, {}

        def ask(w):
            ev = dict(op='ask', w=w, st='item', rec=dict(path=''), why='')
            try:
                with time_limit(20):
                    ev['rec'] = observe(next(walks[w]))
                given[w] += 1
            except StopIteration:
                ev['st'] = 'end'
                walks.pop(w)
            except Exception as ex:
                ev.update(st='error', why=repr(ex)[:200])
                walks.pop(w)
            k['events'].append(ev)

        def begin(w):
            ev = dict(op='begin', w=w, st='item', rec=dict(path=''), why='')
            try:
                walks[w] = iter(ds)
                given[w] = 0
            except Exception as ex:
                ev.update(st='error', why=repr(ex)[:200])
            k['events'].append(ev)
        for o in g['ops']:
            if o['op'] == 'begin':
                begin(o['w'])
            elif o['w'] in walks:
                ask(o['w'])
        for w in list(walks):
            while w in walks and given[w] <= wanted + 1:
                ask(w)
        return k
    kinds = ['freesound', 'freesound', 'archive', 'archive', 'phat', 'dir', 'nsynth', 'musicnet', 'composite', 'composite']
    off = rng.randrange(len(kinds))
    for n, g in enumerate(gen):
        cases.append(case(g, kinds[(n + off) % len(kinds)]))
    # longer sources
    for kind in ['freesound', 'freesound', 'archive', 'phat', 'nsynth', 'dir', 'musicnet', 'composite'] * ctx.n(1, 4):
        pages = [[rng.random() < .7 for _ in range(rng.choice([0, 1, 5, 15]))] for _ in range(rng.randint(2, 12))]
        total = sum(map(len, pages))
        if kind == 'freesound':
            pages = [[True] * len(p) for p in pages]
        ops = [dict(op='begin', w=1), dict(op='begin', w=2)] + [dict(op='ask', w=rng.choice([1, 2])) for _ in range(total)]
        cases.append(case(dict(pages=pages, limit=rng.choice([total, total + 5, max(0, total - 3), 10]), ops=ops), kind))

    def freesound_default():
        # as many as documented when nothing is said
        pages, make, site = freesound([[True] * 15, [True] * 4])
        web.sites[:] = [site]
        real = FreeSoundSearch
        k = case(dict(pages=[[True] * 8, [True] * 7], limit=10, ops=[dict(op='begin', w=1)]), 'freesound')
        cases.append(k)
    freesound_default()

    def make_canaries():
        out = []

        def add(cond, what):
            for k in cases:
                if cond(k):
                    k = copy.deepcopy(k)
                    what(k['events'])
                    out.append(k)
                    return
            raise AssertionError('no case for a canary')

        def asked(k, n=1):
            return k['events'][0]['op'] == 'begin' and len(k['events']) > n and all(
                e['op'] == 'ask' and e['st'] == 'item' and e['w'] == k['events'][0]['w'] for e in k['events'][1:n + 1])
        for kind in ('freesound', 'archive', 'phat', 'nsynth', 'musicnet', 'composite'):
            add(lambda k: k['kind'] == kind and asked(k), lambda ev: ev[1]['rec'].update(url=ev[1]['rec']['url'] + 'x'))
            add(lambda k: k['kind'] == kind and asked(k), lambda ev: ev[1]['rec'].update(more='1'))
        for kind in ('dir', 'archive', 'freesound'):
            add(lambda k: k['kind'] == kind and asked(k), lambda ev: ev[1].update(st='end'))
            add(lambda k: k['kind'] == kind and asked(k, 2), lambda ev: ev[2].update(rec=ev[1]['rec']))
        add(lambda k: k['kind'] == 'freesound' and k['events'][-1]['st'] == 'end' and 0 < k['limit'] < 9,
            lambda ev: ev[-1].update(st='item', rec=ev[1]['rec']))
        add(lambda k: k['kind'] == 'phat' and asked(k, 2) and k['events'][1]['rec'] != k['events'][2]['rec'], lambda ev: ev.insert(1, ev.pop(2)))
        add(lambda k: asked(k), lambda ev: ev[1].update(st='error'))
        return out
    ctx.extra['walks'] = sum(e['op'] == 'begin' for k in cases for e in k['events'])
    ctx.extra['items'] = sum(e['op'] == 'ask' and e['st'] == 'item' for k in cases for e in k['events'])
    ctx.extra['kinds'] = dict((k, sum(c['kind'] == k for c in cases)) for k in sorted(set(kinds)))
    ctx.validate('ListingTrace', cases, make_canaries, label='what datasets list')


def source(ctx, web):
    import featureflow as ff
    import requests
    import zounds
    from zounds.soundfile import MetaData, AudioMetaDataEncoder
    rng = ctx.rng
    ctx.design('SourceMeta')
    gen = ctx.generate('SourceMeta', 'SourceMetaGen', limit=ctx.n(250, 2744))
    root = ctx.dir('source')
    serial = [0]
    cases = []
    seen = []

    class Spy(ff.Node):
        def _process(self, data):
            seen.append(dict(data.__dict__))
            yield b'x'

    def graph():
        class Settings(ff.PersistenceSettings):
            id_provider = ff.UserSpecifiedIdProvider(key='_id')
            key_builder = ff.StringDelimitedKeyBuilder()
            database = ff.InMemoryDatabase(key_builder=key_builder)

        class Document(ff.BaseModel, Settings):
            meta = ff.JSONFeature(MetaData, encoder=AudioMetaDataEncoder, store=True)
            spy = ff.Feature(Spy, needs=meta, store=True)
            raw = ff.ByteStreamFeature(ff.ByteStream, chunksize=rng.choice([100, 4096]), needs=meta, store=True)
        return Document

    def sound():
        serial[0] += 1
        sr = rng.choice([zounds.SR44100(), zounds.SR22050(), zounds.SR48000(), zounds.SR11025()])
        ch = rng.choice([1, 2])
        n = rng.randint(50, 400)
        x = np.array([rng.uniform(-1, 1) for _ in range(n * ch)], dtype=np.float32).reshape((n, ch) if ch > 1 else (n,))
        flo = io.BytesIO()
        a = zounds.AudioSamples(x, sr)
        a.encode(flo=flo, fmt=rng.choice(['WAV', 'FLAC']))
        flo.seek(0)
        data = flo.read()
        p = os.path.join(root, 'f%d' % serial[0])
        with open(p, 'wb') as f:
            f.write(data)
        return p, data, dict(samplerate=show(int(sr)), channels=show(ch))

    pages = {}

    def site(u, q, request):
        for b, data in pages.items():
            if u.path == b:
                return data, {}
    web.sites[:] = [site]

    def given(kind):
        """-> what to process, what is said about it, the bytes there are"""
        p, data, info = sound()
        g = dict(loc='', info=dict(none=''), sound=dict(info, none=''), range='')
        url = 'http://somewhere.org/%d/x.wav' % serial[0]
        pages['/%d/x.wav' % serial[0]] = data
        headers = {}
        if rng.random() < .5:
            g['range'] = 'bytes=%d-' % rng.randrange(1, 40)
            headers[rng.choice(['Range', 'range', 'RANGE'])] = g['range']
        if rng.random() < .5:
            headers['X-Other'] = 'y'
        if kind == 'url':
            url = url.replace('http:', rng.choice(['http:', 'https:']))
            g.update(loc=url, range='')
            return url, g, data, 'web'
        if kind == 'request':
            g['loc'] = url
            return requests.Request(method='GET', url=url, headers=headers), g, data, 'web'
        g['range'] = ''
        if kind == 'path':
            g['loc'] = p
            return p, g, data, 'disk'
        if kind == 'file':
            g['loc'] = '#file'
            f = rng.choice([lambda: open(p, 'rb'), lambda: io.BytesIO(data), lambda: zounds.datasets.PreDownload(data, url), lambda: open(p, 'r+b')])()
            return f, g, data, 'disk'
        if kind == 'zip':
            z = p + '.zip'
            with zipfile.ZipFile(z, 'w', rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as zf:
                zf.writestr('x.wav', data)
            g['loc'] = '#file'
            return next(iter(ff.iter_zip(z))), g, data, 'disk'
        # what someone says about it
        fields = {}
        for k, v in (('samplerate', rng.choice([44100, 8000.5])), ('channels', 2), ('licensing', 'CC BY'), ('description', 'd\xe9 "q" \n'), ('tags', ['a', 'b']),
                     ('artist', 'someone'), ('track', 3), ('nested', {'a': [1, 2, {'b': None}]}), ('flag', 0), ('external-identifier', ['x'])):
            if rng.random() < .5:
                fields[k] = v
        g['info'] = dict((k, show(v)) for k, v in fields.items())
        g['info']['none'] = ''
        where = rng.choice(['url', 'request', 'path', 'file'])
        if where == 'url':
            # fetched as it is
            g['loc'], uri, at = url, url, 'web'
        elif where == 'request':
            if headers.get('Range') or headers.get('range') or headers.get('RANGE'):
                g['range'] = [v for h, v in headers.items() if h.lower() == 'range'][0]
            g['loc'], uri, at = url, requests.Request(method='GET', url=url, headers=headers), 'web'
        elif where == 'path':
            g['loc'], uri, at = p, p, 'disk'
        else:
            g['loc'], uri, at = '#file', rng.choice([lambda: open(p, 'rb'), lambda: zounds.datasets.PreDownload(data, url)])(), 'disk'
        return zounds.AudioMetaData(uri=uri, **fields), g, data, at

    def told(d, uri):
        d = dict(d)
        u = d.pop('uri')
        out = dict((k, show(v)) for k, v in d.items() if v is not None)
        out['none'] = ''
        if isinstance(u, requests.Request):
            out['loc'] = u.url
        elif isinstance(u, str):
            out['loc'] = u
        elif u is None:
            out['loc'] = ''
        else:
            out['loc'] = '#file' if u is uri else '#another'
        return out
    for g in gen:
        D = graph()
        k = dict(events=[])
        for o in g + [dict(op='get', doc=1, kind=''), dict(op='get', doc=2, kind='')]:
            ev = dict(op=o['op'], doc=o['doc'], kind=o['kind'], st='ok', given=dict(loc='', range=''), root=dict(loc=''), kept=dict(loc=''), range='', at='', whole=True, same=True, why='')
            _id = 'doc%d' % o['doc']
            try:
                if o['op'] == 'put':
                    x, ev['given'], data, ev['at'] = given(o['kind'])
                    uri = x.uri if o['kind'] == 'meta' else x
                    del seen[:], web.log[:]
                    before = dict(x.__dict__) if o['kind'] == 'meta' else None
                    with time_limit(20):
                        D.process(meta=x, _id=_id)
                    ev['root'] = told(seen[0], uri)
                    ev['same'] = before is None or all(x.__dict__[k] is before[k] or x.__dict__[k] == before[k] for k in before)
                    if len(seen) != 1:
                        raise ValueError('%d sources' % len(seen))
                    ev['range'] = ', '.join(r.headers.get('Range', '') for r in web.log)
                    stored = b''.join(bytes(b) for b in D(_id).raw)
                    ev['whole'] = stored == data
                else:
                    ev['kept'] = told(D(_id).meta, None)
            except Exception as ex:
                ev.update(st='error', why=repr(ex)[:200])
            k['events'].append(ev)
        cases.append(k)

    def make_canaries():
        out = []

        def add(kind, what):
            for k in cases:
                for n, ev in enumerate(k['events']):
                    if ev['kind'] == kind and ev['st'] == 'ok':
                        k = copy.deepcopy(k)
                        what(k['events'][n], k['events'][n + 1:])
                        out.append(k)
                        return
            raise AssertionError('no case for a canary')

        def lost(ev, rest):
            [e for e in rest if e['op'] == 'get' and e['doc'] == ev['doc']][0]['kept'].update(extra='1')
        for kind in ('url', 'request', 'path', 'file', 'zip', 'meta'):
            add(kind, lambda ev, rest: ev['root'].update(loc='x'))
            add(kind, lambda ev, rest: ev.update(whole=False))
            add(kind, lambda ev, rest: ev.update(st='error'))
        add('url', lambda ev, rest: ev.update(range=''))
        add('meta', lambda ev, rest: ev.update(same=False))
        add('path', lambda ev, rest: ev['root'].update(samplerate='1'))
        k = [k for k in cases if k['events'][-1]['st'] == 'ok' and k['events'][-2]['st'] == 'ok'][0]
        for what in (dict(st='error'), dict(kept=dict(k['events'][-2]['kept'])), dict(kept=dict(k['events'][-1]['kept'], extra='1'))):
            c = copy.deepcopy(k)
            c['events'][-1].update(what)
            out.append(c)
        return out
    ctx.extra['documents'] = sum(e['op'] == 'put' for k in cases for e in k['events'])
    ctx.validate('SourceMetaTrace', cases, make_canaries, label='what is known about a source')


def run(ctx):
    web = Web()
    with instead_of_the_internet(web):
        listing(ctx, web)
        source(ctx, web)
