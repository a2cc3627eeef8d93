"""C25: parts of resources served over HTTP (RangeServe.tla)."""
import copy
import io
import json
import os
import re
import subprocess
import sys
import numpy as np
import featureflow as ff
import soundfile
from webapp import Running, Quiet

HUGE = 2000000000
RATE = 48000
MS = RATE // 1000


def run(ctx):
    with Quiet():
        check(ctx)


def check(ctx):
    import zounds
    from zounds.ui import ZoundsApp
    from zounds.soundfile import OggVorbisFeature
    from zounds.persistence import ArrayWithUnitsFeature
    from matplotlib import pyplot as plt
    plt.style.use('dark_background')
    rng = ctx.rng
    nrs = np.random.RandomState(ctx.seed)
    ctx.design('RangeServe')
    gen = ctx.generate('RangeServe', 'RangeServeGen')

    class Same(ff.Node):
        def _process(self, data):
            yield data

    class JsonBytes(ff.IdentityEncoder):
        content_type = 'application/json'

    def model(database_of):
        class Settings(ff.PersistenceSettings):
            id_provider = ff.UserSpecifiedIdProvider(key='_id')
            key_builder = ff.StringDelimitedKeyBuilder('|')
            database = database_of(key_builder)

        class Raw(ff.BaseModel, Settings):
            raw = ff.Feature(Same, store=True, encoder=JsonBytes)

        class Audio(ff.BaseModel, Settings):
            ogg = OggVorbisFeature(Same, store=True)

        class Frames(ff.BaseModel, Settings):
            frames = ArrayWithUnitsFeature(Same, store=True)
        return Raw, Audio, Frames
    where = ctx.dir('db')
    databases = dict(
        memory=lambda kb: ff.InMemoryDatabase(key_builder=kb),
        lmdb=lambda kb: ff.LmdbDatabase(os.path.join(where, 'lmdb'), map_size=10 ** 9, key_builder=kb),
        files=lambda kb: ff.FileSystemDatabase(os.path.join(where, 'files'), key_builder=kb, createdirs=True))

    # ------------------------------------------------------------ requests
    BROKEN = ['bytes', 'bytes=', 'bytes=-', 'bytes=a-b', 'bytes=3-x', 'bytes=0-0,2-2', 'bytes=--1', 'bytes=1.5-2', 'seconds=', 'seconds=x-', 'seconds=-', 'seconds=0-y', 'seconds=nan-1', 'seconds=0-nan', '', '-', 'bytes 0-1']
    OTHER = ['hours=0-1', 'items=0-0', 'byte=0-1', 'second=0-1', 'frames=0-']

    def text(o, a, b):
        """the Range header"""
        if o['unit'] == 'none':
            return None
        if o['unit'] == 'other':
            return rng.choice(OTHER)
        if o['unit'] == 'broken':
            return rng.choice(BROKEN)
        if o['unit'] == 'bytes':
            # numbers that do not fit anywhere
            f = lambda x: '%d' % (x if x != HUGE else rng.choice([HUGE, 2 ** 63 - 1, 2 ** 64, 10 ** 30]))
        else:
            def f(x):
                if x == HUGE:
                    return rng.choice(['2000000', '1e9', '99999999999', '1' + '0' * 400])
                s = '%d.%03d' % divmod(x, 1000)
                return rng.choice([s, s.rstrip('0').rstrip('.'), s + '0'])
        return dict(closed='%s=%s-%s', open='%s=%s-%s', suffix='%s=%s-%s')[o['form']] % (o['unit'], '' if o['form'] == 'suffix' else f(a), '' if o['form'] == 'open' else f(b))

    def label(r, unit):
        """first, last and total of the label"""
        v = r[1].get('content-range')
        if v is None:
            return -1, -1, -1
        m = re.match(r'^%s (?:(\*)|([\d.]+)-([\d.]+))/([\d.]+)$' % unit, v)
        if not m:
            return -2, -2, -2
        out = []
        for x in (m.group(2), m.group(3), m.group(4)):
            if x is None:
                out.append(-1)
                continue
            if unit == 'bytes':
                out.append(int(x) if x.isdigit() else -2)
            else:
                y = float(x) * 1000
                out.append(int(round(y)) if abs(y - round(y)) < 1e-3 else -2)
        return tuple(out)

    # what the specification answers, to say what the body is (which may have more than one place)
    def guess(n, unit, form, a, b):
        if form == 'suffix':
            return (max(0, n - b), n) if unit == 'bytes' else (0, n)
        if form == 'open':
            return a, n
        return a, (min(b, n - 1) + 1 if unit == 'bytes' else min(b, n))

    def place_bytes(data, body, g):
        if data[g[0]:g[1]] == body and g[1] > g[0]:
            return g
        k = data.find(body)
        return (k, k + len(body)) if k >= 0 else (-2, -2)

    cases = []

    def ask(site, path, o, a, b, size, name):
        h = text(o, a, b)
        r = site.call('GET', path, headers={} if h is None else {'Range': h}, timeout=60)
        ev = dict(unit=o['unit'], form=o['form'], a=a, b=b, st=r[0], first=-1, last=-1, total=-1, note='%r: %s' % (h, r[1].get('content-range')))
        ev['first'], ev['last'], ev['total'] = label(r, 'seconds' if o['unit'] == 'seconds' else 'bytes')
        ev['from'], ev['to'] = 0, 0
        ev['offer'] = r[1].get('accept-ranges', '')
        return ev, r

    def finish(ev, r, data, find, span):
        """says which part of the resource the body is"""
        if ev['st'] == 416:
            ev['to'] = len(r[2])
            return
        if data is not None and (ev['st'] == 200 or ev['unit'] == 'bytes'):
            ev['from'], ev['to'] = place_bytes(data, r[2], span if ev['st'] == 206 else (0, len(data)))
        else:
            ev['from'], ev['to'] = find(r, ev) if find else (-2, -2)

    def byte_case(site, _id, data, ops, path=None, length=0, find=None, kind='bytes', scale=1):
        events = []
        for o in ops:
            sc = scale if o['unit'] == 'bytes' else max(1, length // 4)
            jit = lambda x: HUGE if x == 5 and rng.random() < .3 else max(0, x * sc + (rng.choice([-1, 0, 0, 1]) if sc > 1 and o['unit'] == 'bytes' else 0))
            a, b = jit(o['a']), jit(o['b'])
            if a == b == HUGE:
                b = 0
            ev, r = ask(site, path or '/zounds/%s/raw' % _id, o, a, b, len(data), _id)
            finish(ev, r, data, find, guess(len(data) if ev['unit'] == 'bytes' else length, ev['unit'], ev['form'], a, b))
            events.append(ev)
        cases.append(dict(kind=kind, size=len(data), length=length, events=events, id=_id))

    by = {}
    for g in gen:
        by.setdefault((g['kind'], g['size']), []).extend(g['ops'])

    def some(kind, size, n):
        ops = by[kind, size]
        return [rng.choice(ops) for _ in range(n)] if n < len(ops) else list(ops)

    per = ctx.n(45, 400)
    for name, make in databases.items():
        Raw, Audio, Frames = model(make)
        env = dict(REF=None)
        site = Running(ZoundsApp(model=Raw, visualization_feature=Raw.raw, audio_feature=Raw.raw, globals=env, locals={}))
        try:
            for size in (1, 2, 3, 4):
                for scale in (1, rng.choice([2, 7, 50]), rng.choice([1000, 4096, 70000])):
                    data = bytes(bytearray(rng.sample(range(256), size))) if scale == 1 else nrs.bytes(size * scale)
                    _id = 'r%d-%d' % (size, scale)
                    Raw.process(_id=_id, raw=data)
                    byte_case(site, _id, data, some('bytes', size, per), scale=scale)
        finally:
            site.stop()
        # audio: bytes and seconds
        site = Running(ZoundsApp(model=Audio, visualization_feature=Audio.ogg, audio_feature=Audio.ogg, globals=env, locals={}))
        try:
            for seconds, channels in ((rng.choice([.5, 1, 2.5]), 1), (rng.choice([1, 3]), 2)):
                n = int(seconds * RATE)
                x = nrs.uniform(-.7, .7, (n, channels))
                bio = io.BytesIO()
                with soundfile.SoundFile(bio, mode='w', samplerate=RATE, channels=channels, format='OGG', subtype='VORBIS') as f:
                    for i in range(0, n, RATE):
                        f.write(x[i:i + RATE])
                data = bio.getvalue()
                full = soundfile.read(io.BytesIO(data), always_2d=True)[0]
                assert len(full) == n
                _id = 'o%d' % n
                Audio.process(_id=_id, ogg=data)

                def find(r, ev):
                    try:
                        y, sr = soundfile.read(io.BytesIO(r[2]), always_2d=True)
                    except RuntimeError:
                        return -2, -2
                    if sr != RATE or y.shape[1] != channels:
                        return -2, -2
                    k = guess(n // MS, 'seconds', ev['form'], ev['a'], ev['b'])[0] * MS
                    if len(y) % MS:
                        return -2, -2
                    direct = None
                    if not alike(y, full[k:k + len(y)]):
                        # some versions of libsndfile seek inexactly, wherever they're asked to
                        span = zounds.TimeSlice(start=zounds.Milliseconds(k // MS), duration=zounds.Milliseconds(len(y) // MS))
                        direct = np.asarray(Audio.ogg(_id=_id, persistence=Audio)[span]).reshape((-1, channels))
                    if direct is not None and not alike(y, direct):
                        k = next((q for q in range(0, n, MS) if alike(y, full[q:q + len(y)])), -2)
                        if k < 0:
                            return -2, -2
                    return k // MS, (k + len(y)) // MS
                ops = [o for o in some('both', 4, per * 2) if o['unit'] != 'none'][:per]
                # more than writing at once can take is asked for below
                byte_case(site, _id, data, ops, path='/zounds/%s/ogg' % _id, length=int(seconds * 1000), find=find, kind='both', scale=max(1, len(data) // 4))
        finally:
            site.stop()
        # images of arrays: seconds
        site = Running(ZoundsApp(model=Frames, visualization_feature=Frames.frames, audio_feature=Frames.frames, globals=env, locals={}))
        try:
            for n, period, cols in ((rng.choice([1, 2, 4]), rng.choice([100, 125]), 0), (4 * rng.choice([1, 3]), rng.choice([40, 250]), 3)):
                arr = nrs.uniform(0, 10, (n,) if not cols else (n, cols))
                dims = [zounds.TimeDimension(zounds.Milliseconds(period))] + ([zounds.IdentityDimension()] if cols else [])
                arr = zounds.ArrayWithUnits(arr, dims)
                _id = 'f%d-%d' % (n, cols)
                Frames.process(_id=_id, frames=arr)
                size = n * period
                events = []
                pictures = {}

                def picture(i, j):
                    if (i, j) not in pictures:
                        env['REF'] = np.array(arr)[i:j]
                        m = re.search(br'/zounds/temp/\w+', site.call('POST', '/zounds/repl', b'REF')[2])
                        pictures[i, j] = site.call('GET', m.group(0).decode())[2] if m else b'?'
                    return pictures[i, j]
                for o in [o for o in some('time', 4, ctx.n(14, 120))]:
                    step = max(1, n // 4) * period
                    a, b = [HUGE if v == 5 and rng.random() < .3 else v * step for v in (o['a'], o['b'])]
                    if a == b == HUGE:
                        b = 0
                    ev, r = ask(site, '/zounds/%s/frames' % _id, o, a, b, size, _id)
                    if ev['st'] == 416:
                        ev['to'] = len(r[2])
                    elif ev['st'] == 206:
                        g = [v // period for v in guess(size, 'seconds', ev['form'], a, b)]
                        spans = [g] + [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
                        hit = next(((i, j) for i, j in spans if i < j and picture(i, j) == r[2]), (-2, -2))
                        ev['from'], ev['to'] = [v * period if v >= 0 else v for v in hit]
                    events.append(ev)
                # there's no picture of all of it unless it's asked for
                events = [e for e in events if not (e['st'] >= 500 and (e['form'] == 'suffix' or e['form'] == 'closed' and e['b'] < e['a']))]
                cases.append(dict(kind='time', size=size, length=size, events=events, id=_id))
        finally:
            site.stop()

    long_audio(ctx, cases, nrs)

    def make_canaries():
        can = []

        def some(f, **kw):
            for x in cases:
                for n, ev in enumerate(x['events']):
                    if all(ev[k] == v for k, v in kw.items()):
                        x = copy.deepcopy(x)
                        f(x['events'][n])
                        return can.append(x)
        some(lambda e: e.update(to=e['to'] - 1), st=206, unit='bytes')
        some(lambda e: e.update(last=e['last'] + 1), st=206, unit='bytes')
        some(lambda e: e.update(total=e['total'] + 1), st=206, unit='seconds')
        some(lambda e: e.update(st=200), st=206)
        some(lambda e: e.update(to=5), st=416)
        some(lambda e: e.update(st=206), st=416)
        some(lambda e: e.update(st=500), st=200)
        some(lambda e: e.update({'from': e['from'] + 1}), st=206, unit='seconds')
        return can
    ctx.validate('RangeServeTrace', cases, make_canaries, label='RangeServe')
    ctx.extra['requests'] = dict((k, sum(1 for x in cases for e in x['events'] if e['st'] == k)) for k in (200, 206, 416))


def alike(y, x):
    """is y x, once more compressed?"""
    if len(y) != len(x):
        return False
    x, y = x.ravel(), y.ravel()
    d = np.sqrt((x ** 2).sum() * (y ** 2).sum())
    return d > 0 and (x * y).sum() / d > .9


def long_audio(ctx, cases, nrs):
    """more audio than can be written at once, asked for in a process of its own, as it might crash"""
    frames, channels = 4800000 // (ctx.seed % 2 + 1), ctx.seed % 2 + 1
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import props.c25; props.c25.child(%d, %d)' % (frames, channels)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    size = frames // MS
    ev = dict(unit='seconds', form='open', a=size // 100, b=0, st=500, first=-1, last=-1, total=-1, offer='bytes', note='a process of its own ended with %s' % r.returncode)
    ev['from'], ev['to'] = -2, -2
    for line in r.stdout.decode().splitlines():
        if line.startswith('{'):
            ev.update(json.loads(line))
    if r.returncode > 0 and 'Error' in r.stderr.decode():
        raise RuntimeError(r.stderr.decode()[-2000:])
    cases.append(dict(kind='both', size=1, length=size, events=[ev], id='long'))


def child(n, channels):
    from zounds.ui import ZoundsApp
    from zounds.soundfile import OggVorbisFeature
    x = (np.sin(np.arange(n * channels) * .01).reshape((n, channels)) * .5 * np.repeat(np.random.RandomState(1).uniform(.2, 1, n // 8), 8)[:, None]).astype(np.float32)
    bio = io.BytesIO()
    with soundfile.SoundFile(bio, mode='w', samplerate=RATE, channels=channels, format='OGG', subtype='VORBIS') as f:
        for i in range(0, n, RATE):
            f.write(x[i:i + RATE])

    class Same(ff.Node):
        def _process(self, data):
            yield data

    class Settings(ff.PersistenceSettings):
        id_provider = ff.UserSpecifiedIdProvider(key='_id')
        key_builder = ff.StringDelimitedKeyBuilder('|')
        database = ff.InMemoryDatabase(key_builder=key_builder)

    class Audio(ff.BaseModel, Settings):
        ogg = OggVorbisFeature(Same, store=True)
    Audio.process(_id='long', ogg=bio.getvalue())
    size = n // MS
    a = size // 100
    with Quiet():
        site = Running(ZoundsApp(model=Audio, visualization_feature=Audio.ogg, audio_feature=Audio.ogg, globals={}, locals={}))
        r = site.call('GET', '/zounds/long/ogg', headers={'Range': 'seconds=%d.%03d-' % divmod(a, 1000)}, timeout=200)
    m = re.match(r'seconds ([\d.]+)-([\d.]+)/([\d.]+)', r[1].get('content-range', ''))
    out = dict(st=r[0], note=repr(r[1].get('content-range')))
    if m:
        out.update(zip(('first', 'last', 'total'), [int(round(float(v) * 1000)) for v in m.groups()]))
    if r[0] == 206:
        y, sr = soundfile.read(io.BytesIO(r[2]), always_2d=True)
        if sr == RATE and alike(y, x[a * MS:a * MS + len(y)]):
            out.update({'from': a, 'to': a + len(y) // MS})
    print(json.dumps(out))
