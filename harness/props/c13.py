"""C13: persistence of arrays with units and of spans of time (ArrayStore.tla)."""
import copy
import io
import json
import os
import shutil
import numpy as np
from stream import Source, Recorder, run_graph


def dim_text(d):
    from zounds import TimeDimension, FrequencyDimension, ExplicitFrequencyDimension, IdentityDimension, Picoseconds
    if isinstance(d, IdentityDimension):
        return 'plain', -1
    if isinstance(d, TimeDimension):
        return 'time %r %r' % (float(d.frequency / Picoseconds(1)), float(d.duration / Picoseconds(1))), \
            -2 if d.size is None else int(d.size)
    if isinstance(d, (FrequencyDimension, ExplicitFrequencyDimension)):
        s = d.scale
        t = '%s %s %s' % (d.__class__.__name__, s.__class__.__name__, bool(s.always_even))
        bands = [s.frequency_band] if s.__class__.__name__ == 'ChromaScale' else s
        t += ''.join(' %r-%r' % (float(b.start_hz), float(b.stop_hz)) for b in bands)
        if isinstance(d, ExplicitFrequencyDimension):
            t += ''.join(' %d:%d' % (q.start, q.stop) for q in d.slices)
        return t, -1
    return repr(d), -1


def run(ctx):
    import featureflow as ff
    from zounds import (ArrayWithUnits, AudioSamples, TimeDimension, FrequencyDimension, ExplicitFrequencyDimension,
                        IdentityDimension, LinearScale, GeometricScale, ExplicitScale, BarkScale, MelScale,
                        ChromaScale, FrequencyBand, ArrayWithUnitsFeature, AudioSamplesFeature, TimeSlice,
                        Picoseconds, Microseconds, Milliseconds, Seconds, audio_sample_rate, SR11025, SR44100)
    from zounds.timeseries import Nanoseconds, Hours
    from zounds.persistence import PackedArrayWithUnitsEncoder, PackedArrayWithUnitsFeature, ArrayWithUnitsEncoder, \
        TimeSliceEncoder, TimeSliceDecoder
    from zounds.persistence.arraywithunits import ArrayWithUnitsDecoder
    from zounds.persistence.audiosamples import AudioSamplesDecoder
    rng = ctx.rng
    ctx.design('ArrayStore')
    gen = ctx.generate('ArrayStore', 'ArrayStoreGen', limit=ctx.n(600, 2000))
    scratch = ctx.dir('stores')
    cases = []
    UNITS = [Picoseconds, Nanoseconds, Microseconds, Milliseconds, Seconds, Hours]

    def duration(neg=False):
        u = rng.choice(UNITS)
        v = rng.choice([1, rng.randint(1, 10 ** 6), rng.randint(1, 10 ** 3)])
        if u in (Picoseconds, Nanoseconds):
            v = rng.choice([v, rng.randint(1, 10 ** 12)])
        if u is Hours:
            v = rng.randint(1, 24)
        if u is Seconds:
            v = rng.randint(1, 10 ** 4)
        return u(-v if neg and rng.random() < .4 else v)

    def scale():
        a = rng.choice([0, 20, 20., 33.25, rng.uniform(1, 100)])
        z = a + rng.choice([1000, 5512.5, rng.uniform(500, 9000)])
        n = rng.choice([1, 2, 5, 12])
        k = rng.randrange(9)
        if k == 0:
            return LinearScale(FrequencyBand(a, z), n, always_even=rng.random() < .3)
        if k == 1:
            return LinearScale.from_sample_rate(rng.choice([SR11025(), SR44100()]), n, always_even=rng.random() < .3)
        if k == 2:
            return GeometricScale(a + 1, z, rng.choice([.05, .3, .017]), n + 1, always_even=rng.random() < .3)
        if k == 3:
            return BarkScale(FrequencyBand(a + 1, z), n)
        if k == 4:
            return MelScale(FrequencyBand(a + 1, z), n)
        if k == 5:
            return ChromaScale(FrequencyBand(a + 50, z))
        if k == 6:
            return ExplicitScale([FrequencyBand(a + 7.5 * i, a + 7.5 * i + rng.choice([7.5, 15, 40.1])) for i in range(n)])
        # what is left of a scale after slicing it
        whole = rng.choice([LinearScale(FrequencyBand(0, 5000), 20), BarkScale(FrequencyBand(50, 5000), 20),
                            MelScale(FrequencyBand(50, 5000), 20), GeometricScale(50, 5000, .1, 20)])
        i = rng.randint(0, 18)
        return whole[whole[i].start_hz if False else slice(i, i + rng.randint(1, 20 - i))] if k == 7 else whole

    def axis(first=False):
        """a dimension and the length it needs (0: any)"""
        k = rng.randrange(5)
        if k <= 1 or first and k <= 3:
            return TimeDimension(duration(), duration() if rng.random() < .6 else None), 0
        if k == 2:
            return IdentityDimension(), 0
        s = scale()
        chroma = isinstance(s, ChromaScale)
        if k == 3 or first or chroma:
            return FrequencyDimension(s), 12 if chroma else len(s)
        slices, pos = [], 0
        for _ in range(len(s)):
            n = rng.randint(1, 3)
            slices.append(slice(pos, pos + n))
            pos += n
        return ExplicitFrequencyDimension(s, slices), pos
    DTYPES = ['float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8', 'uint8', 'bool', 'complex64',
              'complex128', '>f4', 'S3', 'U2', 'm8[ps]', 'uint64']

    def values(shape, dtype):
        n = int(np.prod(shape))
        d = np.dtype(dtype)
        if d.kind == 'b':
            x = np.array([rng.random() < .5 for _ in range(n)], dtype=d)
        elif d.kind in 'SU':
            x = np.array([str(rng.randint(0, 99)) for _ in range(n)], dtype=d)
        elif d.kind in 'iu':
            info = np.iinfo(d)
            x = np.array([rng.choice([info.min, info.max, 0, 1, rng.randint(info.min, info.max)]) for _ in range(n)],
                         dtype=d)
        elif d.kind == 'm':
            x = np.array([rng.randint(-10 ** 12, 10 ** 12) for _ in range(n)], dtype='int64').astype(d)
        else:
            x = np.array([rng.choice([0., -0., 1.5, rng.uniform(-1, 1), float('inf'), rng.uniform(-1, 1) * 1e4])
                          for _ in range(n)])
            x = (x + 1j * x[::-1] if d.kind == 'c' and np.all(np.isfinite(x)) else x).astype(d)
        x = x.reshape(shape)
        if rng.random() < .2:
            x = np.asfortranarray(x)
        return x

    def rows_of(a, ints=False):
        a = np.asarray(a)
        f = (lambda v: int(v)) if ints else repr
        return [[f(v) for v in (row.reshape(-1).tolist() if row.dtype.kind not in 'm' else row.reshape(-1).astype('int64').tolist())]
                for row in [np.atleast_1d(r) for r in a]]

    class Pass(ff.Node):
        def __init__(self, needs=None):
            super(Pass, self).__init__(needs=needs)

        def _process(self, data):
            yield data

    def store(chunks, packed, audio, how):
        """returns functions that read what was stored"""
        if how == 'codec':
            src = Source()
            enc = (PackedArrayWithUnitsEncoder if packed else ArrayWithUnitsEncoder)(needs=src)
            rec = Recorder(needs=enc)
            run_graph(dict(src=src, enc=enc, rec=rec), dict(src=chunks))
            raw = b''.join(x.encode() if isinstance(x, str) else x for x in rec.got)
            dec = AudioSamplesDecoder() if audio else ArrayWithUnitsDecoder()
            return [lambda: dec(io.BytesIO(raw)), lambda: next(iter(dec.__iter__(io.BytesIO(raw))))]
        _id = 'doc%d' % rng.randrange(10 ** 6)
        path = os.path.join(scratch, 'db%d' % rng.randrange(10 ** 9))
        kb = ff.StringDelimitedKeyBuilder('|')
        if how == 'memory':
            dbs = [ff.InMemoryDatabase(key_builder=kb)]
        elif how == 'files':
            dbs = [ff.FileSystemDatabase(path=path, key_builder=kb, createdirs=True), ff.FileSystemDatabase(path=path, key_builder=kb, createdirs=True)]
        else:
            dbs = [ff.LmdbDatabase(path, map_size=10 ** 7, key_builder=kb)]
        kinds = AudioSamplesFeature if audio else PackedArrayWithUnitsFeature if packed else ArrayWithUnitsFeature

        def model(db):
            class Settings(ff.PersistenceSettings):
                id_provider = ff.StaticIdProvider(_id)
                key_builder = kb
                database = db

            class Doc(ff.BaseModel, Settings):
                src = ff.Feature(Source, store=False)
                arr = kinds(Pass, needs=src, store=True)
            return Doc
        models = [model(db) for db in dbs]
        models[0].process(src=chunks)
        if how == 'lmdb':
            dbs[0].env.close()
            dbs = [ff.LmdbDatabase(path, map_size=10 ** 7, key_builder=kb)]
            models = [model(dbs[0])]
        return [lambda: models[-1](_id).arr, lambda: models[0](_id).arr]

    def case(counts, shape, dims, dtype, packed, audio=False, how='codec'):
        def build(n):
            if audio:
                x = values((n,) + shape, dtype)
                return AudioSamples(x, audio_sample_rate(dims))
            x = values((n,) + shape, dtype)
            if packed:
                x = np.array([rng.random() < .5 for _ in range(x.size)]).reshape(x.shape).astype(dtype)
            return ArrayWithUnits(x, dims)
        chunks = [build(n) for n in counts]
        total = sum(counts)
        texts = [dim_text(d) for d in chunks[0].dimensions]
        sizes = [t[1] for t in texts]
        if sizes[0] != -1:
            sizes[0] = total
        d = dict(packed=packed, dtype=str(np.dtype(dtype)), cls='AudioSamples' if audio else 'ArrayWithUnits',
                 shape=[int(s) for s in shape], dims=[t[0] for t in texts], sizes=sizes, what=[how, counts], ops=[])
        if packed:
            d['shape'][-1] = (d['shape'][-1] + 7) // 8
            flat = len(d['shape']) > 1
        st = 'ok'
        readers = []
        try:
            readers = store(chunks, packed, audio, how)
        except Exception as ex:
            st = ex.__class__.__name__
            d['err'] = repr(ex)[:300]
        for c in chunks:
            d['ops'].append(dict(op='write', st=st, rows=rows_of(c, packed)))
        for r in readers:
            ev = dict(op='read', st='ok', dtype='', cls='', rows=[], shape=[], dims=[], sizes=[])
            try:
                a = r()
                ev['dtype'] = str(a.dtype)
                ev['cls'] = a.__class__.__name__
                ev['rows'] = rows_of(a, packed)
                ev['shape'] = [int(s) for s in a.shape[1:]]
                t = [dim_text(x) for x in a.dimensions]
                ev['dims'], ev['sizes'] = [x[0] for x in t], [x[1] for x in t]
                # and they may be used like any others
                if 'Chroma' not in str(ev['dims']) and not all(x == y for x, y in zip(a.dimensions, chunks[0].dimensions)):
                    ev['dims'] = ['not equal'] + ev['dims']
            except Exception as ex:
                ev['st'] = ex.__class__.__name__
                d['err'] = repr(ex)[:300]
            d['ops'].append(ev)
        cases.append(d)

    def hows():
        return rng.choice(['codec'] * 6 + ['memory', 'memory', 'files', 'lmdb'])

    def split(total):
        out = []
        while total or not out:
            n = rng.randint(0 if rng.random() < .2 else min(1, total), total)
            out.append(n)
            total -= n
        return out
    for g in gen:
        if g['packed']:
            case(g['chunks'], (g['width'],), [TimeDimension(Seconds(1)), IdentityDimension()],
                 rng.choice(['uint8', 'bool', 'int64', 'float32']), True, how=hows())
        else:
            case(g['chunks'], (g['width'],), [TimeDimension(duration()), IdentityDimension()], rng.choice(DTYPES), False,
                 how=hows())
    for _ in range(ctx.n(500, 8000)):
        rank = rng.choice([1, 2, 2, 3])
        while True:
            ax = [axis(first=i == 0) for i in range(rank)]
            if sum(a[1] for a in ax) < 40:
                break
        shape = tuple(a[1] or rng.randint(1, 4) for a in ax[1:])
        total = ax[0][1] or rng.choice([0, 1, 2, 7, rng.randint(1, 40)])
        counts = [total] if ax[0][1] else split(total)
        case(counts, shape, [a[0] for a in ax], rng.choice(DTYPES), False, how=hows())
    for _ in range(ctx.n(80, 800)):
        w = rng.choice([8, 16, 24])
        shape, dims = (w,), [axis(first=True)[0], IdentityDimension()]
        if not isinstance(dims[0], TimeDimension):
            dims[0] = IdentityDimension()
        if rng.random() < .5:
            shape = (w + rng.randint(-7, 7),)
        case(split(rng.randint(0, 20)), shape, dims, rng.choice(['uint8', 'bool', 'float64']), True, how=hows())
    for _ in range(ctx.n(60, 600)):
        case(split(rng.randint(0, 60)), rng.choice([(), (2,), (1,)]), rng.choice([11025, 16000, 22050, 44100, 48000, 96000]),
             rng.choice(['float32', 'float64', 'int16']), False, audio=True, how=hows())
    # spans of time
    enc, dec = TimeSliceEncoder(), TimeSliceDecoder()
    for _ in range(ctx.n(300, 3000)):
        ev = dict(op='time', st='ok', a='', b='')
        ts = TimeSlice(start=rng.choice([None, duration(True), duration(), Picoseconds(rng.randint(0, 10 ** 18))]),
                       duration=rng.choice([None, duration(), duration(), duration(True)]))

        def text(t):
            p = Picoseconds(1)
            return '%d %s' % (int(np.timedelta64(t.start, 'ps').astype('int64')),
                              'open' if t.duration is None else int(np.timedelta64(t.duration, 'ps').astype('int64')))
        try:
            ev['a'] = text(ts)
            d = json.loads(json.dumps(enc.dict(ts)))
            back = TimeSlice(**dec.kwargs(d))
            ev['b'] = text(back)
            if not back == ts:
                ev['b'] = 'not equal ' + ev['b']
        except Exception as ex:
            ev['st'] = ex.__class__.__name__
        cases.append(dict(packed=False, dtype='', cls='', shape=[], dims=[], sizes=[], ops=[ev], what=[]))
    shutil.rmtree(scratch, ignore_errors=True)
    def make_canaries():
        can = []
        pool = [k for k in cases if k['ops'][-1]['op'] == 'read' and k['ops'][-1]['st'] == 'ok' and k['ops'][-1]['rows']]
        for k in rng.sample(pool, 15):
            k = copy.deepcopy(k)
            o = k['ops'][-1]
            m = rng.randrange(5)
            if m == 0:
                o['rows'][-1][-1] = 2 if k['packed'] and o['rows'][-1][-1] != 2 else 9 if k['packed'] else '?'
            elif m == 1:
                o['rows'].pop()
            elif m == 2:
                o['dims'][0] += '.'
            elif m == 3:
                o['sizes'][0] -= 1
            else:
                o['dtype'] = 'other'
            can.append(k)
        return can
    ctx.validate('ArrayStoreTrace', cases, make_canaries)
