"""C34: the ready-made processing graphs (AudioGraph.tla)."""
import copy
import io
import math
import numpy as np
from core import time_limit

RATES = [11025, 22050, 44100, 48000, 96000]


def run(ctx):
    import featureflow as ff
    import zounds
    import zounds.basic.audiograph as ag
    from zounds.timeseries import SampleRate, audio_sample_rate
    rng = ctx.rng
    ctx.design('AudioGraph')
    gen = ctx.generate('AudioGraph', 'AudioGraphGen', limit=ctx.n(110, 500))
    cases = []

    def runs(mask):
        out = []
        for r in np.nonzero(mask)[0]:
            r = int(r)
            if out and out[-1][1] == r - 1:
                out[-1][1] = r
            else:
                out.append([r, r])
        return out

    def graph(kind, k, sr, chunksize):
        common = dict(chunksize_bytes=chunksize, resample_to=sr)
        scheme = SampleRate(frequency=sr.frequency * k['scheme'][0], duration=sr.frequency * k['scheme'][1])
        if kind == 'resampled':
            return ag.resampled(store_resampled=True, **common), ['resampled', 'ogg']
        if kind == 'windowed':
            wf = rng.choice([None, zounds.OggVorbisWindowingFunc()])
            return ag.windowed(scheme, store_windowed=True, wfunc=wf, **common), ['resampled', 'windowed', 'ogg']
        if kind == 'stft':
            return ag.stft(wscheme=scheme, store_fft=True, store_windowed=True, store_resampled=True, fft_padding_samples=k['pad'], **common), ['resampled', 'windowed', 'fft', 'ogg']
        if kind == 'adaptive':
            scale = zounds.LinearScale(zounds.FrequencyBand(20, k['rate'] / 2 - 20), rng.choice([8, 16]))
            return ag.frequency_adaptive(scheme, scale, store_freq_adaptive=True, store_resampled=True, **common), ['resampled', 'freq_adaptive', 'ogg']
        if kind == 'audio':
            return ag.audio_graph(store_fft=True, **common), ['dct', 'fft', 'bark', 'centroid', 'chroma', 'bfcc', 'ogg']
        st = ag.stft(store_fft=True, **common)

        class WithOnsets(st, ag.with_onsets(st.fft)):
            pass
        return WithOnsets, ['fft', 'slices', 'slices']

    def case(g, kind):
        rate = rng.choice([11025] * 4 + [22050, 44100])
        source = rate if kind == 'onsets' else rng.choice([rate, rate] + RATES)
        sr, src = audio_sample_rate(rate), audio_sample_rate(source)
        base = rng.choice([128, 256, 512]) * rate // 11025
        scheme = rng.choice([[base, 2 * base], [base, 2 * base], [base, base]])
        if kind == 'windowed':
            scheme = rng.choice([scheme, [base, 3 * base]])
        if kind == 'adaptive':
            scheme = [base, 2 * base]
        k = dict(kind=kind, rate=rate, source=source, ratio=[source // math.gcd(source, rate), rate // math.gcd(source, rate)], scheme=scheme, pad=rng.choice([0, 0, 64]) if kind == 'stft' else 0, sounds=[], events=[], chunks=[])
        half = 2048 * rate // 44100
        long = max(scheme[1], half)
        channels = rng.choice([1, 1, 2])
        waves = []
        top = min(.36, .36 * source / rate)

        def sound(name):
            n = long * rng.choice([6, 9, 12]) + rng.randint(0, long)
            if kind == 'onsets':
                n = half * 40 + rng.randint(0, half)
            bursts = []
            at = {'early': [.15], 'late': [.7], 'two': [.1, .55], 'silent': []}[name]
            if kind == 'onsets':
                at = {'early': [.3], 'late': [.7], 'two': [.3, .65], 'silent': []}[name]
            for a in at:
                ln = rng.randint(long, int(1.3 * long))
                if kind == 'onsets':
                    ln = half * rng.randint(3, 5)
                bursts.append([int(a * n + rng.uniform(0, .05) * n), ln, int(rate * rng.uniform(.04, top))])
            original = int(round(n * source / float(rate)))
            if kind != 'resampled' and source == rate:
                original = n
            x = np.zeros(original)
            for s, ln, hz in bursts:
                a, m = int(round(s * source / float(rate))), int(ln * source / float(rate))
                w = np.hanning(m)
                if kind == 'onsets':
                    w = np.exp(-np.arange(m) / (m / 3.)) * np.minimum(1, np.arange(m)[::-1] / (m / 4.)) * np.minimum(1, np.arange(m) / (half / 32.))
                x[a:a + m] += (w * np.sin(2 * np.pi * hz * np.arange(m) / source) * .8)[:len(x) - a]
            if channels == 2:
                x = np.repeat(x[:, None], 2, axis=1)
            waves.append(x.astype(np.float32))
            return dict(n=n, original=original, bursts=bursts)

        def blank(op, id):
            k['events'].append(dict(op=op, id=id, sound=1, st='ok', why='', feature='', hop=0, hopr=0, dur=0, durr=0, rows=0, size=0, cols=0, bands=0, loud=[], heard=[], peaks=[], prof=[], off=0, ids=[], slices=[]))
            return k['events'][-1]

        def describe(ev, name, v, snd):
            fs = (src if name == 'ogg' else sr).frequency
            td = v.dimensions[0]

            def ticks(x):
                q, r = divmod(int(x / np.timedelta64(1, 'ps')), int(fs / np.timedelta64(1, 'ps')))
                if r and q * 10 > r:
                    r = 0
                return q, min(r, 10 ** 6)
            ev['hop'], ev['hopr'] = ticks(td.frequency)
            ev['dur'], ev['durr'] = ticks(td.duration)
            ev['rows'], ev['size'] = len(v), int(td.size)
            a = np.abs(np.asarray(v)).astype(np.float64)
            if name in ('resampled', 'ogg'):
                if a.ndim > 1:
                    a = a.max(axis=1)
                a = np.concatenate([a, np.zeros(-len(a) % 64)]).reshape(-1, 64)
            a = a.reshape(len(a), -1)
            ev['cols'] = ev['bands'] = a.shape[1]
            e = a.max(axis=1)
            top = e.max()
            if not np.isfinite(e).all():
                raise ValueError('not finite')
            if top > (2e-3 if name == 'ogg' else 1e-6):
                ev['loud'] = runs(e > (.002 if name == 'freq_adaptive' else .05) * top)
                ev['heard'] = runs(e > (.02 if name == 'ogg' else 1e-5) * top)
                if name != 'ogg':
                    ev['prof'] = [int(round(x)) for x in 1000 * e / top]
            sc = None
            if name in ('fft', 'dct', 'bark'):
                sc = list(v.dimensions[1].scale)
                ev['bands'] = len(sc)
                strongest = np.argmax(a, axis=1)
            elif name == 'freq_adaptive':
                sc = list(v.dimensions[1].scale)
                power = np.array([np.abs(np.asarray(b)).max(axis=1) for b in v.iter_bands()])
                if len(power) == len(sc):
                    strongest = np.argmax(power, axis=0)
                else:
                    ev['bands'] = -1
                    sc = None
            if sc is not None:
                for r in np.nonzero(e > .5 * top)[0][:30] if top > 1e-6 else []:
                    b = sc[min(int(strongest[r]), len(sc) - 1)]
                    ev['peaks'].append([int(r), int(b.start_hz), int(np.ceil(b.stop_hz))])
        try:
            with time_limit(240):
                database = rng.choice([lambda: ff.InMemoryDatabase(key_builder=ff.StringDelimitedKeyBuilder()), lambda: ff.LmdbDatabase(ctx.dir('lmdb%d' % len(cases)), map_size=10 ** 8, key_builder=ff.StringDelimitedKeyBuilder())])()

                class Settings(ff.PersistenceSettings):
                    id_provider = ff.UserSpecifiedIdProvider(key='_id')
                    key_builder = ff.StringDelimitedKeyBuilder()
                Settings.database = database
                classes, names, kinds = {}, [], {}
                k['chunks'] = [rng.choice([500, 1001, 4096, 30000]), rng.choice([10 ** 7, zounds.ChunkSizeBytes(src, zounds.Milliseconds(rng.choice([10, 33, 400])), channels=channels, bit_depth=16)])]
                state = rng.getstate()
                for j, ch in enumerate(k['chunks']):
                    rng.setstate(state)
                    base_, features = graph(kind, k, sr, ch)
                    classes[j + 1] = type('Doc', (base_, Settings), {})
                k['chunks'] = [int(ch) for ch in k['chunks']]
                made = {}
                doc = dict(early=None)

                def process(i, name, ch):
                    ev = blank('process', i)
                    if name not in kinds:
                        k['sounds'].append(sound(name))
                        kinds[name] = len(k['sounds'])
                    ev['sound'] = kinds[name]
                    flo = io.BytesIO()
                    zounds.AudioSamples(waves[ev['sound'] - 1], src).encode(flo)
                    flo.seek(0)
                    classes[ch].process(_id='doc%d' % i, meta=flo)
                    made[i] = (ch, ev['sound'])

                def read(i, name):
                    ch, snd = made[i]
                    ev = blank('slices' if name == 'slices' else 'read', i)
                    ev['feature'] = name
                    d = classes[rng.choice([1, 2])]('doc%d' % i)
                    if name == 'slices':
                        ev['slices'] = [[int(round(s.start / sr.frequency)), int(round(s.end / sr.frequency))] for s in d.slices.slices]
                        return
                    v = getattr(d, name)
                    if name == 'ogg':
                        v = v[:]
                    describe(ev, name, v, snd)
                    if name == 'centroid':
                        b = np.asarray(d.bark, dtype=np.float64)
                        n = np.arange(1, b.shape[1] + 1)
                        want = (b * n).sum(axis=1) / np.where(b.sum(axis=1) == 0, 1, b.sum(axis=1))
                        ev['off'] = int(min(10 ** 6, 1e4 * np.abs(want - np.asarray(v)).max() / (want.max() + 1e-9)))

                def listing():
                    ev = blank('names', 0)
                    ev['ids'] = [int(str(d._id).replace("b'", '').replace("'", '')[3:]) for d in classes[rng.choice([1, 2])]]
                for op, i, _, name, _, ch in g:
                    if op == 'process':
                        process(i, name, ch)
                    elif op == 'read':
                        read(i, rng.choice(features))
                    else:
                        listing()
                todo = [(i, f) for i in made for f in dict.fromkeys(features)]
                rng.shuffle(todo)
                for i, f in todo:
                    read(i, f)
                listing()
        except Exception as ex:
            if not k['events']:
                blank('process', 1)
            k['events'][-1].update(st='error', why=repr(ex)[:300])
        return k
    KINDS = ['audio', 'stft', 'windowed', 'adaptive', 'onsets', 'audio', 'stft', 'resampled']
    for j, g in enumerate(gen):
        cases.append(case(g, KINDS[j % len(KINDS)]))

    def make_canaries():
        out = []

        def add(cond, what, op='read'):
            for k in cases:
                if any(e['st'] != 'ok' for e in k['events']):
                    continue
                for j, ev in enumerate(k['events']):
                    if ev['op'] == op and cond(k, ev):
                        k = copy.deepcopy(k)
                        what(k['events'][j])
                        out.append(k)
                        return
            raise AssertionError('no case for a canary')
        some = lambda name: lambda k, ev: ev['feature'] == name and ev['loud']
        for name in ('resampled', 'windowed', 'fft', 'dct', 'bark', 'centroid', 'chroma', 'bfcc', 'freq_adaptive', 'ogg'):
            add(some(name), lambda ev: ev.update(hop=ev['hop'] * 2))
            add(some(name), lambda ev: ev.update(size=ev['size'] + 1))
            add(some(name), lambda ev: ev.update(rows=ev['rows'] - 3, size=ev['size'] - 3))
            add(some(name), lambda ev: ev.update(loud=[]))
            if name != 'ogg':
                add(some(name), lambda ev: ev.update(heard=[[0, ev['rows'] - 1 if ev['hop'] > 1 else ev['rows'] // 64]]))
        for name in ('fft', 'dct', 'bark', 'freq_adaptive'):
            add(lambda k, ev: some(name)(k, ev) and ev['peaks'] and k['rate'] == 11025 and k['kind'] != 'onsets', lambda ev: ev.update(peaks=[[p[0], p[1] + 3000, p[2] + 3000] for p in ev['peaks']]))
        add(some('fft'), lambda ev: ev.update(cols=ev['cols'] + 1, bands=ev['cols'] + 1))
        add(some('centroid'), lambda ev: ev.update(off=500))
        add(lambda k, ev: len(ev['ids']) == 2, lambda ev: ev['ids'].pop(), 'names')
        add(lambda k, ev: len(ev['ids']) == 2, lambda ev: ev['ids'].append(1), 'names')
        add(lambda k, ev: len(ev['slices']) > 2 and ev['slices'][0][1] > 0 and ev['slices'][1][1] > ev['slices'][1][0], lambda ev: ev['slices'].pop(1), 'slices')
        add(lambda k, ev: len(ev['slices']) > 2 and ev['slices'][0][1] > 0 and ev['slices'][1][1] > ev['slices'][1][0], lambda ev: ev['slices'].pop(0), 'slices')
        return out
    ctx.extra['documents'] = sum(e['op'] == 'process' for k in cases for e in k['events'])
    ctx.extra['features_read'] = sum(e['op'] in ('read', 'slices') for k in cases for e in k['events'])
    ctx.validate('AudioGraphTrace', cases, make_canaries, label='documents of ready-made graphs')
