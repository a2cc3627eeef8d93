"""C33: resampled streams (Resampling.tla)."""
import copy
import io
import math
import numpy as np
from core import time_limit

RATES = [11025, 22050, 44100, 48000, 96000]


def run(ctx):
    import featureflow as ff
    import zounds
    from zounds.soundfile.resample import Resampler, Resample
    from zounds.soundfile.functional import resample
    from zounds.timeseries import audio_sample_rate
    rng = ctx.rng
    ctx.design('Resampling')
    gen = ctx.generate('Resampling', 'ResamplingGen', limit=ctx.n(200, 256))
    cases = []

    class Feed(ff.Node):
        def _process(self, data):
            for d in data():
                yield d

    class Spy(ff.Node):
        def __init__(self, got=None, needs=None):
            super(Spy, self).__init__(needs=needs)
            self.got = got

        def _process(self, data):
            self.got(data)
            yield b'x'

    class Sound(object):
        """a smooth sound that is known at every moment, different in every channel"""

        def __init__(self, seconds, low, channels):
            sg = rng.choice([2., 3., 5.]) / low
            self.sg, self.pulses = sg, []
            for c in range(channels):
                p, t = [], 4.5 * sg
                while t < seconds - 4.5 * sg - 1. / low:
                    p.append((t, rng.choice([-1, 1]) * rng.uniform(.3, .6)))
                    t += sg * rng.uniform(2.2, 4)
                self.pulses.append(p)

        def at(self, start, n, rate):
            t = (start + np.arange(n)) / float(rate)
            out = np.zeros((n, len(self.pulses)))
            if not n:
                return out
            for c, p in enumerate(self.pulses):
                for m, a in p:
                    lo, hi = np.searchsorted(t, [m - 6 * self.sg, m + 6 * self.sg])
                    out[lo:hi, c] += a * np.exp(-(t[lo:hi] - m) ** 2 / (2 * self.sg ** 2))
            return out

    def case(sizes, old, new, channels, how):
        sr, to = audio_sample_rate(old), audio_sample_rate(new)
        total = sum(sizes)
        sound = Sound(total / float(old), min(old, new), channels)
        x = sound.at(0, total, old)
        column = channels == 1 and rng.random() < .2
        if channels == 1 and not column:
            x = x[:, 0]
        dtype = rng.choice([np.float32, np.float32, np.float64])
        layout = rng.choice(['plain', 'plain', 'fortran', 'strided'])
        x = x.astype(dtype)
        if layout == 'fortran':
            x = np.asfortranarray(x)
        elif layout == 'strided':
            big = np.full((2 * len(x),) + x.shape[1:], 7, dtype=dtype)
            big[::2] = x
            x = big[::2]
        g = math.gcd(old, new)
        k = dict(old=old // g, new=new // g, rate=new, channels=1 if how == 'file' else channels, tolerance=20, how=how, sizes=sizes, layout=layout, column=column, dtype=np.dtype(dtype).name, events=[])
        made = [0]

        def blank(op, n):
            k['events'].append(dict(op=op, n=n, st='ok', err=0, rate=new, channels=channels, why=''))
            return k['events'][-1]

        def out(y, rate=None):
            ev = blank('out', len(y))
            a = np.asarray(y, dtype=np.float64)
            ev['channels'] = 1 if a.ndim == 1 else a.shape[1]
            if rate is None:
                rate = y.samples_per_second
                if y.samplerate != to:
                    rate = -1
            ev['rate'] = int(rate)
            if a.ndim == 1:
                a = a[:, None]
            if a.shape[1] == k['channels'] and len(a):
                want = sound.at(made[0], len(a), new)
                if how == 'file':
                    want = want.mean(axis=1, keepdims=True)
                err = np.abs(a - want).max()
                ev['err'] = int(min(err * 1e4, 10 ** 8)) if err == err else 10 ** 8
            made[0] += len(a)

        def pieces():
            p = 0
            for n in sizes:
                blank('in', n)
                yield x[p:p + n]
                p += n
        try:
            with time_limit(60):
                if how == 'graph':
                    Doc = graph(to, out)
                    Doc.process(feed=lambda: (zounds.AudioSamples(d, sr) for d in pieces()))
                elif how == 'function':
                    blank('in', total)
                    out(resample(zounds.AudioSamples(x, sr), to))
                elif how == 'direct':
                    rs = Resample(old, new, channels)
                    for j, d in enumerate(pieces()):
                        out(rs(d, end_of_input=j == len(sizes) - 1), new)
                elif how == 'file':
                    flo = io.BytesIO()
                    zounds.AudioSamples(np.ascontiguousarray(x), sr).encode(flo, subtype='FLOAT')
                    flo.seek(0)
                    chunk = rng.choice([zounds.ChunkSizeBytes(sr, zounds.Milliseconds(rng.choice([10, 37, 500])), channels=channels, bit_depth=32), rng.randint(500, 9000)])

                    @zounds.simple_in_memory_settings
                    class Doc(zounds.resampled(chunksize_bytes=chunk, resample_to=to, store_resampled=True)):
                        ogg = None
                        whole = ff.Feature(Spy, store=False)
                    blank('in', total)
                    out(Doc(Doc.process(meta=flo)).resampled)
            blank('end', 0)
        except Exception as ex:
            blank('end', 0).update(st='error', why=repr(ex)[:300])
        return k

    def graph(to, got):
        @zounds.simple_in_memory_settings
        class Doc(ff.BaseModel):
            feed = ff.Feature(Feed, store=False)
            resampled = zounds.AudioSamplesFeature(Resampler, samplerate=to, needs=feed, store=False)
            spy = ff.Feature(Spy, got=got, needs=resampled, store=True)
        return Doc
    pairs = [(a, b) for a in RATES for b in RATES]
    rng.shuffle(pairs)
    SIZE = {1: lambda: rng.randint(1, 3), 2: lambda: rng.randint(20, 200), 3: lambda: rng.choice([1000, 1001, 1470, 441]), 4: lambda: rng.randint(2000, 6000)}
    for j, g in enumerate(gen):
        old, new = pairs[j % len(pairs)]
        sizes = [SIZE[s]() for s in g for _ in range(rng.choice([1, 1, 3]))]
        how = rng.choice(['graph', 'graph', 'graph', 'direct', 'function', 'file'])
        if how == 'direct' and old == new:
            how = 'graph'
        cases.append(case(sizes, old, new, rng.choice([1, 1, 2]), how))
    # many small pieces, and sounds of some length
    for old, new in pairs[:ctx.n(8, 25)]:
        k = rng.choice([1, 7, 441, 1001])
        cases.append(case([k] * (ctx.n(400, 2000) if k < 100 else 60), old, new, rng.choice([1, 2]), 'graph'))
        cases.append(case([rng.randint(1, 9) for _ in range(ctx.n(150, 500))], old, new, rng.choice([1, 2]), 'graph'))
    for old, new in pairs[:ctx.n(4, 25)]:
        cases.append(case([old * rng.choice([2, 5])], old, new, 1, rng.choice(['function', 'file'])))
    # hardly anything
    for old, new in pairs[:ctx.n(25, 25)]:
        cases.append(case([rng.choice([1, 2, 3, 5, 11])] * rng.choice([1, 2]), old, new, rng.choice([1, 2]), 'function'))

    def make_canaries():
        out = []

        def add(cond, what):
            for k in cases:
                if k['events'][-1]['st'] == 'ok' and any(e['op'] == 'out' and e['n'] for e in k['events']) and cond(k):
                    k = copy.deepcopy(k)
                    what([e for e in k['events'] if e['op'] == 'out' and e['n']], k['events'])
                    out.append(k)
                    return
            raise AssertionError('no case for a canary')
        for how in ('graph', 'function', 'direct', 'file'):
            mine = lambda k: k['how'] == how
            add(mine, lambda o, ev: o[-1].update(n=o[-1]['n'] + 4))
            add(lambda k: mine(k) and any(e['op'] == 'out' and e['n'] > 5 for e in k['events']), lambda o, ev: ev.remove(max(o, key=lambda e: e['n'])))
            add(mine, lambda o, ev: o[0].update(err=21))
            add(mine, lambda o, ev: o[0].update(rate=1))
            add(mine, lambda o, ev: ev[-1].update(st='error'))
        return out
    ctx.extra['streams'] = len(cases)
    ctx.extra['samples'] = sum(e['n'] for k in cases for e in k['events'])
    ctx.extra['largest_error'] = max([e['err'] for k in cases for e in k['events']])
    ctx.validate('ResamplingTrace', cases, make_canaries, label='resampled streams')
