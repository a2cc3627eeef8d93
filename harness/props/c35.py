"""C35: stretching, shifting pitch and delaying sounds (Stretching.tla)."""
import copy
import math
import numpy as np
from core import time_limit


def run(ctx):
    import zounds
    from zounds.core import ArrayWithUnits, IdentityDimension
    from zounds.spectral.functional import time_stretch, pitch_shift, phase_shift, fft
    from zounds.timeseries import SampleRate, TimeDimension, audio_sample_rate
    rng = ctx.rng
    ctx.design('Stretching')
    gen = ctx.generate('Stretching', 'StretchingGen')
    rng.shuffle(gen)
    cases = []

    def runs(mask):
        out = []
        for r in np.nonzero(mask)[0]:
            r = int(r)
            if out and out[-1][1] == r - 1:
                out[-1][1] = r
            else:
                out.append([r, r])
        return out

    def look(x, rate):
        x = np.asarray(x, dtype=np.float64)
        if not np.isfinite(x).all():
            raise ValueError('not finite')
        e = np.abs(np.concatenate([x, np.zeros(-len(x) % 64)]).reshape(-1, 64)).max(axis=1)
        top = e.max()
        if top < 1e-6:
            return dict(loud=[], heard=[], peaks=[])
        loud = runs(e > .1 * top)
        peaks = []
        for a, b in runs(e > .25 * top):
            s = x[a * 64:(b + 1) * 64]
            n = 2 ** 15
            sp = np.abs(np.fft.rfft(s * np.hanning(len(s)), n))
            peaks.append([a, b, int(round(np.argmax(sp) * rate / float(n)))])
        return dict(loud=loud, heard=runs(e > .05 * top), peaks=peaks)

    def burst(x, b, rate):
        a, z, hz = b
        m = z - a
        x[a:z] += np.hanning(m) * np.sin(2 * np.pi * hz * np.arange(m) / rate) * .8

    def new(kind, rate, n, window):
        return dict(kind=kind, rate=rate, n=n, window=window, items=[], events=[])

    def blank(k, op, p, q):
        k['events'].append(dict(op=op, p=p, q=q, st='ok', why='', axes='', len=0, found=[], off=0, band=[], cols=0, bands=0))
        return k['events'][-1]

    def fail(k, ex):
        if not k['events']:
            blank(k, 'pitch', 0, 1)
        k['events'][-1].update(st='error', why=repr(ex)[:300])

    def axes(y, sr, count):
        if not isinstance(y, ArrayWithUnits) or len(y.dimensions) != 2:
            return 'has other axes'
        if not isinstance(y.dimensions[0], IdentityDimension) or not isinstance(y.dimensions[1], TimeDimension):
            return 'has other axes'
        td = y.dimensions[1]
        if td.frequency != sr.frequency or td.duration != sr.duration or td.size != y.shape[1]:
            return 'has another time axis'
        return ''

    def stretching(g, n=None, single=None):
        rate = rng.choice([11025, 11025, 22050])
        sr = audio_sample_rate(rate)
        window, frames = rng.choice([(512 * rate // 11025, None), (256, SampleRate(sr.frequency * 64, sr.frequency * 256)), (512, SampleRate(sr.frequency * 128, sr.frequency * 512))])
        n = n or window * rng.randint(20, 30) + rng.randint(0, 300)
        k = new('bursts', rate, n, window)
        count = 1 if single is not None and single else rng.choice([1, 1, 2, 3])
        one = count == 1 and rng.random() < .7
        x = np.zeros((count, n), dtype=rng.choice([np.float32, np.float64]))
        low, high = max(500, 8 * rate // window), int(.2 * rate)
        for i in range(count):
            bursts = []
            for at in rng.choice([[.15], [.55], [.1, .55], []] if i else [[.15], [.55], [.1, .55]]):
                a = int(n * (at + rng.uniform(0, .05)))
                bursts.append([a, a + window * 4 + rng.randint(0, window), rng.randint(low, high)])
                burst(x[i], bursts[-1], rate)
            k['items'].append(bursts)
        if one:
            y = ArrayWithUnits(x[0], [TimeDimension(*sr)]) if rng.random() < .5 else zounds.AudioSamples(x[0], sr)
        else:
            y = ArrayWithUnits(x, [IdentityDimension(), TimeDimension(*sr)])
        try:
            with time_limit(120):
                for op, p, q in g:
                    ev = blank(k, op, p, q)
                    before = np.array(y)
                    args = {} if frames is None else dict(frame_sample_rate=frames)
                    z = time_stretch(y, p / float(q), **args) if op == 'stretch' else pitch_shift(y, p, **args)
                    ev['axes'] = axes(z, sr, count)
                    if not np.array_equal(before, np.asarray(y)):
                        ev['axes'] = 'changes the original'
                    ev['len'] = int(z.shape[-1])
                    ev['found'] = [look(r, rate) for r in z]
                    if n < 10 ** 5:
                        off = 0.
                        a, b = np.asarray(before, dtype=np.float64).reshape(count, -1), np.asarray(z, dtype=np.float64)
                        if count > 1 and len(b) == count:
                            # alone, a sound of the batch gives the same result
                            for i in range(count):
                                one_ = ArrayWithUnits(before[i], [TimeDimension(*sr)])
                                r = time_stretch(one_, p / float(q), **args) if op == 'stretch' else pitch_shift(one_, p, **args)
                                r = np.asarray(r)[0]
                                off = max(off, np.abs(r - b[i]).max() / (np.abs(r).max() + 1e-9)) if r.shape == b[i].shape else 1.
                        if (p == q if op == 'stretch' else p == 0) and a.shape == b.shape:
                            # nothing but a constant factor
                            inner = slice(window, -2 * window)
                            for u, v in zip(a[:, inner], b[:, inner]):
                                if np.abs(u).max() > 1e-3:
                                    off = max(off, np.abs(v - u * (u.dot(v) / u.dot(u))).max() / np.abs(v).max())
                        ev['off'] = int(min(1e6, 1e4 * off))
                    y = z
        except Exception as ex:
            fail(k, ex)
        return k

    def clicks():
        rate = rng.choice([11025, 44100])
        sr = audio_sample_rate(rate)
        n = 2 * rng.randint(10, 400)
        k = new('clicks', rate, n, 0)
        shape = rng.choice([(), (), (1,), (3,), (2, 2)])
        count = int(np.prod(shape)) if shape else 1
        flat = np.zeros((count, n))
        for i in range(count):
            at = rng.sample(range(n), rng.randint(1, 3))
            k['items'].append(sorted(at))
            flat[i, at] = 1
        axis = rng.randrange(len(shape) + 1)
        x = np.moveaxis(flat.reshape(shape + (n,)), -1, axis)
        dims = [IdentityDimension() for _ in shape]
        dims.insert(axis, TimeDimension(*sr))
        given = axis if rng.random() < .5 else axis - len(dims)
        if axis == len(dims) - 1 and rng.random() < .5:
            given = None
        args = {} if given is None else dict(axis=given)
        try:
            with time_limit(60):
                coeffs = fft(ArrayWithUnits(x, dims), **args)
                for _ in range(rng.randint(1, 4)):
                    d = rng.choice([0, 1, -1, rng.randint(-n, n), n // 2])
                    ev = blank(k, 'delay', d, 1)
                    before = np.array(coeffs)
                    out = phase_shift(coeffs, sr, sr.frequency * d, **args)
                    if out.dimensions != coeffs.dimensions:
                        ev['axes'] = 'has other axes'
                    if not np.array_equal(before, np.asarray(coeffs)):
                        ev['axes'] = 'changes the original'
                    coeffs = out
                    y = np.fft.irfft(np.asarray(coeffs), axis=axis, norm='ortho')
                    y = np.moveaxis(y, axis, -1).reshape(count, -1)
                    ev['len'] = y.shape[1]
                    ev['found'] = [dict(loud=[int(p) for p in np.nonzero(np.abs(r) > .4)[0]], heard=[], peaks=[]) for r in y]
        except Exception as ex:
            fail(k, ex)
        return k

    def bands():
        rate = 11025
        sr = audio_sample_rate(rate)
        n = 2 * rng.randint(4700, 5200)
        k = new('bursts', rate, n, 256)
        x = np.zeros(n)
        k['items'] = [[[a, a + 1500, hz] for a, hz in zip(rng.sample([1500, 3800, 6000], 2), rng.sample([700, 1400, 2800], 2))]]
        for b in k['items'][0]:
            burst(x, b, rate)
        try:
            with time_limit(60):
                coeffs = fft(zounds.AudioSamples(x, sr))
                for _ in range(rng.randint(1, 2)):
                    d = rng.randint(-600, 600)
                    band = rng.choice([[500, 1000], [1000, 2000], [2000, 4000], [500, 2000], [500, 4000], [4000, 5000]])
                    ev = blank(k, 'delay', d, 1)
                    ev['band'] = band
                    coeffs = phase_shift(coeffs, sr, sr.frequency * d, frequency_band=zounds.FrequencyBand(*band))
                    y = np.fft.irfft(np.asarray(coeffs), norm='ortho')
                    ev['len'] = len(y)
                    ev['found'] = [look(y, rate)]
        except Exception as ex:
            fail(k, ex)
        return k

    def spectrum():
        rate = rng.choice([11025, 22050, 44100, 48000, 96000])
        sr = audio_sample_rate(rate)
        n = rng.randint(64, 600)
        k = new('tones', rate, n, 0)
        shape = rng.choice([(), (1,), (3,), (2, 3)])
        count = int(np.prod(shape)) if shape else 1
        flat = np.zeros((count, n), dtype=rng.choice([np.float32, np.float64]))
        for i in range(count):
            hz = int(rate * rng.uniform(.08, .42))
            k['items'].append([[0, n, hz]])
            flat[i] = np.sin(2 * np.pi * hz * np.arange(n) / rate) * np.hanning(n)
        axis = rng.randrange(len(shape) + 1)
        x = np.moveaxis(flat.reshape(shape + (n,)), -1, axis)
        dims = [IdentityDimension() for _ in shape]
        dims.insert(axis, TimeDimension(*sr))
        args = dict(axis=axis if rng.random() < .5 else axis - len(dims))
        if axis == len(dims) - 1 and rng.random() < .5:
            args = {}
        pad = rng.choice([0, 0, 1, 64, n])
        if pad or rng.random() < .5:
            args['padding_samples'] = pad
        ev = blank(k, 'spectrum', pad, 1)
        try:
            with time_limit(60):
                y = fft(ArrayWithUnits(x, dims), **args)
                if [type(d) for j, d in enumerate(y.dimensions) if j != axis] != [IdentityDimension] * len(shape):
                    ev['axes'] = 'has other axes'
                sc = list(y.dimensions[axis].scale)
                a = np.moveaxis(np.abs(np.asarray(y)), axis, -1)
                back = np.moveaxis(np.fft.irfft(np.asarray(y), n + pad, axis=axis, norm='ortho'), axis, -1).reshape(count, -1)
                ev['off'] = int(min(1e6, 1e4 * max(np.abs(back[:, :n] - flat).max(), np.abs(back[:, n:]).max() if pad else 0)))
                ev['cols'], ev['bands'] = a.shape[-1], len(sc)
                for r in a.reshape(-1, a.shape[-1]):
                    b = sc[min(int(np.argmax(r)), len(sc) - 1)]
                    ev['found'].append(dict(loud=[], heard=[], peaks=[[int(b.start_hz), int(math.ceil(b.stop_hz)), 0]]))
        except Exception as ex:
            fail(k, ex)
        return k
    for g in gen[:ctx.n(121, 121)]:
        for _ in range(ctx.n(1, 4)):
            cases.append(stretching(g))
    # sounds of some length, where small errors add up
    for j in range(ctx.n(3, 12)):
        cases.append(stretching([rng.choice([['pitch', rng.choice([1, -2, 3, 7]), 1], ['stretch', *rng.choice([[3, 4], [5, 4], [7, 8]])]])], rng.randint(800000, 1500000), True))
    for _ in range(ctx.n(150, 1500)):
        cases.append(clicks())
        cases.append(spectrum())
    for _ in range(ctx.n(40, 300)):
        cases.append(bands())

    def make_canaries():
        out = []

        def add(kind, op, what, cond=lambda ev: True):
            for k in cases:
                if k['kind'] == kind and all(e['st'] == 'ok' for e in k['events']):
                    for j, ev in enumerate(k['events']):
                        if ev['op'] == op and cond(ev):
                            k = copy.deepcopy(k)
                            what(k['events'][j])
                            out.append(k)
                            return
            raise AssertionError('no case for a canary')
        sounding = lambda ev: ev['found'][0]['loud'] and ev['found'][0]['peaks'] and max(p[1] - p[0] for p in ev['found'][0]['peaks']) > 8
        for op in ('stretch', 'pitch'):
            add('bursts', op, lambda ev: ev.update(len=ev['len'] + 1))
            add('bursts', op, lambda ev: ev['found'].pop())
            add('bursts', op, lambda ev: ev['found'][0].update(loud=[]), sounding)
            add('bursts', op, lambda ev: ev['found'][0].update(heard=[[0, ev['len'] // 64]]), lambda ev: sounding(ev) and len(ev['found'][0]['peaks']) == 1)
            add('bursts', op, lambda ev: ev['found'][0].update(peaks=[[p[0], p[1], int(p[2] * 1.3)] for p in ev['found'][0]['peaks']]), lambda ev: sounding(ev) and len(ev['found'][0]['peaks']) == 1)
        add('bursts', 'stretch', lambda ev: ev.update(off=300))
        add('tones', 'spectrum', lambda ev: ev.update(off=300))
        add('bursts', 'delay', lambda ev: ev['found'][0].update(loud=[]), sounding)
        add('clicks', 'delay', lambda ev: ev['found'][0].update(loud=[p + 1 for p in ev['found'][0]['loud']]))
        add('tones', 'spectrum', lambda ev: ev.update(bands=ev['bands'] + 1))
        add('tones', 'spectrum', lambda ev: ev['found'][0].update(peaks=[[p[0] * 3 + 9000, p[1] * 3 + 9000, 0] for p in ev['found'][0]['peaks']]))
        return out
    ctx.extra['largest_deviation'] = max(e['off'] for k in cases for e in k['events'])
    ctx.extra['operations'] = sum(len(k['events']) for k in cases)
    ctx.validate('StretchingTrace', cases, make_canaries, label='sounds that are stretched and shifted')
