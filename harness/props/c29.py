"""C29: multi-resolution representations (BandStore.tla)."""
import copy
import numpy as np


def run(ctx):
    import featureflow as ff
    import zounds
    from zounds import (ArrayWithUnits, TimeDimension, FrequencyAdaptive, FrequencyBand, ExplicitScale, GeometricScale,
                        LinearScale, FrequencyDimension, ExplicitFrequencyDimension, Milliseconds,
                        FrequencyAdaptiveFeature, FrequencyAdaptiveTransform)
    from zounds.spectral import FrequencyWeighting as WeightingNode
    from zounds.spectral.weighting import FrequencyWeighting
    from zounds.spectral.functional import frequency_decomposition
    from zounds.synthesize import FrequencyDecompositionSynthesizer
    from zounds.synthesize import FrequencyAdaptiveDCTSynthesizer, FrequencyAdaptiveFFTSynthesizer
    from zounds.spectral import OggVorbisWindowingFunc
    import scipy.fftpack
    from zounds.synthesize.synthesize import BaseFrequencyAdaptiveSynthesizer
    rng = ctx.rng
    nprng = np.random.RandomState(rng.randrange(2 ** 31))
    ctx.design('BandStore')
    gen = ctx.generate('BandStore', 'BandStoreGen', limit=ctx.n(700, 6000))
    gen += ctx.generate('BandStore', 'BandStoreGen2', limit=ctx.n(500, 5000))
    cases = []

    class Pieces(ff.Node):
        def _process(self, data):
            for d in data:
                yield d

    class Same(ff.Node):
        def _process(self, data):
            yield data

    class Given(FrequencyWeighting):
        def __init__(self, ws):
            super(Given, self).__init__()
            self.ws = ws

        def _wdata(self, scale):
            known = [((b.start_hz, b.stop_hz), w) for b, w in self.ws]
            return np.array([dict(known)[(b.start_hz, b.stop_hz)] for b in scale], dtype=float)

    def whole(a):
        return [[int(round(float(np.real(v)))) if np.isfinite(float(np.real(v))) and abs(float(np.real(v))) < 10 ** 8
                 and abs(v - round(float(np.real(v)))) < 1e-3 else -999999 for v in row] for row in np.asarray(a)]

    def ms(t):
        x = t / np.timedelta64(1, 'ms')
        return int(round(x)) if abs(x - round(x)) < 1e-6 else -1

    def edge(b):
        return [int(round(b.start_hz * 1000)), int(round(b.stop_hz * 1000))]

    def when(a):
        d = a.dimensions[0]
        if not isinstance(d, TimeDimension):
            return [-1, -1]
        return [ms(d.frequency), ms(d.duration)]

    def look(a):
        fd = a.dimensions[1]
        scale = getattr(fd, 'scale', None)
        o = dict(n=0, edges=[], whole=whole(a), bands=[], named=[], bandtime=[], freq=when(a)[0], dur=when(a)[1],
                 fa=isinstance(a, FrequencyAdaptive))
        if scale is None:
            return o
        o['n'] = len(scale)
        o['edges'] = [edge(b) for b in scale]
        own = list(scale)
        reads = []
        # bands are read in any order, by their own or by an equal name
        for i in rng.sample(range(len(own)), len(own)):
            b = own[i]
            if rng.random() < .5:
                b = FrequencyBand(b.start_hz, b.stop_hz)
            reads.append((i, a[:, b]))
        reads = [r for _, r in sorted(reads, key=lambda x: x[0])]
        if o['fa'] and rng.random() < .3:
            reads = list(a.iter_bands())
            if a.n_bands != o['n']:
                o['n'] = -1
        for r in reads:
            o['bands'].append(whole(r))
            s = getattr(r.dimensions[1], 'scale', ())
            o['named'].append(edge(list(s)[0]) if len(s) == 1 else [-1, -1])
            o['bandtime'].append(when(r))
        return o

    def event(op, **kw):
        ev = dict(op=op, st='ok', b1=0, b2=0, t1=0, t2=0, cells=[], ws=[], edges=[], fa=False)
        ev.update(kw)
        return ev

    class History(object):
        def __init__(self, nb, nt):
            self.nb = nb
            kind = rng.choice(['gap', 'gap', 'even', 'overlap', 'geometric', 'linear'])
            if kind in ('gap', 'even'):
                g = 4 if kind == 'gap' else 0
                at, bs = rng.choice([0, 20]), []
                for _ in range(nb):
                    n = rng.choice([6, 10, 37])
                    bs.append(FrequencyBand(at, at + n))
                    at += n + g
                self.scale = ExplicitScale(bs)
            elif kind == 'overlap':
                self.scale = ExplicitScale([FrequencyBand(100 * i, 100 * i + 150) for i in range(nb)])
            elif kind == 'geometric':
                self.scale = GeometricScale(100, 3000, rng.choice([.05, .5]), nb)
            else:
                self.scale = LinearScale(FrequencyBand(0, 4000), nb)
            self.same = rng.choice([0, 0, 1, 3])        # every band as wide as the other?
            self.widths = [self.same or rng.randint(1, 4) for _ in range(nb)]
            self.dtype = rng.choice(['f8', 'f8', 'f4', 'i8', 'c16', 'i4'])
            n, k = rng.choice([(1, 1), (2, 1), (4, 1), (4, 3), (2, 4)])    # duration : frequency
            self.unit = rng.choice([100, 240, 500])
            self.dur, self.freq = n * self.unit, k * self.unit
            self.td = TimeDimension(Milliseconds(self.freq), Milliseconds(self.dur))
            self.events = []
            arrs = [self.fresh(w, nt) for w in self.widths]
            cells = [whole(a) for a in arrs]
            self.bands = list(self.scale)
            self.a = None
            how = rng.randrange(3)

            def make():
                if how == 1:
                    fa = FrequencyAdaptive(arrs, self.td, self.scale)
                    return FrequencyAdaptive(np.array(fa), time_dimension=self.td, explicit_freq_dimension=fa.frequency_dimension)
                if how == 2:
                    return FrequencyAdaptive([ArrayWithUnits(x, [self.td, None]) for x in arrs], time_dimension=self.td, scale=self.scale)
                return FrequencyAdaptive(arrs, self.td, self.scale)
            self.step('build', make, cells=cells, edges=[edge(b) for b in self.bands], fa=True)

        def fresh(self, w, nt):
            return nprng.randint(-900, 900, (nt, w)).astype(self.dtype)

        def step(self, op, make, **kw):
            ev = event(op, **kw)
            try:
                new = make()
                ev['obs'] = look(new)
                self.a = new
            except Exception as ex:
                ev['st'] = repr(ex)[:300]
                ev['obs'] = dict(n=0, edges=[], whole=[], bands=[], named=[], bandtime=[], freq=0, dur=0, fa=False)
            self.events.append(ev)
            return ev['st'] == 'ok'

        def request(self, b1, b2):
            """a request which meets exactly these bands, if there is one"""
            bs = self.bands
            if b1 == b2:
                return FrequencyBand(bs[b1].start_hz, bs[b1].stop_hz)
            lo = bs[b1 - 1].stop_hz if b1 else bs[0].start_hz - 1
            hi = bs[b2 + 1].start_hz if b2 + 1 < len(bs) else bs[-1].stop_hz + 50
            smax, emin = min(b.stop_hz for b in bs[b1:b2 + 1]), max(b.start_hz for b in bs[b1:b2 + 1])
            s = max(lo + rng.random() * (smax - lo), lo + 1e-3, 0)
            e = min(emin + rng.random() * (hi - emin), hi)
            if b1 == 0 and bs[0].start_hz > s:
                s = bs[0].start_hz
            met = [i for i, b in enumerate(bs) if b.stop_hz >= s and b.start_hz < e]
            if not s < e or met != list(range(b1, b2 + 1)):
                return None
            if any(abs(b.start_hz - s) < 1e-9 and abs(b.stop_hz - e) < 1e-9 for b in bs):
                return None
            return FrequencyBand(s, e)

        def columns(self, b1, b2):
            w = np.concatenate([[0], np.cumsum(self.widths)])
            start, stop = int(w[b1]), int(w[b2 + 1])
            if stop == w[-1] and rng.random() < .3:
                return slice(start or None, None)
            if stop < w[-1] and rng.random() < .3:
                return slice(start, stop - int(w[-1]))
            return slice(start, stop)

        def index(self, b1, b2):
            r = self.request(b1, b2)
            if r is None or rng.random() < .25:
                return self.columns(b1, b2)
            return r

        def asfa(self):
            return self.a if isinstance(self.a, FrequencyAdaptive) else FrequencyAdaptive.from_array_with_units(self.a)

        def op(self, o):
            a, nt = self.a, len(self.a)
            name, b1, b2, t1, t2 = o['op'], o['b1'], o['b2'], o['t1'], o['t2']
            if name == 'set':
                ws = self.widths[b1 - 1:b2]
                new = [self.fresh(w, t2 - t1 + 1) for w in ws]
                if rng.random() < .3:
                    for x in new:
                        x[:] = new[0][0, 0]
                    value = new[0].reshape(-1)[0].item()
                else:
                    value = np.concatenate(new, axis=1)
                    if rng.random() < .3:
                        value = value.tolist()
                ts = slice(t1 - 1, t2) if (t1, t2) != (1, nt) or rng.random() < .3 else slice(None)
                ix = self.index(b1 - 1, b2 - 1)

                def make():
                    copy_ = a.copy()
                    if not isinstance(copy_, ArrayWithUnits):
                        raise ValueError('copy is %s' % type(copy_))
                    copy_[ts, ix] = value
                    return copy_
                return self.step('set', make, b1=b1, b2=b2, t1=t1, t2=t2, cells=[whole(x) for x in new])
            if name == 'range':
                ix = self.index(b1 - 1, b2 - 1)
                ok = self.step('range', lambda: a[:, ix], b1=b1, b2=b2)
                self.bands, self.widths = self.bands[b1 - 1:b2], self.widths[b1 - 1:b2]
                return ok
            if name == 'time':
                return self.step('time', lambda: a[t1 - 1:t2] if rng.random() < .5 else a[t1 - 1:t2, :], t1=t1, t2=t2)
            if name in ('join', 'like'):
                new = [self.fresh(w, b1) for w in self.widths]
                cells = [whole(x) for x in new]

                def other():
                    if rng.random() < .5:
                        return FrequencyAdaptive(new, self.td, a.dimensions[1].scale)
                    return ArrayWithUnits(np.concatenate(new, axis=1), a.dimensions)
                if name == 'join':
                    return self.step('join', lambda: a.concatenate(other()) if rng.random() < .5 else ArrayWithUnits.concat([a, other()]), cells=cells)
                return self.step('like', lambda: self.asfa().like_dims(np.concatenate(new, axis=1)), cells=cells, fa=True)
            if name == 'weigh':
                ws = [rng.choice([1, 2, 3, 5, -1]) for _ in self.widths]
                g = Given(list(zip(self.bands, ws)))
                inverse = Given([(b, 1. / w) for b, w in zip(self.bands, ws)])
                return self.step('weigh', lambda: rng.choice([lambda: a * g, lambda: g * a, lambda: a / inverse,
                                                                lambda: list(WeightingNode(g)._process(a))[0]])(), ws=ws)
            if name == 'again':
                return self.step('again', lambda: FrequencyAdaptive.from_array_with_units(a), fa=True)
            # store
            pieces = [a]
            if nt > 1 and rng.random() < .6:
                cut = rng.randint(1, nt - 1)
                pieces = [a[:cut], a[cut:]]

            def make():
                class Settings(ff.PersistenceSettings):
                    id_provider = ff.UuidProvider()
                    key_builder = ff.StringDelimitedKeyBuilder()
                    database = ff.InMemoryDatabase(key_builder=key_builder)

                class Doc(ff.BaseModel, Settings):
                    src = ff.Feature(Pieces, store=False)
                    fa = FrequencyAdaptiveFeature(Same, needs=src, store=True)
                return Doc(Doc.process(src=pieces)).fa
            return self.step('store', make, fa=True)

        def square(self, ola):
            a, nt = self.a, len(self.a)
            widths = set(self.widths)
            n = self.same if self.same > 1 and rng.random() < .7 else rng.choice([1, 2, 4, 8, 3])
            overlap = self.dur - self.freq
            if ola and (n * self.freq) % self.dur or self.dtype in ('i8', 'i4', 'c16'):
                return
            if widths != {n}:
                # bands which are the same all along have the same values whatever their size
                new = [self.fresh(w, nt) for w in self.widths]
                for x in new:
                    x[:] = x[:, :1]
                if not self.step('like', lambda: self.asfa().like_dims(np.concatenate(new, axis=1)), cells=[whole(x) for x in new], fa=True):
                    return
            ev = event('square')
            hop = n * self.freq // self.dur if ola else 0
            ev['sq'] = dict(n=n, hop=hop, out=[], edges=[], step=-1, wantstep=0, freq=-1, dur=-1)
            us = self.dur * 1000
            ev['sq']['wantstep'] = int(round(us * 1000 / n))     # nanoseconds
            try:
                fa = self.asfa()
                sq = fa.square(n, do_overlap_add=ola) if ola or rng.random() < .5 else rng.choice([fa.square, fa.rasterize])(n)
                arr = np.asarray(sq)
                if ola:
                    ev['sq']['out'] = whole(arr)
                    td = sq.dimensions[0]
                else:
                    ev['sq']['out'] = [whole(x) for x in arr]
                    ev['sq']['freq'], ev['sq']['dur'] = when(sq)
                    td = sq.dimensions[1]
                step = [td.frequency / np.timedelta64(1, 'ns'), td.duration / np.timedelta64(1, 'ns')]
                ev['sq']['step'] = int(round(step[0])) if abs(step[0] - step[1]) < .5 else -2
                ev['sq']['edges'] = [edge(b) for b in sq.dimensions[-1].scale]
            except Exception as ex:
                ev['st'] = repr(ex)[:300]
            self.events.append(ev)

        def partial(self):
            """columns which are not those of whole bands"""
            w = np.concatenate([[0], np.cumsum(self.widths)])
            total = int(w[-1])
            c1 = rng.randint(0, total - 1)
            c2 = rng.randint(c1 + 1, total)
            if c1 in w and c2 in w:
                return
            a = self.a
            self.step('columns', lambda: a[:, c1:c2], b1=c1 + 1, b2=c2)

        def done(self):
            return dict(kind='ops', freq=self.freq, dur=self.dur, widths=self.widths, dtype=self.dtype, events=self.events)

    for g in gen:
        h = History(len(g[0]['ws']), g[0]['b1'])
        ok = h.events[0]['st'] == 'ok'
        for o in g[1:]:
            if not ok:
                break
            ok = h.op(o)
        if ok and rng.random() < .4:
            h.square(rng.random() < .6)
        elif ok and rng.random() < .4:
            h.partial()
        cases.append(h.done())

    # ---- bands taken from a spectrum, and put back -------------------------------
    class Keep(object):
        def synthesize(self, x):
            return x

    def chain():
        real = rng.choice(['', '', 'dct', 'fft'])
        odd = rng.random() < .5
        even = real == 'dct' or (real == '' and rng.random() < .5)
        nb, nt = rng.randint(6, 24), rng.randint(1, 4)
        least = 2 if real == 'fft' else 1
        nb += nb % 2 if even else 0
        sr = rng.choice([zounds.SR11025(), zounds.SR22050(), zounds.SR44100(), zounds.SR48000()])
        lin = LinearScale.from_sample_rate(sr, nb, always_even=even)
        w = float(sr.nyquist) / nb
        runs, at = [], 0
        while True:
            lo = at if not runs else rng.randint(max(0, runs[-1][0] - 1), min(nb - 1, runs[-1][1] + 2))
            size = rng.randint(least, 6) if runs else rng.randint(least, 3)
            size += size % 2 if even and not odd else 0
            if lo + size > nb:
                break
            runs.append([lo + 1, lo + size])
            at = lo + size
            if len(runs) == 5:
                break
        # bands that meet exactly these columns, in order and all different
        bs = [FrequencyBand((lo - 1) * w + w * .3, hi * w - w * .3) for lo, hi in runs]
        keep = [i for i in range(len(bs)) if runs[i] not in runs[:i]]
        runs, bs = [runs[i] for i in keep], [bs[i] for i in keep]
        if even and odd:
            # an even number of columns is taken for every band (which ones, FreqScale.tla says)
            cols = ArrayWithUnits(np.arange(1, nb + 1), [FrequencyDimension(lin)])
            runs = [[int(v) for v in np.asarray(cols[b])[[0, -1]]] for b in bs]
        scale = ExplicitScale(bs)
        x = nprng.randint(-90, 90, (nt, nb)).astype(float)
        samples = 2 * (nb - 1) if real == 'fft' else nb
        td = TimeDimension(sr.frequency * samples, sr.frequency * samples)
        window = rng.choice([None, np.ones, lambda n: np.arange(1, n + 1), lambda n: np.full(n, 2.)])
        ev = event('chain', x=whole(x), runs=runs, win=[[int(v) for v in (window or np.ones)(b - a + 1)] for a, b in runs], taken=[], back=[])
        try:
            if real:
                there, backwards, synth = dict(
                    dct=(scipy.fftpack.idct, scipy.fftpack.dct, FrequencyAdaptiveDCTSynthesizer),
                    fft=(np.fft.irfft, np.fft.rfft, FrequencyAdaptiveFFTSynthesizer))[real]
                spectrum = ArrayWithUnits(x if real == 'dct' else x.astype(complex), [td, FrequencyDimension(lin)])
                node = FrequencyAdaptiveTransform(transform=there, scale=scale, window_func=window)
                fa = list(node._process(spectrum))[0]
                ev['taken'] = [whole(backwards(np.asarray(fa[:, b]), norm='ortho')) for b in bs]
                sound = synth(scale, sr).synthesize(fa)
                if int(sound.samplerate) != int(sr):
                    raise ValueError(repr(sound.samplerate))
                frames = np.asarray(sound).reshape((nt, samples))
                if real == 'fft':
                    frames = frames / (OggVorbisWindowingFunc() * np.ones((1, samples)))
                ev['back'] = whole(backwards(frames, norm='ortho'))
                return dict(kind='chain', freq=0, dur=0, how=real, events=[ev])
            node = FrequencyAdaptiveTransform(transform=lambda z, norm: np.asarray(z), scale=scale, window_func=window)
            fa = list(node._process(ArrayWithUnits(x, [td, FrequencyDimension(lin)])))[0]
            ev['taken'] = [whole(fa[:, b]) for b in bs]

            class Back(BaseFrequencyAdaptiveSynthesizer):
                def _n_linear_scale_bands(self, coeffs):
                    return nb
            back = Back(scale, lambda z, norm: np.asarray(z), Keep(), sr, np.float64, even).synthesize(fa)
            ev['back'] = whole(back)
        except Exception as ex:
            ev['st'] = repr(ex)[:300]
        return dict(kind='chain', freq=0, dur=0, events=[ev])
    cases += [chain() for _ in range(ctx.n(150, 1500))]

    # ---- a sound taken apart ----------------------------------------------------
    def parts():
        sr = rng.choice([zounds.SR11025(), zounds.SR22050(), zounds.SR44100()])
        n = rng.choice([64, 128, 256, 96])
        sizes = sorted(rng.sample([x for x in (8, 16, 24, 32, 48, 64, 96, 128) if x < n], rng.randint(1, 3)) + [n])
        flat = rng.random() < .3
        rows = 1 if flat else rng.randint(1, 3)
        edgefs = {s // 2 for s in sizes}
        can = [f for f in range(0, n // 2) if f not in edgefs and f > 0]
        comps = [sorted([f, rng.randint(1, 40)] for f in rng.sample(can, rng.randint(1, 4))) for _ in range(rows)]
        t = np.arange(n)
        x = np.array([sum(a * np.cos(2 * np.pi * (f * t / float(n) + .1)) for f, a in row) for row in comps])
        std = TimeDimension(*sr)
        asked = list(sizes)
        rng.shuffle(asked)
        td = TimeDimension(sr.frequency * n, sr.frequency * n)
        chosen = sorted(rng.sample(range(len(sizes)), rng.randint(1, len(sizes))))
        every = rng.random() < .4

        def spectrum(y):
            y = np.asarray(y)
            k = len(y)
            c = np.abs(np.fft.rfft(y)) * 2 / k
            return [[int(f), int(round(v))] for f, v in enumerate(c) if v > .2]
        ev = event('parts', sizes=sizes, comps=comps, widths=[], got=[], sum=[], chosen=chosen, all=every, wantedges=[], edges=[])
        lo = 0.
        for s in sizes:
            hi = float(sr.nyquist) * s / n
            ev['wantedges'].append([int(round(lo * 10)), int(round(hi * 10))])
            lo = hi
        try:
            arr = ArrayWithUnits(x[0], [std]) if flat else ArrayWithUnits(x, [td, std])
            before = np.array(arr)
            fa = frequency_decomposition(arr, asked)
            if not (np.asarray(arr) == before).all():
                raise ValueError('the sound was altered')
            bs = list(fa.scale)
            ev['edges'] = [[int(round(b.start_hz * 10)), int(round(b.stop_hz * 10))] for b in bs]
            got = [fa[:, b] for b in bs]
            ev['widths'] = [b.shape[1] for b in got]
            ev['got'] = [[spectrum(b[r]) for b in got] for r in range(rows)]
            synth = FrequencyDecompositionSynthesizer(sr, n)
            out = synth.synthesize(fa) if every else synth.synthesize(fa, rng.choice([list, set, tuple])(chosen))
            ev['sum'] = [spectrum(out[r]) for r in range(rows)]
        except Exception as ex:
            ev['st'] = repr(ex)[:300]
        return dict(kind='parts', freq=0, dur=0, events=[ev])
    cases += [parts() for _ in range(ctx.n(120, 1000))]

    def make_canaries():
        out = []

        def add(pick, what):
            k = next(k for k in cases if pick(k))
            c = copy.deepcopy(k)
            what(c)
            out.append(c)
        ops = lambda k: k['kind'] == 'ops'

        def swap(c):
            o = c['events'][0]['obs']
            o['bands'][0], o['bands'][1] = o['bands'][1], o['bands'][0]
        add(lambda k: ops(k) and k['events'][0]['obs']['bands'][0] != k['events'][0]['obs']['bands'][1], swap)
        add(ops, lambda c: c['events'][0]['obs']['whole'][0].reverse() or c['events'][0]['obs']['whole'][0].append(3))
        add(ops, lambda c: c['events'][0]['obs'].update(freq=c['freq'] + 1))
        add(ops, lambda c: c['events'][0]['obs']['edges'].pop())
        add(lambda k: ops(k) and k['events'][-1]['op'] == 'square' and k['events'][-1]['sq']['hop'],
            lambda c: c['events'][-1]['sq']['out'][0].__setitem__(0, 12345))
        add(lambda k: ops(k) and k['events'][-1]['op'] == 'square' and not k['events'][-1]['sq']['hop'],
            lambda c: c['events'][-1]['sq'].update(step=3))
        add(lambda k: ops(k) and k['events'][-1]['op'] == 'columns', lambda c: c['events'][-1]['obs'].update(n=1))
        add(lambda k: k['kind'] == 'chain', lambda c: c['events'][0]['back'][0].__setitem__(0, 7777))
        add(lambda k: k['kind'] == 'parts', lambda c: c['events'][0]['got'][0][0].append([1, 1]))
        add(lambda k: k['kind'] == 'parts', lambda c: c['events'][0]['sum'][0].append([1, 1]))
        return out
    ops = {}
    for k in cases:
        for ev in k['events']:
            ops[ev['op']] = ops.get(ev['op'], 0) + 1
    ctx.extra['operations'] = ops
    ctx.validate('BandStoreTrace', cases, make_canaries, label='bands')
