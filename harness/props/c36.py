"""C36: scales hold the bands they promise, and add up spectra (Scales.tla)."""
import copy
import math
import numpy as np
from core import time_limit

BLANK = dict(op='', st='ok', why='', kind='', n=0, count=0, es=[], ee=[], m=[], bw=[], span=[0, 0], same='', a=[], b=[], res=[], ratio=0,
             eq=False, hash=False, bands=[], win=['k', 1], rows=[], outs=[], tones=[], band=[])


def run(ctx):
    import zounds
    from zounds.core import ArrayWithUnits, IdentityDimension
    from zounds.spectral import FrequencyBand, FrequencyDimension, LinearScale, GeometricScale, ExplicitScale, BarkScale, MelScale, ChromaScale
    from zounds.spectral import AWeighting, WindowingFunc, IdentityWindowingFunc, BarkBands, Chroma
    from zounds.spectral.functional import apply_scale
    from zounds.timeseries import TimeDimension
    from stream import Source, Recorder, run_graph
    rng = ctx.rng
    ctx.design('Scales')
    gen = ctx.generate('Scales', 'ScalesGen')
    rng.shuffle(gen)
    cases = []

    def put(k, op, f=None, **kw):
        ev = copy.deepcopy(dict(BLANK, op=op, **kw))
        k['events'].append(ev)
        try:
            with time_limit(30):
                if f is not None:
                    ev.update(f(ev) or {})
        except Exception as ex:
            ev.update(st=ex.__class__.__name__, why=str(ex)[:200])
        return ev

    def ranker(linear, edges):
        """
        a function from frequencies to integers that keep their order; None if it is uncertain on which side of a bin's border one
        of them is
        """
        lo, step = float(linear.start_hz), (float(linear.stop_hz) - float(linear.start_hz)) / len(linear)
        grid = [lo + step * i for i in range(len(linear) + 1)]
        near = lambda v: int(round((v - lo) / step)) if abs((v - lo) / step - round((v - lo) / step)) < 1e-6 else None
        exact = all(linear.band_stops[i] == linear.band_starts[i + 1] for i in range(len(linear) - 1))
        inner = set()
        for v in map(float, edges):
            i = near(v)
            if i is None:
                inner.add(v)
            elif 0 <= i <= len(linear) and not (exact and v in (list(linear.band_starts) + list(linear.band_stops)[-1:])[i:i + 1]):
                return None
        order = sorted([(g, i) for i, g in enumerate(grid)] + [(v, None) for v in inner])
        at, far = {}, {}
        for r, (v, i) in enumerate(order):
            if i is None:
                far[v] = r
            else:
                at[i] = r

        def rank(v):
            i = near(float(v))
            return far[float(v)] if i is None or not 0 <= i <= len(linear) else at[i]
        return rank

    # ------------------------------------------------------------ applying
    def window(w):
        if w[0] == 'ramp':
            return WindowingFunc(lambda n: np.arange(1, n + 1))
        if w[0] == 'tri':
            return WindowingFunc(lambda n: np.minimum(np.arange(1, n + 1), np.arange(n, 0, -1)))
        if w[1] == 1 and rng.random() < .6:
            return rng.choice([IdentityWindowingFunc, WindowingFunc])()
        return rng.choice([int, float])(w[1])

    def whole(a):
        a = np.asarray(a, dtype='f8')
        b = np.rint(a)
        if not np.isfinite(a).all() or np.abs(a - b).max(initial=0) > 1e-4 * max(1, np.abs(a).max(initial=0)):
            return np.full(a.shape, -999983)
        return b.astype(int)

    def spectra(shape, m, cplx):
        x = nrs.randint(0, 6, shape + (m,))
        if rng.random() < .5:
            # a few bins only
            x = x * (nrs.uniform(0, 1, shape + (m,)) < .2)
        return x + 1j * nrs.randint(0, 6, shape + (m,)) if cplx else x.astype(rng.choice(['f8', 'f4', 'f8']))

    nrs = np.random.RandomState(ctx.seed * 31 + 5)

    def lead(shape):
        dims = [TimeDimension(zounds.Milliseconds(20), zounds.Milliseconds(40))] if shape else []
        return dims + [IdentityDimension() for _ in shape[1:]]

    def apply_event(k, scale, linear, rank, w=None, how=None, shape=None):
        """one application of a scale, directly or by something that uses it"""
        w = w or rng.choice([['k', 1], ['k', 1], ['k', 2], ['k', 3], ['ramp', 0], ['tri', 0]])
        how = how or rng.choice(['scale', 'scale', 'apply_scale'])
        shape = rng.choice([(), (1,), (2,), (3,), (2, 3), (len(linear), 2), (2, len(linear))]) if shape is None else shape
        cplx = how != 'node' and rng.random() < .3
        x = spectra(shape, len(linear), cplx)
        if how == 'apply_scale' and rng.random() < .5:
            # which is given magnitudes
            x = -x
        a = ArrayWithUnits(x.copy(), lead(shape) + [FrequencyDimension(linear)])

        def f(ev):
            if how == 'scale':
                y = scale.apply(a, window(w))
                real = x
            elif how == 'apply_scale':
                y = apply_scale(a, scale, window(w))
                real = np.abs(x.real)
            same = ''
            if not np.array_equal(np.asarray(a), x):
                same = 'the spectrum was changed'
            if how != 'scale':
                if not isinstance(y, ArrayWithUnits) or y.ndim != a.ndim or any(p != q for p, q in zip(y.dimensions[:-1], a.dimensions[:-1])):
                    same = 'the other axes are not those of the spectrum'
                elif not isinstance(y.dimensions[-1], FrequencyDimension) or y.dimensions[-1].scale != scale:
                    same = 'the axis is not that of the scale'
            y = np.asarray(y)
            if y.shape != x.shape[:-1] + (len(scale),):
                return dict(same='the result has shape %s for %s' % (y.shape, x.shape))
            rows, outs = real.reshape(-1, len(linear)), y.reshape(-1, len(scale))
            if np.iscomplexobj(rows):
                rows, outs = np.concatenate([rows.real, rows.imag]), np.concatenate([outs.real, outs.imag])
            elif np.iscomplexobj(outs):
                outs = outs.real
            pick = sorted(rng.sample(range(len(rows)), min(len(rows), 4)))
            return dict(same=same, rows=whole(rows[pick]).tolist(), outs=whole(outs[pick]).tolist())
        put(k, 'apply', f, bands=[[rank(b.start_hz), rank(b.stop_hz)] for b in scale], win=w, kind=how)

    def overlap(k, scale, bands, pq):
        def f(ev):
            try:
                scale.ensure_overlap_ratio(pq[0] / float(pq[1]))
            except AssertionError:
                return dict(eq=False)
            return dict(eq=True)
        put(k, 'overlap', f, bands=copy.deepcopy(bands), a=pq)

    # ------------------------------------------------------------ the model's scales and spectra
    for g in gen[:ctx.n(250, 3000)]:
        unit = rng.choice([1., .25, 100., 12.])
        linear = LinearScale(FrequencyBand(0, 4 * unit), 4)
        k = dict(bins=[[j, j + 1] for j in range(4)], events=[])
        bands, x = [], [0] * 4
        w = rng.choice([['k', 1], ['ramp', 0], ['tri', 0]])
        for op, p, q in g:
            if op == 'band':
                bands.append([p, q])
            else:
                x[p - 1] += q
            if not bands:
                continue
            scale = ExplicitScale([FrequencyBand(p * unit, q * unit) for p, q in bands])
            a = ArrayWithUnits(np.array([x], dtype='f8'), lead((1,)) + [FrequencyDimension(linear)])
            put(k, 'apply', lambda ev: dict(outs=whole(scale.apply(a, window(w))).tolist()), bands=copy.deepcopy(bands), win=w, rows=[list(x)])
            for p in (1, 2, 3, 4):
                overlap(k, scale, bands, [p, 4])
        cases.append(k)

    # ------------------------------------------------------------ scales and what they are made of
    def bark(hz):
        return 6 * math.asinh(hz / 600.)

    def mel(hz):
        return 1127 * math.log1p(hz / 700.)

    def scale_of(kind, lo, hi, n, ratio=.1):
        if kind == 'linear':
            return LinearScale(FrequencyBand(lo, hi), n, always_even=rng.random() < .3)
        if kind == 'rate':
            return LinearScale.from_sample_rate(rate, n)
        if kind == 'geometric':
            return GeometricScale(lo, hi, ratio, n)
        return dict(bark=BarkScale, mel=MelScale)[kind](FrequencyBand(lo, hi), n)
    rates = [zounds.SR11025(), zounds.SR22050(), zounds.SR44100(), zounds.SR48000(), zounds.SR96000()]
    for _ in range(ctx.n(250, 3000)):
        k = dict(bins=[], events=[])
        kind = rng.choice(['linear', 'rate', 'geometric', 'bark', 'mel'])
        lo = rng.choice([20, 50., 100, 440, rng.uniform(30, 3000)])
        hi = lo * rng.choice([2, 1.5, 4, 100, rng.uniform(1.2, 50)])
        if kind == 'linear' and rng.random() < .3:
            lo = 0
        rate = rng.choice(rates)
        if kind == 'rate':
            lo, hi = 0, {zounds.SR11025: 11025, zounds.SR22050: 22050, zounds.SR44100: 44100, zounds.SR48000: 48000, zounds.SR96000: 96000}[type(rate)] // 2
        n = rng.choice([1, 2, 3, 5, 12, 40, 100])
        ratio = rng.choice([.05, .5, 1., rng.uniform(.01, 1.5)])

        def f(ev):
            s = scale_of(kind, lo, hi, n, ratio)
            bands = list(s)
            st, en = np.array([float(b.start_hz) for b in bands]), np.array([float(b.stop_hz) for b in bands])
            ce, wi = (st + en) / 2, en - st
            near = lambda p, q: np.allclose(np.array(list(p), dtype='f8'), q, rtol=1e-9, atol=1e-9 * hi)
            same = ''
            if not near(s.center_frequencies, ce) or not near([b.center_frequency for b in bands], ce):
                same = 'the centres are not those of the bands'
            elif not near(s.bandwidths, wi) or not near([b.bandwidth for b in bands], wi):
                same = 'the widths are not those of the bands'
            elif not np.allclose(s.Q, ce / wi, rtol=1e-9):
                same = 'Q is not the ratio of centres to widths'
            elif not near(s.band_starts, st) or not near(s.band_stops, en):
                same = 'the borders are not those of the bands'
            out = dict(n=n, count=len(s), same=same, kind='linear' if kind == 'rate' else kind)
            a, z = (st[0], en[-1]) if kind == 'geometric' else (lo, hi)
            mil = lambda v: [int(round(1000 * float(q))) for q in v]
            out['span'] = mil([(s.start_hz - a) / (z - a), (s.stop_hz - a) / (z - a)])
            w = (hi - lo) / float(n)
            if out['kind'] == 'linear':
                out.update(es=mil((st - lo) / w), ee=mil((en - lo) / w))
            else:
                g = dict(geometric=math.log, bark=bark, mel=mel)[kind]
                out['m'] = mil([(g(v) - g(lo)) / (g(hi) - g(lo)) for v in ce])
                want = ce * ratio if kind == 'geometric' else .108 * ce + 24.7
                out.update(bw=mil(wi / want), es=[0] * len(bands))
            return out
        put(k, 'made', f, n=n)
        cases.append(k)

    # ------------------------------------------------------------ bands
    for _ in range(ctx.n(120, 2000)):
        k = dict(bins=[], events=[])
        unit = rng.choice([1, .25, 16, 1 / 3., 7.3])
        m = rng.choice([4, 6, 1000])
        back = lambda v: int(round(v / unit)) if abs(v / unit - round(v / unit)) < 1e-6 else -99991

        def band():
            p, q = sorted(rng.sample(range(m), 2))
            return [p, q]
        for _ in range(6):
            a, b = band(), band()
            if rng.random() < .2:
                b = list(a)

            def f(ev):
                p, q = FrequencyBand(a[0] * unit, a[1] * unit), FrequencyBand(b[0] * unit, b[1] * unit)
                out = dict(eq=bool(p == q), hash=hash(p) == hash(q))
                if bool(p != q) == out['eq']:
                    out['eq'] = not (a == b)
                try:
                    r = p.intersect(q)
                    out.update(res=[back(r.start_hz), back(r.stop_hz)], ratio=int(round(1000 * p.intersection_ratio(q))))
                except ValueError:
                    out.update(res=[])
                return out
            put(k, 'meet', f, a=a, b=b)
            a = [rng.randint(0, m), rng.choice([0, -1, 1, 2, rng.randint(1, m), rng.randint(1, m)])]
            kind = rng.choice(['center', 'start', 'init'])

            def f(ev):
                try:
                    if kind == 'center':
                        p = FrequencyBand.from_center(a[0] * unit, 2 * a[1] * unit)
                    elif kind == 'start':
                        p = FrequencyBand.from_start(a[0] * unit, a[1] * unit)
                    else:
                        p = FrequencyBand(a[0] * unit, (a[0] + a[1]) * unit)
                except ValueError:
                    return dict(res=[])
                return dict(res=[back(p.start_hz), back(p.stop_hz)], ratio=back(p.bandwidth), n=back(2 * p.center_frequency), eq=True)
            put(k, 'band', f, a=a, kind=kind)
        # powers of two: every ratio is exact
        unit2 = rng.choice([1, .25, 16])
        bands = sorted(band() for _ in range(rng.choice([1, 2, 2, 3, 5])))
        if rng.random() < .5:
            size = rng.choice([2, 4, 6])
            bands = [[size // 2 * i, size // 2 * i + size + rng.choice([0, 0, 0, 1, -1])] for i in range(rng.choice([2, 4]))]
        try:
            scale = ExplicitScale([FrequencyBand(p * unit2, q * unit2) for p, q in bands])
        except ValueError:
            scale = None
        for q in (2, 3, 4, 8):
            if scale is not None:
                overlap(k, scale, bands, [rng.randint(0, q), q])
        cases.append(k)

    # ------------------------------------------------------------ any scale, any spectrum
    def linear_axis(top=None):
        lo, n = rng.choice([0, 0, 0, 30.1]), rng.choice([1, 2, 5, 16, 33, 60])
        return LinearScale(FrequencyBand(lo, lo + (top or rng.uniform(500, 9000))), n)
    skipped = 0
    for _ in range(ctx.n(150, 2500)):
        lin = linear_axis()
        kind = rng.choice(['linear', 'geometric', 'bark', 'mel', 'explicit', 'same', 'nodes'])
        n = rng.choice([1, 2, 4, 9])
        lo = rng.uniform(20, lin.stop_hz * .6)
        hi = lo * rng.uniform(1.1, 3)
        if kind == 'same':
            m = rng.choice([1, 2, 5, 16, 33])
            scale = lin = LinearScale(FrequencyBand(0, m * 2. ** rng.randint(-3, 8)), m)
        elif kind == 'explicit':
            edges = sorted([sorted([rng.uniform(0, 9000), rng.uniform(0, 9000)]) for _ in range(n)])
            edges[-1][1] = max(edges[-1][1], edges[0][0] + 1)
            scale = ExplicitScale([FrequencyBand(*b) for b in edges])
        elif kind == 'nodes':
            scale = BarkScale(FrequencyBand(lo, hi), n)
        else:
            scale = scale_of(kind, lo, hi, n, rng.choice([.05, .3, 1.]))
        rank = ranker(lin, [v for b in scale for v in (b.start_hz, b.stop_hz)])
        if rank is None:
            skipped += 1
            continue
        k = dict(bins=[[rank(b.start_hz), rank(b.stop_hz)] for b in lin], events=[])
        for _ in range(2):
            apply_event(k, scale, lin, rank)
        if kind == 'nodes':
            shape = rng.choice([(1,), (3,)])
            w = rng.choice([['k', 1], ['ramp', 0], ['tri', 0]])
            x = spectra(shape, len(lin), False) * rng.choice([-1, 1])
            a = ArrayWithUnits(x, lead(shape) + [FrequencyDimension(lin)])

            def f(ev):
                src = Source()
                nodes = dict(src=src, node=BarkBands(FrequencyBand(lo, hi), n_bands=n, window=window(w), needs=src))
                nodes['rec'] = Recorder(needs=nodes['node'])
                run_graph(nodes, dict(src=[a]))
                y, = [v for v in nodes['rec'].got if v is not None]
                same = ''
                if not isinstance(y, ArrayWithUnits) or y.shape != shape + (n,) or y.dimensions[0] != a.dimensions[0] or y.dimensions[1].scale != scale:
                    same = 'the result is not one of bark bands over time'
                return dict(same=same, rows=whole(np.abs(x)).tolist(), outs=whole(y).tolist())
            put(k, 'apply', f, bands=[[rank(b.start_hz), rank(b.stop_hz)] for b in scale], win=w, kind='node')
        cases.append(k)

    # ------------------------------------------------------------ tones
    for _ in range(ctx.n(60, 800)):
        lin = LinearScale(FrequencyBand(0, rng.uniform(600, 4000)), rng.choice([20, 50, 90]))
        lo = rng.uniform(20, 500)
        hi = rng.choice([lin.stop_hz, lo * rng.uniform(1.3, 6), lo * rng.uniform(1.3, 2)])
        semi = lambda q: 440. * (2 ** (1 / 12.)) ** q
        first = int(math.floor(12 * math.log(lo / 440., 2))) - 3
        last = int(math.ceil(12 * math.log(hi / 440., 2))) + 3
        tones = [semi(q) for q in range(first, last + 1)]
        if hi == lin.stop_hz:
            hi = hi * (1 + 1e-5)
        rank = ranker(lin, tones + [lo, hi])
        if rank is None or min(abs(v - q) / v for v in tones for q in (lo, hi)) < 1e-6:
            skipped += 1
            continue
        k = dict(bins=[[rank(b.start_hz), rank(b.stop_hz)] for b in lin], events=[])
        w = rng.choice([['k', 1], ['k', 2], ['tri', 0]])
        shape = rng.choice([(), (1,), (2,), (3,)])
        x = spectra(shape, len(lin), False)
        a = ArrayWithUnits(x.copy(), lead(shape) + [FrequencyDimension(lin)])

        def f(ev):
            cs = ChromaScale(FrequencyBand(lo, hi))
            y = np.asarray(cs.apply(a, window(w)))
            if y.shape != shape + (12,):
                return dict(same='the result has shape %s' % (y.shape,))
            same = ''
            if shape:
                # what the node does to magnitudes
                src = Source()
                neg = ArrayWithUnits(-x, a.dimensions)
                nodes = dict(src=src, node=Chroma(FrequencyBand(lo, hi), window=window(w), needs=src))
                nodes['rec'] = Recorder(needs=nodes['node'])
                run_graph(nodes, dict(src=[neg]))
                z, = [v for v in nodes['rec'].got if v is not None]
                want = cs.apply(np.abs(neg) * AWeighting(), window(w))
                if not isinstance(z, ArrayWithUnits) or z.dimensions[0] != a.dimensions[0] or not isinstance(z.dimensions[1], IdentityDimension):
                    same = 'the node has other axes'
                elif z.shape != want.shape or not np.allclose(np.asarray(z), np.asarray(want)):
                    same = 'the node does not add up weighted magnitudes'
            return dict(same=same, rows=whole(x.reshape(-1, len(lin))).tolist(), outs=whole(y.reshape(-1, 12)).tolist())
        put(k, 'chroma', f, tones=[rank(v) for v in tones], band=[rank(lo), rank(hi)], win=w)
        cases.append(k)

    def make_canaries():
        can = []

        def some(f, **kw):
            for x in cases:
                for n, ev in enumerate(x['events']):
                    if ev['st'] == 'ok' and not ev['same'] and all(v(ev[k]) if callable(v) else ev[k] == v for k, v in kw.items()):
                        x = copy.deepcopy(x)
                        f(x['events'][n])
                        return can.append(x)
        some(lambda e: e['outs'][0].__setitem__(0, e['outs'][0][0] + 1), op='apply', outs=lambda v: v)
        some(lambda e: e['outs'].pop(), op='apply', outs=lambda v: v)
        some(lambda e: e.update(eq=not e['eq']), op='overlap')
        some(lambda e: e.update(res=[]), op='meet', res=lambda v: v)
        some(lambda e: e.update(eq=not e['eq']), op='meet')
        some(lambda e: e.update(ratio=e['ratio'] + 1), op='band', res=lambda v: v)
        some(lambda e: e['m'].__setitem__(1, e['m'][1] + 30), op='made', m=lambda v: len(v) > 2)
        some(lambda e: e['bw'].__setitem__(0, 1010), op='made', bw=lambda v: v)
        some(lambda e: e['es'].__setitem__(0, 5), op='made', ee=lambda v: v)
        some(lambda e: e['outs'][0].__setitem__(0, e['outs'][0][0] + 1), op='chroma', outs=lambda v: v)
        return can
    ctx.validate('ScalesTrace', cases, make_canaries, label='Scales')
    n = lambda op: sum(ev['op'] == op for x in cases for ev in x['events'])
    ctx.extra['scales'] = dict(made=n('made'), bands=n('band') + n('meet'), overlaps=n('overlap'), applied=n('apply'), chroma=n('chroma'), ambiguous_borders_skipped=skipped)
