"""C37: amplitudes are compressed, expanded, scaled and summed up as documented (Amplitudes.tla)."""
import copy
import math
from fractions import Fraction as Fr
import numpy as np
from core import time_limit

BLANK = dict(op='', axis=0, k=0, via='', st='ok', why='', res=[], maxes=[], dims=True, kept=True, rows=[], cos=[], cats=[], back=[])
U = 100000


def units(a, scale=U):
    a = np.asarray(a, dtype=np.float64)
    return [[int(round(min(10 ** 4, max(-10 ** 4, float(v))) * scale)) if v == v else 10 ** 9 for v in row] for row in a]


def run(ctx):
    import zounds
    from zounds.core import ArrayWithUnits, IdentityDimension
    from zounds.loudness import (log_modulus, inverse_log_modulus, decibel, mu_law, inverse_mu_law, unit_scale, instance_scale,
                                 inverse_one_hot, MuLaw, LogModulus)
    from zounds.spectral import FrequencyBand, FrequencyDimension, LinearScale, SpectralCentroid, SpectralFlatness, BFCC
    from zounds.timeseries import TimeDimension, Seconds, Milliseconds, SR11025, categorical, inverse_categorical
    from stream import Source, Recorder, run_graph
    rng = ctx.rng
    ctx.design('Amplitudes')
    gen = ctx.generate('Amplitudes', 'AmplitudesGen')
    rng.shuffle(gen)
    cases = []

    def put(case_, op, f, **kw):
        ev = copy.deepcopy(dict(BLANK, op=op, **kw))
        case_["events"].append(ev)
        try:
            with time_limit(30):
                f(ev)
        except Exception as ex:
            ev.update(st=ex.__class__.__name__, why=str(ex)[:200])
        return ev['st'] == 'ok'

    def stream(make, chunks):
        src = Source()
        nodes = dict(src=src, node=make(src))
        nodes['rec'] = Recorder(needs=nodes['node'])
        run_graph(nodes, dict(src=chunks))
        return [v for v in nodes['rec'].got if v is not None and len(v)]

    def dims_for(shape):
        kinds = [lambda n: IdentityDimension(),
                 lambda n: TimeDimension(Milliseconds(10), Milliseconds(25)),
                 lambda n: FrequencyDimension(LinearScale(FrequencyBand(0, 1000), n))]
        return [rng.choice(kinds)(n) for n in shape]

    def chunked(a):
        out, pos = [], 0
        if isinstance(a, ArrayWithUnits) and isinstance(a.dimensions[0], FrequencyDimension):
            return [a]
        while pos < len(a):
            n = rng.randint(1, len(a))
            out.append(a[pos:pos + n])
            pos += n
        return out

    # ---- tables that are compressed, expanded and scaled
    linear = lambda p, k: Fr((p > 0) - (p < 0)) * (2 ** abs(p) - 1) / (2 ** k - 1)

    def real(t, form):
        f = dict(plain=float, dec=lambda v: 10 ** float(v), exp=lambda v: math.copysign(math.expm1(abs(v)), v) if v else 0.)[form]
        return np.array([[f(v) for v in row] for row in t])

    def level(a, form):
        a = np.asarray(a, dtype=np.float64)
        if form == 'exp':
            return np.sign(a) * np.log1p(np.abs(a))
        return a

    def session(k, steps):
        R, C = rng.randint(1, 4), rng.randint(1, 4)
        form = rng.choice(['plain'] * 5 + ['exp'] * 2 + ['dec'])
        if form == 'plain':
            cell = lambda: linear(rng.choice([0] * 2 + list(range(-k, k + 1))), k)
        elif form == 'exp':
            cell = lambda: Fr(rng.randint(-16, 16), rng.choice([1, 2, 4])) if rng.random() < .9 else Fr(0)
        else:
            cell = lambda: Fr(rng.randint(-5, 5), rng.choice([1, 2, 4]))
        t = [[cell() for _ in range(C)] for _ in range(R)]
        if form == 'exp':
            t = [[max(Fr(-8), min(Fr(8), v)) for v in row] for row in t]
        if rng.random() < .2 and form != 'dec':
            t[rng.randrange(R)] = [Fr(0)] * C
        if rng.random() < .15:
            t = [[t[0][0]] * C for _ in range(R)]
        case = dict(k=k, form=form, x=[[[v.numerator, v.denominator] for v in row] for row in t], events=[])
        dtype = np.float64 if rng.random() < .6 else np.float32
        if form == 'plain' and all(v.denominator == 1 for row in t for v in row) and rng.random() < .6 \
                or form == 'dec' and all(v.denominator == 1 and v >= 0 for row in t for v in row) and rng.random() < .6:
            dtype = rng.choice([np.int64, np.int32])
        a = real(t, form).round(9 if dtype in (np.int64, np.int32) else 15).astype(dtype)
        if form == 'dec':
            a = 10. ** np.array([[float(v) for v in row] for row in t])
            a = a.round().astype(dtype) if dtype in (np.int64, np.int32) else a.astype(dtype)
            steps = [['decibel', 0]] + steps
        dims = dims_for(a.shape)
        wrapped = rng.random() < .6
        if wrapped:
            a = ArrayWithUnits(a, dims)
        if rng.random() < .3:
            steps = steps + [['onehot', rng.choice([1, 2])]]
        for op, axis in steps:
            cells = [v for row in t for v in row]
            if op in ('compress',):
                ok = form == 'plain' and all(any(v == linear(p, k) for p in range(-k, k + 1)) for v in cells)
            elif op == 'expand':
                ok = form == 'plain' and all(abs(v) <= 1 and (v * k).denominator == 1 for v in cells)
            elif op == 'explog':
                ok = form == 'plain' and all(abs(v) <= 8 and (abs(v) <= 1 or v.denominator < 600) for v in cells)
            elif op == 'logmod':
                ok = form == 'exp'
            elif op == 'decibel':
                ok = form == 'dec'
            else:
                ok = form == 'plain'
            if op == 'onehot' and (wrapped or len(set(t[0])) != len(t[0]) and rng.random() < .5):
                ok = False
            if op in ('unit', 'instance'):
                # integers of the specification have 32 bits
                parts = [u - v for u in cells for v in cells] if op == 'unit' else cells
                n, d = max(abs(v.numerator) for v in parts), max(v.denominator for v in parts)
                ok = ok and n * d < 2 ** 31 and (n * d <= 20000 or 2 * d <= 200)
                ok = ok and max(abs(v.numerator) for v in cells) * max(v.denominator for v in cells) < 2 ** 30
            ok = ok and all(abs(v.numerator) < 20000 and v.denominator <= 20000 for v in cells)
            if not ok:
                continue
            box = [a]

            def f(ev):
                a = box[0]
                before = np.array(np.asarray(a))
                mu = 2 ** k - 1
                w = axis - 1 if axis else None
                if w is not None and rng.random() < .4:
                    w -= a.ndim
                fed = [a]
                if op == 'compress':
                    if rng.random() < .4 and len(a):
                        ev['via'] = 'node'
                        got = stream(lambda s: MuLaw(mu=mu, needs=s) if mu != 255 or rng.random() < .5 else MuLaw(needs=s), chunked(a))
                        b = got[0] if len(got) == 1 else ArrayWithUnits.concat(got) if wrapped else np.concatenate(got)
                    else:
                        b = mu_law(a) if mu == 255 and rng.random() < .5 else mu_law(a, mu) if rng.random() < .5 else mu_law(a, mu=mu)
                elif op == 'expand':
                    b = inverse_mu_law(a) if mu == 255 and rng.random() < .5 else inverse_mu_law(a, mu=mu)
                elif op == 'explog':
                    b = inverse_log_modulus(a)
                elif op == 'logmod':
                    if rng.random() < .4 and len(a):
                        ev['via'] = 'node'
                        factor = rng.choice([1, 2, 100, .5])
                        got = stream(lambda s: LogModulus(factor=factor, needs=s) if factor != 1 else LogModulus(needs=s),
                                     chunked(a if factor == 1 else a / factor))
                        b = got[0] if len(got) == 1 else ArrayWithUnits.concat(got) if wrapped else np.concatenate(got)
                    else:
                        b = log_modulus(a)
                elif op == 'decibel':
                    b = decibel(a)
                elif op == 'negate':
                    b = -a
                elif op == 'instance':
                    kw = dict(axis=w) if w != a.ndim - 1 and w != -1 or rng.random() < .5 else {}
                    if rng.random() < .5:
                        m, b = instance_scale(a, return_maxes=True, **kw)
                        ev['maxes'] = units(np.broadcast_to(np.asarray(m), a.shape))
                        if m.shape[axis - 1] != 1 or m.ndim != a.ndim:
                            ev['dims'] = False
                    else:
                        b = instance_scale(a, **kw)
                elif op == 'unit':
                    b = unit_scale(a) if w is None and rng.random() < .5 else unit_scale(a, axis=w)
                elif op == 'onehot':
                    b = inverse_one_hot(a, axis=w) if axis == 1 or rng.random() < .6 else inverse_one_hot(a)
                    if b.ndim != 1:
                        raise ValueError('%d axes' % b.ndim)
                    b = b.reshape((1, -1) if axis == 1 else (-1, 1))
                if wrapped:
                    ev['dims'] = ev['dims'] and isinstance(b, ArrayWithUnits) and b.ndim == 2 and list(b.dimensions) == list(a.dimensions)
                ev['kept'] = bool(np.array_equal(before, np.asarray(a), equal_nan=True))
                ev['res'] = units(level(b, 'exp' if op == 'explog' else 'plain'))
                box[0] = b
            if not put(case, op, f, axis=axis, k=k):
                break
            a = box[0]
            if op == 'onehot':
                break
            mp = lambda g: [[g(v) for v in row] for row in t]
            if op == 'compress':
                t = mp(lambda v: next(Fr(p, k) for p in range(-k, k + 1) if v == linear(p, k)))
            elif op == 'expand':
                t = mp(lambda v: linear(int(v * k), k))
            elif op == 'negate':
                t = mp(lambda v: -v)
            elif op == 'decibel':
                t = mp(lambda v: 20 * v)
            elif op in ('instance', 'unit'):
                line = lambda i, j: [r[j] for r in t] if axis == 1 else t[i] if axis == 2 else cells
                if op == 'instance':
                    t = [[t[i][j] / (max(map(abs, line(i, j))) or 1) for j in range(C)] for i in range(R)]
                else:
                    t = [[(t[i][j] - min(line(i, j))) / (max(line(i, j)) - min(line(i, j)) or 1) for j in range(C)] for i in range(R)]
            form = dict(explog='exp', logmod='plain', decibel='plain').get(op, form)
            # the next step starts from exact values, so that rounding doesn't add up
            a = a.copy()
            a[...] = real(t, form)
        if case['events']:
            cases.append(case)

    for g in gen[:ctx.n(1500, 15000)]:
        session(g['k'], [list(s) for s in g['hist']])

    # ---- summaries of spectra
    def summary():
        w, n = rng.choice([1, 2, 3, 4, 5, 8]), rng.randint(1, 6)
        op = rng.choice(['flatness', 'centroid', 'bfcc'])
        rows = []
        top = rng.choice([2, 4, 9])
        for _ in range(n):
            while True:
                r = [rng.randint(0 if op == 'bfcc' else -1 if rng.random() < .3 else 0, top) for _ in range(w)]
                if rng.random() < .15:
                    r = [rng.randint(0, top)] * w
                if op != 'bfcc' and rng.random() < .1:
                    r = [-1] * w
                if op == 'centroid' and rng.random() < .2:
                    r = [-1] * w
                    r[rng.randrange(w)] = top
                if op != 'flatness' or min(r) < 0 or sum(r) % w == 0:
                    break
            rows.append(r)
        case = dict(k=1, form='plain', x=[[[0, 1]]], events=[])

        def f(ev):
            x = np.array([[2. ** v if v >= 0 else 0. for v in r] for r in rows])
            kind = rng.choice(['real', 'signs', 'complex', 'ints', 'float32'])
            if kind == 'signs':
                x = x * np.array([[rng.choice([1, -1]) for _ in range(w)] for _ in x])
            elif kind == 'complex':
                x = x * np.array([[rng.choice([1, 1j, .6 + .8j, -1j]) for _ in range(w)] for _ in x])
            elif kind == 'float32':
                x = x.astype(np.float32)
            elif kind == 'ints':
                x = x.astype(np.int64)
            td = TimeDimension(Milliseconds(10), Milliseconds(25))
            x = ArrayWithUnits(x, [td, FrequencyDimension(LinearScale(FrequencyBand(0, 1000), w))])
            before = np.array(np.asarray(x))
            if op == 'bfcc':
                ex, nc = rng.choice([(1, 13), (0, 3), (2, 2), (1, 2), (0, 13)])
                make = lambda s: BFCC(needs=s) if (ex, nc) == (1, 13) else BFCC(n_coeffs=nc, exclude=ex, needs=s)
                ev['cos'] = [[int(round(1000 * math.cos(math.pi * q * (2 * j + 1) / (2 * w)))) for j in range(w)] for q in range(ex, min(w, ex + nc))]
            else:
                make = lambda s: dict(flatness=SpectralFlatness, centroid=SpectralCentroid)[op](needs=s)
            got = stream(make, chunked(x))
            res = []
            for g in got:
                if isinstance(g, ArrayWithUnits):
                    ev['dims'] = ev['dims'] and g.dimensions[0] == td and (g.ndim == 1 or isinstance(g.dimensions[1], IdentityDimension))
                elif op != 'centroid':
                    ev['dims'] = False
                g = np.asarray(g)
                if op == 'bfcc':
                    res += units(g / (2 * math.log(2)), 1000)
                else:
                    res += units(g.reshape(-1, 1))
            ev['res'] = res
            ev['kept'] = bool(np.array_equal(before, np.asarray(x)))
        put(case, op, f, rows=rows)
        cases.append(case)
    for _ in range(ctx.n(400, 4000)):
        summary()

    # ---- categories
    def categories():
        k = rng.choice([8, 8, 4, 2, 1, 9])
        shape = rng.choice([(rng.randint(1, 30),), (rng.randint(1, 5), rng.randint(1, 8))])
        n = int(np.prod(shape))
        p = [rng.randint(-k, k) for _ in range(n)]
        if rng.random() < .3:
            p = [abs(v) if rng.random() < .9 else 0 for v in p]
        if rng.random() < .1:
            p = [0] * n
        case = dict(k=1, form='plain', x=[[[0, 1]]], events=[])
        norm = (max(map(abs, p)) == k or not any(p)) and rng.random() < .6

        def f(ev):
            x = np.array([float(linear(v, k)) for v in p]).reshape(shape).astype(rng.choice([np.float64, np.float32]))
            if norm:
                x = x * x.dtype.type(rng.choice([1, .25, 8]))
            sr = SR11025()
            td = TimeDimension(sr.frequency, sr.duration)
            dims = [td] if len(shape) == 1 else [TimeDimension(sr.frequency * 4, sr.frequency * 8), td]
            x = ArrayWithUnits(x, dims)
            mu = 2 ** k - 1
            before = np.array(np.asarray(x))
            kw = {} if mu == 255 and rng.random() < .5 else dict(mu=mu)
            c = categorical(x, **kw) if norm and rng.random() < .5 else categorical(x, normalize=norm, **kw)
            if not isinstance(c, ArrayWithUnits) or c.shape != shape + (mu + 1,) or list(c.dimensions[:-1]) != dims \
                    or not isinstance(c.dimensions[-1], IdentityDimension):
                ev['dims'] = False
            raw = np.asarray(c).reshape(n, -1)
            ev['cats'] = [[int(i) for i in np.flatnonzero(r)] if set(r.tolist()) <= {0, 1} else [] for r in raw]
            if rng.random() < .4:
                c = c * np.float32(.5)     # likelihoods
            b = inverse_categorical(c, **kw)
            if not isinstance(b, ArrayWithUnits) or b.shape != shape or list(b.dimensions) != dims:
                ev['dims'] = False
            b = np.asarray(b, dtype=np.float64).flatten()
            ev['back'] = units([np.sign(b) * np.log2(1 + mu * np.abs(b)) / k])[0]
            ev['kept'] = bool(np.array_equal(before, np.asarray(x)))
        put(case, 'categorical', f, rows=[p], k=k)
        cases.append(case)
    for _ in range(ctx.n(250, 2500)):
        categories()

    def make_canaries():
        can = []

        def some(g, **kw):
            for x in cases:
                for n, ev in enumerate(x['events']):
                    if ev['st'] == 'ok' and all(v(ev[k]) if callable(v) else ev[k] == v for k, v in kw.items()):
                        x = copy.deepcopy(x)
                        g(x['events'][n])
                        return can.append(x)

        def bump(e):
            e['res'][0][0] += 400
        for op in ('compress', 'expand', 'explog', 'logmod', 'negate', 'instance', 'unit', 'onehot', 'decibel', 'flatness', 'centroid', 'bfcc'):
            some(bump, op=op, res=lambda v: v and v[0])
        some(lambda e: e['maxes'][0].__setitem__(0, e['maxes'][0][0] + 50), op='instance', maxes=lambda v: v)
        some(lambda e: e.update(kept=False), op='compress')
        some(lambda e: e.update(dims=False), op='unit')
        some(lambda e: e['cats'][0].append(1), op='categorical', cats=lambda v: v)
        some(lambda e: e['cats'].__setitem__(0, [e['cats'][0][0] + 2]), op='categorical', cats=lambda v: v and v[0])
        some(lambda e: e['back'].__setitem__(0, e['back'][0] + 500), op='categorical', cats=lambda v: v and v[0])
        return can
    ctx.validate('AmplitudesTrace', cases, make_canaries, label='Amplitudes')
    n = lambda *ops: sum(ev['op'] in ops for x in cases for ev in x['events'])
    ctx.extra['amplitudes'] = dict(compressed=n('compress', 'expand', 'logmod', 'explog', 'decibel'), scaled=n('instance', 'unit', 'onehot'),
                                   summaries=n('flatness', 'centroid', 'bfcc'), categories=n('categorical'))
