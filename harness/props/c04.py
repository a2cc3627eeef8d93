"""C04: spans of time and sample rates (TimeAlgebra.tla)."""
import copy
import numpy as np

UNITS = ['ps', 'ns', 'us', 'ms', 's']


def run(ctx):
    import zounds
    from zounds import (TimeSlice, SampleRate, TimeDimension, ArrayWithUnits, IdentityDimension)
    from zounds.timeseries import audio_sample_rate, nearest_audio_sample_rate
    rng = ctx.rng
    ctx.design('TimeAlgebra')
    gen = ctx.generate('TimeAlgebra', 'TimeAlgebraGen', limit=ctx.n(3000, 10 ** 6))

    from zounds.timeseries import duration
    CLASSES = [duration.Picoseconds, duration.Nanoseconds, duration.Microseconds, duration.Milliseconds, duration.Seconds]

    class Units(object):
        def __init__(self, unit):
            self.unit = unit
            self.one = np.timedelta64(1, unit)

        def t(self, v):
            """v units, written in any unit that can express it"""
            i = UNITS.index(self.unit)
            k = rng.random()
            v = int(v)
            if i == 4 and v % 60 == 0 and k < .25:
                return duration.Minutes(v // 60)
            if i == 4 and v % 3600 == 0 and k < .5:
                return duration.Hours(v // 3600)
            if rng.random() < .5:
                # the same spans, as they are written by users
                if k < .3 and i:
                    return CLASSES[i - 1](v * 1000)
                if .4 <= k < .6 and i < 4 and v % 1000 == 0:
                    return CLASSES[i + 1](v // 1000)
                return CLASSES[i](v)
            if k < .3 and i:
                return np.timedelta64(int(v) * 1000, UNITS[i - 1])
            if k < .4 and i > 1:
                return np.timedelta64(int(v) * 10 ** 6, UNITS[i - 2])
            if k < .6 and i < 4 and v % 1000 == 0:
                return np.timedelta64(int(v) // 1000, UNITS[i + 1])
            return np.timedelta64(int(v), self.unit)

        def back(self, x):
            v = x / self.one
            return int(round(v)) if abs(v - round(v)) < 1e-9 * max(1, abs(v)) else -888888

        def ts(self, a):
            if a['s'] == 0 and rng.random() < .3:
                return TimeSlice(self.t(a['d']))
            return TimeSlice(duration=self.t(a['d']), start=self.t(a['s']))

        def unts(self, x):
            return dict(s=self.back(x.start), d=self.back(x.duration))

        def sr(self, r):
            return SampleRate(self.t(r['f']), self.t(r['d']))

        def unsr(self, r):
            return dict(f=self.back(r.frequency), d=self.back(r.duration))

    def cmp(x, y):
        return dict(lt=bool(x < y), gt=bool(x > y), le=bool(x <= y), ge=bool(x >= y))

    def guarded(ev, fn):
        st, v = ctx.call(fn)
        ev['st'] = 'ok' if st == 'ok' else v
        if st == 'ok':
            ev.update(v)
        return ev

    def program(start, ops, u):
        """run a program of shifts and intersections, querying at each step"""
        case = dict(start=start, ops=[])
        cur = u.ts(start)
        model = dict(start)

        def query(b):
            other = u.ts(b)
            case['ops'].append(guarded(dict(op='query', a=dict(model), b=b), lambda: dict(
                cmp=cmp(cur, other), eq=bool(cur == other), ne=bool(cur != other),
                hash=hash(cur) == hash(other), has=bool(other in cur), end=u.back(cur.end))))

        def at(t):
            case['ops'].append(guarded(dict(op='at', a=dict(model), t=t), lambda: dict(
                cmp=cmp(cur, u.t(t)), has=bool(u.t(t) in cur))))
        for op in ops:
            a = dict(model)
            if op['op'] == 'add':
                flip = rng.random() < .3
                ev = dict(op='add', a=a, t=op['t'])
                at(op['t'])
                box = []
                guarded(ev, lambda: (box.append(cur + u.t(op['t']) if not flip
                                                else cur.__radd__(u.t(op['t']))), dict(res=u.unts(box[0])))[1])
            else:
                ev = dict(op='and', a=a, b=op['b'])
                query(op['b'])
                box = []
                o = u.ts(op['b'])
                guarded(ev, lambda: (box.append(cur & o if rng.random() < .5 else o & cur),
                                     dict(res=u.unts(box[0])))[1])
            case['ops'].append(ev)
            if ev['st'] != 'ok':
                return case
            cur = box[0]
            model = dict(ev['res'])
        query(dict(model))
        at(model['s'])
        at(model['s'] + model['d'])
        return case

    cases = []
    for i, g in enumerate(gen):
        cases.append(program(g[0]['a'], g, Units(UNITS[i % 5])))
    for i in range(ctx.n(600, 8000)):
        u = Units(rng.choice(UNITS))
        m = rng.choice([5, 50, 10 ** 4, 10 ** 6])
        r = lambda: rng.choice([rng.randint(-m, m), rng.randint(0, 6) * 1000 % (m + 1), rng.randint(0, 50) * 60 % (m + 1), rng.randint(0, 9) * 3600 % (m + 1)])
        ops, known = [], [r() for _ in range(3)]
        for _ in range(rng.randint(1, 6)):
            t = rng.choice(known + [r()])
            if rng.random() < .4:
                ops.append(dict(op='add', t=t))
            else:
                ops.append(dict(op='and', b=dict(s=t, d=abs(rng.choice(known + [r()])))))
        cases.append(program(dict(s=rng.choice(known), d=abs(r())), ops, u))
    nspan = len(cases)

    def single(ev):
        cases.append(dict(start=dict(s=0, d=0), ops=[ev]))

    for i in range(ctx.n(500, 5000)):
        u = Units(rng.choice(UNITS))
        n = rng.randint(1, 7)
        ts = [rng.choice([rng.randint(0, 5), rng.randint(-1000, 5000), rng.randint(0, 5) * 1000])
              for _ in range(n)]
        single(guarded(dict(op='slices', ts=ts), lambda: dict(
            res=[u.unts(x) for x in TimeSlice.slices([u.t(t) for t in ts])])))
    for i in range(ctx.n(1500, 15000)):
        u = Units(rng.choice(UNITS))
        f = rng.choice([1, 2, 5, 10, 500, 1000, 999, rng.randint(1, 3000)])
        d = f + rng.choice([0, 0, 1, f, 2 * f, rng.randint(0, 2000), -(f // 2)])
        r = dict(f=f, d=d)
        h, w = rng.choice([1, 2, 3, 7, 512]), rng.choice([1, 2, 3, 4, 9, 1024])
        kind = rng.choice(['mul', 'mul1', 'props', 'samples', 'resample', 'dim'])
        if kind == 'mul':
            single(guarded(dict(op='mul', r=r, h=h, w=w), lambda: dict(res=u.unsr(u.sr(r) * (h, w)))))
        elif kind == 'mul1':
            arg = h if rng.random() < .5 else (h,)
            single(guarded(dict(op='mul', r=r, h=h, w=h), lambda: dict(res=u.unsr(u.sr(r) * arg))))
        elif kind == 'props':
            unit = rng.choice(['ms', 'us'])
            v = Units(unit)
            q = dict(r) if rng.random() < .5 else dict(f=f, d=d + 1) if rng.random() < .5 else dict(f=f + 1, d=d)

            def props():
                s = v.sr(r)
                a, b = s
                return dict(overlap=v.back(s.overlap), unpacked=dict(f=v.back(a), d=v.back(b)),
                            sps=int(s), nyq=s.nyquist, ratio=int(np.floor(s.overlap_ratio * 1000 + 1e-9)),
                            eq=bool(s == v.sr(q)))
            single(guarded(dict(op='props', r=r, q=q, sec=10 ** 3 if unit == 'ms' else 10 ** 6), props))
        elif kind == 'samples':
            q = dict(f=f * h, d=(w - 1) * f + d)

            def samples():
                arr = ArrayWithUnits(np.zeros(3), [TimeDimension(u.t(f), u.t(d))])
                if rng.random() < .3:
                    arr = ArrayWithUnits(np.zeros((2, 3)), [IdentityDimension(), TimeDimension(u.t(f), u.t(d))])
                s, n = u.sr(q).discrete_samples(arr)
                return dict(got=[s, n])
            if d >= f:
                single(guarded(dict(op='samples', r=r, q=q, h=h, w=w), samples))
        elif kind == 'resample':
            num, den = rng.choice([(1, 2), (2, 1), (3, 1), (1, 4), (3, 2), (1, 1)])
            p = dict(f=f * 4, d=d * 4)
            if rng.random() < .5:
                fn = lambda: dict(res=u.unsr(u.sr(p).resample(num / den)))
            else:
                fn = lambda: dict(res=u.unsr(TimeDimension(u.t(p['f']), u.t(p['d'])).resample(num / den)))
            single(guarded(dict(op='resample', r=p, num=num, den=den), fn))
        else:
            n = rng.choice([1, 2, 3, 10, 50])

            def dim():
                x = TimeDimension(u.t(f), u.t(d))
                arr = ArrayWithUnits(np.zeros(n), [x])
                x = arr.dimensions[0]
                m = next(iter(x.modified_dimension(n, w, h)))
                return dict(span=u.unts(x.span), end=u.back(x.end),
                            mod=u.unsr(m), rate=u.unsr(x.samplerate))
            single(guarded(dict(op='dim', r=r, n=n, h=h, w=w), dim))
    rates = [96000, 48000, 44100, 22050, 16000, 11025]
    for n in rates + [1, 0, 8000, 44101, 44099, 32000] + [rng.randint(1, 10 ** 5) for _ in range(40)]:
        h, w = rng.randint(1, 2000), rng.randint(1, 4000)

        def audio():
            try:
                s = audio_sample_rate(n)
            except ValueError:
                return dict(found=False)
            one = s.frequency
            hl, ws = s.half_lapped(), s.windowing_scheme(w, h)
            w1 = s.windowing_scheme(w)
            if w1.frequency != w1.duration:
                return dict(found=False)
            k = lambda x: int(x / one) if x % one == np.timedelta64(0, 'ps') else -1
            return dict(found=True, sps=int(s), nyq=s.nyquist, half=[k(hl.frequency), k(hl.duration)],
                        hop=s.suggested_hop, win=s.suggested_window, scheme=[k(ws.frequency), k(ws.duration)])
        single(guarded(dict(op='audio', n=n, h=h, w=w), audio))
        single(guarded(dict(op='nearest', n=n), lambda: dict(res=int(nearest_audio_sample_rate(n)))))
    def make_canaries():
        can = []
        for case in rng.sample(cases[:nspan], 6):
            k = copy.deepcopy(case)
            j = next(i for i, o in enumerate(k['ops']) if o['op'] in ('add', 'and') and o['st'] == 'ok')
            k['ops'][j]['res']['d'] += 1
            can.append(k)
        for case in rng.sample([x for x in cases[nspan:] if x['ops'][0]['op'] == 'mul'], 3):
            k = copy.deepcopy(case)
            k['ops'][0]['res']['f'] += 1
            can.append(k)
        return can
    ctx.validate('TimeAlgebraTrace', cases, make_canaries)
