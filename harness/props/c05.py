"""C05: variable-rate time series (VariableRate.tla)."""
import copy
import numpy as np

DTYPES = [np.float64, np.float32, np.int32, np.uint8, np.complex64]
SHAPES = [(), (1,), (3,), (2, 2)]


class Session(object):
    def __init__(self, rng, big=0):
        self.rng = rng
        self.unit = rng.choice(['ps', 'us', 'ms', 's'])
        self.big = big if self.unit == 'ps' else 0
        if self.big:
            self.unit = 'ps'
        self.dtype = rng.choice(DTYPES)
        self.mixed = rng.random() < .15
        self.shape = rng.choice(SHAPES)
        self.cur = None
        self.case = dict(ops=[])

    def td(self, v, start=False):
        v = int(v)
        if start and self.big:
            v += self.big
        if self.unit in ('ms', 's') and self.rng.random() < .3:
            return np.timedelta64(v * 1000, dict(ms='us', s='ms')[self.unit])
        return np.timedelta64(v, self.unit)

    def back(self, x, start=False):
        one = np.timedelta64(1, self.unit)
        q, r = divmod(x, one)
        if r != np.timedelta64(0, self.unit):
            return -888888
        q = int(q)
        if start and self.big and q:
            q -= self.big
        return q if abs(q) < 2 ** 31 else -888888

    def datum(self, x):
        # a series of mixed types: even data are integers, odd ones are not
        dtype = (np.float64 if x % 2 else np.int32) if self.mixed else self.dtype
        a = np.zeros(self.shape, dtype=dtype)
        a[...] = np.arange(a.size).reshape(self.shape) + x
        if self.mixed and dtype != np.int32:
            a = a + dtype(.5)
        return a if self.shape or self.rng.random() < .5 else a[()]

    def undatum(self, d):
        a = np.asarray(d)
        if a.shape != self.shape:
            return -1
        b = a - np.arange(a.size).reshape(self.shape)
        if not np.all(b == b.ravel()[0]):
            return -2
        v = b.ravel()[0]
        v = v.real
        fl = int(np.floor(v))
        return fl if v - fl == (.5 if self.mixed and fl % 2 else 0) else -3

    def entries(self, q):
        from zounds import TimeSlice
        z = [(TimeSlice(start=self.td(e['s'], True), duration=self.td(e['d'])), self.datum(e['x'])) for e in q]
        return z if self.rng.random() < .5 else (y for y in z)

    def unent(self, ts, d):
        return dict(s=self.back(ts.start, True), d=self.back(ts.duration), x=self.undatum(d))

    def record(self, ev, fn, item=False):
        ev.update(st='ok', res=[], len=0, span=dict(s=0, d=0), end=0)
        try:
            v = fn()
            if item:
                ev['res'] = [self.unent(v[0], v[1])]
            else:
                ev['res'] = [self.unent(t, d) for t, d in v.iter_slices()]
                ev['len'] = len(v)
                sp = v.span
                n = bool(ev['res'])
                ev['span'] = dict(s=self.back(sp.start, n), d=self.back(sp.duration))
                ev['end'] = self.back(v.end, n)
                self.cur = v
        except Exception as e:
            ev['st'] = e.__class__.__name__
        self.case['ops'].append(ev)
        return ev['st'] == 'ok'

    def build(self, q):
        from zounds import VariableRateTimeSeries
        return self.record(dict(op='build', q=q), lambda: VariableRateTimeSeries(self.entries(q)))

    def concat(self, q):
        from zounds import VariableRateTimeSeries
        flip = self.rng.random() < .5

        def fn():
            o = VariableRateTimeSeries(self.entries(q))
            return o.concat(self.cur) if flip else self.cur.concat(o)
        return self.record(dict(op='concat', q=q), fn)

    def query(self, r):
        from zounds import TimeSlice
        ix = TimeSlice(start=self.td(r['s'], True), duration=self.td(r['d']) if r['he'] else None)
        return self.record(dict(op='query', r=r), lambda: self.cur[ix])

    def cut(self, i, j):
        n = len(self.cur)
        ix = self.rng.choice([slice(i, j), slice(i, j), list(range(i, j)), np.arange(i, j),
                              np.array([i <= k < j for k in range(n)], dtype=bool)])
        if i == j or (not isinstance(ix, slice) and n == 0):
            ix = slice(i, j)
        return self.record(dict(op='cut', i=i, j=j), lambda: self.cur[ix])

    def item(self, i):
        ix = self.rng.choice([i, i - len(self.cur), np.int64(i)])
        return self.record(dict(op='item', i=i), lambda: self.cur[ix], item=True)

    def store(self, chunks=1):
        """through a stored feature, streamed in any number of chunks"""
        import featureflow as ff
        from zounds import VariableRateTimeSeriesFeature, VariableRateTimeSeries
        from zounds.util import simple_in_memory_settings
        cur = self.cur
        rng = self.rng

        class Emit(ff.Node):
            def _process(self, data):
                n = len(cur)
                cuts = sorted(rng.randint(0, n) for _ in range(chunks - 1))
                parts = [cur[a:b] for a, b in zip([0] + cuts, cuts + [n])]
                if rng.random() < .3:
                    parts = parts[::-1]
                for p in parts:
                    if len(p) or chunks == 1:
                        yield p

        @simple_in_memory_settings
        class Doc(ff.BaseModel):
            raw = ff.ByteStreamFeature(ff.ByteStream, chunksize=1024, store=False)
            series = VariableRateTimeSeriesFeature(Emit, needs=raw, store=True)

        def fn():
            from io import BytesIO
            _id = Doc.process(raw=BytesIO(b'a'))
            return Doc(_id).series
        return self.record(dict(op='store', chunks=chunks), fn)


def run(ctx):
    rng = ctx.rng
    ctx.design('VariableRate')
    gen = ctx.generate('VariableRate', 'VariableRateGen', limit=ctx.n(3500, 10 ** 6))
    cases = []
    for i, g in enumerate(gen):
        s = Session(rng)
        for op in g:
            if op['op'] == 'build':
                ok = s.build(op['q'])
            elif op['op'] == 'concat':
                ok = s.concat(op['q'])
            elif op['op'] == 'query':
                ok = s.query(op['r'])
            elif op['op'] == 'cut':
                ok = s.cut(op['i'], op['j'])
            else:
                ok = s.store(1)
            if not ok:
                break
        cases.append(s.case)
    for i in range(ctx.n(900, 10000)):
        s = Session(rng, big=rng.choice([0, 0, 10 ** 16 + 1, 3 * 10 ** 16 + 7]))
        uid = [0]
        m = rng.choice([4, 10, 1000])

        def entries(n):
            out = []
            for _ in range(n):
                uid[0] += 1
                out.append(dict(s=rng.randint(0, m), d=rng.choice([1, 2, rng.randint(1, m), m]),
                                x=uid[0] if rng.random() < .9 else 1))
            return out
        ok = s.build(entries(rng.choice([0, 1, 2, 3, 5, 12, 40])))
        for _ in range(rng.randint(1, 6)):
            if not ok:
                break
            n = len(s.cur)
            k = rng.choice(['concat', 'query', 'query', 'cut', 'item', 'store'])
            if k == 'concat':
                ok = s.concat(entries(rng.choice([0, 1, 2, 5])))
            elif k == 'query':
                r = s.case['ops'][-1]['res'] or [dict(s=0, d=1)]
                pts = [p for e in rng.sample(r, min(3, len(r))) for p in (e['s'], e['s'] + e['d'])]
                pts += [p + rng.choice([-1, 1]) for p in pts] + [rng.randint(0, 2 * m)]
                a, b = sorted([max(0, rng.choice(pts)), max(0, rng.choice(pts))])
                he = rng.random() < .8
                if he and a == b:
                    b += 1
                ok = s.query(dict(s=a, he=he, d=b - a if he else 0))
            elif k == 'cut':
                a, b = sorted([rng.randint(0, n), rng.randint(0, n)])
                ok = s.cut(a, b)
            elif k == 'item' and n:
                ok = s.item(rng.randrange(n))
            elif k == 'store' and n:
                ok = s.store(rng.choice([1, 1, 2, 3]))
        cases.append(s.case)
    def make_canaries():
        can = []
        pool = [c for c in cases if c['ops'][-1]['st'] == 'ok' and c['ops'][-1]['op'] != 'item' and len(c['ops'][-1]['res']) > 1]
        for case in rng.sample(pool, 8):
            k = copy.deepcopy(case)
            o = k['ops'][-1]
            m = rng.randrange(4)
            if m == 0:
                o['res'] = o['res'][1:]
            elif m == 1:
                o['res'][0]['x'] += 77
            elif m == 2:
                o['span']['d'] += 1
            else:
                o['res'][0]['d'] += 1
            can.append(k)
        return can
    ctx.validate('VariableRateTrace', cases, make_canaries)
