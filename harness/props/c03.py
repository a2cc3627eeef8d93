"""C03: frequency slicing (FreqScale.tla)."""
import copy
import numpy as np
from core import ints

# powers of two: borders stay exact
UNITS = [1, .25, 16, .5]


class Session(object):
    """kind: linear | even | listed (one column per band) | explicit"""

    def __init__(self, scale, bands, kind, rank, layout='last', unit=1):
        from zounds import (ArrayWithUnits, FrequencyDimension, ExplicitFrequencyDimension,
                            TimeDimension, Seconds)
        self.unit = unit          # hertz per model unit
        self.rank = rank if unit == 1 else (lambda x: rank(x / unit))   # float -> int
        self.explicit = kind == 'explicit'
        cols = [c for b in bands for c in b['c']]
        if self.explicit:
            slices, pos = [], 0
            for b in bands:
                slices.append(slice(pos, pos + len(b['c'])))
                pos += len(b['c'])
            dim = ExplicitFrequencyDimension(scale, slices)
        else:
            dim = FrequencyDimension(scale)
        cols = np.array(cols)
        td = TimeDimension(Seconds(1))
        self.layout = layout
        if layout == 'last':
            self.a = ArrayWithUnits(np.stack([cols, cols + 1000]), [td, dim])
        elif layout == 'first':
            self.a = ArrayWithUnits(np.stack([cols, cols + 1000], 1), [dim, td])
        else:
            self.a = ArrayWithUnits(cols, [dim])
        self.case = dict(bands=bands, explicit=self.explicit, even=kind == 'even', ops=[],
                         layout=layout)

    @property
    def dim(self):
        return self.a.dimensions[1 if self.layout == 'last' else 0]

    def edges(self, scale):
        return [[self.rank(b.start_hz), self.rank(b.stop_hz)] for b in scale]

    def cols(self, a):
        a = np.asarray(a)
        if self.layout == 'last':
            return [int(x) if y == x + 1000 else -1 for x, y in a.T]
        if self.layout == 'first':
            return [int(x) if y == x + 1000 else -1 for x, y in a]
        return ints(a)

    def real(self, r):
        from zounds import FrequencyBand, Hertz
        un = r.get('real', (r['s'] * self.unit, r['e'] * self.unit))
        if r['kind'] == 'band':
            return FrequencyBand(un[0], un[1])
        return slice(Hertz(un[0]) if r['hs'] else None, Hertz(un[1]) if r['he'] else None)

    def ev(self, op, r):
        rr = {k: v for k, v in r.items() if k != 'real'}
        e = dict(op=op, r=rr, st='ok', edges=[], cols=[], lo=0, hi=0, res=False, same=False, other=[])
        self.case['ops'].append(e)
        return e

    def array(self, r):
        e = self.ev('array', r)
        try:
            ix = self.real(r)
            if self.layout == 'last':
                a = self.a[:, ix]
            elif self.layout == 'first':
                a = self.a[ix]
            else:
                a = self.a[ix]
            dim = a.dimensions[1 if self.layout == 'last' else 0]
            e['edges'] = self.edges(dim.scale)
            e['cols'] = self.cols(a)
            self.a = a
        except Exception as ex:
            e['st'] = ex.__class__.__name__

    def scale(self, r):
        e = self.ev('scale', r)
        try:
            s = self.dim.scale[self.real(r)]
            e['edges'] = self.edges(s)
        except Exception as ex:
            e['st'] = ex.__class__.__name__

    def ints(self, r):
        e = self.ev('ints', r)
        try:
            s = self.dim.scale.get_slice(self.real(r))
            lo, hi, _ = s.indices(len(self.dim.scale))
            e['lo'], e['hi'] = lo + 1, hi
        except Exception as ex:
            e['st'] = ex.__class__.__name__

    def eq(self, other, model, same, flip):
        e = self.ev('eq', dict(kind='band', s=0, e=1, hs=True, he=True))
        e['other'], e['same'] = model, same
        s = self.dim.scale
        e['res'] = bool(other == s) if flip else bool(s == other)


def int_rank(x):
    return int(round(x)) if abs(x - round(x)) < 1e-6 else -1


def make_rank(values):
    vs = sorted(set(values))

    def rank(x):
        i = int(np.searchsorted(vs, x))
        for j in (i - 1, i):
            if 0 <= j < len(vs) and (vs[j] == x or abs(vs[j] - x) <= 1e-9 * abs(x)):
                return 2 * j
        return -1
    return rank


def rand_request(rng, cur, hz):
    """a request around the borders of the current bands (integers)"""
    pts = [0, cur[0]['s'], cur[-1]['e']]
    for b in cur:
        pts += [b['s'], b['e'], b['s'] + 1, b['e'] - 1, b['s'] - 1, b['e'] + 1]
    for _ in range(50):
        if hz and rng.random() < .5:
            r = dict(kind='hz', hs=rng.random() < .75, he=rng.random() < .75)
            r['s'] = rng.choice(pts) * rng.choice([1, 1, -1]) if r['hs'] else 0
            r['e'] = rng.choice(pts) * rng.choice([1, 1, -1]) if r['he'] else 0
            if not (r['hs'] or r['he']):
                continue
            top = cur[-1]['e']
            s = 0 if not r['hs'] else top + r['s'] if r['s'] < 0 else r['s']
            e = top if not r['he'] else top + r['e'] if r['e'] < 0 else r['e']
        else:
            s, e = rng.choice(pts), rng.choice(pts)
            if rng.random() < .25:
                b = rng.choice(cur)
                s, e = b['s'], b['e']
            r = dict(kind='band', s=s, e=e, hs=True, he=True)
        if s < e and s >= 0:
            return r
    b = cur[0]
    return dict(kind='band', s=b['s'], e=b['e'], hs=True, he=True)


def session_bands(s):
    """model bands of the current array, from its observed edges"""
    for e in reversed(s.case['ops']):
        if e['op'] == 'array' and e['st'] == 'ok':
            edges = set(map(tuple, e['edges']))
            return [b for b in s.case['bands'] if (b['s'], b['e']) in edges] or s.case['bands']
    return s.case['bands']


def run(ctx):
    from zounds import (LinearScale, FrequencyBand, ExplicitScale, GeometricScale,
                        BarkScale, MelScale)
    rng = ctx.rng
    ctx.design('FreqScale')
    gen = ctx.generate('FreqScale', 'FreqScaleGen')
    gen += ctx.generate('FreqScale', 'FreqScaleGen2', limit=ctx.n(3000, 40000))
    cases = []

    def linear(bands, even=False, u=1):
        return LinearScale(FrequencyBand(bands[0]['s'] * u, bands[-1]['e'] * u), len(bands), always_even=even)

    def listed(bands, u=1):
        return ExplicitScale([FrequencyBand(b['s'] * u, b['e'] * u) for b in bands])

    for i, g in enumerate(gen):
        b = g['bands']
        lay = ['last', 'first', 'only'][i % 3]
        u = UNITS[(i // 3) % 4]
        if g['explicit']:
            s = Session(listed(b, u), b, 'explicit', int_rank, lay, u)
        else:
            s = Session(linear(b, u=u), b, 'linear', int_rank, lay, u)
        for op in g['ops']:
            if not g['explicit']:
                s.ints(op)
            s.scale(op) if not g['explicit'] else None
            s.array(op)
        cases.append(s.case)

    for i in range(ctx.n(2500, 30000)):
        kind = rng.choice(['linear', 'linear', 'even', 'listed', 'explicit', 'explicit',
                           'geometric', 'bark', 'mel'])
        n = rng.choice([1, 2, 3, 5, 8, 13, 40])
        lay = rng.choice(['last', 'first', 'only'])
        u = rng.choice(UNITS)
        if kind in ('linear', 'even'):
            w, off = rng.choice([1, 3, 10, 25, 250]), rng.choice([0, 0, 20, 100])
            bands = [dict(s=off + j * w, e=off + (j + 1) * w, c=[j + 1]) for j in range(n)]
            if n == 1 and off == 0 and w == 1:
                continue
            s = Session(linear(bands, kind == 'even', u), bands, kind, int_rank, lay, u)
            hz, nest = True, kind == 'linear'
        elif kind in ('listed', 'explicit'):
            starts = sorted(rng.sample(range(0, 400), n))
            stops = []
            for j, st in enumerate(starts):
                lo = max(st + 1, (stops[-1] + 1) if stops else 0)
                stops.append(lo + rng.randint(0, 30))
            bands = [dict(s=a, e=b, c=[j + 1] if kind == 'listed' else
                          [j * 10 + q for q in range(1, rng.randint(1, 4) + 1)])
                     for j, (a, b) in enumerate(zip(starts, stops))]
            s = Session(listed(bands, u), bands, kind, int_rank, lay, u)
            hz, nest = False, True
        else:
            if kind == 'geometric':
                scale = GeometricScale(rng.choice([20, 55, 100]), rng.choice([3000, 5000]),
                                       rng.choice([.01, .05, .3, .9]), max(n, 2),
                                       always_even=False)
            elif kind == 'bark':
                scale = BarkScale(FrequencyBand(rng.choice([50, 100]), 8000), max(n, 2))
            else:
                scale = MelScale(FrequencyBand(rng.choice([50, 100]), 8000), max(n, 2))
            rb = list(scale)
            vals = [v for b in rb for v in (b.start_hz, b.stop_hz)]
            rank = make_rank(vals)
            bands = [dict(s=rank(b.start_hz), e=rank(b.stop_hz), c=[j + 1]) for j, b in enumerate(rb)]
            if any(bands[j]['e'] >= bands[j + 1]['e'] for j in range(len(bands) - 1)):
                continue
            srt = sorted(set(vals))
            s = Session(scale, bands, 'listed', rank, lay)
            hz, nest = False, True

            def unrank(k, srt=srt):
                # even ranks are borders, odd ranks lie between two borders
                if k < 0:
                    return srt[0] * .5
                if k >= 2 * len(srt) - 1:
                    return srt[-1] * 1.5 if k % 2 else srt[-1]
                return srt[k // 2] if k % 2 == 0 else (srt[k // 2] + srt[k // 2 + 1]) / 2
        for j in range(rng.randint(1, 4)):
            if s.case['ops'] and s.case['ops'][-1]['st'] != 'ok':
                break
            cur = session_bands(s)
            r = rand_request(rng, cur, hz)
            if kind in ('geometric', 'bark', 'mel'):
                r['real'] = (unrank(r['s']), unrank(r['e']))
                if not r['real'][0] < r['real'][1]:
                    continue
            if kind != 'explicit':
                s.ints(r)
            if rng.random() < .4 and kind != 'explicit':
                s.scale(r)
            if kind in ('linear', 'even', 'listed') and rng.random() < .4:
                cb = [dict(b) for b in cur]
                same = rng.random() < .3
                if not same:
                    m = rng.choice(['drop', 'add', 'shift', 'first'])
                    if m == 'drop' and len(cb) > 1:
                        cb = cb[:-1]
                    elif m == 'first' and len(cb) > 1:
                        cb = cb[1:]
                    elif m == 'shift' and kind == 'listed':
                        cb[rng.randrange(len(cb))]['e'] += 1
                    elif m == 'add':
                        w = cb[-1]['e'] - cb[-1]['s']
                        cb.append(dict(s=cb[-1]['s'] + w, e=cb[-1]['e'] + w, c=[]))
                    else:
                        same = True
                if kind == 'listed':
                    s.eq(listed(cb, u), cb, same, rng.random() < .5)
                else:
                    s.eq(linear(cb, u=u), cb, same, rng.random() < .5)
            s.array(r)
            if not nest:
                break
        if s.case['ops']:
            cases.append(s.case)
    def make_canaries():
        can = []
        pool = [c for c in cases if c['ops'][-1]['op'] == 'array' and len(c['ops'][-1]['cols']) > 1]
        for case in rng.sample(pool, 6):
            k = copy.deepcopy(case)
            o = k['ops'][-1]
            if rng.random() < .5:
                o['cols'] = o['cols'][1:]
            else:
                o['edges'] = o['edges'][:-1]
            can.append(k)
        return can
    ctx.validate('FreqScaleTrace', cases, make_canaries)
