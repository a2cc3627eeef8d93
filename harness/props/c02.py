"""C02: dimension bookkeeping of arrays with units (ArrayUnits.tla)."""
import copy
import numpy as np
from core import ints

W = 100.0
GEO0 = 1000     # labels >= GEO0 are bands of the geometric scale
NGEO = 6


def geo_bands():
    from zounds import GeometricScale
    return list(GeometricScale(100, 100 * 2 ** (NGEO - 1), 0.2, NGEO))


class Labels(object):
    """Between model labels and real dimensions."""

    def __init__(self):
        self.geo = geo_bands()

    def real(self, d, size=None):
        from zounds import (TimeDimension, FrequencyDimension, IdentityDimension,
                            LinearScale, FrequencyBand, ExplicitScale, GeometricScale)
        if d['k'] == 'I':
            return IdentityDimension()
        if d['k'] == 'T':
            return TimeDimension(np.timedelta64(d['a'], 'ms'), np.timedelta64(d['b'], 'ms'))
        a, b = d['a'], d['b']
        if a >= GEO0:
            if (a, b) == (GEO0, GEO0 + NGEO):
                return FrequencyDimension(GeometricScale(100, 100 * 2 ** (NGEO - 1), 0.2, NGEO))
            return FrequencyDimension(ExplicitScale(self.geo[a - GEO0:b - GEO0]))
        return FrequencyDimension(LinearScale(FrequencyBand(a * W, b * W), b - a))

    def like(self, d, mine):
        """The dimension d, as the same kind of scale as mine, when both have the same bands."""
        from zounds import FrequencyDimension, ExplicitScale
        real = self.real(d)
        if isinstance(real, FrequencyDimension) and isinstance(mine, FrequencyDimension) \
                and isinstance(mine.scale, ExplicitScale) and not isinstance(real.scale, ExplicitScale):
            return FrequencyDimension(ExplicitScale(list(real.scale)))
        return real

    def model(self, dim):
        from zounds import TimeDimension, FrequencyDimension, IdentityDimension
        if isinstance(dim, TimeDimension):
            ms = np.timedelta64(1, 'ms')
            return dict(k='T', a=int(round(dim.frequency / ms)), b=int(round(dim.duration / ms)))
        if isinstance(dim, FrequencyDimension):
            idx = []
            for band in dim.scale:
                idx.append(self.band(band))
            if any(i is None for i in idx) or idx != list(range(idx[0], idx[0] + len(idx))) \
                    or len(dim.scale) != len(idx):
                return dict(k='F?', a=0, b=0)
            return dict(k='F', a=idx[0], b=idx[-1] + 1)
        if isinstance(dim, IdentityDimension):
            return dict(k='I', a=0, b=0)
        return dict(k=type(dim).__name__, a=0, b=0)

    def band(self, band):
        for i, g in enumerate(self.geo):
            if abs(g.start_hz - band.start_hz) < 1e-6 and abs(g.stop_hz - band.stop_hz) < 1e-6:
                return GEO0 + i
        i = int(round(band.start_hz / W))
        if abs(band.start_hz - i * W) < 1e-6 and abs(band.stop_hz - (i + 1) * W) < 1e-6:
            return i
        return None


def project(lab, a):
    arr = np.asarray(a)
    dims = [lab.model(d) for d in getattr(a, 'dimensions', ())]
    return dict(shape=list(arr.shape), data=ints(arr.ravel()), dims=dims,
                sizes=[int(getattr(d, 'size', None) or 0) for d in getattr(a, 'dimensions', ())])


class Session(object):
    def __init__(self, lab, start, fortran=False):
        from zounds import ArrayWithUnits
        self.lab = lab
        data = np.array(start['data'], dtype=np.int64).reshape(start['shape'])
        if fortran:
            data = np.asfortranarray(data)
        self.a = ArrayWithUnits(data, [lab.real(d) for d in start['dims']])
        self.case = dict(start=dict(shape=start['shape'], dims=start['dims'], data=start['data']), ops=[])
        self.m = dict(shape=list(start['shape']), dims=start['dims'])

    def real_index(self, ix, rng):
        from zounds import TimeSlice, FrequencyBand, Hertz
        rank = len(self.m['shape'])
        nc = sum(i['t'] not in ('none', 'ell') for i in ix)
        pos = 0
        out = []
        for it in ix:
            t = it['t']
            if t == 'none':
                out.append(None)
                continue
            if t == 'ell':
                out.append(Ellipsis)
                pos += rank - nc
                continue
            if t == 'int':
                v = it['v'][0]
                out.append(np.int64(v) if rng.random() < .3 else v)
            elif t == 'list':
                out.append(np.array(it['v']) if rng.random() < .3 else list(it['v']))
            elif t == 'sl':
                out.append(slice(it['a'] if it['ha'] else None, it['b'] if it['hb'] else None))
            else:
                d = self.m['dims'][pos]
                a, b = it['a'], it['b']
                if d['k'] == 'T':
                    f, o = d['a'], d['b'] - d['a']
                    s, e = a * f + o, b * f
                    s, e = np.timedelta64(s, 'ms'), np.timedelta64(e, 'ms')
                    out.append(TimeSlice(start=s, duration=e - s) if rng.random() < .6 else slice(s, e))
                else:
                    lo, hi = d['a'] + a, d['a'] + b
                    if lo >= GEO0:
                        lo, hi = self.lab.geo[lo - GEO0], self.lab.geo[hi - 1 - GEO0]
                        s, e = lo.center_frequency * .99, hi.center_frequency * 1.01
                    else:
                        s, e = (lo + .25) * W, (hi - .25) * W
                    out.append(FrequencyBand(s, e) if rng.random() < .6 else slice(Hertz(s), Hertz(e)))
            pos += 1
        if len(out) == 1 and rng.random() < .7 and out[0] is not None:
            return out[0]
        return tuple(out)

    def do(self, op, rng):
        from zounds import ArrayWithUnits
        ev = dict(op=op['op'], ix=op.get('ix', []), axes=op.get('axes', []), keep=op.get('keep', False),
                  shape=op.get('shape', []), v=op.get('v', 0), y=op.get('y', dict(shape=[], dims=[], data=[])),
                  st='ok', res=dict(shape=[], dims=[], data=[], sizes=[]))
        k = op['op']
        a = self.a
        try:
            if k == 'index':
                r = a[self.real_index(op['ix'], rng)]
            elif k == 'assign':
                a[self.real_index(op['ix'], rng)] = op['v']
                r = a
            elif k == 'T':
                r = a.T
            elif k == 'squeeze':
                r = a.squeeze()
            elif k == 'reshape':
                r = a.reshape(tuple(op['shape']) if rng.random() < .5 else list(op['shape']))
            elif k in ('sum', 'max'):
                ax = [x - 1 for x in op['axes']]
                if rng.random() < .3:
                    ax = [x - a.ndim for x in ax]
                ax = ax[0] if len(ax) == 1 and rng.random() < .7 else tuple(ax)
                f = rng.random() < .5
                if k == 'sum':
                    r = np.sum(a, axis=ax, keepdims=op['keep']) if f else a.sum(axis=ax, keepdims=op['keep'])
                else:
                    r = np.max(a, axis=ax, keepdims=op['keep']) if f else a.max(axis=ax, keepdims=op['keep'])
            elif k == 'concat':
                y = op['y']
                other = ArrayWithUnits(np.array(y['data'], dtype=np.int64).reshape(y['shape']),
                                       [self.lab.like(d, mine) for d, mine in zip(y['dims'], a.dimensions)])
                if op['axes'] == [1] and rng.random() < .3:
                    r = a.concatenate(other)
                else:
                    r = ArrayWithUnits.concat([a, other], axis=op['axes'][0] - 1)
            elif k == 'scale':
                r = a * op['v'] if rng.random() < .5 else op['v'] * a
            elif k == 'wrap':
                r = ArrayWithUnits(np.asarray(a), [self.lab.real(d) for d in op['y']['dims']])
            ev['res'] = project(self.lab, r)
            if ev['res']['shape'] == [] and not isinstance(r, ArrayWithUnits):
                ev['res']['dims'] = []
            self.a = r
        except Exception as e:
            ev['st'] = e.__class__.__name__
        self.case['ops'].append(ev)
        if ev['st'] == 'ok':
            self.m = dict(shape=ev['res']['shape'], dims=ev['res']['dims'])
        return ev['st'] == 'ok'


def norm(v, n):
    v = v + n if v < 0 else v
    return min(max(v, 0), n)


def rand_index(m, rng):
    rank = len(m['shape'])
    k = rng.randint(0 if rng.random() < .1 else 1, rank)
    axes_used = k
    use_ell = rng.random() < .35
    ell_at = rng.randint(0, k) if use_ell else None
    adv = rng.random() < .25
    ix = []
    for i in range(k):
        if ell_at == i:
            ix.append(dict(t='ell', ha=False, a=0, hb=False, b=0, v=[]))
        # axis this item addresses
        ax = i if not use_ell or i < ell_at else i + rank - k
        n, d = m['shape'][ax], m['dims'][ax]
        choices = ['sl', 'sl']
        if n:
            choices += ['list'] if adv else ['int', 'int']
        if d['k'] in 'TF' and n:
            choices += ['unit'] * 3
        t = rng.choice(choices)
        it = dict(t=t, ha=False, a=0, hb=False, b=0, v=[])
        if t == 'int':
            it['v'] = [rng.randint(-n, n - 1)]
        elif t == 'list':
            it['v'] = [rng.randint(-n, n - 1) for _ in range(rng.randint(1, 3))]
            adv = 'used'
        elif t == 'unit':
            it['a'] = rng.randint(0, n - 1)
            it['b'] = rng.randint(it['a'] + 1, n)
        else:
            for _ in range(50):
                it.update(ha=rng.random() < .6, a=rng.randint(-n - 1, n + 1),
                          hb=rng.random() < .6, b=rng.randint(-n - 1, n + 1))
                lo = norm(it['a'], n) if it['ha'] else 0
                hi = norm(it['b'], n) if it['hb'] else n
                if lo < hi or (d['k'] != 'F' and rng.random() < .15):
                    break
            else:
                it.update(ha=False, hb=False)
            if not it['ha']:
                it['a'] = 0
            if not it['hb']:
                it['b'] = 0
        if adv == 'used':
            adv = False
            ix.append(it)
            # numpy moves axes when several advanced indices are mixed
            rest = [dict(t='sl', ha=False, a=0, hb=False, b=0, v=[]) for _ in range(k - i - 1)]
            for j, r in enumerate(rest):
                if ell_at == i + 1 + j:
                    ix.append(dict(t='ell', ha=False, a=0, hb=False, b=0, v=[]))
                ix.append(r)
            if ell_at == k:
                ix.append(dict(t='ell', ha=False, a=0, hb=False, b=0, v=[]))
            return [x for x in ix]
        ix.append(it)
    if ell_at == k:
        ix.append(dict(t='ell', ha=False, a=0, hb=False, b=0, v=[]))
    if not any(x['t'] == 'list' for x in ix):
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            ix.insert(rng.randint(0, len(ix)), dict(t='none', ha=False, a=0, hb=False, b=0, v=[]))
    if not ix:
        ix = [dict(t='ell', ha=False, a=0, hb=False, b=0, v=[])]
    return ix


def rand_dim(rng, n, i, geo_used):
    k = rng.choice('ITF')
    if k == 'I' or n == 0:
        return dict(k='I', a=0, b=0)
    if k == 'T':
        f = rng.choice([2, 10, 250])
        return dict(k='T', a=f, b=f + rng.choice([0, f // 2]))
    if n == NGEO and not geo_used:
        return dict(k='F', a=GEO0, b=GEO0 + NGEO)
    return dict(k='F', a=20 * i, b=20 * i + n)


def run(ctx):
    rng = ctx.rng
    lab = Labels()
    ctx.design('ArrayUnits')
    gen = ctx.generate('ArrayUnits', 'ArrayUnitsGen', limit=ctx.n(5000, 16000))
    cases = []

    def start(shape, dims):
        n = int(np.prod(shape)) if shape else 1
        return dict(shape=list(shape), dims=dims, data=list(range(1, n + 1)))

    for g in gen:
        s = Session(lab, start(g['shape'], g['dims']))
        for op in g['ops']:
            if not s.do(op, rng):
                break
        cases.append(s.case)
    for i in range(ctx.n(2500, 40000)):
        rank = rng.choice([1, 2, 2, 3, 3, 4])
        while True:
            shape = [rng.choice([1, 1, 2, 3, 4, 5, 6]) for _ in range(rank)]
            if np.prod(shape) <= 120:
                break
        dims = []
        for ax, n in enumerate(shape):
            dims.append(rand_dim(rng, n, ax, any(d['a'] == GEO0 for d in dims)))
        s = Session(lab, start(shape, dims), fortran=rng.random() < .2)
        for j in range(rng.randint(1, 6)):
            m = s.m
            rank = len(m['shape'])
            if rank == 0 or any(d['k'] not in 'ITF' for d in m['dims']) or len(m['dims']) != rank:
                break
            size = int(np.prod(m['shape']))
            k = rng.choice(['index'] * 6 + ['assign', 'T', 'squeeze', 'reshape', 'sum', 'max',
                                            'concat', 'concat', 'scale', 'wrap'])
            op = dict(op=k)
            if k in ('index', 'assign'):
                op['ix'] = rand_index(m, rng)
                op['v'] = 5000 + j
                if k == 'assign' and any(x['t'] == 'none' for x in op['ix']):
                    continue
            elif k == 'reshape':
                sh = list(m['shape'])
                mode = rng.choice(['add', 'drop', 'flat', 'split'])
                if mode == 'add':
                    sh.insert(rng.randint(0, len(sh)), 1)
                    if rng.random() < .3:
                        sh.insert(rng.randint(0, len(sh)), 1)
                elif mode == 'drop':
                    sh = [x for x in sh if x != 1]
                elif mode == 'flat':
                    sh = [size]
                else:
                    sh = [2, size // 2] if size % 2 == 0 and size else sh
                if not sh or len(sh) > 5:
                    continue
                op['shape'] = sh
            elif k in ('sum', 'max'):
                if size == 0:
                    continue
                n = rng.randint(1, rank)
                op['axes'] = sorted(rng.sample(range(1, rank + 1), n))
                op['keep'] = rng.random() < .5
                if n == rank and not op['keep']:
                    continue
            elif k == 'concat':
                axis = rng.randint(1, rank)
                ysh = list(m['shape'])
                if rng.random() < .5:
                    ysh[axis - 1] = rng.randint(1, 3)
                if rng.random() < .1:
                    ysh[rng.randint(0, rank - 1)] += 1
                yd = [dict(d) for d in m['dims']]
                for q, d in enumerate(yd):
                    if d['k'] == 'F' and d['b'] - d['a'] != ysh[q]:
                        d['b'] = d['a'] + ysh[q]
                if rng.random() < .35:
                    q = rng.randint(0, rank - 1)
                    yd[q] = rand_dim(rng, ysh[q], 7, True)
                if any(d['k'] == 'F' and (d['a'] >= GEO0 and d['b'] > GEO0 + NGEO or d['b'] <= d['a']) for d in yd):
                    continue
                nn = int(np.prod(ysh))
                if nn > 200:
                    continue
                op['axes'] = [axis]
                op['y'] = dict(shape=ysh, dims=yd, data=list(range(9001, 9001 + nn)))
            elif k == 'scale':
                op['v'] = rng.choice([2, 3, -1])
            elif k == 'wrap':
                yd = [rand_dim(rng, n, 8 + q, True) for q, n in enumerate(m['shape'])]
                r = rng.random()
                if r < .3:
                    yd = yd[:-1]
                elif r < .5:
                    yd = yd + [dict(k='I', a=0, b=0)]
                elif r < .7:
                    yd[0] = dict(k='F', a=300, b=300 + m['shape'][0] + 1)
                op['y'] = dict(shape=[], dims=yd, data=[])
            ok = s.do(op, rng)
            if not ok and k not in ('concat', 'wrap'):
                break
            if any(abs(v) > 10 ** 8 for v in s.case['ops'][-1]['res']['data']):
                break
        cases.append(s.case)
    def make_canaries():
        can = []
        pool = [c for c in cases if c['ops'] and any(d['k'] != 'I' for d in c['ops'][0]['res']['dims'])]
        for case in rng.sample(pool, 6):
            k = copy.deepcopy(case)
            r = k['ops'][0]['res']
            i = [q for q, d in enumerate(r['dims']) if d['k'] != 'I'][0]
            r['dims'][i]['b'] += 1
            can.append(k)
        return can
    ctx.validate('ArrayUnitsTrace', cases, make_canaries)
