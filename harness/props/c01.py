"""C01: time slicing of arrays (TimeSlicing.tla)."""
import numpy as np
from core import ints

UNITS = ['ps', 'ns', 'us', 'ms', 's']


def td(v, unit):
    return np.timedelta64(int(v), unit)


class Session(object):
    """Drives a real ArrayWithUnits and records what it answers."""

    def __init__(self, n, f, d, unit, layout, dunit=None, mult=1):
        from zounds import ArrayWithUnits, TimeDimension, IdentityDimension
        self.unit = unit
        self.mult = mult
        self.layout = layout
        dim = TimeDimension(td(f, unit), td(d * (dunit[1] if dunit else 1), dunit[0] if dunit else unit))
        base = np.arange(1, n + 1)
        if layout == '1d':
            a = ArrayWithUnits(base, [dim])
        elif layout == 'rows':
            a = ArrayWithUnits(np.stack([base, base + 1000], 1), [dim, None])
        elif layout == 'cols':
            a = ArrayWithUnits(np.stack([base + 1000, base], 0), [None, dim])
        elif layout == 'two':
            other = TimeDimension(td(7, unit))
            a = ArrayWithUnits(np.stack([base, base + 1000], 1), [dim, other])
        self.a = a
        self.case = dict(f=f, d=d, arr=self.seq(), ops=[], layout=layout, unit=unit)

    def seq(self):
        a = np.asarray(self.a)
        if self.layout == '1d':
            return ints(a)
        if self.layout in ('rows', 'two'):
            # both columns carry the same ids, 1000 apart
            return [int(x) if y == x + 1000 or x >= 5000 and y == x else -1 for x, y in a]
        return [int(y) if x == y + 1000 or y >= 5000 and x == y else -1 for x, y in a.T]

    def axis(self):
        return self.a.dimensions[1 if self.layout == 'cols' else 0]

    def index(self, r, how):
        from zounds import TimeSlice
        u = self.unit
        # 'finer' writes the same time in a finer unit
        def t(v):
            if how == 'finer' and u != 'ps':
                return td(v * 1000, UNITS[UNITS.index(u) - 1])
            return td(v, u)
        if r['kind'] == 'ts':
            kw = {}
            if r['s'] or how != 'bare':
                kw['start'] = t(r['s'])
            if r['he']:
                kw['duration'] = t(r['e'])
            ix = TimeSlice(**kw)
        else:
            ix = slice(t(r['s']) if r['hs'] else None, t(r['e']) if r['he'] else None)
        if self.layout == 'cols':
            return (slice(None), ix) if how != 'ellipsis' else (Ellipsis, ix)
        if self.layout in ('rows', 'two') and how == 'tuple':
            return (ix, slice(None))
        return ix

    def get(self, r, how=''):
        ev = dict(op='get', r=r, st='ok', res=[], f=-1, d=-1, how=how)
        try:
            got = self.a[self.index(r, how)].copy()
            ts = np.timedelta64(1, self.unit)
            self.a = got
            dim = self.axis()
            ev.update(res=self.seq(), f=int(round(dim.frequency / ts)),
                      d=int(round(dim.duration / ts)))
        except Exception as e:
            ev['st'] = e.__class__.__name__
        self.case['ops'].append(ev)
        return ev['st'] == 'ok'

    def set(self, r, v, how=''):
        ev = dict(op='set', r=r, st='ok', res=[], v=v, how=how)
        try:
            self.a[self.index(r, how)] = v
            ev.update(res=self.seq())
        except Exception as e:
            ev['st'] = e.__class__.__name__
        self.case['ops'].append(ev)
        return ev['st'] == 'ok'


def legal(n, f, d, r):
    """start <= stop, computed as the model does"""
    end = n * f + d - f
    s = 0 if not r['hs'] else (end + r['s'] if r['kind'] == 'slice' and r['s'] < 0 else r['s'])
    if not r['he']:
        e = end
    elif r['kind'] == 'slice':
        e = end + r['e'] if r['e'] < 0 else r['e']
    else:
        e = s + r['e']
    return s <= e


def run(ctx):
    rng = ctx.rng
    ctx.design('TimeSlicing')
    gen = ctx.generate('TimeSlicing', 'TimeSlicingGen')
    gen += ctx.generate('TimeSlicing', 'TimeSlicingGen2', limit=ctx.n(2000, 9301))
    cases = []
    hows = ['', 'finer', 'bare', 'tuple', 'ellipsis']
    layouts = ['1d', 'rows', 'cols', 'two']
    # spec -> code: every behaviour of the model, replayed
    for i, g in enumerate(gen):
        s = Session(g['n'], g['f'], g['d'], UNITS[i % 5], layouts[(i // 5) % 4])
        for op in g['ops']:
            if not s.get(op['r'], hows[i % 5]):
                break
        cases.append(s.case)
    # code -> spec: longer random sessions on larger arrays
    for i in range(ctx.n(1500, 20000)):
        f = rng.choice([1, 2, 3, 5, 10, 97, 1000, 22675, 45351])
        d = f + rng.choice([0, 0, 1, f // 2, f, 2 * f, 3 * f + 1, -(f // 2), -(f // 3)])
        n = rng.choice([1, 2, 3, 7, 20, 60])
        unit = rng.choice(UNITS[:4] if f > 1000 else UNITS)
        s = Session(n, f, d, unit, rng.choice(layouts))
        m = n
        for j in range(rng.randint(1, 5)):
            end = m * f + d - f
            pts = [0, f, d, end, end - f, rng.randint(0, max(0, end)), rng.randint(0, max(0, end)),
                   rng.randint(0, m) * f, rng.randint(0, m) * f + rng.choice([-1, 1]),
                   end + rng.randint(0, 3 * f)]
            r = None
            for _ in range(50):
                kind = rng.choice(['ts', 'slice'])
                hs, he = rng.random() < .8, rng.random() < .8
                if kind == 'ts':
                    hs = True
                a = rng.choice(pts) * rng.choice([1, 1, 1, -1])
                b = rng.choice(pts) * rng.choice([1, 1, 1, -1])
                if kind == 'ts':
                    b = b - a if rng.random() < .7 else abs(b)
                q = dict(kind=kind, hs=hs, s=a if hs else 0, he=he, e=b if he else 0)
                if legal(m, f, d, q):
                    r = q
                    break
            if r is None:
                break
            if rng.random() < .3:
                ok = s.set(r, 5000 + j, rng.choice(hows))
            else:
                ok = s.get(r, rng.choice(hows))
            if not ok:
                break
            m = len(s.seq())
        cases.append(s.case)
    def make_canaries():
        can = []
        for case in rng.sample([c for c in cases if any(len(o['res']) > 2 for o in c['ops'])], 5):
            import copy
            k = copy.deepcopy(case)
            for o in k['ops']:
                if len(o['res']) > 2:
                    o['res'] = o['res'][1:]
                    break
            can.append(k)
        return can
    ctx.validate('TimeSlicingTrace', cases, make_canaries)
