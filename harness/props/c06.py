"""C06: windowing (Windowing.tla)."""
import copy
import numpy as np
from core import ints


def run(ctx):
    from zounds.nputil import windowed, sliding_window
    from zounds import (ArrayWithUnits, TimeDimension, TimeSlice, FrequencyDimension, LinearScale,
                        FrequencyBand, AudioSamples, SR11025, SampleRate)
    rng = ctx.rng
    gen = ctx.generate('Windowing')
    cases = []

    def rec(ev, fn):
        st, v = ctx.call(fn)
        ev['st'] = 'ok' if st == 'ok' else v
        ev.setdefault('res', [])
        if st == 'ok':
            ev.update(v)
        cases.append(ev)

    def base(l, w, s, pad, **kw):
        return dict(op='win', l=l, w=w, s=s, pad=pad, timed=False, units=False, f=1, d=1,
                    res=[], left=[], haveleft=True, axis=dict(f=0, d=0), inner=dict(f=0, d=0), others=True, **kw)

    def flat(res, w, width):
        """windows of w rows, each row (id, id + 1000, ..); -> ids"""
        r = np.asarray(res)
        if r.size == 0:
            return []
        if w == 1 and r.ndim == (1 if width is None else 2):
            r = r[:, None]           # windows of one sample may stay unwrapped
        if width is not None:
            if r.shape[-1] != width:
                return [[-1]]
            first = r[..., 0]
            for j in range(1, width):
                if not np.all((r[..., j] == first + 1000 * j) | ((r[..., j] == 0) & (first == 0))):
                    return [[-2]]
            r = first
        return ints(r)

    def source(l, width, dtype, contiguous):
        a = np.arange(1, l + 1).astype(dtype)
        if width is not None:
            a = np.stack([a + 1000 * j for j in range(width)], 1) if contiguous else \
                np.stack([a + 1000 * j for j in range(width)], 0).T
        elif not contiguous:
            b = np.zeros(2 * l, dtype=dtype)
            b[::2] = a
            a = b[::2]
        return a

    def plain(l, w, s, pad):
        width = rng.choice([None, None, 1, 3])
        dtype = rng.choice([np.int64, np.float64, np.float32, np.uint16, np.complex64])
        a = source(l, width, dtype, rng.random() < .7)
        before = a.copy()
        ev = base(l, w, s, pad, width=str(width), dtype=np.dtype(dtype).name)

        def fn():
            args = (a, w) if s == w and rng.random() < .5 else (a, w, s)
            left, res = windowed(*args, dopad=pad)
            if res.dtype != a.dtype or not np.array_equal(a, before):
                return dict(res=[[-3]])
            lf = np.asarray(left)
            if width is not None:
                lf = lf[:, 0] if lf.ndim == 2 else lf
            return dict(res=flat(res, w, width), left=ints(lf))
        rec(ev, fn)

    def units(l, w, s, pad, timed):
        """an array with units; windows given in samples or as times"""
        unit = rng.choice(['ms', 'us', 's'])
        f = rng.choice([1, 2, 10, 250, 22676])
        d = f + rng.choice([0, 0, f, 3 * f])
        width = rng.choice([None, None, 2])
        dim = TimeDimension(np.timedelta64(f, unit), np.timedelta64(d, unit))
        a = source(l, width, rng.choice([np.float32, np.int32]), True)
        other = FrequencyDimension(LinearScale(FrequencyBand(0, 100), 2))
        arr = ArrayWithUnits(a, [dim] + ([other] if width else []))
        ev = base(l, w, s, pad)
        ev.update(units=True, f=f, d=d)
        back = lambda x: int(round(x / np.timedelta64(1, unit)))
        if timed:
            ev.update(timed=True, w=w * f - (rng.randint(0, f // 2) if f > 1 else 0),
                      s=s * f - (rng.randint(0, f // 2) if f > 1 else 0))
            ws = TimeSlice(np.timedelta64(ev['w'], unit))
            ss = TimeSlice(np.timedelta64(ev['s'], unit))
        else:
            ws, ss = w, s
        nd = not pad and w <= l and rng.random() < .4 and width is None

        def fn():
            out = {}
            if nd:
                # every full window, without leftovers
                res = arr.sliding_window((ws,), (ss,)) if rng.random() < .5 else arr.sliding_window([ws], [ss])
                ev['haveleft'] = False
                left = np.zeros(0)
            else:
                ss2 = None if ss == ws and not timed and rng.random() < .5 else ss
                left, res = arr.sliding_window_with_leftovers(ws, ss2, dopad=pad)
            lf = np.asarray(left)
            out.update(res=flat(res, w, width), left=ints(lf[:, 0] if width and lf.ndim == 2 else lf))
            if res.size:
                dd = res.dimensions
                out['axis'] = dict(f=back(dd[0].frequency), d=back(dd[0].duration))
                out['inner'] = dict(f=back(dd[1].frequency), d=back(dd[1].duration))
                out['others'] = len(dd) == res.ndim and (not width or dd[2].scale == other.scale)
            return out
        rec(ev, fn)

    for i, g in enumerate(gen):
        plain(g['l'], g['w'], g['s'], g['pad'])
        units(g['l'], g['w'], g['s'], g['pad'], timed=i % 2 == 0)
    for i in range(ctx.n(1500, 20000)):
        w = rng.choice([1, 2, 3, 5, 8, 16, 50])
        s = rng.choice([1, 2, 3, 4, 7, w, w, max(1, w // 2), w + 3])
        l = rng.choice([w - 1, w, w + 1, w + s, w + s - 1, w + 3 * s, rng.randint(0, 150)])
        (plain if rng.random() < .5 else lambda *a: units(*a, timed=rng.random() < .5))(l, w, s, rng.random() < .5)
    # several axes
    for i in range(ctx.n(800, 8000)):
        nd = rng.choice([1, 2, 2, 3])
        shape = [rng.randint(1, 7) for _ in range(nd)]
        ws = [rng.choice([1, n, rng.randint(1, n)]) for n in shape]
        step = rng.random() < .8
        ss = [rng.randint(1, 4) for _ in shape] if step else ws
        pre = [1] * (3 - nd)
        ev = dict(op='nd', shape=pre + shape, ws=pre + ws, ss=pre + ss)
        a = np.arange(1, np.prod(shape) + 1).reshape(shape)
        if rng.random() < .3:
            a = np.asfortranarray(a)
        how = rng.choice(['flat', 'nested', 'units'])

        def fn():
            args = (tuple(ws), tuple(ss)) if step else (tuple(ws),)
            if nd == 1 and rng.random() < .5 and how != 'units':
                args = tuple(x[0] for x in args)
            if how == 'units':
                r = ArrayWithUnits(a, [None] * nd).sliding_window(*args)
                if len(r.dimensions) != r.ndim:
                    return dict(res=[[-5]])
            else:
                r = sliding_window(a, *args, flatten=how == 'flat')
            r = np.asarray(r)
            if tuple(r.shape[-nd:]) != tuple(ws):
                return dict(res=[[-4]])
            return dict(res=ints(r.reshape((-1, int(np.prod(ws))))))
        rec(ev, fn)
    def make_canaries():
        can = []
        for e in rng.sample([x for x in cases if x['st'] == 'ok' and len(x['res']) > 1], 8):
            k = copy.deepcopy(e)
            if rng.random() < .5:
                k['res'] = k['res'][1:]
            else:
                k['res'][-1][0] += 1
            can.append(k)
        return can
    ctx.validate('WindowingTrace', cases, make_canaries)
