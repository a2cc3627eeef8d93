"""C07: streamed windowing (SlidingStream.tla)."""
import copy
import numpy as np
from core import ints
from stream import Source, Recorder, run_graph



def run(ctx):
    from zounds import (ArrayWithUnits, TimeDimension, FrequencyDimension, LinearScale,
                        FrequencyBand, SampleRate, AudioSamples, SR11025, SR22050)
    from zounds.spectral import SlidingWindow, WindowingFunc
    rng = ctx.rng
    ctx.design('SlidingStream')
    gen = ctx.generate('SlidingStream', 'SlidingStreamGen', limit=ctx.n(3000, 20000))

    class Scale(WindowingFunc):
        def __init__(self, w):
            super(Scale, self).__init__(windowing_func=lambda n: np.ones(n) * 2)

    def stream(cfg, chunks):
        unit, f, d = cfg['unit'], cfg['f'], cfg['d']
        l, w, s = cfg['l'], cfg['w'], cfg['s']
        dim = TimeDimension(np.timedelta64(f, unit), np.timedelta64(d, unit))
        other = FrequencyDimension(LinearScale(FrequencyBand(0, 100), 2))
        ids = np.arange(1, l + 1).astype(cfg['dtype'])
        width = cfg['width']
        back = lambda x: int(round(x / np.timedelta64(1, unit)))

        def chunk(a, b):
            x = ids[a:b]
            if width == 0:
                return ArrayWithUnits(x, [dim])
            if width == 2:
                return ArrayWithUnits(np.stack([x, x + 1000], 1), [dim, other])
            return ArrayWithUnits(np.stack([x, x + 1000], 1), [dim, None])
        scheme = SampleRate(np.timedelta64(f * s, unit), np.timedelta64(f * w, unit))
        src = Source()
        node = SlidingWindow(scheme, wfunc=Scale(w) if cfg['wfunc'] else None,
                             padwith=cfg['padwith'], needs=src)
        rec = Recorder(needs=node)
        feeds, pos = [], 0
        for m in chunks:
            feeds.append(chunk(pos, pos + m))
            pos += m
        ops, seen = [], [0]

        def collect(m):
            new = rec.got[seen[0]:]
            seen[0] = len(rec.got)
            wins, axes, others = [], [], True
            for block in new:
                r = np.asarray(block)
                if cfg['wfunc']:
                    r = r / 2
                if width:
                    if r.shape[2:] != (2,) or not np.all((r[..., 1] == r[..., 0] + 1000) | ((r[..., 0] == 0) & (r[..., 1] == 0))):
                        wins.append([-1])
                        continue
                    r = r[..., 0]
                wins += ints(r)
                dd = block.dimensions
                if block.ndim != len(dd):
                    others = False
                axes.append([dict(f=back(x.frequency), d=back(x.duration)) for x in dd[:2]])
                if width == 2 and not (dd[2] == other and dd[2].scale == other.scale):
                    others = False
            ops.append(dict(m=m, st='ok', wins=wins, axes=axes, others=others))
        n = [0]

        def step(name):
            n[0] += 1
            collect(chunks[n[0] - 1] if n[0] <= len(chunks) else -1)
        try:
            run_graph(dict(src=src, node=node, rec=rec), dict(src=feeds), step=step)
            if len(rec.got) > seen[0]:
                collect(0)
        except Exception as ex:
            if len(ops) <= len(chunks):
                ops.append(dict(m=0, st=ex.__class__.__name__, wins=[], axes=[], others=True))
            else:
                ops[-1]['st'] = ex.__class__.__name__
        return ops

    def case(cfg, chunks):
        ops = stream(cfg, chunks)
        ref = stream(cfg, [cfg['l']]) if len(chunks) != 1 else ops
        ref = [wi for o in ref for wi in o['wins']]
        return dict(cfg, ops=ops, ref=ref, chunks=chunks)
    cases = []

    def config(l, w, s):
        f = rng.choice([1, 2, 250, 22676])
        return dict(l=l, w=w, s=s, unit=rng.choice(['us', 'ms', 'ps']), f=f,
                    d=f * rng.choice([1, 1, 1, 2, 4]), width=rng.choice([0, 0, 1, 2]),
                    padwith=rng.choice([0, 0, 0, 1, 3]), wfunc=rng.random() < .2,
                    dtype=rng.choice(['float32', 'float64', 'int32', 'int16']))
    for g in gen:
        cases.append(case(config(g['l'], g['w'], g['s']), g['chunks']))
    for i in range(ctx.n(800, 10000)):
        w = rng.choice([1, 2, 3, 4, 5, 8, 16])
        s = rng.choice([1, 2, 3, w, w, max(1, w // 2), max(1, w // 2), max(1, w // 4), w + 2, 3 * w])
        l = rng.choice([w - 1, w, w + 1, w + s, 2 * w, w + 3 * s, rng.randint(1, 80)])
        l = max(1, l)
        style = rng.choice(['ones', 'small', 'any', 'w', 'any', 'empty'])
        chunks, left = [], l
        while left:
            m = dict(ones=1, small=rng.randint(1, 3), any=rng.randint(1, max(1, left)), w=w,
                     empty=rng.randint(0, 4))[style]
            if style == 'empty' and not chunks:
                m = max(1, m)
            m = min(m, left)
            chunks.append(m)
            left -= m
        cases.append(case(config(l, w, s), chunks))
    def make_canaries():
        can = []
        pool = [k for k in cases if all(o['st'] == 'ok' for o in k['ops']) and sum(len(o['wins']) for o in k['ops']) > 2]
        for k in rng.sample(pool, 8):
            k = copy.deepcopy(k)
            o = next(o for o in k['ops'] if o['wins'])
            m = rng.randrange(3)
            if m == 0:
                o['wins'] = o['wins'][1:]
            elif m == 1:
                o['wins'][0][0] += 1
            else:
                k['ref'] = k['ref'][1:]
            can.append(k)
        return can
    ctx.validate('SlidingStreamTrace', cases, make_canaries)
