"""C12: segmentation of a stream at onsets (Segments.tla)."""
import copy
import numpy as np
from core import ints
from stream import Source, Recorder, run_graph


def run(ctx):
    import featureflow as ff
    from zounds import (ArrayWithUnits, TimeDimension, ArrayWithUnitsFeature)
    from zounds.segment import MovingAveragePeakPicker, TimeSliceFeature
    from zounds.segment.onset import BasePeakPicker
    from zounds.util import simple_in_memory_settings
    rng = ctx.rng
    ctx.design('Segments')
    gen = ctx.generate('Segments', 'SegmentsGen', limit=ctx.n(1500, 20000))

    class Flagged(BasePeakPicker):
        def _onset_indices(self, data):
            return np.where(np.asarray(data) > 0)[0]

    def case(n, onsets, chunks, store, kind=None):
        unit, f = rng.choice([('ps', 22675737), ('ps', 11), ('us', 1), ('ms', 250), ('s', 2), ('ns', 999)])
        kind = kind or rng.choice(['flag', 'flag', 'moving'])
        tick = np.timedelta64(f, unit)
        d = tick * rng.choice([1, 2, 3])
        if kind == 'moving':
            w = rng.choice([4, 5, 10, 11])
            data = np.array([[rng.choice([0, 0, 1, 2, 8]) for _ in range(w)] for _ in range(n)], dtype=np.float64)
            agg = rng.choice([np.mean, np.median])
            if rng.random() < .6:
                for k in range(n):
                    if rng.random() < .5:
                        data[k] = 0
                        data[k, w // 2 - 1:w // 2 + 1] = [9, 8]
            make = lambda needs=None: MovingAveragePeakPicker(aggregate=agg, needs=needs)
            wrap = lambda x: ArrayWithUnits(x, [TimeDimension(tick, d), TimeDimension(tick)])
            alone = make()
            alone._first_chunk(wrap(data))
            onsets = [k for k in range(n) if len(alone._onset_indices(wrap(data[k:k + 1])))]
        else:
            data = np.zeros(n)
            data[list(onsets)] = rng.choice([1, .5, 100])
            make = lambda needs=None: Flagged(needs=needs)
            wrap = lambda x: ArrayWithUnits(x, [TimeDimension(tick, d)])
        feeds, pos = [], 0
        for m in chunks:
            feeds.append(wrap(data[pos:pos + m]))
            pos += m

        def segs(series):
            out = []
            for ts in series.slices:
                pair = []
                for t in (ts.start, ts.duration):
                    q, r = divmod(int(t / np.timedelta64(1, 'ps')), int(tick / np.timedelta64(1, 'ps')))
                    pair.append(q if r == 0 else -1000000)
                out.append(pair)
            return out
        src = Source()
        node = make(src)
        rec = Recorder(needs=node)
        ops, seen = [], [0]

        def step(name):
            new = rec.got[seen[0]:]
            seen[0] = len(rec.got)
            m = chunks[len(ops)] if len(ops) < len(chunks) else 0
            ops.append(dict(m=m, st='ok', segs=sum([segs(x) for x in new], [])))
        try:
            run_graph(dict(src=src, node=node, rec=rec), dict(src=feeds), step=step)
        except Exception as ex:
            if len(ops) <= len(chunks):
                m = chunks[len(ops)] if len(ops) < len(chunks) else 0
                ops.append(dict(m=m, st=ex.__class__.__name__, segs=[]))
            else:
                ops[-1]['st'] = ex.__class__.__name__
        stored = []
        if store:
            @simple_in_memory_settings
            class Doc(ff.BaseModel):
                src = ArrayWithUnitsFeature(Source, store=False)
                if kind == 'flag':
                    slices = TimeSliceFeature(Flagged, needs=src, store=True)
                else:
                    slices = TimeSliceFeature(MovingAveragePeakPicker, aggregate=agg, needs=src, store=True)
            try:
                _id = Doc.process(src=feeds)
                stored = segs(Doc(_id).slices)
            except Exception as ex:
                stored = [[-1, -1]]
                ops[-1]['err'] = repr(ex)
        return dict(n=n, f=1, onsets=[int(x) for x in onsets], kind=kind, ops=ops, stored=stored, unit=unit, freq=f)
    cases = [case(g['n'], g['onsets'], g['chunks'], i % 10 == 0) for i, g in enumerate(gen)]
    for i in range(ctx.n(700, 8000)):
        n = rng.choice([1, 2, 5, 20, 60, 200])
        p = rng.choice([0, .05, .3, .8, 1])
        onsets = [k for k in range(n) if rng.random() < p]
        chunks, left = [], n
        style = rng.choice([1, 3, 10, n])
        while left:
            chunks.append(rng.randint(1, min(style, left)))
            left -= chunks[-1]
        cases.append(case(n, onsets, chunks, i % 7 == 0))
    def make_canaries():
        can = []
        pool = [k for k in cases if all(o['st'] == 'ok' for o in k['ops']) and len(k['onsets']) > 1]
        for k in rng.sample(pool, 10):
            k = copy.deepcopy(k)
            o = next(o for o in k['ops'] if any(s[1] for s in o['segs']))
            j = next(j for j, s in enumerate(o['segs']) if s[1])
            if rng.random() < .5:
                del o['segs'][j]
            else:
                o['segs'][j][1] += 1
            can.append(k)
        return can
    ctx.validate('SegmentsTrace', cases, make_canaries)
