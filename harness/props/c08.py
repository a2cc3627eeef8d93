"""C08: streamed combination and reduction of features (StreamNodes.tla)."""
import copy
from fractions import Fraction
import numpy as np
from core import ints
from stream import Source, Recorder, run_graph


def run(ctx):
    from zounds import (ArrayWithUnits, TimeDimension, FrequencyDimension, LinearScale,
                        FrequencyBand, TimeSlice, VariableRateTimeSeries)
    from zounds.basic.basic import Merge, Pooled, Slice, Sum, Max, Binarize
    from zounds.segment.onset import MeasureOfTransience, Flux, ComplexDomain
    from zounds.spectral import SpectralCentroid, SpectralFlatness, BFCC
    rng = ctx.rng
    ctx.design('StreamNodes')
    gen = ctx.generate('StreamNodes', 'StreamNodesGen', limit=ctx.n(2500, 8454))
    known = {}

    def number(row):
        """a name for a row of floats"""
        key = tuple(np.round(np.asarray(row, dtype=np.complex128).ravel(), 9))
        return [known.setdefault(key, len(known))]

    def frac(x):
        x = float(x)
        if not np.isfinite(x):
            return [-2, 1]
        if x > 1e6:
            return [-1, 1]
        q = Fraction(x).limit_denominator(20000)
        if abs(float(q) - x) > 1e-6 * max(1, abs(x)):
            return [-3, 1]
        return [q.numerator, q.denominator]

    def whole(x):
        x = float(x)
        r = int(round(x))
        return r if abs(x - r) < 1e-3 else 987654

    FNS = dict(
        memory=['flux', 'unitflux', 'mot'],
        rowwise=['sum', 'max', 'slice', 'binarize', 'centroid', 'complex', 'byrow:flatness', 'byrow:bfcc'],
        pooled=['sum', 'max', 'min'], merge=['merge'])

    def case(kind, lens, sched, fn=None):
        fn = fn or rng.choice(FNS[kind])
        unit, f = rng.choice(['ms', 'us', 's']), rng.choice([1, 2, 3, 10])
        d = f * rng.choice([1, 1, 2])
        td = lambda: TimeDimension(np.timedelta64(f, unit), np.timedelta64(d, unit))
        back = lambda x: int(round(x / np.timedelta64(1, unit)))
        style = rng.random()
        dtype = rng.choice(['float32', 'float64'])
        widths = [rng.randint(1, 4) for _ in lens]
        if fn == 'mot':
            widths = [rng.choice([3, 4])]
        if fn == 'byrow:bfcc':
            widths = [rng.choice([14, 16])]
        if fn == 'slice':
            widths = [rng.randint(2, 5)]
        w = widths[0]
        rows = []
        for i, n in enumerate(lens):
            if kind == 'merge':
                rows.append([[i * 100000 + k * 10 + j for j in range(widths[i])] for k in range(n)])
            elif kind == 'pooled' and i == 1:
                rows.append(None)
            elif fn == 'centroid':
                rows.append([[rng.randint(0, 6) for _ in range(w)] for k in range(n)])
            elif fn == 'unitflux':
                rr = []
                for k in range(n):
                    row = [0] * w
                    row[rng.randrange(w)] = rng.choice([0, 1, 3, 4])
                    rr.append(row)
                rows.append(rr)
            elif fn == 'complex':
                rows.append([[rng.randint(1, 5) for _ in range(3 * w)] for k in range(n)])
            elif fn == 'mot' or fn.startswith('byrow'):
                rows.append([[rng.randint(0, 4)] * w if rng.random() < .2 else [rng.randint(0, 4) for _ in range(w)]
                             for k in range(n)])
            else:
                rows.append([[rng.randint(-3, 6) for _ in range(w)] for k in range(n)])
        if kind == 'pooled':
            n = lens[0]
            end = (n - 1) * f + d
            spans, t = [], 0
            for k in range(lens[1]):
                a = rng.randint(0, end - 1)
                spans.append([a, rng.randint(1, max(1, min(end - a, 3 * f) if rng.random() < .7 else end - a))])
            if rng.random() < .6:
                spans.sort(key=lambda x: x[0])
            # the result lists entries by start, as every such series does
            delivered = spans
            rows[1] = sorted(spans, key=lambda x: (x[0],))
            if len(set(x[0] for x in spans)) < len(spans):
                rows[1] = delivered = sorted(spans)
        values = 1 if style < .8 or fn not in ('flux', 'mot') else 2

        def chunk(i, a, b):
            if kind == 'pooled' and i == 1:
                tick = np.timedelta64(1, unit)
                return VariableRateTimeSeries(
                    [(TimeSlice(start=s * tick, duration=u * tick), np.zeros(0)) for s, u in delivered[a:b]])
            x = np.array(rows[i][a:b], dtype=dtype).reshape((b - a, len(rows[i][0])))
            if fn == 'complex':
                return ArrayWithUnits(x.reshape((b - a, 3, -1)), [
                    td(), None, FrequencyDimension(LinearScale(FrequencyBand(0, 100), x.shape[1] // 3))])
            if fn == 'mot' and values == 2:
                x = x * np.array([1, 1j, -1, -1j])[:x.shape[1]]
            if kind == 'merge' or style < .4:
                return ArrayWithUnits(x, [td(), None])
            return ArrayWithUnits(x, [td(), FrequencyDimension(LinearScale(FrequencyBand(0, 100), x.shape[1]))])
        a, b = 0, 0
        if fn == 'slice':
            a = rng.randint(0, w - 1)
            b = rng.randint(a + 1, w)

        def make(srcs):
            if kind == 'merge':
                return Merge(needs=dict(('s%d' % i, s) for i, s in enumerate(srcs)))
            if kind == 'pooled':
                op = dict(sum=np.sum, max=np.max, min=np.min)[fn]
                needs = dict(series=srcs[0], slices=srcs[1])
                if rng.random() < .5:
                    needs = dict(slices=srcs[1], series=srcs[0])
                return Pooled(op=op, axis=0, needs=needs)
            s = srcs[0]
            return dict(flux=lambda: Flux(needs=s), unitflux=lambda: Flux(unit_norm=True, needs=s),
                        mot=lambda: MeasureOfTransience(needs=s), sum=lambda: Sum(axis=1, needs=s),
                        max=lambda: Max(axis=1, needs=s), slice=lambda: Slice(sl=slice(a, b), needs=s),
                        binarize=lambda: Binarize(predicate=lambda x: x > 2, needs=s),
                        centroid=lambda: SpectralCentroid(needs=s), complex=lambda: ComplexDomain(needs=s),
                        **{'byrow:flatness': lambda: SpectralFlatness(needs=s),
                           'byrow:bfcc': lambda: BFCC(needs=s)})[fn]()

        def encode(block):
            if kind == 'pooled':
                out = []
                for ts, v in block.iter_slices():
                    out.append([back(ts.start), back(ts.duration)] + ints(np.asarray(v)))
                return out, True
            r = np.asarray(block)
            dims = len(block.dimensions) == r.ndim and isinstance(block.dimensions[0], TimeDimension) \
                and back(block.dimensions[0].frequency) == f
            if fn != 'complex':
                dims = dims and back(block.dimensions[0].duration) == d
            if fn in ('flux', 'unitflux'):
                return [[whole(x ** 2)] for x in r.astype(np.float64)], dims
            if fn == 'mot':
                return [frac(x) for x in r], dims
            if fn == 'centroid':
                return [frac(x) for x in r], dims
            if fn.startswith('byrow'):
                return [number(x) for x in r], dims
            if r.ndim == 1:
                return [[whole(x)] for x in r], dims
            return [[whole(x) for x in row] for row in r], dims

        def stream(lens, sched):
            srcs = [Source() for _ in lens]
            node = make(srcs)
            rec = Recorder(needs=node)
            pos = [0] * len(lens)
            feeds = dict(('s%d' % i, []) for i in range(len(lens)))
            for i, m in sched:
                if m:
                    feeds['s%d' % (i - 1)].append(chunk(i - 1, pos[i - 1], pos[i - 1] + m))
                    pos[i - 1] += m
            nodes = dict(('s%d' % i, s) for i, s in enumerate(srcs))
            nodes.update(node=node, rec=rec)
            ops, seen, n = [], [0], [0]

            def step(name):
                new = rec.got[seen[0]:]
                seen[0] = len(rec.got)
                out, dims = [], True
                for block in new:
                    if not len(block):
                        continue
                    r, ok = encode(block)
                    out += r
                    dims = dims and ok
                i, m = sched[n[0]]
                n[0] += 1
                ops.append(dict(src=i, m=m, st='ok', rows=out, dims=dims))
            try:
                run_graph(nodes, feeds, schedule=['s%d' % (i - 1) for i, m in sched], step=step)
            except Exception as ex:
                if n[0] < len(sched):
                    i, m = sched[n[0]]
                    ops.append(dict(src=i, m=m, st=ex.__class__.__name__, rows=[], dims=True))
                else:
                    ops[-1]['st'] = ex.__class__.__name__
            return ops
        ops = stream(lens, sched)
        out = dict(kind=kind, fn=fn.split(':')[0], node=fn, len=list(lens), rows=rows, f=f, d=d, a=a, b=b,
                   ops=ops, ref=[])
        if fn.startswith('byrow'):
            full, refs = rows[0], []
            for k in range(lens[0]):
                rows[0] = [full[k]]
                o = stream([1], [[1, 1], [1, 0]])
                refs.append((sum((x['rows'] for x in o), []) or [[-1]])[0])
            rows[0] = full
            out['ref'] = refs
        return out
    cases = [case(g['kind'], g['len'], g['sched']) for g in gen]

    def schedule(lens):
        left = list(lens)
        alive = list(range(len(lens)))
        style = rng.choice(['ones', 'any', 'seq', 'small'])
        out = []
        while alive:
            i = alive[0] if style == 'seq' else rng.choice(alive)
            if left[i] == 0:
                if rng.random() < .5 or len(alive) == 1 or style == 'seq':
                    out.append([i + 1, 0])
                    alive.remove(i)
                continue
            m = 1 if style == 'ones' else rng.randint(1, min(3, left[i]) if style == 'small' else left[i])
            out.append([i + 1, m])
            left[i] -= m
        return out
    for _ in range(ctx.n(1200, 15000)):
        kind = rng.choice(['merge', 'memory', 'rowwise', 'pooled'])
        n = dict(merge=rng.randint(2, 4), pooled=2).get(kind, 1)
        top = rng.choice([2, 4, 12])
        lens = [rng.randint(1, top) for _ in range(n)]
        cases.append(case(kind, lens, schedule(lens)))
    def make_canaries():
        can = []
        pool = [k for k in cases if all(o['st'] == 'ok' for o in k['ops']) and sum(len(o['rows']) for o in k['ops']) > 1]
        for k in rng.sample(pool, 12):
            k = copy.deepcopy(k)
            o = next(o for o in k['ops'] if o['rows'])
            if rng.random() < .5:
                o['rows'] = o['rows'][1:]
                if k['kind'] in ('rowwise', 'memory'):
                    o['rows'][0:0] = [[-77, 1]]
            else:
                o['rows'][0][-1] += 7
            can.append(k)
        return can
    ctx.validate('StreamNodesTrace', cases, make_canaries, describe=lambda c, e, cl: 'node %s' % c['node'])
