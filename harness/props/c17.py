"""C17: learned pipelines (LearnedPipeline.tla)."""
import copy
import pickle
import threading
from fractions import Fraction as Fr
import numpy as np
import torch
from torch import nn
from stream import Source, Recorder, run_graph
from core import time_limit


class Linear(nn.Module):
    def __init__(self, size):
        super(Linear, self).__init__()
        self.size = size
        self.layer = nn.Linear(size, size, bias=False)

    def forward(self, x):
        return self.layer(x.to(self.layer.weight.dtype))


class Coder(nn.Module):
    def __init__(self, size, unused=3):
        super(Coder, self).__init__()
        self.size = size
        self.unused = unused
        self.encoder = nn.Linear(size, size, bias=False)
        self.decoder = nn.Linear(size, size, bias=False)


class Gan(nn.Module):
    def __init__(self, size):
        super(Gan, self).__init__()
        self.size = size
        self.generator = nn.Linear(size, size, bias=False)
        self.discriminator = nn.Linear(size, 1, bias=False)


class Trainer(object):
    """hands out a network with given weights"""

    def __init__(self, network, batch_size):
        self.network, self.batch_size = network, batch_size

    def train(self, data):
        return self.network


class MinModel(object):
    """a model that learns the smallest value of every column"""

    def fit(self, data):
        self.lo = np.asarray(data).min(axis=0)
        return self

    def transform(self, data):
        return np.asarray(data, dtype='f8') - self.lo

    def inverse_transform(self, data):
        return np.asarray(data) + self.lo


class PermModel(object):
    def __init__(self, comp):
        self.components_ = comp

    def fit(self, data):
        return self

    def transform(self, data):
        return np.dot(np.asarray(data), self.components_.T)

    def inverse_transform(self, data):
        return np.dot(np.asarray(data), np.linalg.inv(self.components_.T))


PYTH = [(3, 4), (5, 12), (8, 15), (2, 3, 6), (1, 4, 8), (4, 4, 7), (2, 6, 9), (1, 2, 2), (7,), (0,), (1, 1, 1, 1), (2, 4, 5, 6)]


def run(ctx):
    import featureflow as ff
    from zounds import (ArrayWithUnits, IdentityDimension, TimeDimension, Seconds, Milliseconds, PreprocessingPipeline,
                        simple_in_memory_settings)
    from zounds.learn import preprocess as P, Learned, KMeans, SklearnModel, WithComponents
    from zounds.learn.pytorch_model import PyTorchAutoEncoder, PyTorchNetwork, PyTorchGan
    from zounds.core.dimensions import Dimension
    rng = ctx.rng
    np.random.seed(ctx.seed * 11 + 3)
    ctx.design('LearnedPipeline')
    gen = ctx.generate('LearnedPipeline', 'LearnedPipelineGen', limit=ctx.n(500, 3000))
    cases = []
    scale = 4096

    def blank(k, **kw):
        d = dict(k=k, f=[1, 1], w=[], m=[], sel=[])
        d.update(kw)
        return d

    def q(x):
        x = Fr(x)
        return [x.numerator, x.denominator]

    def linear(size, rows, torch_dtype=torch.float32):
        layer = nn.Linear(size, size, bias=False)
        layer.weight.data = torch.from_numpy(np.array(rows)).type(torch_dtype)
        return layer

    # one step: its description, and how to make the node
    def step(name, shape, later, last):
        n = int(np.prod(shape))
        if name in ('mul', 'half'):
            f = rng.choice([Fr(2), Fr(-2), Fr(1, 2), Fr(-3), Fr(1, 4)])
            v = float(f)
            d = blank('mul', f=q(f))
            k = rng.randrange(4)
            if k == 0:
                back = eval('lambda x: x / %r' % v)
                return d, lambda needs: P.BasePreprocessor(eval('lambda x: x * %r' % v), back, name='b', needs=needs)
            if k == 1 and f.denominator == 1:
                return d, lambda needs: P.Multiply(factor=int(f), needs=needs)
            if k == 2:
                return d, lambda needs: P.Multiply(factor=np.ones(shape) * v, needs=needs)
            return d, lambda needs: P.Multiply(factor=v, needs=needs)
        if name == 'weight':
            w = [rng.choice([Fr(2), Fr(-1, 4), Fr(1, 2), Fr(1), Fr(-2)]) for _ in range(shape[-1])]
            return blank('weight', w=[q(x) for x in w]), \
                lambda needs: P.Weighted(np.array([float(x) for x in w]), needs=needs)
        if name == 'meanstd':
            return blank('meanstd'), lambda needs: P.MeanStdNormalization(needs=needs)
        if name == 'shift':
            return blank('shift'), lambda needs: SklearnModel(model=MinModel(), needs=needs)
        if name == 'inst':
            f = rng.choice([Fr(1), Fr(2), Fr(1, 2)])
            v = rng.choice([float(f), int(f)]) if f.denominator == 1 else float(f)
            return blank('inst', f=q(f)), lambda needs: P.InstanceScaling(max_value=v, needs=needs)
        if name == 'unit':
            return blank('unit'), lambda needs: P.UnitNorm(needs=needs)
        if name == 'slice':
            w = shape[-1]
            i = rng.randrange(w)
            j = rng.randint(i + 1, w)
            st = rng.choice([1, 1, 2])
            s = slice(rng.choice([i, i - w]) if i else rng.choice([None, 0]), j if j < w else rng.choice([None, w]), st)
            return blank('slice', sel=[x + 1 for x in range(w)[s]]), lambda needs: P.Slicer(slicex=s, needs=needs)
        if name == 'perm':
            p = list(range(n))
            rng.shuffle(p)
            f = rng.choice([Fr(1), Fr(2), Fr(1, 2)])
            mat = [[float(f) if p[i] == j else 0. for j in range(n)] for i in range(n)]
            inv = np.linalg.inv(np.array(mat)).tolist()
            d = blank('perm', sel=[x + 1 for x in p], f=q(f))
            k = rng.randrange(3)
            if k == 0 and f == 1:
                return d, lambda needs: WithComponents(model=PermModel(np.array(mat)), needs=needs)
            if k == 1 and len(shape) == 1:
                net = Coder(n)
                net.encoder, net.decoder = linear(n, mat), linear(n, inv)
                return dict(d, torch=True), lambda needs: PyTorchAutoEncoder(trainer=Trainer(net, 4), needs=needs)
            return d, lambda needs: SklearnModel(model=PermModel(np.array(mat)), needs=needs)
        if name == 'abs':
            return blank('abs'), lambda needs: P.AbsoluteValue(needs=needs)
        if name == 'bin':
            t = rng.choice([Fr(1, 2), Fr(0), Fr(3, 8)])
            return blank('bin', f=q(t)), lambda needs: P.Binarize(threshold=float(t), needs=needs)
        if name == 'sharpen':
            k = [rng.choice([-1, 0, 1, 2]) for _ in range(3)]
            return blank('sharpen', w=[q(x) for x in k]), lambda needs: P.Sharpen(kernel=np.array(k, dtype=float), needs=needs)
        if name == 'reshape':
            opts = [s for s in [(n,), (1, n), (n, 1), (2, n // 2), (n // 2, 2), (1, 2, n // 2)] if np.prod(s) == n and 0 not in s]
            s = rng.choice(opts)
            return blank('reshape', sel=list(s)), lambda needs: P.Reshape(s, needs=needs)
        if name == 'log':
            return blank('log'), lambda needs: P.Log(needs=needs)
        if name == 'mulaw':
            return blank('mulaw'), lambda needs: P.MuLawCompressed(needs=needs)
        if name == 'oneway':
            k = rng.randrange(3)
            if k == 0 or len(shape) > 1:
                return blank('oneway'), lambda needs: P.BasePreprocessor(eval('lambda x: x * 1'), name='o', needs=needs)
            if k == 1 and last:
                net = Gan(n)
                net.generator = linear(n, np.eye(n))
                return dict(blank('oneway'), torch=True), lambda needs: PyTorchGan(trainer=Trainer(net, 4), needs=needs)
            net = Linear(n)
            net.layer = linear(n, np.eye(n), torch.float64)
            bs = rng.choice([1, 2, 7])
            return dict(blank('oneway'), f64=True), lambda needs: PyTorchNetwork(
                trainer=Trainer(net, bs), training_set_prep=lambda x: dict(data=np.asarray(x['data'], dtype='f8')), needs=dict(data=needs))
        if name == 'simhash':
            pb = rng.random() < .4
            return dict(blank('opaque'), what='simhash'), \
                lambda needs: P.SimHash(bits=64 if pb else rng.choice([3, 8, 10]), packbits=pb, needs=needs)
        if name == 'kmeans':
            return dict(blank('opaque'), what='kmeans'), lambda needs: KMeans(centroids=rng.choice([1, 2][:later]), needs=needs)
        raise ValueError(name)

    def out_shape(d, shape):
        if d['k'] == 'slice':
            return tuple(shape[:-1]) + (len(d['sel']),)
        if d['k'] == 'reshape':
            return tuple(d['sel'])
        if d['k'] in ('shift', 'perm'):
            return (int(np.prod(shape)),)
        return tuple(shape)

    def pyth_row(n):
        t = list(rng.choice([p for p in PYTH if len(p) <= n]))
        t += [0] * (n - len(t))
        rng.shuffle(t)
        return [Fr(rng.choice([-1, 1]) * x) for x in t]

    def plain_row(n):
        return [Fr(rng.randint(-24, 24), rng.choice([1, 1, 2, 4])) for _ in range(n)]

    # rows given in terms of what a first logarithmic step makes of them
    def encode(a, code):
        if code == 'log':
            return np.sign(a) * (np.exp(np.abs(a)) - 1)
        if code == 'mulaw':
            return np.sign(a) * (256. ** np.abs(a) - 1) / 255.
        return a

    def decode(a, code):
        if code == 'log':
            return np.sign(a) * np.log(1 + np.abs(a))
        if code == 'mulaw':
            return np.sign(a) * np.log(1 + 255 * np.abs(a)) / np.log(256.)
        return a

    def coded_row(n, code):
        if code == 'log':
            return [Fr(rng.randint(-6, 6), 2) for _ in range(n)]
        return [Fr(rng.randint(-8, 8), 8) for _ in range(n)]

    def ints_of(a, tol_nan=True):
        a = np.asarray(a, dtype=np.float64).reshape((len(a), int(np.prod(a.shape[1:]))))
        a = np.where(np.isfinite(a), a, 4e5)
        return np.clip(np.rint(a * scale), -2 ** 30, 2 ** 30).astype(int).tolist()

    def one(names):
        n = rng.choice([2, 3, 4, 6])
        # logarithms are exact to within a rounding error only, which these blow up
        if names[0] in ('log', 'mulaw') and ('meanstd' in names or 'shift' in names or 'bin' in names):
            names = [{'inst': 'mul', 'bin': 'abs', 'unit': 'mul'}.get(x, x) for x in names]
        shape = rng.choice([(n,), (n,), (n,), (2, n // 2) if n % 2 == 0 else (n, 1)])
        has_unit, code = 'unit' in names, names[0] if names[0] in ('log', 'mulaw') else ''
        sh, descr, makers, shapes = shape, [], [], [shape]
        for i, name in enumerate(names):
            if name in ('sharpen', 'kmeans') and len(sh) != 1:
                name = 'oneway'
            if name == 'weight' and has_unit:
                name = 'mul'
            if name == 'kmeans' and ('bin' in names or has_unit):
                name = 'simhash'
            d, mk = step(name, sh, 2, i == len(names) - 1)
            descr.append(d)
            makers.append(mk)
            sh = out_shape(d, sh)
            shapes.append(sh)
        w = int(np.prod(shape))
        torchy = any(d.get('torch') for d in descr)
        dtype = 'float64' if any(d.get('f64') for d in descr) else rng.choice(['float64', 'float64', 'float32'])
        loose = torchy or dtype == 'float32'
        units = rng.random() < .35
        # training data: columns with a rational deviation
        if has_unit:
            train = [pyth_row(w) for _ in range(rng.choice([1, 4]))]
        else:
            reps = rng.choice([1, 2])
            train = []
            unitx = Fr(1, 8) if code == 'mulaw' else Fr(1, 2) if code == 'log' else Fr(1)
            cols = [(rng.randint(-3, 3) * unitx, rng.choice([0, 1, 2, 4]) * unitx) for _ in range(w)]
            for _ in range(reps):
                train.append([c + s for c, s in cols])
                train.append([c - s for c, s in cols])

        def build(rows, shp, part_first, force_units=None):
            a = np.array([[float(x) for x in r] for r in rows], dtype=np.float64).reshape((len(rows),) + tuple(shp))
            a = encode(a, code if part_first else '').astype(dtype)
            if units if force_units is None else force_units:
                a = ArrayWithUnits(a, [TimeDimension(Seconds(1), Milliseconds(1500))] +
                                   [TimeDimension(Milliseconds(10 + k)) if rng.random() < .4 else IdentityDimension() for k in range(len(shp))])
            elif rng.random() < .2 and not torchy:
                a = np.asfortranarray(a)
            return a
        case = dict(steps=[dict((k, v) for k, v in d.items() if k in ('k', 'f', 'w', 'm', 'sel')) for d in descr],
                    train=[[q(x) for x in r] for r in train], shape=list(shape), names=list(names),
                    what=[dtype, units, torchy], ops=[])
        for s in case['steps']:
            if s['k'] == 'mulaw':
                s['k'] = 'log'
        ev = dict(op='train', st='ok')
        case['ops'].append(ev)
        cases.append(case)
        data = build(train, shape, True)
        try:
            src = Source()
            nodes, prev, order = dict(src=src), src, []
            for i, mk in enumerate(makers):
                nodes['s%d' % i] = prev = mk(prev)
                order.append(prev)
            nodes['p'] = PreprocessingPipeline(needs=tuple(order))
            nodes['rec'] = rec = Recorder(needs=nodes['p'])
            run_graph(nodes, dict(src=[data]))
            pipe, = rec.got
        except Exception as ex:
            ev['st'] = ex.__class__.__name__
            case['err'] = repr(ex)[:300]
            return
        ids = [0]
        results = {}
        before = pickle.dumps(pipe)

        def part_rows(lo, hi, count):
            m = int(np.prod(shapes[lo]))
            if lo == 0 and code:
                return [coded_row(m, code) for _ in range(count)]
            if any(descr[i]['k'] == 'unit' for i in range(lo, hi)):
                return [pyth_row(m) for _ in range(count)]
            return [rng.choice([lambda: plain_row(m), lambda: plain_row(m), lambda: [Fr(0)] * m])() for _ in range(count)]

        def sub(p, lo, hi):
            if (lo, hi) == (0, len(descr)) and rng.random() < .7:
                return p
            k = rng.randrange(3)
            if k == 0:
                return p[list(range(lo, hi))]
            if k == 1:
                return p[lo:][:hi - lo]
            return p[slice(lo or None, hi)]

        def transform(p, lo, hi, rows, how='pipeline', ev=None, units_=None):
            shp = shapes[lo]
            opq = hi == len(descr) and descr[-1]['k'] == 'opaque'
            x = build(rows, shp, lo == 0, units_)
            keep = np.array(x)
            ids[0] += 1
            ev = dict(op='run', st='ok', id=ids[0], part=[i + 1 for i in range(lo, hi)], rows=[[q(v) for v in r] for r in rows],
                      shape=list(shp), out=[], oshape=[], tokens=[], tol=40 if loose else 3)
            try:
                if how == 'learned':
                    pp = sub(p, lo, hi)
                    src = Source()
                    node = Learned(learned=pp, version='1', pipeline_func=lambda v: v, dtype=rng.choice([None, dtype]), needs=src)
                    rec = Recorder(needs=node)
                    run_graph(dict(src=src, node=node, rec=rec), dict(src=[x]))
                    out = [g for g in rec.got if len(g)][0] if any(len(g) for g in rec.got) else rec.got[0]
                elif how == 'wrapped':
                    seen = []
                    out = sub(p, lo, hi).transform(x, wrapper=lambda d: seen.append(1) or d).data
                    if len(seen) != 1:
                        ev['st'] = 'WrapperNotUsedOnce'
                else:
                    r = sub(p, lo, hi).transform(x)
                    out = r.data
                    results[ev['id']] = (r, x, keep, lo, hi)
                ev['oshape'] = [int(v) for v in out.shape[1:]]
                if opq:
                    ev['tokens'] = [repr(np.asarray(row).tolist()) for row in out]
                    if kmeans:
                        # two centroids may be equally near
                        ev['tokens'] = ['one' if sorted(row)[-1] == 1 and sum(row) == 1 else 'not one' for row in out]
                    if descr[-1].get('what') == 'simhash' and 'uint64' not in str(out.dtype) and out.dtype != np.uint8:
                        ev['tokens'] = ['wrong type'] * len(rows)
                else:
                    ev['out'] = ints_of(out)
                if isinstance(x, ArrayWithUnits) and rows and not isinstance(out, ArrayWithUnits) and \
                        all(d['k'] in ('mul', 'meanstd', 'unit', 'abs', 'bin') and not d.get('torch') and not d.get('f64')
                            for d in descr[lo:hi]):
                    ev['st'] = 'UnitsGotLost'
                if not np.array_equal(keep, np.asarray(x), equal_nan=True):
                    ev['st'] = 'InputChanged'
            except Exception as ex:
                ev['st'] = ex.__class__.__name__
                ev['err'] = repr(ex)[:300]
            return ev

        def undo(rid):
            r, x, keep, lo, hi = results[rid]
            ev = dict(op='undo', st='ok', id=rid, out=[], oshape=[], kept=True, err=0, tol=40 if loose else 3,
                      fine=1000000 if loose else 1000)
            was = np.array(r.data)
            try:
                y = r.inverse_transform()
                ev['oshape'] = [int(v) for v in y.shape[1:]]
                ev['out'] = ints_of(decode(np.asarray(y, dtype='f8'), code if lo == 0 else ''))
                if isinstance(x, ArrayWithUnits):
                    ev['kept'] = isinstance(y, ArrayWithUnits) and len(y.dimensions) == len(x.dimensions) and \
                        all(a == b for a, b in zip(y.dimensions, x.dimensions))
                k = np.asarray(keep, dtype='f8')
                if k.size:
                    err = np.max(np.abs(np.asarray(y, dtype='f8') - k)) / (1 + np.max(np.abs(k)))
                    ev['err'] = int(min(2e9, np.nan_to_num(err * 1e9, nan=2e9, posinf=2e9)))
                if not np.array_equal(was, np.asarray(r.data), equal_nan=True):
                    ev['st'] = 'ResultChanged'
            except Exception as ex:
                ev['st'] = ex.__class__.__name__
                ev['xerr'] = repr(ex)[:300]
            return ev
        kmeans = descr[-1].get('what') == 'kmeans'
        everything = []

        def rows_for(lo, hi):
            if everything and (lo, hi) == (0, len(descr)) and rng.random() < .4:
                rows = rng.choice(everything)
                return [rng.choice(rows) for _ in range(rng.randint(1, 3))] if rows else rows
            rows = part_rows(lo, hi, rng.choice([1, 1, 2, 3, 5] + ([0] if not kmeans else [])))
            if (lo, hi) == (0, len(descr)):
                everything.append(rows)
            return rows
        p = pipe
        for _ in range(rng.randint(3, 8)):
            k = rng.random()
            if k < .5 or not results:
                lo, hi = (0, len(descr)) if rng.random() < .6 else sorted(rng.sample(range(len(descr) + 1), 2))
                with time_limit(60):
                    case['ops'].append(transform(p, lo, hi, rows_for(lo, hi),
                                                 rng.choice(['pipeline'] * 5 + ['learned', 'wrapped'])))
            elif k < .8:
                rid = rng.choice(list(results))
                r, x, keep, lo, hi = results[rid]
                if kmeans and hi == len(descr):
                    if hi - lo > 1:
                        continue
                    ev = dict(op='nearest', st='ok', rws=[], out=[], centers=[])
                    try:
                        y = r.inverse_transform()
                        g = lambda a: np.rint(np.asarray(a, dtype='f8') * 64).astype(int).reshape((len(a), -1)).tolist()
                        # centroids are means of training rows: compared in 64ths
                        ev['centers'], ev['out'], ev['rws'] = g(r.processors[0].op.codebook), g(y), g(keep)
                    except Exception as ex:
                        ev['st'] = ex.__class__.__name__
                    case['ops'].append(ev)
                else:
                    case['ops'].append(undo(rid))
            elif k < .9:
                try:
                    p = pickle.loads(pickle.dumps(p if rng.random() < .7 else sub(p, 0, len(descr))))
                except Exception as ex:
                    case['ops'].append(dict(op='train', st='saving: ' + ex.__class__.__name__))
                    case['err'] = repr(ex)[:300]
            else:
                # several at once
                jobs = [(0, len(descr), rows_for(0, len(descr))) for _ in range(3)]
                evs = [None] * 3

                def work(i):
                    evs[i] = transform(p, jobs[i][0], jobs[i][1], jobs[i][2])
                ts = [threading.Thread(target=work, args=(i,)) for i in range(3)]
                # numbering the runs is the harness's business
                base = ids[0]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(60)
                if any(v is None for v in evs):
                    case['ops'].append(dict(op='run', st='hang'))
                    return
                if len(set(v['id'] for v in evs)) == 3:
                    case['ops'] += evs
        for rid in list(results):
            if rng.random() < .5 and not kmeans:
                case['ops'].append(undo(rid))
        if not torchy and not any(d.get('f64') for d in descr):
            case['ops'].append(dict(op='same', st='ok', a=before == pickle.dumps(pipe), b=True, what='the pipeline'))
        for o in case['ops']:
            if 'err' in o and o['op'] == 'run':
                case['err'] = o.pop('err')
            if 'xerr' in o:
                case['err'] = o.pop('xerr')
    NORM = ('mul', 'half', 'reshape', 'perm', 'inst')
    STD = ('mul', 'half', 'weight', 'meanstd', 'shift', 'slice', 'perm', 'reshape', 'log', 'mulaw')
    for g in gen:
        one(g['steps'])
    lib = ['mul', 'weight', 'meanstd', 'shift', 'inst', 'unit', 'slice', 'perm', 'abs', 'reshape', 'bin', 'sharpen', 'oneway']
    for _ in range(ctx.n(500, 8000)):
        while True:
            names = [rng.choice(lib) for _ in range(rng.randint(1, 4))]
            if rng.random() < .2:
                names[0] = rng.choice(['log', 'mulaw'])
            if rng.random() < .35:
                names[-1] = rng.choice(['simhash', 'kmeans'])
            if all(x in NORM for i, n in enumerate(names) if n == 'unit' for x in names[:i]) and \
                    all(x in STD for i, n in enumerate(names) if n == 'meanstd' for x in names[:i]):
                break
        one(names)
    def make_canaries():
        can = []
        pool = [k for k in cases if k['ops'][0]['st'] == 'ok' and any(o['op'] == 'undo' and o['out'] and o['out'][0] for o in k['ops'])]
        for k in rng.sample(pool, 20):
            k = copy.deepcopy(k)
            o = rng.choice([o for o in k['ops'] if o['op'] in ('undo', 'run') and o.get('out') and o['out'][0]])
            m = rng.randrange(3)
            if m == 0:
                o['out'][-1][-1] += 200
            elif m == 1:
                o['out'].append(o['out'][0])
            else:
                o['oshape'] = o['oshape'] + [1]
            can.append(k)
        return can
    ctx.validate('LearnedPipelineTrace', cases, make_canaries, label='Pipeline')
