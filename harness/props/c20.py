"""C20: learning from several inputs (LearnBarrier.tla)."""
import copy
import threading
import numpy as np
import torch
from torch import nn
from stream import Source, Recorder, run_graph
from core import time_limit


class Tagged(nn.Module):
    def __init__(self, tag, size=2):
        super(Tagged, self).__init__()
        self.tag, self.size = tag, size
        self.layer = nn.Linear(size, size, bias=False)
        self.layer.weight.data[...] = float(tag)

    def forward(self, x):
        return self.layer(x.to(self.layer.weight.dtype))


class Coder(nn.Module):
    def __init__(self, tag, size=2):
        super(Coder, self).__init__()
        self.tag, self.size = tag, size
        self.encoder = Tagged(tag, size)
        self.decoder = Tagged(tag, size)


class Gan(nn.Module):
    def __init__(self, tag, size=2):
        super(Gan, self).__init__()
        self.tag, self.size = tag, size
        self.generator = Tagged(tag, size)
        self.discriminator = Tagged(tag, size)


class Trainer(object):
    """remembers what it was called with; every training gives another network"""
    batch_size = 16

    def __init__(self, cls):
        self.cls, self.calls, self.lock = cls, [], threading.Lock()

    def train(self, data):
        with self.lock:
            if isinstance(data, dict):
                got = dict((k, np.array(v)) for k, v in data.items())
            else:
                got = np.array(data)
            net = self.cls(len(self.calls) + 1)
            self.calls.append((got, net))
            return net


def run(ctx):
    import featureflow as ff
    from zounds import ArrayWithUnits, IdentityDimension, TimeDimension, Seconds, PreprocessingPipeline, simple_in_memory_settings
    from zounds.learn import preprocess as P, ReservoirSampler, ShuffledSamples
    from zounds.learn.pytorch_model import PyTorchAutoEncoder, PyTorchNetwork, PyTorchGan
    torch.set_num_threads(1)
    rng = ctx.rng
    np.random.seed(ctx.seed * 13 + 5)
    ctx.design('LearnBarrier')
    gen = []
    for cfg, q, t in (('LearnBarrierGen1', 100, 400), ('LearnBarrierGen2', 350, 3000), ('LearnBarrierGen', 350, 4000)):
        gen += ctx.generate('LearnBarrier', cfg, limit=ctx.n(q, t))
    cases = []

    class Collect(ff.Node):
        """hands on everything that arrived, in order, when it has ended"""

        def __init__(self, needs=None):
            super(Collect, self).__init__(needs=needs)
            self.arr = []

        def _enqueue(self, data, pusher):
            self.arr.append(data)

        def _dequeue(self):
            if not self._finalized:
                raise ff.NotEnoughData()
            return np.concatenate(self.arr)

    def chunk(i, k, n, units):
        ids = [100 * i + 10 * k + j for j in range(1, n + 1)]
        a = np.array([[x, x] for x in ids], dtype='f8').reshape(n, 2)
        return ArrayWithUnits(a, [TimeDimension(Seconds(1)), IdentityDimension()]) if units else a

    def make_step(kind):
        if kind == 'meanstd':
            return P.MeanStdNormalization, {}
        if kind == 'mul':
            return P.Multiply, dict(factor=rng.choice([2., .5, -4., 8., -1.]))
        if kind == 'weight':
            return P.Weighted, dict(weighting=np.array([rng.choice([2., 4.]), -.5]))
        k = rng.choice([1, 2, 3])
        return P.BasePreprocessor, dict(forward=eval('lambda x: x + %d000' % k), backward=eval('lambda x: x - %d000' % k), name='shift%d' % k)

    def affine(kind, args, result):
        """column 0 of what comes out is a * x + b"""
        if kind == 'meanstd':
            s = float(np.asarray(result.op.kwargs['std'])[0]) or 1.
            return 1 / s, -float(np.asarray(result.op.kwargs['mean'])[0]) / s
        if kind == 'mul':
            return args['factor'], 0.
        if kind == 'weight':
            return float(args['weighting'][0]), 0.
        return 1., float(args['name'][5:]) * 1000

    def decode(arr, maps):
        y = np.asarray(arr, dtype='f8')[:, 0]
        for a, b in maps[::-1]:
            y = (y - b) / a
        r = np.rint(y)
        return [int(x) if abs(x - z) < 1e-3 else -1 for x, z in zip(r, y)]

    def learner_kind(n):
        return rng.choice(['network', 'auto', 'gan']) if n == 1 else 'network'

    def names_for(n):
        names = ['data'] + rng.sample(['labels', 'x', 'aux', 'data2', 'a'], n - 1)
        return names

    def learner_args(kind, trainer, prep):
        if kind != 'network':
            return dict(trainer=trainer)
        return dict(trainer=trainer, chunksize=rng.choice([None, 2]), **prep)

    CLS = dict(network=PyTorchNetwork, auto=PyTorchAutoEncoder, gan=PyTorchGan)
    NET = dict(network=Tagged, auto=Coder, gan=Gan)

    def prep_func(log):
        k = rng.randrange(3)
        if k == 0:
            return {}
        return dict(training_set_prep=lambda d: (log.append(1), dict(d))[1], post_training_func=(lambda x: x[:2]) if k == 2 else None)

    def observed(calls, kind, names, maps):
        """what the trainer was given: ids per input"""
        out = []
        for got, _ in calls:
            if kind == 'network':
                ok = isinstance(got, dict) and sorted(got) == sorted(names)
                data = [decode(got[x], m) if isinstance(got, dict) and x in got else [] for x, m in zip(names, maps)]
            elif kind == 'auto':
                ok = isinstance(got, dict) and sorted(got) == ['data', 'labels'] and np.array_equal(got['data'], got['labels'])
                data = [decode(got['data'], maps[0])]
            else:
                ok = isinstance(got, np.ndarray)
                data = [decode(got, maps[0])] if ok else [[]]
            out.append(dict(names=bool(ok), data=data))
        return out

    def graph_case(g):
        n = len(g['sizes'])
        streaming = g['streaming']
        units = rng.random() < .3
        sizes = [[rng.randint(1, 5) for _ in s] for s in g['sizes']]
        how, nodes, feeds, last, stepinfo = [], {}, {}, [], []
        kind = learner_kind(n)
        trainer, names = Trainer(NET[kind]), names_for(n)
        for i in range(1, n + 1):
            s = Source()
            nodes['s%d' % i] = s
            feeds['s%d' % i] = [chunk(i, k + 1, z, units) for k, z in enumerate(sizes[i - 1])]
            total = sum(sizes[i - 1])
            if not streaming:
                c = rng.choice(['collect', 'reservoir', 'reservoir', 'shuffled'])
                if c == 'collect':
                    s = Collect(needs=s)
                elif c == 'reservoir':
                    s = ReservoirSampler(nsamples=max(total, 1) + rng.choice([0, 0, 3]), needs=s)
                else:
                    s = ShuffledSamples(nsamples=max(total, 1) * 3, needs=s)
                how.append(dict(collect='exact', reservoir='bag', shuffled='some')[c])
                nodes['c%d' % i] = s
            else:
                how.append('exact')
            info = []
            for t in range(g['steps'][i - 1]):
                sk = rng.choice(['meanstd', 'meanstd', 'mul', 'weight', 'shift'])
                cls, args = make_step(sk)
                s = cls(needs=s, **args)
                rec = Recorder(needs=s)
                nodes['n%d_%d' % (i, t)], nodes['r%d_%d' % (i, t)] = s, rec
                info.append((sk, args, s, rec))
            stepinfo.append(info)
            last.append(s)
        preps = []
        order = list(range(n))
        rng.shuffle(order)
        needs = dict((names[k], last[k]) for k in order) if kind == 'network' else last[0]
        learner = CLS[kind](needs=needs, **learner_args(kind, trainer, prep_func(preps)))
        nodes['learner'] = learner
        nodes['rl'] = lrec = Recorder(needs=learner)
        parts = [(learner, lrec)] + [(info[-1][2], info[-1][3]) for info in stepinfo if info]
        if rng.random() < .6:
            # the pipeline needn't be about every input, or may hold earlier steps too
            parts += [(x[2], x[3]) for info in stepinfo for x in info[:-1]]
        rng.shuffle(parts)
        if rng.random() < .3:
            keep = rng.sample(parts, rng.randint(1, len(parts)))
            parts = keep if any(p[0] is learner for p in keep) else keep + [parts[[p[0] for p in parts].index(learner)]]
        pneeds = [p[0] for p in parts]
        if rng.random() < .3:
            pneeds = dict(('part%d' % k, p) for k, p in enumerate(pneeds))
        nodes['pipe'] = PreprocessingPipeline(needs=pneeds)
        nodes['rp'] = prec = Recorder(needs=nodes['pipe'])
        items = list(nodes.items())
        rng.shuffle(items)
        nodes = dict(items)
        d = dict(streaming=streaming, sizes=sizes, how=how, aligned=False, nparts=len(parts), kind=kind, steps=g['steps'], events=[])
        at = dict(t=0, b=0)

        def results(rec):
            return [x for x in rec.got if x is not None]

        def observe(ev):
            calls = trainer.calls[at['t']:]
            out = []
            for k, call in enumerate(calls):
                rnd = at['t'] + k
                maps = []
                for info in stepinfo:
                    m = []
                    for sk, args, node, rec in info:
                        rs = results(rec)
                        m.append(affine(sk, args, rs[rnd]) if rnd < len(rs) else (1., 0.))
                    maps.append(m)
                out += observed([call], kind, names, maps)
            ev['trained'] = out
            pipes = results(prec)
            for p in pipes[at['b']:]:
                row = []
                for k, step in enumerate(p.processors):
                    rs = results(parts[k][1]) if k < len(parts) else []
                    row.append([r + 1 for r, x in enumerate(rs) if x.op.version == step.op.version])
                ev['built'].append(row)
            at['t'], at['b'] = len(trainer.calls), len(pipes)

        def blank(i):
            return dict(i=i, st='ok', trained=[], built=[])

        def after(name):
            ev = blank(int(name[1:]))
            d['events'].append(ev)
            observe(ev)
        try:
            with time_limit(30):
                run_graph(nodes, feeds, ['s%d' % i for i in g['schedule']], after)
                # nothing more comes when all is over
                before = len(trainer.calls), len(results(prec))
                if before != (at['t'], at['b']) or (preps and len(preps) != at['t']):
                    d['events'][-1]['st'] = 'LearnedAfterTheEnd'
        except Exception as ex:
            import traceback
            d['events'].append(dict(blank(g['schedule'][len(d['events'])] if len(d['events']) < len(g['schedule']) else 0), st=ex.__class__.__name__))
            d['err'] = traceback.format_exc()[-1500:]
        cases.append(d)

    for g in gen:
        graph_case(g)
    # long streams
    for _ in range(ctx.n(30, 500)):
        n, k = rng.randint(1, 4), rng.randint(3, 8)
        sch = []
        for _ in range(k + 1):
            r = list(range(1, n + 1))
            rng.shuffle(r)
            sch += r
        graph_case(dict(streaming=True, steps=[rng.randint(0, 4) for _ in range(n)], sizes=[[1] * k for _ in range(n)], schedule=sch))
    for _ in range(ctx.n(30, 500)):
        n = rng.randint(2, 5)
        sz = [[1] * rng.randint(1, 8) for _ in range(n)]
        sch = [i + 1 for i, s in enumerate(sz) for _ in range(len(s) + 1)]
        rng.shuffle(sch)
        graph_case(dict(streaming=False, steps=[rng.randint(0, 4) for _ in range(n)], sizes=sz, schedule=sch))

    # whole models, several runs one after the other or at the same time
    def model_case():
        n = rng.randint(1, 3)
        multi = n > 1 and rng.random() < .4
        kind = learner_kind(n)
        names = names_for(n)
        stepkinds = [[rng.choice(['meanstd', 'mul', 'weight', 'shift']) for _ in range(rng.randint(0, 2))] for _ in range(n)]
        if multi:
            # aspects are only for what is computed from them
            stepkinds = [s or ['mul'] for s in stepkinds]
        built = {}
        trainer = Trainer(NET[kind])
        ns = {}
        how = []
        maxn = 24
        if multi:
            ns['root'] = ff.PickleFeature(ff.IteratorNode, store=False)
            ns['shuffled'] = ff.PickleFeature(ShuffledSamples, nsamples=60, multiplexed=True, needs=ns['root'], store=False)
        laststeps, partfeats, info = [], [], []
        for i in range(n):
            if multi:
                f = ns['shuffled'].aspect(names[i])
                how.append('some')
            else:
                r = ff.PickleFeature(ff.IteratorNode, store=False)
                ns['root%d' % i] = r
                c = rng.choice(['reservoir', 'shuffled'])
                f = ff.PickleFeature(ReservoirSampler if c == 'reservoir' else ShuffledSamples, nsamples=60, needs=r, store=False)
                ns['samples%d' % i] = f
                how.append('bag' if c == 'reservoir' else 'some')
            row = []
            for t, sk in enumerate(stepkinds[i]):
                cls, args = make_step(sk)
                f = ff.PickleFeature(cls, needs=f, store=False, **args)
                ns['step%d_%d' % (i, t)] = f
                row.append((sk, args))
                partfeats.append((f, i, t))
            info.append(row)
            laststeps.append(f)
        ns['learner'] = ff.PickleFeature(CLS[kind], needs=dict(zip(names, laststeps)) if kind == 'network' else laststeps[0],
                                         trainer=trainer, store=False)
        partfeats.append((ns['learner'], -1, -1))
        rng.shuffle(partfeats)
        ns['pipeline'] = ff.PickleFeature(PreprocessingPipeline, needs=tuple(p[0] for p in partfeats), store=True)
        Model = simple_in_memory_settings(type('Model', (ff.BaseModel,), ns))
        runs = []
        nruns = rng.randint(1, 3)
        for r in range(nruns):
            k = rng.randint(1, 4)
            if multi:
                sz = [rng.randint(1, 5) for _ in range(k)]
                sizes = [list(sz) for _ in range(n)]
            else:
                sizes = [[rng.randint(1, 5) for _ in range(rng.randint(1, 4))] for _ in range(n)]
            base = 1000 * (r + 1)

            def feed(i, sizes=sizes, base=base):
                for k, z in enumerate(sizes[i]):
                    yield chunk(i + 1, k + 1, z, False) + base

            def feed_all(sizes=sizes, base=base):
                for k, z in enumerate(sizes[0]):
                    yield dict((names[i], chunk(i + 1, k + 1, z, False) + base) for i in range(n))
            kw = dict(root=feed_all()) if multi else dict(('root%d' % i, feed(i)) for i in range(n))
            runs.append(dict(sizes=sizes, base=base, kw=kw, st='ok', id=None))

        def go(r):
            try:
                r['id'] = Model.process(**r['kw'])
            except Exception as ex:
                r['st'] = ex.__class__.__name__
                import traceback
                r['err'] = traceback.format_exc()[-1500:]
        with time_limit(60):
            if rng.random() < .5:
                for r in runs:
                    go(r)
            else:
                ts = [threading.Thread(target=go, args=(r,)) for r in runs]
                [t.start() for t in ts]
                [t.join() for t in ts]
        used = 0
        for r in runs:
            d = dict(streaming=False, sizes=r['sizes'], how=how, aligned=multi, nparts=len(partfeats), kind=kind, runs=nruns, events=[])
            ev = dict(i=0, st=r['st'], trained=[], built=[])
            d['events'].append(ev)
            if 'err' in r:
                d['err'] = r['err']
            if r['st'] == 'ok':
                try:
                    p = Model(r['id']).pipeline
                    tags, row, maps = [], [], [[None] * len(x) for x in info]
                    for (f, i, t), step in zip(partfeats, p.processors):
                        if i == -1:
                            tags.append(step.op.network.tag)
                        elif 'network' in step.op.kwargs:
                            continue
                        else:
                            maps[i][t] = affine(info[i][t][0], info[i][t][1], step)
                    mine = [trainer.calls[tag - 1] for tag in tags]
                    out = observed(mine, kind, names, maps)
                    for o in out:
                        o['data'] = [[x - r['base'] if x > 0 else -1 for x in ids] for ids in o['data']]
                    ev['trained'] = out
                    for (f, i, t), step in zip(partfeats, p.processors):
                        if i == -1:
                            row.append([1] if 'network' in step.op.kwargs else [])
                        else:
                            want = dict(meanstd='MeanStd', mul='Multiply', weight='Weighted').get(info[i][t][0], info[i][t][1].get('name'))
                            same = step.name == want
                            if want == 'Multiply':
                                same = same and step.op.kwargs['factor'] == info[i][t][1]['factor']
                            row.append([1] if same else [])
                    ev['built'] = [row] if len(p.processors) == len(partfeats) else [[[]] * len(p.processors)]
                    used += len(tags)
                except Exception as ex:
                    import traceback
                    ev['st'] = ex.__class__.__name__
                    d['err'] = traceback.format_exc()[-1500:]
            cases.append(d)
        if all(r['st'] == 'ok' for r in runs) and len(trainer.calls) != nruns:
            # somebody learned again
            cases[-1]['events'][0]['trained'] = cases[-1]['events'][0]['trained'] * 2
    for _ in range(ctx.n(80, 1000)):
        model_case()
    def make_canaries():
        can = []
        pool = [k for k in cases if any(v['trained'] for v in k['events']) and k['events'][-1]['st'] == 'ok']
        for k in rng.sample(pool, 15):
            k = copy.deepcopy(k)
            vs = [v for v in k['events'] if v['trained']]
            v = rng.choice(vs)
            m = rng.randrange(5)
            if m == 0:
                v['trained'].append(v['trained'][0])
            elif m == 1:
                v['trained'][0]['data'][0][0] = 998
            elif m == 2:
                v['built'] = []
            elif m == 3:
                v['built'][0][0] = []
            else:
                v['trained'][0]['names'] = False
            can.append(k)
        return can
    ctx.validate('LearnBarrierTrace', cases, make_canaries, label='LearnBarrier')
