"""C39: learning that goes on until it is interrupted (EndlessLearning.tla)."""
import copy
import json
import os
import threading
import numpy as np
import torch
import featureflow as ff
from core import time_limit
from props.c20 import Tagged, Coder, Gan
from webapp import Quiet

BLANK = dict(op='', st='', want='', why='', n=0, rows=[], ok=True, tag=-1, late=-1, there=True)
STOPS = ('error', 'interrupt', 'kill')


class Failure(Exception):
    pass


class Same(ff.Node):
    def _process(self, data):
        yield data


def run(ctx):
    with Quiet():
        check(ctx)


def check(ctx):
    import zounds
    from zounds import infinite_streaming_learning_pipeline, learning_pipeline, ArrayWithUnits, IdentityDimension, TimeDimension, Seconds
    from zounds.learn import preprocess as P
    from zounds.learn.pytorch_model import PyTorchAutoEncoder, PyTorchNetwork, PyTorchGan
    torch.set_num_threads(1)
    rng = ctx.rng
    np.random.seed(ctx.seed * 11 + 7)
    ctx.design('EndlessLearning')
    gen = [g for g in ctx.generate('EndlessLearning', 'EndlessLearningGen') if 'begin' in g]
    rng.shuffle(gen)
    cases = []
    LEARNERS = dict(network=(PyTorchNetwork, Tagged), auto=(PyTorchAutoEncoder, Coder), gan=(PyTorchGan, Gan))

    class Late(P.Preprocessor):
        """a step that learns something and tells about it"""

        def __init__(self, late=None, factor=2., needs=None):
            super(Late, self).__init__(needs=needs)
            self.hook, self.factor = late, factor

        def _forward_func(self):
            def x(d, tag=None, factor=None):
                return d * factor
            return x

        def _backward_func(self):
            def x(d):
                return d
            return x

        def _process(self, data):
            data = self._extract_data(data)
            tag = self.hook(data)
            op = self.transform(tag=tag, factor=self.factor)
            yield P.PreprocessResult(op(data), op, inversion_data=self.inversion_data(), inverse=self.inverse_transform(), name='Late')

    class Early(Late):
        def __init__(self, early=None, needs=None):
            super(Early, self).__init__(late=early, factor=1., needs=needs)

    def settings(path, static=None):
        class S(ff.PersistenceSettings):
            id_provider = ff.StaticIdProvider(static) if static else ff.UserSpecifiedIdProvider(key='_id')
            key_builder = ff.StringDelimitedKeyBuilder('|')
            database = ff.FileSystemDatabase(path=path, key_builder=key_builder, createdirs=True) if path \
                else ff.InMemoryDatabase(key_builder=key_builder)
        if static:
            S._id = static
        return S

    def persisted(S):
        def x(cls):
            class M(cls, S):
                pass
            M.__name__, M.__module__ = cls.__name__, cls.__module__
            return M
        return x

    class Session(object):
        def __init__(self, number, ops, cap=None):
            self.ops, self.pos = ops, 0
            # (a stream that featureflow's in-memory database never got to see the end of may come back
            # and wipe out what was stored since, whenever it is garbage collected: pipelines live in files)
            # a Ctrl-C is never delivered to a worker thread
            self.parallel = 'interrupt' not in ops and rng.random() < .3
            files = 'kill' in ops or rng.random() < .2
            self.files, path = files, ctx.dir('learn%d' % number)
            self.kind = rng.choice(['network', 'network', 'auto', 'gan', ''])
            self.keep = rng.choice([1, 2, 3, 9, 9])
            self.cap = cap or rng.choice([1, 2, 3, 5, 10, 17, 40])
            self.dtype = rng.choice([None, np.float32, np.float64])
            self.source = rng.choice([np.float32, np.float64])
            self.units = rng.random() < .5
            self.case = dict(keep=self.keep, cap=self.cap, net=bool(self.kind), all=False, events=[])
            self.lock = threading.RLock()
            self.sizes, self.run, self.round = [], 0, 0
            self.drawing = True
            self.make(number, path)

        def put(self, op, **kw):
            ev = copy.deepcopy(dict(BLANK, op=op, **kw))
            self.case['events'].append(ev)
            return ev

        def make(self, number, path):
            self.Doc = persisted(settings(os.path.join(path, 'docs') if self.files else None))(type('Doc', (ff.BaseModel,), dict(
                rows=(zounds.ArrayWithUnitsFeature if self.units else ff.PickleFeature)(Same, store=True))))
            steps, ns, last = [], {}, None
            for i in range(rng.randint(0, 3)):
                k = rng.choice(['mul', 'weight', 'abs'])
                if k == 'mul':
                    cls, args = P.Multiply, dict(factor=rng.choice([2., .5, -4.]))
                elif k == 'weight':
                    cls, args = P.Weighted, dict(weighting=np.array([rng.choice([2., .5]), -3.]))
                else:
                    cls, args = P.AbsoluteValue, {}
                steps.append((k, args))
                last = ns['step%d' % i] = ff.PickleFeature(cls, needs=last, **args)
            self.steps = steps
            if self.kind:
                needs = dict(data=last) if self.kind == 'network' and last is not None else last
                last = ns['net'] = ff.PickleFeature(LEARNERS[self.kind][0], trainer=ff.Var('trainer'), needs=needs)
            else:
                last = ns['early'] = ff.PickleFeature(Early, early=ff.Var('early'), needs=last)
            ns['late'] = ff.PickleFeature(Late, late=ff.Var('late'), needs=last)
            if self.kind == 'network' and not steps:
                # a network needs to know the name of what it learns from
                ns = dict([('step0', ff.PickleFeature(P.Multiply, factor=2.))] + list(ns.items()))
                self.steps = [('mul', dict(factor=2.))]
                ns['net'] = ff.PickleFeature(PyTorchNetwork, trainer=ff.Var('trainer'), needs=dict(data=ns['step0']))
                ns['late'] = ff.PickleFeature(Late, late=ff.Var('late'), needs=ns['net'])
            name = rng.choice(['Net', 'Pipe%d' % number])
            cls = type(name, (ff.BaseModel,), ns)
            ev = self.put('class', n=1)
            self.Net = infinite_streaming_learning_pipeline(cls)
            ev.update(st='ok', ok=self.Net.__name__ == name and self.Net.__module__ == cls.__module__)
            self.Net = persisted(settings(os.path.join(path, 'nets'), 'net'))(self.Net)

        # the value of row i of document d, and what the steps make of it
        def values(self, d, n):
            ids = np.array([(-1) ** i * (100. * d + i) for i in range(1, n + 1)])
            return np.stack([ids, np.ones(n)], axis=1).reshape(n, 2).astype(self.source)

        def apply(self, x):
            for k, args in self.steps:
                x = x * args['factor'] if k == 'mul' else x * args['weighting'] if k == 'weight' else np.abs(x)
            return x

        def decode(self, y):
            y = np.asarray(y)
            known = {}
            for d in range(1, len(self.sizes) + 1):
                raw = self.values(d, self.sizes[d - 1])
                for i, row in enumerate(self.apply(raw)):
                    known[tuple(np.round(row.astype('f8'), 3))] = [d, i + 1]
            want = self.apply(np.zeros((1, 2), dtype=self.dtype or self.source)).dtype
            rows = [known.get(tuple(np.round(r.astype('f8'), 3)), [0, 0]) for r in y]
            return rows, [0, 0] not in rows and y.dtype == want

        def add(self, n=None):
            d = len(self.sizes) + 1
            n = n or rng.choice([1, 1, 2, 3, 5]) if d == 1 else rng.choice([0, 1, 2, 3, 5])
            ev = self.put('doc', n=n)
            try:
                x = self.values(d, n)
                if self.units:
                    x = ArrayWithUnits(x, [TimeDimension(Seconds(1)), IdentityDimension()])
                self.Doc.process(_id='doc%d' % d, rows=x)
                self.sizes.append(n)
                ev['st'] = 'ok'
            except Exception as ex:
                ev.update(st=ex.__class__.__name__, why=str(ex))

        def look(self):
            ev = self.put('look')
            try:
                ev['there'] = bool(self.Net.exists())
            except Exception as ex:
                ev.update(there=False, why=str(ex))
            try:
                net = self.Net.load_network()
                part = net if self.kind == 'network' else net.encoder if self.kind == 'auto' else net.generator
                ev.update(st='ok', tag=int(part.layer.weight[0, 0].item()), ok=not net.training)
            except RuntimeError as ex:
                ev.update(st='none', why=str(ex))
            except Exception as ex:
                ev.update(st=ex.__class__.__name__, why=str(ex))
            try:
                pipe = self.Net().pipeline
                parts = list(pipe)
                ev['late'] = int(parts[-1].op.kwargs['tag'])
                x = self.values(7, 3).astype(self.dtype or self.source)
                y = np.asarray(pipe.transform(x).data, dtype='f8')
                want = self.apply(x)
                if self.kind:
                    want = want.sum(axis=1, keepdims=True) * ev['late'] * np.ones((1, 2))
                ok = len(parts) == len(self.steps) + 2 and y.shape == want.shape and np.allclose(y, 2 * want, rtol=1e-5)
                ev['ok'] = bool(ev['ok'] and ok)
            except Exception as ex:
                ev.update(ok=False, why=ev['why'] + ' / %s: %s' % (ex.__class__.__name__, ex))

        def hook(self, done):
            """plays what happens meanwhile"""
            while self.pos < len(self.ops):
                op = self.ops[self.pos]
                self.pos += 1
                if op == 'doc':
                    self.add()
                elif op == 'look':
                    self.look()
                elif op == 'error':
                    raise Failure()
                elif op == 'interrupt':
                    raise KeyboardInterrupt()
                elif op == 'kill':
                    self.tell()
                    os._exit(0)
                elif op == done:
                    return
                else:
                    raise AssertionError('%s instead of %s' % (op, done))
            raise Failure()

        def tell(self):
            os.write(self.pipe, json.dumps([self.case['events'][self.mark:], self.pos, self.sizes, self.run]).encode())

        batch_size = 4

        def train(self, data):
            # as trainer
            ev = self.put('train')
            if self.kind == 'network':
                ok = isinstance(data, dict) and list(data) == ['data']
            elif self.kind == 'auto':
                ok = isinstance(data, dict) and sorted(data) == ['data', 'labels'] and np.array_equal(data['data'], data['labels'])
            else:
                ok = not isinstance(data, dict)
            if ok:
                ev['rows'], ok = self.decode(data['data'] if isinstance(data, dict) else data)
            ev['ok'] = bool(ok)
            self.round += 1
            self.hook('learn')
            return LEARNERS[self.kind][1](10 * self.run + self.round)

        def early(self, data):
            ev = self.put('train')
            ev['rows'], ok = self.decode(data)
            ev['ok'] = bool(ok)
            self.round += 1
            self.hook('learn')
            return 10 * self.run + self.round

        def late(self, data):
            ev = self.put('late')
            tag = 10 * self.run + self.round
            x = np.asarray(data, dtype='f8')
            prior = [v for v in self.case['events'] if v['op'] == 'train'][-1]['rows']
            want = self.apply(np.concatenate([self.values(d, i)[i - 1:] for d, i in prior] or [np.zeros((0, 2))]).astype(self.dtype or self.source))
            if self.kind:
                want = want.sum(axis=1, keepdims=True) * tag * np.ones((1, 2))
            ev['ok'] = bool(x.shape == want.shape and np.allclose(x, want, rtol=1e-5))
            self.drawing = True
            self.hook('store')
            return tag

        def pick(self, x, run):
            # as feature filter; threads of a run that has failed may still be busy
            with self.lock:
                if self.drawing and run == self.run:
                    self.drawing = False
                    self.put('draw')
                    self.hook('sample')
            return x[:self.keep]

        def process(self, **kw):
            args = dict(dataset=(self.Doc, self.Doc.rows), nsamples=self.cap, dtype=self.dtype, feature_filter=lambda x, r=self.run: self.pick(x, r), parallel=self.parallel)
            if self.kind:
                args['trainer'] = self
            else:
                args['early'] = self.early
            args['late'] = self.late
            args.update(kw)
            self.Net.process(**args)

        def one_run(self):
            self.mark = len(self.case['events'])
            stops = [o for o in self.ops[self.pos:] if o in STOPS]
            want = stops[0] if stops else 'error'
            if want != 'kill':
                return self.learn(want)
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                try:
                    os.close(r)
                    self.pipe = w
                    self.learn(want)
                    self.tell()
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                got = f.read()
            os.waitpid(pid, 0)
            if not got:
                raise RuntimeError('the process that learns said nothing')
            events, self.pos, self.sizes, self.run = json.loads(got.decode())
            self.case['events'] += events
            if events[-1]['op'] != 'end':
                self.put('end', st='kill', want='kill')

        def learn(self, want):
            self.run, self.round, self.drawing = self.run + 1, 0, True
            self.put('begin')
            try:
                with time_limit(30):
                    self.process()
                st = 'nothing'
            except Failure:
                st = 'error'
            except KeyboardInterrupt:
                st = 'interrupt'
            except Exception as ex:
                import traceback
                st = ex.__class__.__name__
                self.case['err'] = traceback.format_exc()[-1200:]
            self.put('end', st=st, want=want)

        def play(self, docs, size=None):
            for _ in range(docs):
                self.add(size)
            while self.pos < len(self.ops):
                op = self.ops[self.pos]
                self.pos += 1
                if op == 'doc':
                    self.add()
                elif op == 'look':
                    self.look()
                elif op == 'begin':
                    self.one_run()
                    if rng.random() < .7:
                        self.look()
                    if rng.random() < .1:
                        self.bad()
                if self.case['events'][-1]['st'] not in ('', 'ok', 'none', 'error', 'interrupt', 'kill', 'ValueError'):
                    break
            cases.append(self.case)

        def bad(self):
            # nothing is begun
            ev = self.put('bad')
            try:
                with time_limit(30):
                    self.process(nsamples=rng.choice([0, -1, 2.5, '3']))
                ev['st'] = 'nothing'
            except ValueError:
                ev['st'] = 'ValueError'
            except Exception as ex:
                ev.update(st=ex.__class__.__name__, why=str(ex))
            self.look()

    kills = [g for g in gen if 'kill' in g]
    others = [g for g in gen if 'kill' not in g and sum(o in STOPS for o in g) < 3]
    many = [g for g in others if g.count('store') >= 1]
    number = 0
    for group, q, t in ((kills, 80, 700), (others, 150, 1500), (many, 200, 2500)):
        for g in group[:ctx.n(q, t)]:
            number += 1
            Session(number, g).play(rng.randint(1, 3))
    # plenty of samples of a few rows, over many rounds
    for _ in range(ctx.n(12, 60)):
        number += 1
        rounds = rng.randint(1, 6)
        s = Session(number, ['begin'] + ['sample', 'learn', 'store'] * rounds + ['look', rng.choice(['error', 'error', 'interrupt'])], cap=900)
        s.play(rng.randint(1, 3))

    # few samples of many rows: the others have their turn in later rounds
    for _ in range(ctx.n(3, 20)):
        number += 1
        s = Session(number, ['begin'] + ['sample', 'learn', 'store'] * 60 + ['error'], cap=4)
        s.keep = s.case['keep'] = 9
        s.case['all'] = True
        s.play(1, 8)

    # classes that can't be made endless
    case = dict(keep=1, cap=1, net=True, all=False, events=[])
    for n in (1, 2, 3, 1, 2):
        ns = dict(('root%d' % i, ff.PickleFeature(P.Multiply, factor=2.)) for i in range(n))
        if rng.random() < .5:
            ns['more'] = ff.PickleFeature(P.AbsoluteValue, needs=ns['root0'])
        ev = copy.deepcopy(dict(BLANK, op='class', n=n))
        try:
            ev['ok'] = infinite_streaming_learning_pipeline(type('X', (ff.BaseModel,), ns)).__name__ == 'X'
            ev['st'] = 'ok'
        except ValueError:
            ev['st'] = 'ValueError'
        except Exception as ex:
            ev['st'] = ex.__class__.__name__
        case['events'].append(ev)
    cases.append(case)

    # a finite number of samples
    for _ in range(ctx.n(15, 150)):
        case = dict(keep=1, cap=1, net=True, all=False, events=[])
        Base = learning_pipeline()
        seen = []

        @zounds.simple_in_memory_settings
        class Pipe(Base):
            taken = ff.PickleFeature(Early, early=ff.Var('early'), needs=Base.shuffled)
            pipeline = ff.PickleFeature(P.PreprocessingPipeline, needs=(taken,), store=True)
        for _ in range(rng.randint(1, 3)):
            n, cap = rng.randint(1, 8), rng.choice([1, 2, 5, 20, 500])
            dtype = rng.choice([None, np.float32, np.int32, np.float64])
            ids = np.arange(1, n + 1)
            x = np.stack([ids, -ids], axis=1).astype(rng.choice(['f4', 'f8', 'i8']))
            reps = max(1, cap * 4 // n) if cap >= 50 * n else 1
            chunks = [x] * reps if reps > 1 else np.split(x, sorted(rng.sample(range(1, n), rng.randint(0, n - 1))))
            ev = copy.deepcopy(dict(BLANK, op='samples', n=n, tag=cap))
            try:
                _id = Pipe.process(samples=iter(chunks), nsamples=cap, dtype=dtype, early=lambda d: seen.append(np.array(d)))
                got = seen[-1]
                ev['ok'] = bool(len(list(Pipe(_id).pipeline)) == 1 and got.dtype == (dtype or x.dtype) and got.shape[1:] == (2,) and np.array_equal(got[:, 0], -got[:, 1]))
                ev['rows'] = [[1, int(v)] for v in got[:, 0]]
                ev['st'] = 'ok'
            except Exception as ex:
                ev.update(st=ex.__class__.__name__, why=str(ex))
            case['events'].append(ev)
        cases.append(case)

    def make_canaries():
        can = []

        def some(f, **kw):
            for x in cases:
                for i, ev in enumerate(x['events']):
                    if ev['op'] == 'look' and [v['op'] for v in x['events'][max(0, i - 2):i]] != ['late', 'draw']:
                        continue    # there may be nothing to see
                    if all(v(ev[k]) if callable(v) else ev[k] == v for k, v in kw.items()):
                        x = copy.deepcopy(x)
                        f(x['events'][i])
                        return can.append(x)
        some(lambda v: v.update(rows=v['rows'] + [[9, 9]]), op='train')
        some(lambda v: v.update(rows=[]), op='train')
        some(lambda v: v.update(ok=False), op='train')
        some(lambda v: v.update(rows=v['rows'] * 900), op='train')
        some(lambda v: v.update(st='nothing'), op='end')
        some(lambda v: v.update(late=v['late'] + 1), op='look', late=lambda t: t > 0, st='ok')
        some(lambda v: v.update(tag=v['tag'] - 1), op='look', late=lambda t: t > 0, st='ok')
        some(lambda v: v.update(ok=False), op='look', late=lambda t: t > 0, st='ok')
        some(lambda v: v.update(st='ok'), op='class', n=2)
        some(lambda v: v.update(rows=[[1, 99]]), op='samples')
        for x in cases:
            if x['all']:
                x = copy.deepcopy(x)
                for v in x['events']:
                    v['rows'] = [r if r != [1, 5] else [1, 4] for r in v['rows']]
                can.append(x)
                break
        for x in cases:
            k = [i for i, v in enumerate(x['events']) if v['op'] == 'late']
            if k:
                x = copy.deepcopy(x)
                del x['events'][[i for i, v in enumerate(x['events'][:k[0]]) if v['op'] == 'train'][-1]]
                can.append(x)
                break
        return can
    ctx.validate('EndlessLearningTrace', cases, make_canaries)
