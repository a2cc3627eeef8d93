"""Builds learned steps from descriptions, and serves them from a process of
its own (python versions.py DIR: one JSON command per line)."""
import base64
import json
import os
import pickle
import random
import sys

import numpy as np
import torch
from torch import nn

STATE = random.Random(os.getpid())


class Net(nn.Module):
    def __init__(self, size, hidden, act='relu', unused=0):
        super(Net, self).__init__()
        self.size, self.hidden, self.act, self.unused = size, hidden, act, unused
        self.one = nn.Linear(size, hidden)
        self.two = nn.Linear(hidden, size)

    def forward(self, x):
        x = self.one(x.to(self.one.weight.dtype))
        return self.two(torch.relu(x) if self.act == 'relu' else torch.tanh(x))


class Shift(object):
    """an estimator"""

    def __init__(self, by=None):
        self.by = by

    def fit(self, data):
        return self

    def transform(self, data):
        return data + self.by

    def inverse_transform(self, data):
        return data - self.by


class Handed(object):
    batch_size = 16

    def __init__(self, network, batch_size=16):
        self.network, self.batch_size = network, batch_size

    def train(self, data):
        return self.network


FUNCS = [
    'return d + 1', 'return d + 2', 'return d - 1', 'return 1 - d', 'return np.abs(d)', 'return np.sign(d)', 'return d.real', 'return d.imag',
    'return (lambda y: y + 1)(d)', 'return (lambda y: y + 3)(d)',
    "return d if 'a' in {'a', 'b', 'c', 'dd'} else d * 2", "return d if 'a' in {'a', 'b', 'c', 'e'} else d * 2",
    "return d.astype('f4')", "return d.astype('f2')", 'return d * sum((1, 2, 3, 4))', 'return d * sum((1, 2, 3, 40))',
    'return d + (lambda k: (lambda y: y * k))(2)(d)', 'return d + (lambda k: (lambda y: y * k))(5)(d)',
    'return d[::-1]', 'return d[::-2]', 'import math; return d * math.floor(7.5)', 'import math; return d * math.ceil(7.5)',
    'return d * (100 if len(d) > 1000 else 1)', 'return d * (100 if len(d) >= 1000 else 1)', 'return -d', 'return +d',
    'return d * 1.1', 'return d * 1.1000000000000003', "return d * len('ab')", "return d * len('ba')",
    'return np.clip(d, 0, 1)', 'return np.clip(d, 1, 0)',
]
W = [1., 2., 3., 4.]


def arrays():
    a = np.array(W)
    ulp = a.copy()
    ulp[2] = np.nextafter(3., 4.)
    big = np.arange(6000.) / 7
    big2 = big.copy()
    big2[3000] += 1
    big3 = big.reshape(2, 3000)
    nan = a.copy()
    nan[1] = np.nan
    out = [a, ulp, a.astype('f4'), a[::-1].copy(), a.reshape(1, 4), np.concatenate([a, a]).reshape(2, 4),
           np.concatenate([a, a]).reshape(4, 2), big, big2, big3, nan, -a, a + 1e-9, a * (1 + 1e-13),
           np.array([1., 2, 3, 5]), np.arange(8.).reshape(2, 4), np.arange(8.).reshape(2, 4)[:, ::-1].copy(),
           np.zeros(4), np.zeros((0, 4)), np.zeros((4, 0)), np.array([], dtype='f4'), np.array(3.)]
    return out


KW = [
    dict(a=1, b=2), dict(a=2, b=1), dict(a=1, c=2), dict(a=1), dict(b=1), dict(a=12), dict(a='xy', b='z'), dict(a='x', b='yz'), dict(a='xyz'),
    dict(a=[1, [2, 3]]), dict(a=[[1, 2], 3]), dict(a=[1, 2, 3]), dict(a=dict(x=1, y=2)), dict(a=dict(x=2, y=1)), dict(a=dict(x=1)),
    dict(a={'p', 'q', 'r'}), dict(a={'p', 'q', 's'}), dict(a=None), dict(a=True), dict(a='True'), dict(a=slice(1, 3)), dict(a=slice(1, 4)),
    dict(a=slice(1, 3, 2)), dict(ab='c'), dict(a='bc'), dict(a=b'bc'), dict(a=''), dict(a=1e-300), dict(a=2e-300), dict(a=0.1), dict(a=0.1 + 1e-17 * 3),
    dict(a=np.float64), dict(a=np.float32), dict(a=10 ** 30), dict(a=10 ** 30 + 1), dict(a=1 + 2j), dict(a=2 + 1j),
    dict(a=np.array(['x', None], dtype=object)), dict(a=np.array(['y', None], dtype=object)), dict(a=[np.arange(4), np.arange(3)]),
    dict(a=[np.arange(3), np.arange(4)]), dict(a=dict(z=np.arange(2000.))), dict(a=dict(z=np.where(np.arange(2000.) == 1000, 5, np.arange(2000.)))),
    dict(a=np.timedelta64(1, 's')), dict(a=np.timedelta64(1, 'ms')), dict(a=[]), dict(a={}), dict(a=[None]), dict(a=[[]]), dict(a='\ud800'),
    dict(a=np.arange(6, dtype='i8')), dict(a=np.arange(6, dtype='i4')), dict(a=np.arange(6, dtype='i8').view('m8[s]')), dict(a=np.arange(6).reshape(2, 3)),
]
KW[30] = dict(a=0.1 + 3e-17)


def kinds():
    """kind -> number of variants"""
    return dict(mul=8, weight=len(arrays()), func=len(FUNCS), kw=len(KW), slicer=9, reshape=4, simhash=5, kmeans=4, meanstd=6,
                inst=4, binarize=4, unit=1, log=1, mulaw=1, absolute=1, net=9, sk=4, sharpen=3, dims=4)


def compiled(body, name='f', form=None):
    """the same function, defined in a different place every time"""
    pad = '\n' * STATE.randrange(40) if form is None else ''
    comment = '# %d\n' % STATE.randrange(1000)
    src = '%s%sdef %s(d):\n' % (pad, comment, name)
    for line in body.split('; '):
        src += '    ' + line + '   ' + comment
        src += '\n' * STATE.randrange(3)
    ns = {'np': np}
    exec(compile(src, '/somewhere/%d.py' % STATE.randrange(1000), 'exec'), ns)
    return ns[name]


def another_form(a):
    a = np.asarray(a)
    k = STATE.randrange(4)
    if k == 0:
        return a.copy()
    if k == 1:
        return np.asfortranarray(a) if a.ndim else a.copy()
    if k == 2 and a.ndim:
        wide = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        wide[..., ::2] = a
        return wide[..., ::2]
    a = a.copy()
    a.flags.writeable = False
    return a


def shuffled(d):
    items = list(d.items())
    STATE.shuffle(items)

    def alt(x):
        if isinstance(x, np.ndarray) and x.dtype != object:
            return another_form(x)
        if isinstance(x, dict):
            return shuffled(x)
        if isinstance(x, set):
            y = list(x)
            STATE.shuffle(y)
            return set(y)
        if type(x) is list:
            return [alt(y) for y in x]
        return x
    return dict((k, alt(v)) for k, v in items)


def learn(node, data):
    from stream import Source, Recorder, run_graph
    src = Source()
    nodes = dict(src=src, node=node(src))
    nodes['rec'] = Recorder(needs=nodes['node'])
    run_graph(nodes, dict(src=[data]))
    results = [x for x in nodes['rec'].got if x is not None]
    assert len(results) == 1, results
    return results[0].for_storage()


def data(n=12, size=4, seed=1):
    r = np.random.RandomState(seed)
    return r.randint(-20, 20, (n, size)) / 4.


def build(kind, v):
    from zounds.learn import preprocess as P, KMeans, SklearnModel
    from zounds.learn.pytorch_model import PyTorchNetwork
    from zounds import ArrayWithUnits, IdentityDimension, FrequencyDimension, LinearScale, FrequencyBand, TimeDimension, Seconds, Milliseconds
    x = data()
    if kind == 'mul':
        f = [2., 3., np.nextafter(2., 3), -2., 2.5, 1e-8, 20., 1 / 3.][v]
        return learn(lambda n: P.Multiply(factor=f, needs=n), x)
    if kind == 'weight':
        w = another_form(arrays()[v])
        try:
            x * w
        except ValueError:
            node = P.Weighted(w)
            return P.PreprocessResult(None, node.transform(weighting=w), node.inversion_data(weighting=w), node.inverse_transform(), 'Weighted')
        return learn(lambda n: P.Weighted(w, needs=n), x)
    if kind == 'func':
        f = compiled(FUNCS[v])
        return learn(lambda n: P.BasePreprocessor(forward=f, backward=compiled('return d'), name='f', needs=n), x)
    if kind == 'kw':
        kw = shuffled(KW[v])
        f = compiled('return d')
        ns = {}
        exec('def g(d, **kw):\n    return d * 1\n', ns)
        op = P.Op(ns['g'], **kw)
        node = P.BasePreprocessor(forward=f)
        return P.PreprocessResult(None, op, node.inversion_data(), node.inverse_transform(), 'kw')
    if kind == 'slicer':
        s = [slice(0, 2), slice(0, 3), slice(1, 3), slice(0, 3, 2), slice(-2, -1), slice(0, 2, -1), [0, 2], [2, 0], [0, 1, 2]][v]
        return learn(lambda n: P.Slicer(slicex=s, needs=n), x)
    if kind == 'reshape':
        s = [(2, 2), (4, 1), (1, 4), (2, 2, 1)][v]
        return learn(lambda n: P.Reshape(s, needs=n), x)
    if kind == 'simhash':
        np.random.seed([5, 6, 5, 5, 5][v])
        return learn(lambda n: P.SimHash(bits=[64, 64, 32, 64, 64][v], packbits=v == 3, needs=n), data(seed=2) if v == 4 else x)
    if kind == 'kmeans':
        np.random.seed([5, 5, 5, 6][v])
        return learn(lambda n: KMeans(centroids=[3, 2, 3, 3][v], needs=n), data(seed=[1, 1, 4, 9][v]))
    if kind == 'meanstd':
        y = [x, x + 1, x * 2, x[:11], x.astype('f4'), -x][v]
        return learn(lambda n: P.MeanStdNormalization(needs=n), y)
    if kind == 'inst':
        return learn(lambda n: P.InstanceScaling(max_value=[1., 2., .5, 3][v], needs=n), x)
    if kind == 'binarize':
        return learn(lambda n: P.Binarize(threshold=[.5, .25, -1., .5000001][v], needs=n), x)
    if kind == 'unit':
        return learn(lambda n: P.UnitNorm(needs=n), x)
    if kind == 'log':
        return learn(lambda n: P.Log(needs=n), x)
    if kind == 'mulaw':
        return learn(lambda n: P.MuLawCompressed(needs=n), x)
    if kind == 'absolute':
        return learn(lambda n: P.AbsoluteValue(needs=n), x)
    if kind == 'net':
        torch.manual_seed(2 if v == 1 else 1)
        net = Net(4, 5 if v == 3 else 3, 'tanh' if v == 2 else 'relu', 7 if v == 4 else 0)
        if v == 5:
            net.two.bias.data[1] += 1e-6
        if v == 6:
            net = net.double()
        if v == 7:
            w = net.one.weight.data.clone()
            net.one.weight.data[0], net.one.weight.data[1] = w[1], w[0]
        node = learn(lambda n: PyTorchNetwork(trainer=Handed(net, 8 if v == 8 else 16), needs=dict(data=n)), x.astype('f4'))
        if STATE.random() < .5:
            # gradients and the like are no part of it
            net.one.weight.requires_grad_(STATE.random() < .5)
            net.zero_grad()
        return node
    if kind == 'sk':
        by = [1., 2., np.array([1., 2, 3, 4]), np.array([1., 2, 3, 5])][v]
        return learn(lambda n: SklearnModel(model=Shift(another_form(by) if v > 1 else by), needs=n), x)
    if kind == 'sharpen':
        k = another_form(np.array([[1., 2, 1], [1, 1, 2], [1, 2, 1.5]][v]))
        return learn(lambda n: P.Sharpen(kernel=k, needs=n), x)
    if kind == 'dims':
        w = another_form(np.array([5., 6, 7, 8]))
        lin = [LinearScale(FrequencyBand(0, 1000), 4), LinearScale(FrequencyBand(0, 2000), 4)]
        d = [FrequencyDimension(lin[0]), FrequencyDimension(lin[1]), TimeDimension(Seconds(1)), TimeDimension(Milliseconds(7))][v]
        return learn(lambda n: P.Weighted(ArrayWithUnits(w, [d]), needs=n), x)
    raise ValueError(kind)


CONVS = ['', 'f4', 'wrapA', 'wrapB', 'f4 wrapA', 'f2', 'wrapC']


def wrapper(c):
    if 'wrap' not in c:
        return None
    return compiled(dict(A='return d * 2', B='return d * 3', C='return np.abs(d)')[c[-1]])


class Counting(object):
    def __init__(self, pipeline):
        self._pipeline, self.count = pipeline, 0

    def __getattr__(self, key):
        return getattr(self.__dict__['_pipeline'], key)

    def transform(self, *args, **kwargs):
        self.count += 1
        return self._pipeline.transform(*args, **kwargs)


class Holder(object):
    def __init__(self, pipeline):
        self.pipeline = pipeline


def serve(work):
    import featureflow as ff
    from zounds.learn import Pipeline, Learned
    torch.set_num_threads(1)
    out = os.fdopen(os.dup(1), 'w')
    sys.stdout = open(os.devnull, 'w')
    insts = {}
    atoms = {}

    def versions(p):
        return dict(v=p.version, sv=[x.op.version for x in p.processors])

    def feature(p, doc, conv, case):
        kb = ff.StringDelimitedKeyBuilder('-')

        class Settings(ff.PersistenceSettings):
            id_provider = ff.UserSpecifiedIdProvider(key='doc')
            key_builder = kb
            database = ff.FileSystemDatabase(path=os.path.join(work, case), key_builder=kb, createdirs=True)
        counting = Counting(p)
        dt = None
        if conv[:1] == 'f':
            dt = STATE.choice([conv[:2], np.dtype(conv[:2]), np.dtype(conv[:2]).type])

        class Model(ff.BaseModel, Settings):
            meta = ff.JSONFeature(Root, store=True)
            raw = ff.PickleFeature(Raw, needs=meta, store=True)
            learned = ff.PickleFeature(Learned, learned=Holder(counting), dtype=dt, wrapper=wrapper(conv), needs=raw, store=True)
        return Model, counting, dt

    def handle(cmd):
        op = cmd['op']
        if op == 'build':
            steps = []
            for kind, v in cmd['steps']:
                # sometimes a step that was made before is used again
                if (kind, v) in atoms and STATE.random() < .5:
                    steps.append(STATE.choice(atoms[kind, v]))
                else:
                    steps.append(build(kind, v))
                    atoms.setdefault((kind, v), []).append(steps[-1])
            p = Pipeline(steps)
        elif op == 'load':
            p = pickle.loads(base64.b64decode(cmd['data']))
        elif op == 'dump':
            s = pickle.dumps(insts[cmd['i']], STATE.choice([2, 4, pickle.HIGHEST_PROTOCOL]))
            return dict(data=base64.b64encode(s).decode())
        elif op == 'slice':
            p = insts[cmd['i']][slice(cmd['lo'] - 1, cmd['hi'])]
        elif op == 'pick':
            p = insts[cmd['i']][[k - 1 for k in cmd['idx']]]
        elif op in ('look', 'read'):
            p = insts[cmd['i']]
        elif op == 'forget':
            insts.clear()
            return {}
        if 'to' in cmd:
            insts[cmd['to']] = p
        r = dict(fv='', computed=-1, match=True, read=False)
        if op in ('look', 'read'):
            x = data(9, seed=30 + cmd.get('doc', 0))
            conv = cmd.get('conv', '')
            Model, counting, dt = feature(p, cmd.get('doc', 0), conv, cmd['case'])
            try:
                want = p.transform(x if dt is None else x.astype(dt), wrapper=wrapper(conv)).data
            except Exception:
                want = None
            if op == 'read':
                r['fv'] = Learned(learned=Holder(p), dtype=dt, wrapper=wrapper(conv)).version
                if want is not None:
                    _id = 'doc%d' % cmd['doc']
                    if not Model.exists(_id):
                        Model.process(meta=dict(seed=30 + cmd['doc']), doc=_id)
                        made = 1
                        r['computed'] = counting.count
                    else:
                        Model(_id).learned
                        r['computed'] = counting.count
                    got = Model(_id).learned
                    r['computed'] = counting.count
                    r['match'] = bool(np.shape(got) == np.shape(want) and np.asarray(got).dtype == np.asarray(want).dtype
                                      and np.array_equal(got, want, equal_nan=np.asarray(want).dtype.kind == 'f'))
                    r['read'] = True
        r.update(versions(p))
        return r

    for line in sys.stdin:
        cmd = json.loads(line)
        if 'known' in cmd:
            continue
        try:
            r = dict(st='ok', **handle(cmd))
        except Exception as e:
            import traceback
            r = dict(st=e.__class__.__name__, err=traceback.format_exc()[-1500:])
        out.write(json.dumps(r) + '\n')
        out.flush()


import featureflow as ff    # noqa


class Root(ff.Node):
    def _process(self, x):
        yield x


class Raw(ff.Node):
    def _process(self, x):
        if x:
            yield data(9, seed=x['seed'])


if __name__ == '__main__':
    import versions
    versions.serve(sys.argv[1])
