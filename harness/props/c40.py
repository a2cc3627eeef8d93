"""C40: torch transforms keep items, frames and coefficients in their places (BatchTransform.tla)."""
import copy
import warnings
import numpy as np
import torch
from torch import nn

BLANK = dict(op='', kind='', a=[], inp=[], outs=[], st='', why='', ok=True)


def run(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        check(ctx)


def check(ctx):
    import zounds
    from zounds.learn import DctTransform, RawSampleEmbedding, CategoricalLoss, BandLoss, GatedConvLayer, GatedConvTransposeLayer, \
        GatedLinearLayer, MultiResolutionConvLayer, FilterBank, SincLayer, PerceptualLoss, apply_network
    from zounds.learn import util as U
    from zounds.spectral import WindowingFunc, HanningWindowingFunc, OggVorbisWindowingFunc, GeometricScale
    torch.set_num_threads(1)
    rng = ctx.rng
    torch.manual_seed(ctx.seed * 17 + 3)
    ctx.design('BatchTransform')
    gen = ctx.generate('BatchTransform', 'BatchTransformGen')
    gen = [g for g in gen if sum(o['op'] in ('resample', 'split', 'merge') for o in g) >= 1]
    rng.shuffle(gen)
    cases = []
    to_ints = lambda x: [int(v) for v in np.rint(np.asarray(x, dtype='f8')).ravel()]
    exact = lambda x: bool(np.abs(x - np.rint(x)).max() < 2e-2) if np.size(x) else True

    class Session(object):
        """one transform that is used again and again"""

        def __init__(self, t=None):
            self.t = t or DctTransform()
            self.batch = rng.randint(1, 4)
            # where in the shape the items, the channels and the coefficients are
            self.layout = rng.choice(['bn', 'bn', 'bcn', 'bcn', 'nb', 'bnc'])
            self.first = [rng.choice([-1, 1]) * rng.randint(1, 9) for _ in range(64)]
            self.case = dict(batch=self.batch, first=self.first, events=[])
            self.windows = [WindowingFunc(lambda n: np.linspace(1., 2., n)), WindowingFunc(lambda n: np.full(n, 3.)),
                            HanningWindowingFunc(), OggVorbisWindowingFunc()]

        axis = property(lambda self: dict(bn=1, bcn=2, nb=0, bnc=1)[self.layout])

        def pack(self, m):
            """from one row for each item"""
            x = torch.from_numpy(np.array(m, dtype='f4'))
            if self.layout == 'nb':
                return x.t().contiguous()
            if self.layout == 'bcn':
                return torch.stack([x, 2 * x], dim=1)
            if self.layout == 'bnc':
                return torch.stack([x, 2 * x], dim=2)
            return x

        def unpack(self, x):
            """rows, and whether the rest is as it should be"""
            x = np.asarray(x, dtype='f8')
            if self.layout == 'nb':
                x = x.T
            if self.layout == 'bcn':
                return x[:, 0], bool(np.allclose(2 * x[:, 0], x[:, 1], atol=2e-2))
            if self.layout == 'bnc':
                return x[:, :, 0], bool(np.allclose(2 * x[:, :, 0], x[:, :, 1], atol=2e-2))
            return x, True

        def coeffs(self, x):
            c, ok = self.unpack(self.t.dct(x, axis=self.ax()))
            return [to_ints(r) for r in c], ok and exact(c) and len(c) == self.batch

        def ax(self):
            # the last axis is the one to use when none is named
            return rng.choice([self.axis, self.axis - len(self.layout)])

        def put(self, op, kind='', **kw):
            ev = copy.deepcopy(dict(BLANK, op=op, kind=kind, **kw))
            self.case['events'].append(ev)
            return ev

        def guard(self, ev, f):
            try:
                f(ev)
                ev['st'] = 'ok'
            except Exception as ex:
                ev.update(st=ex.__class__.__name__, why=str(ex)[:300])
            return ev['st'] == 'ok'

        def load(self, n):
            def f(ev):
                c = np.array(self.first[:n], dtype='f4')
                m = np.outer(np.arange(1, self.batch + 1), c)
                self.x = self.t.idct(self.pack(m), axis=self.ax())
                ev['outs'], ev['ok'] = self.coeffs(self.x)
                # energy is the same, and coefficients are in order of their frequencies
                y, _ = self.unpack(self.x)
                ev['ok'] = bool(ev['ok'] and np.allclose((y ** 2).sum(axis=1), (m ** 2).sum(axis=1), rtol=1e-3))
                k = rng.randrange(n)
                wave = self.t.idct(torch.eye(n)[k:k + 1]).numpy()[0]
                signs = np.sign(wave[np.abs(wave) > 1e-5])
                ev['ok'] = bool(ev['ok'] and abs(int((signs[1:] != signs[:-1]).sum()) - k) <= 1)
            self.n = n
            return self.guard(self.put('load', 'dct', a=[n]), f)

        def resample(self, m, lo, hi):
            def f(ev):
                kw = dict(zero_slice=slice(lo or None, hi)) if hi > lo else {}
                if self.axis != len(self.layout) - 1 or rng.random() < .5:
                    kw['axis'] = self.ax()
                self.x = self.t.dct_resample(self.x, m / self.n, **kw)
                ev['outs'], ev['ok'] = self.coeffs(self.x)
            if int(m / self.n * self.n) != m:
                return True
            ok = self.guard(self.put('resample', 'dct', a=[m, lo, hi]), f)
            self.n = m
            return ok

        def split(self, stops):
            def f(ev):
                fs = [s / self.n for s in stops]
                rng.shuffle(fs)
                kw = dict(axis=self.ax()) if self.axis != len(self.layout) - 1 or rng.random() < .5 else {}
                self.bands = self.t.frequency_decomposition(self.x, fs, **kw)
                got = [self.coeffs(b) for b in self.bands]
                ev['outs'] = [[g[0][k] for g in got] for k in range(self.batch)]
                ev['ok'] = all(g[1] for g in got)
            if any(int(s / self.n * self.n) != s for s in stops):
                return False
            return self.guard(self.put('split', 'dct', a=stops), f)

        def merge(self):
            def f(ev):
                n = self.unpack(self.bands[-1])[0].shape[1]
                total = 0
                for b in self.bands:
                    m = self.unpack(b)[0].shape[1]
                    total = total + self.t.dct_resample(b, n / m, axis=self.axis)
                self.x, self.n = total, n
                ev['outs'], ev['ok'] = self.coeffs(self.x)
            sizes = [self.unpack(b)[0].shape[1] for b in self.bands]
            if any(int(sizes[-1] / m * m) != sizes[-1] for m in sizes):
                return False
            return self.guard(self.put('merge', 'dct'), f)

        def frames(self, size, step):
            def f(ev):
                w = rng.choice(self.windows if size > 3 else self.windows[:2])
                n = rng.randint(size, 4 * size + 3)
                batch = rng.randint(1, 3)
                ev['inp'] = [[1000 * (k + 1) + 7 * i for i in range(n)] for k in range(batch)]
                x = torch.from_numpy(np.array(ev['inp'], dtype='f4'))[:, None]
                y = self.t.short_time_dct(x, size, step, w)
                nframes = (n - size) // step + 1
                ev['ok'] = tuple(y.shape) == (batch, size, nframes)
                if not ev['ok']:
                    return
                data = np.asarray(w * np.ones(size))
                back = self.t.idct(y.transpose(1, 2).contiguous()).numpy().astype('f8')
                outs = []
                for k in range(batch):
                    outs.append([])
                    for fr in range(nframes):
                        with np.errstate(all='ignore'):
                            v = np.where(np.abs(data) > .05, back[k, fr] / data, np.nan)
                        # where the window is zero, so is what's seen through it
                        want = np.array(ev['inp'][k][fr * step:fr * step + size], dtype='f8')
                        v = np.where(np.isnan(v), np.where(np.abs(back[k, fr] - want * data) < 3, want, -1), v)
                        near = np.abs(v - want) < 3
                        outs[-1].append([int(a) if b else -1 for a, b in zip(np.rint(np.where(near, want, -1)), near)])
                ev['outs'] = outs
            return self.guard(self.put('frames', 'dct', a=[size, step]), f)

        def play(self, g, scale):
            loaded, split = False, False
            for o in g:
                op, a = o['op'], o['a']
                if op == 'load':
                    ok = loaded = self.load(a[0] * scale)
                    split = False
                elif op == 'apply':
                    ok = apply_case(self, a[0] if a[0] != 2 else rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 9]))
                elif op == 'frames':
                    size = rng.choice([a[0] * scale, 4, 8])
                    ok = self.frames(size, rng.choice([size, max(1, size // 2), 1, max(1, size // 4)]))
                elif not loaded:
                    break
                elif op == 'resample':
                    ok = self.resample(a[0] * scale, a[1], a[2])
                elif op == 'split':
                    stops = [s * scale for s in a]
                    if rng.random() < .4:
                        stops = sorted(rng.sample(range(1, self.n + 1), min(self.n, rng.randint(1, 5))))
                        stops = [v for v in stops if int(v / self.n * self.n) == v] or [self.n]
                    ok = stops[-1] <= self.n and self.split(stops)
                else:
                    ok = self.merge()
                if not ok:
                    break
            if self.case['events']:
                cases.append(self.case)

    class Total(nn.Module):
        """something that can be told from what's made of it"""

        def __init__(self):
            super(Total, self).__init__()
            self.l = nn.Linear(1, 1)
            self.most = 0

        def forward(self, x):
            self.most = max(self.most, len(x))
            return (x * x).sum(dim=-1, keepdim=True) + x[..., :1]

    sr = zounds.SR11025()
    scale = GeometricScale(300, 3000, .05, 6)

    def modules():
        k = rng.choice([1, 3, 5])
        norm = {}
        if rng.random() < .4:
            norm = dict(norm=rng.choice([U.sample_norm, U.batchwise_unit_norm]))
        conv = dict(stride=rng.choice([1, 2]), padding=rng.choice([0, 1]), dilation=rng.choice([1, 2]))
        def drop(m):
            return m.eval()
        return [
            ('unit norm', U.batchwise_unit_norm, rng.choice([(7,), (2, 5), (2, 3, 4)])),
            ('mean and std', U.batchwise_mean_std_normalization, rng.choice([(7,), (2, 5), (2, 3, 4)])),
            ('sample norm', U.sample_norm, (3, 6)),
            ('gated convolution', GatedConvLayer(3, 2, k, **dict(conv, **norm)), (3, 16)),
            ('gated transposed convolution', GatedConvTransposeLayer(3, 2, k, **dict(conv, **norm)), (3, 16)),
            ('gated linear layer', GatedLinearLayer(4, 3), (4,)),
            ('filter bank', FilterBank(sr, rng.choice([32, 33]), scale, .1, a_weighting=rng.random() < .5), (64,)),
            ('sinc layer', SincLayer(scale, rng.choice([31, 32]), sr), (64,)),
            ('embedding', RawSampleEmbedding(rng.choice([4, 8, 255]), 3), (1, 12)),
            ('convolution', drop(U.Conv1d(3, 4, 3, rng.choice([1, 2]), 1, batch_norm=rng.random() < .5, sample_norm=rng.random() < .5)), (3, 16)),
            ('transposed convolution', drop(U.ConvTranspose1d(3, 4, 4, 2, 1, sample_norm=rng.random() < .5)), (3, 16)),
            ('convolution in two dimensions', drop(U.Conv2d(2, 3, 3, 1, 1)), (2, 5, 5)),
            ('transposed convolution in two dimensions', drop(U.ConvTranspose2d(2, 3, 3, 1, 1)), (2, 5, 5)),
            ('network in chunks', Total(), rng.choice([(5,), (2, 3)])),
        ]

    def apply_case(session, n, chunk):
        kind, module, shape = rng.choice(modules())

        def f(ev):
            pool = [torch.rand(*shape) * 1.8 - .9 for _ in range(n)]
            with torch.no_grad():
                alone = [module(x[None].clone())[0] for x in pool]
                tags = [rng.randrange(n) for _ in range(rng.choice([n, n, n + 2]))]
                batch = torch.stack([pool[i] for i in tags])
                before = batch.clone()
                if kind == 'network in chunks' or isinstance(module, (GatedLinearLayer, GatedConvLayer)):
                    size = rng.choice([None, chunk, chunk])
                    module.most = 0
                    got = torch.from_numpy(np.asarray(apply_network(module, batch.numpy(), chunksize=size)))
                    small = size is None or module.most <= size
                else:
                    got = module(batch)
            ev['inp'] = [i + 1 for i in tags]
            ev['outs'] = []
            for g in got:
                near = [i + 1 for i, w in enumerate(alone) if w.shape == g.shape and torch.allclose(w, g, rtol=1e-3, atol=1e-5)]
                ev['outs'].append(near[0] if near else 0)
            ok = bool(torch.isfinite(got).all()) and torch.equal(before, batch)
            if kind == 'unit norm':
                ok = ok and torch.allclose(got.reshape(len(tags), -1).norm(dim=1), torch.ones(len(tags)), atol=1e-3)
            if kind == 'mean and std':
                flat = got.reshape(len(tags), -1)
                ok = ok and torch.allclose(flat.mean(dim=1), torch.zeros(len(tags)), atol=1e-3) and \
                    torch.allclose(flat.std(dim=1), torch.ones(len(tags)), atol=1e-3)
            if kind == 'sample norm':
                ok = ok and torch.allclose((got ** 2).mean(dim=1), torch.ones(len(tags), shape[-1]), atol=1e-2)
            if kind == 'filter bank':
                ok = ok and tuple(got.shape) == (len(tags), 6, 64)
            if kind == 'network in chunks':
                ok = ok and small and torch.allclose(got, module(batch), atol=1e-4)
            if kind in ('gated convolution', 'gated transposed convolution'):
                ok = ok and torch.allclose(got, torch.tanh(module.norm(module.conv(batch))) * torch.sigmoid(module.norm(module.gate(batch))), atol=1e-4)
            if kind == 'filter bank':
                # bands are in order, and don't depend on each other
                raw = module(batch, normalize=False)
                k = rng.randrange(len(scale))
                ok = ok and torch.allclose(raw, module.log_magnitude(module.convolve(batch))[..., :64], atol=1e-4)
                kernel = module.filter_bank.shape[-1]
                one = FilterBank(sr, kernel, zounds.ExplicitScale([scale[k]]), .1, a_weighting=False)
                other = FilterBank(sr, kernel, scale, .1, a_weighting=False)
                ok = ok and torch.allclose(one(batch, normalize=False)[:, 0], other(batch, normalize=False)[:, k], atol=1e-3)
            if kind == 'sinc layer':
                k = rng.randrange(len(scale))
                one = SincLayer(zounds.ExplicitScale([scale[k]]), module.taps, sr)
                ok = ok and torch.allclose(one(batch)[:, 0], got[:, k], rtol=1e-3, atol=1e-2)
            if kind.startswith('gated') and 'linear' in kind:
                ok = ok and torch.allclose(got, torch.tanh(module.l1(batch)) * torch.sigmoid(module.gate(batch)), atol=1e-5)
            ev['ok'] = bool(ok)
        return session.guard(session.put('apply', kind, a=[chunk]), f)

    def category_case():
        s = Session()
        for _ in range(3):
            n = rng.choice([2, 4, 7, 8, 15, 255])
            which = rng.choice(['embedding', 'loss', 'same'])

            def wave(cats):
                y = 2. * np.array(cats) / n - 1
                return torch.from_numpy(np.sign(y) * ((1. + n) ** np.abs(y) - 1) / n).float()

            def f(ev):
                b, t = rng.randint(1, 3), 2 * rng.randint(2, 6)
                cats = [[rng.randint(0, n) for _ in range(t)] for _ in range(b)]
                for c in cats:
                    c[rng.randrange(t)] = n     # losses take the loudest sample for the full scale
                x = wave(cats)[:, None]
                ev['inp'] = cats
                if which == 'embedding':
                    m = RawSampleEmbedding(n, rng.choice([2, 3]))
                    y = m(x).detach()
                    table = m.linear.weight.detach().t() + m.linear.bias.detach()
                    table = table / table.norm(dim=-1, keepdim=True)
                    ev['ok'] = tuple(y.shape) == (b, m.embedding_dim, t)
                    ev['outs'] = [[c if torch.allclose(table[c], y[k, :, i], atol=1e-4) else -1 for i, c in enumerate(cats[k])] for k in range(b)]
                    return
                loss = CategoricalLoss(n)
                if which == 'loss':
                    # what a network that knows it all would say
                    logits = torch.zeros(b, n + 1, t)
                    for k in range(b):
                        for i in range(t):
                            logits[k, cats[k][i], i] = 10.
                    logits = torch.log_softmax(logits, dim=1)
                    k, i = rng.randrange(b), rng.randrange(t)
                    wrong = logits.clone()
                    wrong[k, :, i] = torch.roll(logits[k, :, i], 1)
                    base = float(loss(logits, x))
                    ev['ok'] = base < .2 and abs(float(loss(wrong, x)) - base - 10. / (b * t)) < 1e-2
                elif which == 'same':
                    other = [list(c) for c in cats]
                    k, i = rng.randrange(b), rng.randrange(t)
                    flipped = (other[k][i] + 1) % (n + 1)
                    if max(v for r, c in enumerate(other) for q, v in enumerate(c) if (r, q) != (k, i)) == n:
                        other[k][i] = flipped
                    ev['ok'] = float(loss(x, x)) == 0. and (other == cats or float(loss(wave(other)[:, None], x)) > 1.)
                ev['outs'] = cats
            if not s.guard(s.put('categories', which), f):
                break
        cases.append(s.case)

    def several_case():
        # several resolutions, in the order of their kernels
        s = Session()

        def f(ev):
            sizes = rng.sample([1, 3, 5, 7, 9], rng.randint(1, 4))
            m = MultiResolutionConvLayer(2, 3, sizes)
            x = torch.rand(rng.randint(1, 3), 2, 16)
            got = m(x)
            ev['inp'] = sizes
            ev['outs'] = []
            for g in got:
                near = [l.conv.kernel_size[0] for l in m.main if l(x).shape == g.shape and torch.equal(l(x), g)]
                ev['outs'].append(near[0] if near else 0)
            ev['ok'] = all(g.shape == (len(x), 3, 16) for g in got)
        s.guard(s.put('categories', 'several resolutions'), f)

        def h(ev):
            # nothing is closer to a sound than itself, on whatever scale
            x = torch.rand(2, 1, 512) * 2 - 1
            y = x + torch.rand(2, 1, 512) * .5
            ev['ok'] = True
            for cosine in (True, False):
                p = PerceptualLoss(scale, sr, basis_size=64, lap=rng.choice([1, 2]), cosine_similarity=cosine)
                ev['ok'] = ev['ok'] and abs(float(p(x, x)) - (-1. if cosine else 0.)) < 1e-4 < float(p(y, x)) - float(p(x, x))
            l = BandLoss([.25, .5, 1.], spectral_shape_weight=rng.choice([1, 2]))
            # the loss falls with the distance to the target, bands and their norms alike
            ev['ok'] = bool(ev['ok'] and float(l(x, x)) < 1e-6 < float(l(y, x)) and float(l(3 * x, x)) < 1e-6 and float(l(-x, x)) > 1e-6)
        s.guard(s.put('categories', 'losses'), h)
        cases.append(s.case)

    shared = DctTransform()
    for g in gen[:ctx.n(500, 6000)]:
        Session(shared if rng.random() < .4 else None).play(g, rng.choice([1, 2, 4, 8]))
    for _ in range(ctx.n(60, 600)):
        s = Session()
        for _ in range(4):
            apply_case(s, rng.randint(1, 4), rng.choice([1, 2, 3, 9]))
        cases.append(s.case)
    for _ in range(ctx.n(40, 400)):
        category_case()
    for _ in range(ctx.n(8, 60)):
        several_case()

    def make_canaries():
        can = []

        def some(f, **kw):
            for x in cases:
                for i, ev in enumerate(x['events']):
                    if ev['st'] == 'ok' and all(v(ev[k]) if callable(v) else ev[k] == v for k, v in kw.items()):
                        x = copy.deepcopy(x)
                        f(x['events'][i])
                        return can.append(x)
        def bump(row):
            row[0] = row[0] + 1
        some(lambda v: bump(v['outs'][0]), op='load')
        some(lambda v: bump(v['outs'][-1]), op='resample')
        some(lambda v: v['outs'][0].pop(), op='resample')
        some(lambda v: bump(v['outs'][0][-1]), op='split')
        some(lambda v: v['outs'][0].reverse(), op='split', a=lambda a: len(a) == 2)
        some(lambda v: bump(v['outs'][0]), op='merge')
        some(lambda v: bump(v['outs'][0][0]), op='frames')
        some(lambda v: v['outs'][0].pop(), op='frames')
        some(lambda v: v['outs'].pop(), op='apply')
        some(lambda v: bump(v['outs']), op='apply')
        some(lambda v: v.update(ok=False), op='apply')
        some(lambda v: bump(v['outs'][0]), op='categories', kind='embedding')
        some(lambda v: v.update(st='RuntimeError'), op='categories')
        return can
    ctx.validate('BatchTransformTrace', cases, make_canaries)
