"""C21: trainers run their epochs and report every batch (Training.tla)."""
import contextlib
import copy
import io
import json
import math
import random
import numpy as np
import torch
from torch import nn
from core import time_limit

class Boom(RuntimeError):
    pass


EMPTY = dict(ev='', x='', n=0, b=0, ids=[], labs=[], test=[], testlabs=[], vals=[], grad=0, steps=1, st='ok', wrong='', hist=[], got=[])


def run(ctx):
    import tornado.httpserver
    import tornado.ioloop
    import tornado.netutil
    import tornado.web
    import tornado.websocket
    from zounds.learn.trainer import Trainer
    from zounds.learn import SupervisedTrainer, WassersteinGanTrainer, TripletEmbeddingTrainer
    from zounds.ui import TrainingMonitorApp, SupervisedTrainingMonitorApp, GanTrainingMonitorApp, TripletEmbeddingMonitorApp
    MONITORS = dict(supervised=SupervisedTrainingMonitorApp, wgan=GanTrainingMonitorApp, triplet=TripletEmbeddingMonitorApp)
    torch.set_num_threads(1)
    rng = ctx.rng
    np.random.seed(ctx.seed * 7 + 3)
    random.seed(ctx.seed * 5 + 1)
    torch.manual_seed(ctx.seed)
    ctx.design('Training')
    gen = ctx.generate('Training', 'TrainingGen', limit=ctx.n(420, 6000))
    cases = []

    def scale(v):
        return -1 if v == 'n/a' else int(round(float(v)))

    class Linear1(nn.Module):
        """doubles nothing: the weight stays 1"""

        def __init__(self):
            super(Linear1, self).__init__()
            self.w = nn.Parameter(torch.ones(1))

        def forward(self, x):
            self.before()
            return x * self.w

        def before(self):
            pass

    def supervised(d, note):
        pend = dict(train=[], other=[], steps=0, grad=0.)

        class Loss(nn.Module):
            def forward(self, out, labels):
                ids = [int(round(x / 2.)) for x in out.data.numpy().reshape(-1)]
                labs = [int(round(x)) for x in labels.data.numpy().reshape(-1)]
                pend['other'].append((ids, labs))
                return out.sum() + labels.sum()

        class Optim(object):
            def __init__(self, model):
                self.model = model

            def step(self):
                pend['steps'] += 1
                pend['train'].append(pend['other'].pop())
                g = self.model.w.grad
                pend['grad'] = 0. if g is None else float(g[0])

            def zero_grad(self):
                self.model.zero_grad()
        net = Linear1()
        net.before = lambda: note['step']()
        t = SupervisedTrainer(
            model=net, loss=Loss(), optimizer=Optim, epochs=d['epochs'], batch_size=d['bs'], holdout_percent=d['quarters'] / 4.,
            data_preprocessor=lambda x: (x * 2).astype(np.float32), label_preprocessor=lambda x: x.astype(np.float32),
            checkpoint_epochs=d['check'])
        shape = (d['size'],) + rng.choice([(), (1,), (1, 1)])
        data = dict(data=np.arange(d['size']).reshape(shape), labels=np.arange(d['size']).reshape(shape))

        def batch():
            tr, te = pend['train'], pend['other']
            err = 3 * sum(sum(x[0]) for x in tr)
            terr = 3 * sum(sum(x[0]) for x in te) if te else -1
            ev = dict(ids=[x[0] for x in tr], labs=[x[1] for x in tr], test=[x[0] for x in te], testlabs=[x[1] for x in te],
                      vals=[err, terr], grad=scale(pend['grad']), steps=pend['steps'])
            pend.update(train=[], other=[], steps=0, grad=0.)
            return ev
        return t, data, batch, ('train_error', 'test_error'), net

    def decode_angle(a, n):
        """the id of a row (cos, sin), and whether it is turned round"""
        th = np.arctan2(a[:, 1], a[:, 0])
        turned = (th < 0) | (th > math.pi - .5 * math.pi / (n + 1))
        # ids are spread over (0, pi)
        th = np.where(th < 0, th + math.pi, th)
        return [int(round(x * (n + 1) / math.pi)) - 1 for x in th], [bool(x) for x in turned]

    def triplet(d, note):
        n = d['size']
        pend = dict(calls=[], deform=[], versions=[])

        class Net(nn.Module):
            def __init__(self):
                super(Net, self).__init__()
                self.w = nn.Parameter(torch.ones(2))

            def forward(self, x):
                note['step']()
                return x * self.w * 3
        net = Net()

        class Loss(nn.Module):
            def __init__(self, inner):
                super(Loss, self).__init__()
                self.inner = inner

            def forward(self, a, p, n):
                r = self.inner(a, p, n)
                arrs = [np.array(x.data.numpy(), dtype='f8') for x in (a, p, n)]
                ap = np.sqrt(((arrs[0] - arrs[1]) ** 2).sum(-1))
                an = np.sqrt(((arrs[0] - arrs[2]) ** 2).sum(-1))
                want = np.maximum(0, ap - an + .1).mean()
                g = torch.autograd.grad(r, net.w, retain_graph=True)[0].numpy()
                pend['calls'].append((arrs, float(r.data), float(want), g))
                return r

        def make(name):
            def f(anchor, wide):
                pend['deform'].append((name, np.array(anchor), np.array(wide)))
                return wide[:, 2:] if name.startswith('adjacent') else (-anchor if name.startswith('turn') else anchor * -2)
            f.__name__ = name
            return f
        fs = [make(x) for x in rng.sample(['adjacent', 'turn', 'louder', 'adjacent2'], rng.randint(1, 4))]
        t = TripletEmbeddingTrainer(network=net, epochs=d['epochs'], batch_size=d['bs'], anchor_slice=slice(0, 2), deformations=fs,
                                    checkpoint_epochs=d['check'])
        t.loss = Loss(t.loss)
        th = (np.arange(n) + 1) * math.pi / (n + 1)
        one = np.stack([np.cos(th), np.sin(th)], axis=1).reshape(n, 2)
        data = dict(data=np.concatenate([one, -one], axis=1))
        last = dict(w=net.w.data.numpy().copy(), still=0)

        def batch():
            ev = dict(ids=[], vals=[-99], steps=1)
            if len(pend['calls']) != 1 or len(pend['deform']) != 1:
                ev['wrong'] = 'not exactly one triple and one deformation for a batch'
                return ev
            (arrs, err, want, grad), (name, anchor, wide) = pend['calls'][0], pend['deform'][0]
            ia, ta = decode_angle(arrs[0], n)
            ip, tp = decode_angle(arrs[1], n)
            in_, tn = decode_angle(arrs[2], n)
            iw, tw = decode_angle(wide, n)
            ix, tx = decode_angle(anchor, n)
            ev.update(ids=[ia, ip, in_], vals=[scale(1000 * err)])
            w = net.w.data.numpy().copy()
            if any(ta) or any(tn) or not all(tp):
                ev['wrong'] = 'anchors, positives and negatives are not what they should be'
            elif iw != ia or ix != ia:
                ev['wrong'] = 'the deformation was not applied to the anchors and their surroundings'
            elif any(abs(np.sqrt((x ** 2).sum(-1)) - 1).max() > 1e-3 for x in arrs):
                ev['wrong'] = 'embeddings do not have unit norm'
            elif abs(err - want) > 1e-3:
                ev['wrong'] = 'the error is not the triplet loss'
            elif np.abs(grad).max() > 1e-5 and np.array_equal(w, last['w']):
                # one step may cancel out with the momentum of those before
                last['still'] += 1
                if last['still'] == 3:
                    ev['steps'] = 0
            else:
                last['still'] = 0
            if 'wrong' in ev:
                pass
            elif net.w.grad is not None and np.abs(net.w.grad.numpy()).max() > 0 and not np.allclose(net.w.grad.numpy(), grad, atol=1e-4):
                ev['wrong'] = 'the step was not taken for the error of this batch alone'
            last['w'] = w
            ev['name'] = name
            pend.update(calls=[], deform=[])
            return ev
        return t, data, batch, ('error',), net

    def wgan(d, note):
        n = d['size']
        log = []

        class D(nn.Module):
            def __init__(self):
                super(D, self).__init__()
                self.w = nn.Parameter(torch.Tensor([[1.], [0.5]]))

            def forward(self, x, **kw):
                note['step']()
                r = torch.mm(x, self.w)
                log.append(('D', x.data.numpy().copy(), r.data.numpy().copy(), self.w.data.numpy().copy(), kw))
                return r

        class G(nn.Module):
            def __init__(self):
                super(G, self).__init__()
                self.w = nn.Parameter(torch.ones(3, 2))

            def forward(self, z, **kw):
                r = .1 * torch.mm(z, self.w)
                log.append(('G', z.data.numpy().copy(), r.data.numpy().copy(), self.w.data.numpy().copy(), kw))
                return r

        class Pair(nn.Module):
            def __init__(self):
                super(Pair, self).__init__()
                self.discriminator, self.generator = D(), G()
        net = Pair()
        prep = rng.random() < .5
        args = rng.random() < .5

        def preprocess(epoch, x):
            log.append(('P', epoch))
            return x + 500
        t = WassersteinGanTrainer(net, latent_dimension=(3,), n_critic_iterations=d['critic'], epochs=d['epochs'], batch_size=d['bs'],
                                  preprocess_minibatch=preprocess if prep else None,
                                  kwargs_factory=(lambda epoch: dict(epoch=epoch)) if args else None, checkpoint_epochs=d['check'])
        data = np.stack([np.arange(n) + 1000., np.arange(n) * 0. + 2], axis=1).reshape(n, 2)
        last = dict(D=net.discriminator.w.data.numpy().copy(), G=net.generator.w.data.numpy().copy())
        add = 500 if prep else 0

        def batch():
            ids, real, ev = [], None, dict(steps=0)
            epochs = set(x[1] for x in log if x[0] == 'P') | set(x[4].get('epoch') for x in log if x[0] != 'P' and args)
            ch = dict(D=0, G=0)
            was = dict(last)
            ds, gs = [[x for x in log if x[0] == k] for k in 'DG']
            weights = dict((k, [x[3] for x in log if x[0] == k]) for k in 'DG')
            log[:] = []
            for x in ds:
                c = x[1][:, 0] - add
                if (np.abs(c - np.rint(c)) < 1e-3).all() and (c > 999).all() and (np.abs(x[1][:, 1] - 2 - add) < 1e-3).all():
                    ids.append([int(round(z)) - 1000 for z in c])
                    real = x
            last.update(D=net.discriminator.w.data.numpy().copy(), G=net.generator.w.data.numpy().copy())
            for k in 'DG':
                for x in weights[k] + [last[k]]:
                    ch[k] += not np.array_equal(x, was[k])
                    was[k] = x
            ev.update(ids=ids, grad=ch['D'], steps=ch['G'], vals=[-99, -99, -99], wrong='')
            if real is not None and gs:
                fakes = [x for x in ds if (x[1][:, 0] - add < 2).all()]
                g = -float(fakes[-1][2].mean())
                r = float(real[2].mean())
                # of this linear critic the penalty is known
                gp = 10 * (math.sqrt(float((real[3] ** 2).sum())) - 1) ** 2
                lf = [x for x in fakes if np.array_equal(x[3], real[3])]
                lf = lf[-2] if d['critic'] == 0 else lf[0]
                ev['vals'] = [scale(g * 1000), scale(r * 1000), scale(1000 * (float(lf[2].mean()) - r + gp))]
                if len(set(z.tobytes() for z in [x[1] for x in gs])) != len(gs):
                    ev['wrong'] = 'the generator was given the same noise again'
                if d['critic'] and len(ds) == 3 * d['critic'] + 1:
                    for q in range(d['critic']):
                        three = [x[1] for x in ds[3 * q:3 * q + 3]]
                        real3 = [x for x in three if (x[:, 0] - add > 999.5).all() and np.allclose(x[:, 0], np.rint(x[:, 0]), atol=1e-3)]
                        if not real3 or any(x.shape != real3[0].shape for x in three):
                            ev['wrong'] = 'the critic was not given as many generated as real samples'
                            break
                        rest = sorted([x for x in three if x is not real3[0]], key=lambda x: x[:, 0].sum())
                        fk, mid = rest[0], rest[-1]
                        al = (mid - fk) / (real3[0] - fk)
                        if al.min() < -1e-3 or al.max() > 1.001 or (np.abs(fk[:, 1] - real3[0][:, 1]) > .1).all() and abs(al[:, 0] - al[:, 1])[np.abs(fk[:, 1] - real3[0][:, 1]) > .1].max() > .02:
                            ev['wrong'] = 'the penalty was not taken between real and generated samples'
                samples = t.samples.data.numpy()
                if not np.allclose(samples, gs[-1][2] + add):
                    ev['wrong'] = 'the samples are not those of this batch'
            if epochs - {None} != (set([note['epoch']]) if prep or args else set()) or (args and None in epochs):
                ev['epochs'] = sorted(map(str, epochs))
                ev['badepoch'] = True
            return ev
        return t, data, batch, ('generator_score', 'real_score', 'critic_loss'), net

    def base(d, note):
        class T(Trainer):
            def _training_step(self, epoch, batch, data):
                note['step']()
                note['during']()
                steps.append((epoch, batch, data is now[0]))
                return dict(score=100 * epoch + batch, weight=7)
        t = T(d['epochs'], d['bs'], checkpoint_epochs=d['check'])
        net = t.network = Linear1()
        data = rng.choice([lambda: np.arange(d['size']), lambda: list(range(d['size']))])()
        now, steps = [data], []

        def batch():
            ev = dict(vals=[-99, 7], steps=len(steps), ids=[])
            if steps:
                ev['vals'] = [100 * steps[-1][0] + steps[-1][1], 7]
                ev['pos'] = steps[-1][:2]
                ev['wrong'] = '' if steps[-1][2] else 'trained with something else than the data'
            steps[:] = []
            return ev
        return t, data, batch, ('score', 'weight'), net
    KINDS = dict(supervised=supervised, triplet=triplet, wgan=wgan, base=base)

    class Client(object):
        """a browser watching the training"""

        def __init__(self, app):
            self.loop = tornado.ioloop.IOLoop()
            self.loop.make_current()
            handler = dict((p, h) for p, h in app.custom_routes())[r'/zounds/training/?']
            self.closed = closed = []

            class Handler(handler):
                def on_close(self):
                    super(Handler, self).on_close()
                    closed.append(1)
            socks = tornado.netutil.bind_sockets(0, '127.0.0.1')
            self.server = tornado.httpserver.HTTPServer(tornado.web.Application([(r'/zounds/training/?', Handler)]), io_loop=self.loop)
            self.server.add_sockets(socks)
            self.port = socks[0].getsockname()[1]
            self.conn = None

        def open(self):
            if self.conn is None:
                self.conn = self.loop.run_sync(lambda: tornado.websocket.websocket_connect('ws://127.0.0.1:%d/zounds/training' % self.port, io_loop=self.loop), timeout=10)

        def read(self):
            out = []

            @tornado.gen.coroutine
            def go():
                fut = self.conn.read_message()
                while True:
                    try:
                        m = yield tornado.gen.with_timeout(self.loop.time() + .03, fut)
                    except tornado.gen.TimeoutError:
                        break
                    if m is None:
                        break
                    out.append(json.loads(m))
                    fut = self.conn.read_message()
                # what is not there yet is read the next time
                self.fut = fut
            self.loop.run_sync(go, timeout=10)
            return out

        def close(self):
            if self.conn is None:
                return
            k = len(self.closed)

            @tornado.gen.coroutine
            def go():
                self.conn.close()
                while len(self.closed) == k:
                    yield tornado.gen.sleep(.001)
            self.loop.run_sync(go, timeout=10)
            self.conn = None

        def stop(self):
            self.close()
            self.server.stop()
            self.loop.close(all_fds=True)
            tornado.ioloop.IOLoop.clear_current()

    class Listener(object):
        """registered as one of its bound methods, which are new objects every time"""

        def __init__(self, x, told):
            self.x, self.told = x, told

        def hear(self, *args, **kwargs):
            self.told(self.x, kwargs)

    def case(g, kind):
        d = dict(kind=kind, epochs=rng.choice([1, 2, 2, 3, 4]), check=rng.choice([1, 1, 2, 3]), bs=rng.choice([1, 2, 3, 4]),
                 size=rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12]), quarters=rng.choice([0, 0, 1, 2, 3]) if kind == 'supervised' else 0,
                 critic=rng.choice([1, 2, 3]), freq=rng.choice([1, 1, 2, 3]), points=rng.choice([0, 1, 2, 3, 5]), mon=rng.random() < .6, events=[])
        if kind == 'wgan' or kind == 'triplet':
            d['size'] = rng.choice([0, 1, 3, 4, 5, 8])
        note = dict(during=lambda: None, step=lambda: None, epoch=None)
        t, data, batch, names, net = KINDS[kind](d, note)
        events = d['events']
        ops = dict(between=[], step={}, dispatch={})
        state = dict(nb=0, open=False)

        def put(ev, **kw):
            events.append(dict(copy.deepcopy(EMPTY), ev=ev, **kw))

        def told(x, kwargs):
            if x == 'first':
                # what this batch was like
                note['epoch'] = kwargs['epoch']
                b = batch()
                name = b.pop('name', None)
                if name is not None and name != kwargs.get('deformation'):
                    b['wrong'] = 'the deformation reported is not the one that was used'
                if b.pop('badepoch', False):
                    b['wrong'] = 'the epoch handed on is not the one that is reported'
                b.pop('epochs', None)
                if kwargs.get('network', None if kind in ('base', 'wgan') else net) is not net:
                    b['wrong'] = 'the network that was handed on is not the one that is trained'
                if kind == 'wgan' and kwargs.get('samples') is not t.samples:
                    b['wrong'] = 'the samples that were handed on are not those of this batch'
                pos = b.pop('pos', None)
                if pos is not None and pos != (kwargs['epoch'], kwargs['batch']):
                    b['wrong'] = 'the step was told another epoch or batch than the callbacks'
                put('batch', **b)
            k = 1000 if kind in ('triplet', 'wgan') else 1
            vals = [scale(kwargs[n] * k if kwargs[n] != 'n/a' else 'n/a') if n in kwargs else -77 for n in names]
            put('told', x=x, n=kwargs['epoch'], b=kwargs['batch'], vals=vals)
            if x == 'first' or x == 'last':
                todo = ops['dispatch'].get(state['nb'], [])
                mine = [o for o in todo if (o['who'] == x)]
                ops['dispatch'][state['nb']] = [o for o in todo if o['who'] != x]
                for o in mine:
                    act(o)
            for o in [o for o in ops['dispatch'].get(state['nb'], []) if o['who'] == x]:
                ops['dispatch'][state['nb']].remove(o)
                act(o)
            if x == 'last':
                state['nb'] += 1
                if state['nb'] == fail['callback']:
                    fail['callback'] = -1
                    fail['raised'] = 'callback'
                    raise Boom('callback')

        listeners = {}
        for x in ('first', 'last', 'a', 'b'):
            style = rng.choice(['method', 'function'])
            l = Listener(x, told)
            if style == 'method':
                listeners[x] = lambda l=l: l.hear
            else:
                listeners[x] = lambda f=(lambda x=x, *args, **kw: told(x, kw)): f

        def act(o):
            x = o['cb']
            if x == 'ws':
                if client is None:
                    return
                if o['op'] == 'reg' and not state['busy']:
                    put('reg', x='ws')
                    client.open()
                elif o['op'] == 'unreg' and client.conn is not None:
                    put('ws', got=[[[m['epoch'], m['batch']], [scale(m[n] * (1000 if kind in ('triplet', 'wgan') else 1)) if m.get(n) != 'n/a' else -1 for n in names]] for m in client.read()])
                    put('unreg', x='ws')
                    client.close()
                return
            put(o['op'], x=x)
            (t.register_batch_complete_callback if o['op'] == 'reg' else t.unregister_batch_complete_callback)(listeners[x]())

        fail = dict(step=-1, callback=-1, raised=None, after=rng.choice([0, 0, 1]) if kind != 'base' else 0)
        if rng.random() < .25:
            fail[rng.choice(['step', 'callback'])] = rng.randint(1, 6)
        app = client = None
        state['busy'] = False
        try:
            with time_limit(40), contextlib.redirect_stdout(io.StringIO()):
                if rng.random() < .5:
                    t.unregister_batch_complete_callback(t._log)
                act(dict(op='reg', cb='first'))
                if d['mon']:
                    cls = MONITORS.get(kind, TrainingMonitorApp)
                    kw = dict(keys_to_graph=names)
                    if cls is not TrainingMonitorApp and rng.random() < .5:
                        kw = dict()
                    else:
                        cls = TrainingMonitorApp
                    app = cls(trainer=t, batch_frequency=d['freq'], n_training_points=d['points'], model=None, globals={}, locals={}, **kw)
                    if rng.random() < .25:
                        client = Client(app)
                m = dict(a='a', b='b')
                if client is not None:
                    m['b'] = 'ws'
                lastpos = rng.random()
                if lastpos < .5:
                    act(dict(op='reg', cb='last'))
                # the controller told last has to be registered
                script, during = [], []
                for o in g:
                    o = dict(op=o['op'], cb=m.get(o['cb'], ''), at=o['at'], n=o['n'])
                    if o['op'] == 'train' or o['at'] == 'between':
                        script.append(o)
                    else:
                        o['who'] = rng.choice(['first', 'last', 'a', 'b'])
                        key = o['n'] + (1 if o['at'] == 'step' else 0) - 1
                        during.append((max(0, key), o))
                for k, o in during:
                    if o['at'] == 'step' and kind == 'base' or rng.random() < .15:
                        ops['step'].setdefault(k, []).append(o)
                    else:
                        ops['dispatch'].setdefault(k, []).append(o)
                if lastpos >= .5:
                    act(dict(op='reg', cb='last'))

                def in_step():
                    for o in ops['step'].pop(state['nb'], []):
                        act(o)
                note['during'] = in_step

                def step():
                    if state['nb'] == fail['step']:
                        fail['after'] -= 1
                        if fail['after'] < 0:
                            fail['step'] = -1
                            fail['raised'] = 'step'
                            raise Boom('step')
                note['step'] = step
                calls = 0
                extra = rng.choice([0, 0, 1, 2])
                for o in script + [dict(op='train')] * extra:
                    if o['op'] != 'train':
                        act(o)
                        continue
                    put('call')
                    state['busy'] = True
                    try:
                        r = t.train(data)
                    except Boom:
                        if not fail['raised']:
                            raise
                        put('fail', x=fail['raised'])
                        fail['raised'] = None
                        state['busy'] = False
                        try:
                            batch()
                        except IndexError:
                            # of a batch that was not finished
                            batch()
                        if client is not None and client.conn is not None:
                            act(dict(op='unreg', cb='ws'))
                        continue
                    state['busy'] = False
                    calls += 1
                    hist = []
                    if d['mon']:
                        k = 1000 if kind in ('triplet', 'wgan') else 1
                        hist = [[scale(v * k if v != 'n/a' else v) for v in app.training_history[n]] for n in names]
                    put('ret', hist=hist, wrong='' if r is net else 'what train returns is not the network')
                    left = batch() if kind == 'supervised' else None
                    if left is not None and left['ids']:
                        events[-1]['wrong'] = 'a batch was trained that nobody was told of'
                    if client is not None and client.conn is not None:
                        act(dict(op='unreg', cb='ws'))
                        if rng.random() < .5:
                            act(dict(op='reg', cb='ws'))
        except Exception as ex:
            import traceback
            put('call', st=ex.__class__.__name__)
            d['err'] = traceback.format_exc()[-1500:]
        finally:
            if client is not None:
                client.stop()
        cases.append(d)

    kinds = ['supervised', 'base', 'triplet', 'wgan']
    for j, g in enumerate(gen):
        case(g, kinds[j % 4])
    # long trainings in several calls
    for _ in range(ctx.n(60, 1200)):
        g = []
        for _ in range(rng.randint(1, 6)):
            g.append(dict(op='train', n=0, cb='', at='between'))
            for _ in range(rng.randint(0, 3)):
                g.append(dict(op=rng.choice(['reg', 'unreg']), n=rng.randint(0, 12), cb=rng.choice('ab'), at=rng.choice(['between', 'step', 'dispatch'])))
        case(g, rng.choice(kinds))

    def make_canaries():
        can = []
        ok = [x for x in cases if all(e['st'] == 'ok' and not e['wrong'] for e in x['events'])]

        def some(f):
            for x in ok:
                x = copy.deepcopy(x)
                if f(x):
                    return can.append(x)

        def twice(x):
            k = [k for k, e in enumerate(x['events']) if e['ev'] == 'told']
            if k:
                x['events'].insert(k[0] + 1, copy.deepcopy(x['events'][k[0]]))
            return k

        def swapped(x):
            k = [e for e in x['events'] if e['ev'] == 'told' and x['kind'] == 'supervised' and abs(e['vals'][0] - e['vals'][1]) > 1]
            if k:
                k[0]['vals'] = k[0]['vals'][::-1]
            return k

        def missing(x):
            k = [k for k, e in enumerate(x['events']) if e['ev'] == 'told' and e['x'] == 'last']
            if k:
                del x['events'][k[-1]]
            return k

        def unpaired(x):
            k = [e for e in x['events'] if e['ev'] == 'batch' and x['kind'] == 'supervised' and len(e['ids'][0]) > 1]
            if k:
                k[0]['labs'][0] = k[0]['labs'][0][::-1]
            return k

        def history(x):
            k = [e for e in x['events'] if e['ev'] == 'ret' and e['hist'] and e['hist'][0] and x['points'] == len(e['hist'][0])]
            if k:
                k[0]['hist'][0].insert(0, 5)
            return k

        def epoch(x):
            k = [e for e in x['events'] if e['ev'] == 'told']
            if k:
                k[-1]['n'] += 1
            return k

        def early(x):
            k = [k for k, e in enumerate(x['events']) if e['ev'] == 'batch']
            r = [j for j, e in enumerate(x['events']) if e['ev'] == 'ret']
            if k and r and r[-1] > k[-1]:
                del x['events'][k[-1]:r[-1]]
                return True
        for f in (twice, swapped, missing, unpaired, history, epoch, early):
            some(f)
        return can
    ctx.validate('TrainingTrace', cases, make_canaries, label='Training')
    n = lambda ev: sum(e['ev'] == ev for x in cases for e in x['events'])
    ctx.extra['trainings'] = dict(cases=len(cases), calls=n('call'), batches=n('batch'), told=n('told'), coming_or_going=n('reg') + n('unreg'))
