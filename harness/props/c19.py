"""C19: training-sample reservoirs (SampleReservoir.tla)."""
import copy
import itertools
import sys
import threading
import numpy as np
from stream import Source, Recorder, run_graph


class Pause(object):
    """Stops one thread at its k-th step inside an offer until another one has
    done its work (or is waiting for the first one)."""

    def __init__(self, at):
        self.at, self.seen, self.me = at, 0, None
        self.reached, self.go = threading.Event(), threading.Event()

    def hook(self):
        if threading.current_thread() is self.me:
            if self.seen == self.at:
                self.reached.set()
                self.go.wait(20)
            self.seen += 1


class Hooked(np.ndarray):
    """an array whose use in an offer can be interrupted"""
    pause = None

    def __len__(self):
        if self.pause is not None:
            self.pause.hook()
        return super(Hooked, self).__len__()

    @property
    def shape(self):
        if self.pause is not None:
            self.pause.hook()
        return super(Hooked, self).shape

    def __array_finalize__(self, obj):
        self.pause = None


class HookedDict(dict):
    pause = None

    def items(self):
        for x in list(super(HookedDict, self).items()):
            if self.pause is not None:
                self.pause.hook()
            yield x


def run(ctx):
    from zounds import ArrayWithUnits, TimeDimension, Seconds, IdentityDimension, ReservoirSampler, ShuffledSamples
    from zounds.learn import Reservoir
    from zounds.learn.random_samples import MultiplexedReservoir, InfiniteSampler
    rng = ctx.rng
    np.random.seed(ctx.seed * 7 + 1)
    ctx.design('SampleReservoir')
    gen = ctx.generate('SampleReservoir', 'SampleReservoirGen', limit=ctx.n(900, 13824))
    cases = []
    STEP = {'a': 0, 'b': 1000, 'c': 2000}

    class Sink(object):
        """what one reservoir (or sampler) is asked to do and how it's read"""

        def __init__(self, cap, keys, shape, dtype, units, force=None):
            self.cap, self.keys, self.shape, self.dtype, self.units = cap, keys, shape, dtype, units
            self.force = force
            self.r = MultiplexedReservoir(cap, dtype=force) if keys else Reservoir(cap, dtype=force)
            self.fresh = itertools.count(1)
            self.snaps = []

        def rows(self, ids, k, shape=None, hooked=False):
            shape = self.shape if shape is None else shape
            x = np.array([i + STEP[k] for i in ids]).reshape((len(ids),) + (1,) * len(shape))
            x = (x * np.ones((1,) + shape)).astype(self.dtype)
            if hooked:
                return x.view(Hooked)
            if self.units:
                x = ArrayWithUnits(x, [TimeDimension(Seconds(1))] + [IdentityDimension()] * len(shape))
            return x

        def offer(self, ids, hooked=False):
            if not self.keys:
                return self.rows(ids, 'a', hooked=hooked)
            ks = list(self.keys)
            rng.shuffle(ks)
            d = HookedDict if hooked else dict
            return d((k, self.rows(ids, k, hooked=hooked)) for k in ks)

        def ids(self, x, k):
            """the samples of an array, -1 when one isn't what was offered"""
            out = []
            for row in np.asarray(x).reshape((len(x), int(np.prod(x.shape[1:])))):
                v = float(row[0])
                i = int(round(v)) - STEP[k]
                good = np.all(row == row[0]) and v == round(v) and i > 0
                out.append(i if good else -1)
            return out

        def decode(self, x, ev):
            if not self.keys:
                got = [self.ids(x, 'a')]
            else:
                if sorted(x.keys()) != sorted(self.keys):
                    ev['aligned'] = False
                    return []
                got = [self.ids(x[k], k) for k in self.keys]
            for a in (list(x.values()) if self.keys else [x]):
                if a.shape[1:] != self.shape or a.dtype != np.dtype(self.force or self.dtype) or \
                        isinstance(a, ArrayWithUnits) != self.units:
                    ev['mangled'] = True
            if any(g != got[0] for g in got):
                ev['aligned'] = False
            if any(-1 in g for g in got):
                ev['mangled'] = True
            return got[0]

        def event(self, op, ids=()):
            return dict(op=op, st='ok', ids=list(ids), where=[], now=[], aligned=True, mangled=False, oldst='ok', kind='',
                        n=0, batch=[], outs=0, exact=False, counts=[], runs=0)

        def look(self, ev, got=None):
            """read what is held"""
            try:
                if got is None:
                    got = self.r.get()
                ev['now'] = self.decode(got, ev)
            except Exception as ex:
                # nothing was ever offered: there is nothing to read
                if self.snaps or ev['st'] == 'ok' and ev['op'] in ('add', 'node'):
                    ev['now'] = [-1]
                    ev['mangled'] = True
                    ev['err'] = repr(ex)[:200]
                return
            for x, was in self.snaps:
                tmp = dict(aligned=True, mangled=False)
                if self.decode(x, tmp) != was or not tmp['aligned']:
                    ev['oldst'] = 'changed'
            self.snaps = self.snaps[-3:] + [(got, ev['now'])]

    def do(fn, ev):
        try:
            return fn()
        except Exception as ex:
            ev['st'] = ex.__class__.__name__
            ev['err'] = repr(ex)[:200]

    def fresh_sink(**kw):
        keys = rng.choice([[], [], ['a', 'b'], ['a', 'b'], ['a'], ['a', 'b', 'c']])
        force = rng.choice([None, None, None, 'float32', 'int16'])
        args = dict(cap=rng.choice([1, 2, 5, 8, 20]), keys=keys, shape=rng.choice([(), (1,), (3,), (2, 2)]),
                    dtype=rng.choice(['float64', 'float32', 'int64']), units=rng.random() < .4, force=force)
        args.update(kw)
        return Sink(**args)

    def bad_offer(s, kind, n):
        """an offer that isn't consistent, or None"""
        ids = [next(s.fresh) for _ in range(n)]
        if not s.keys:
            if kind == 'lengths':
                idx = [rng.randrange(s.cap) for _ in range(n + rng.choice([1, 2]))]
                if n and rng.random() < .5:
                    idx = idx[:n - 1]
                return lambda: s.r.add(s.rows(ids, 'a'), indices=np.array(idx, dtype=int))
            if kind == 'shape' and s.snaps:
                other = rng.choice([t for t in [(5,), (2, 3), (2, 2, 2)] if t != s.shape])
                return lambda: s.r.add(s.rows(ids or [next(s.fresh)], 'a', shape=other))
            return None
        offer = s.offer(ids)
        k = rng.choice(s.keys)
        if kind == 'keys':
            if not s.snaps:
                return None
            m = rng.randrange(3)
            if m == 0:
                del offer[k]
            elif m == 1:
                offer['z'] = s.rows(ids, 'a')
            else:
                offer['z'] = offer.pop(k)
        elif kind == 'lengths':
            if len(s.keys) < 2:
                return None
            offer[k] = s.rows(ids[:-1] if n and rng.random() < .5 else ids + [next(s.fresh)], k)
        else:
            if not s.snaps:
                return None
            offer[k] = s.rows(ids or [next(s.fresh)], k, shape=rng.choice([t for t in [(5,), (2, 3)] if t != s.shape]))
            if len(offer[k]) != n:
                for o in s.keys:
                    if o != k:
                        offer[o] = s.rows([next(s.fresh)], o)
        return lambda: s.r.add(offer)

    def history(ops):
        s = fresh_sink()
        d = dict(cap=s.cap, keys=s.keys, shape=list(s.shape), dtype=[s.dtype, s.units, str(s.force)], ops=[])
        for op in ops:
            n = op['n']
            if op['op'] == 'good':
                ids = [next(s.fresh) for _ in range(n)]
                ev = s.event('add', ids)
                arg = s.offer(ids)
                do(lambda: s.r.add(arg), ev)
                s.look(ev)
            elif op['op'] in ('keys', 'lengths', 'shape'):
                fn = bad_offer(s, op['op'], n)
                if fn is None:
                    continue
                ev = s.event('bad')
                ev['kind'] = op['op']
                do(fn, ev)
                s.look(ev)
            elif op['op'] == 'get':
                if not s.snaps:
                    continue
                ev = s.event('batch')
                s.look(ev)
            else:
                if s.keys:
                    continue
                ev = s.event('batch')
                ev['n'] = n
                if n == 0 and not (s.snaps and s.snaps[-1][1]):
                    continue
                got = do(lambda: s.r.get_batch(n), ev)
                if ev['st'] == 'ok':
                    ev['batch'] = s.decode(got, ev)
                s.look(ev)
            d['ops'].append(ev)
        if d['ops']:
            cases.append(d)
    for g in gen:
        history(g['ops'])
    for _ in range(ctx.n(150, 3000)):
        history([dict(op=rng.choice(['good'] * 4 + ['keys', 'lengths', 'shape', 'get', 'batch']),
                      n=rng.choice([0, 1, 2, 5, rng.randint(0, 30)])) for _ in range(rng.randint(4, 15))])
    # places given by the caller
    for _ in range(ctx.n(150, 2000)):
        s = fresh_sink(keys=[])
        d = dict(cap=s.cap, keys=[], shape=list(s.shape), dtype=[s.dtype, s.units, str(s.force)], ops=[])
        for _ in range(rng.randint(1, 6)):
            n = rng.randint(0, 8)
            ids = [next(s.fresh) for _ in range(n)]
            where = [rng.randrange(s.cap) for _ in range(n)]
            ev = s.event('place', ids)
            if n and rng.random() < .2:
                ev = s.event('bad')
                ev['kind'] = 'a place outside'
                where[rng.randrange(n)] = rng.choice([-1, s.cap, s.cap + 3])
            else:
                ev['where'] = [w + 1 for w in where]
            do(lambda: s.r.add(s.rows(ids, 'a'), indices=rng.choice([list, np.array])(where) if n else np.array([], dtype=int)), ev)
            s.look(ev)
            d['ops'].append(ev)
        cases.append(d)

    # two threads, one of which is interrupted in the middle of its offer
    def interleave(at, second, full):
        s = fresh_sink(units=False, keys=rng.choice([['a', 'b'], ['a', 'b', 'c']]), cap=rng.choice([1, 2, 4]))
        d = dict(cap=s.cap, keys=s.keys, shape=list(s.shape), dtype=[s.dtype, s.units, str(s.force)], at=at, ops=[])
        if full:
            ids = [next(s.fresh) for _ in range(40)]
            ev = s.event('add', ids)
            do(lambda: s.r.add(s.offer(ids)), ev)
            s.look(ev)
            d['ops'].append(ev)
        a, b = [[next(s.fresh) for _ in range(rng.choice([3, 12]))] for _ in range(2)]
        ev = s.event('threads', a + b)
        pause = Pause(at)
        first = s.offer(a, hooked=True)
        first.pause = pause
        for v in first.values():
            v.pause = pause
        other = s.offer(b)
        errs = []

        def guarded(fn):
            try:
                fn()
            except Exception as ex:
                errs.append(ex.__class__.__name__)
        seen = []

        def other_work():
            if second == 'add':
                s.r.add(other)
            else:
                tmp = dict(aligned=True, mangled=False)
                s.decode(s.r.get(), tmp)
                seen.append(tmp['aligned'] and not tmp['mangled'])
        t1 = threading.Thread(target=guarded, args=(lambda: s.r.add(first),), daemon=True)
        pause.me = t1
        t2 = threading.Thread(target=guarded, args=(other_work,), daemon=True)
        t1.start()
        while t1.is_alive() and not pause.reached.wait(.002):
            pass
        t2.start()
        t2.join(.03)
        pause.go.set()
        t1.join(20)
        t2.join(20)
        if t1.is_alive() or t2.is_alive():
            ev['st'] = 'hang'
        elif errs:
            ev['st'] = errs[0]
        if second != 'add':
            ev['ids'] = a
            if False in seen:
                ev['aligned'] = False
        s.look(ev)
        d['ops'].append(ev)
        cases.append(d)
        return pause.reached.is_set()
    for second in ('add', 'get'):
        for full in (True, False):
            if second == 'get' and not full:
                continue
            for rep in range(ctx.n(3, 12)):
                at = 0
                while interleave(at, second, full) and at < 40:
                    at += 1
    # and many threads at once
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for _ in range(ctx.n(25, 300)):
            s = fresh_sink(units=rng.random() < .3)
            d = dict(cap=s.cap, keys=s.keys, shape=list(s.shape), dtype=[s.dtype, s.units, str(s.force)], ops=[])
            nt = rng.choice([2, 4, 8])
            work = [[[next(s.fresh) for _ in range(rng.randint(0, 9))] for _ in range(rng.randint(1, 6))] for _ in range(nt)]
            work[0][0] = [next(s.fresh)]
            ev = s.event('threads', [i for w in work for o in w for i in o])
            offers = [[s.offer(o) for o in w] for w in work]
            errs, wrong = [], []
            stop = threading.Event()

            def adder(k):
                try:
                    for o in offers[k]:
                        s.r.add(o)
                except Exception as ex:
                    errs.append(ex.__class__.__name__)

            def reader():
                while not stop.is_set():
                    try:
                        x = s.r.get()
                    except Exception as ex:
                        if (s.r.reservoir if s.keys else s.r.arr) is not None and not isinstance(ex, (TypeError, AttributeError)):
                            errs.append(ex.__class__.__name__)
                        continue
                    tmp = dict(aligned=True, mangled=False)
                    s.decode(x, tmp)
                    if not tmp['aligned'] or tmp['mangled']:
                        wrong.append(1)
            ts = [threading.Thread(target=adder, args=(k,), daemon=True) for k in range(nt)]
            r = threading.Thread(target=reader, daemon=True)
            for t in ts + [r]:
                t.start()
            for t in ts:
                t.join(60)
            stop.set()
            r.join(20)
            if any(t.is_alive() for t in ts + [r]):
                ev['st'] = 'hang'
            elif errs:
                ev['st'] = errs[0]
            if wrong:
                ev['aligned'] = False
            s.look(ev)
            d['ops'].append(ev)
            cases.append(d)
    finally:
        sys.setswitchinterval(old)

    # the nodes that sample a stream
    def stream(cls, s, chunks, **kw):
        src = Source()
        node = cls(needs=src, nsamples=s.cap, **kw)
        rec = Recorder(needs=node)
        run_graph(dict(src=src, node=node, rec=rec), dict(src=chunks))
        return rec.got

    def cut(ids):
        out, i = [], 0
        while i < len(ids):
            n = rng.choice([1, 2, 5, len(ids)])
            out.append(ids[i:i + n])
            i += n
        return out
    for _ in range(ctx.n(300, 4000)):
        which = rng.choice(['one-pass', 'shuffled'])
        s = fresh_sink(**(dict(keys=[], force=None) if which == 'one-pass' else {}))
        total = rng.choice([1, s.cap - 1 or 1, s.cap, s.cap + 1, rng.randint(1, 4 * s.cap)])
        ids = [next(s.fresh) for _ in range(total)]
        d = dict(cap=s.cap, keys=s.keys, shape=list(s.shape), dtype=[s.dtype, s.units, str(s.force)], which=which, ops=[])
        ev = s.event('node', ids)
        ev['exact'] = which == 'one-pass'
        chunks = [s.offer(c) for c in cut(ids)]
        kw = {} if which == 'one-pass' else dict(multiplexed=bool(s.keys), dtype=s.force)
        got = do(lambda: stream(ReservoirSampler if which == 'one-pass' else ShuffledSamples, s, chunks, **kw), ev)
        if got is not None:
            ev['outs'] = len(got)
            if got:
                s.look(ev, got[-1])
        d['ops'].append(ev)
        cases.append(d)
    # the samples of a stored collection, over and over
    for _ in range(ctx.n(25, 200)):
        s = fresh_sink(keys=[], cap=rng.choice([5, 20]))
        docs = dict(('d%d' % i, [next(s.fresh) for _ in range(rng.randint(1, 12))]) for i in range(rng.randint(1, 5)))
        everything = [i for v in docs.values() for i in v]

        class Db(object):
            def iter_ids(self):
                return iter(list(docs))

        class Docs(object):
            database = Db()

        def feature(_id, persistence):
            return s.rows(docs[_id], 'a')
        d = dict(cap=s.cap, keys=s.keys, shape=list(s.shape), dtype=[s.dtype, s.units, str(s.force)], which='infinite', ops=[])
        stdout, sys.stdout = sys.stdout, open('/dev/null', 'w')
        try:
            node = InfiniteSampler(nsamples=s.cap, dtype=s.force, parallel=rng.random() < .5)
            it = node._process((Docs, feature))
            for _ in range(3):
                ev = s.event('draws', everything)
                got = do(lambda: next(it), ev)
                if got is not None:
                    s.look(ev, got)
                d['ops'].append(ev)
        finally:
            sys.stdout.close()
            sys.stdout = stdout
        cases.append(d)
    # every sample of a stream is kept as often as any other
    for _ in range(ctx.n(6, 40)):
        n = rng.choice([1, 2, 5])
        total = n + rng.choice([1, 3, 8, 15])
        runs = 300
        s = fresh_sink(keys=[], cap=n, force=None, shape=())
        sizes = [len(c) for c in cut(list(range(total)))]
        counts = [0] * total
        ev = s.event('even')
        d = dict(cap=n, keys=[], which='even', sizes=sizes, ops=[ev])
        for _ in range(runs):
            pos, chunks = 0, []
            for z in sizes:
                chunks.append(s.rows(list(range(pos + 1, pos + z + 1)), 'a'))
                pos += z
            got = do(lambda: stream(ReservoirSampler, s, chunks), ev)
            if not got:
                break
            for i in s.ids(got[0], 'a'):
                counts[i - 1] += 1
        ev['counts'], ev['runs'] = counts, runs
        cases.append(d)
    def make_canaries():
        can = []
        pool = [k for k in cases if k['ops'][-1]['op'] in ('add', 'node', 'place', 'bad') and len(k['ops'][-1]['now']) > 1]
        for k in rng.sample(pool, 20):
            k = copy.deepcopy(k)
            o = k['ops'][-1]
            m = rng.randrange(4)
            if m == 0:
                o['now'][0] = 999999
            elif m == 1:
                o['now'].append(o['now'][0])
            elif m == 2:
                o['oldst'] = 'changed'
            else:
                o['now'] = []
                if not any(x['now'] for x in k['ops']):
                    o['aligned'] = False
            can.append(k)
        can.append(dict(cap=2, keys=[], ops=[dict(cases[-1]['ops'][0], counts=[150, 149, 151, 150], runs=300),
                                             dict(cases[-1]['ops'][0], counts=[300, 100, 100, 100], runs=300)]))
        return can
    ctx.validate('SampleReservoirTrace', cases, make_canaries, label='Reservoir')
