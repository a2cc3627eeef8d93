"""C16: the similarity index of processed documents (IndexListener.tla)."""
import copy
import os
import shutil
import time
from workers import Worker
from props.c14 import Fault, EnvProxy


def make_handler(send):
    """runs in a worker process; a store of documents, their event log and an index of them"""
    import lmdb
    import threading
    import numpy as np
    import featureflow as ff
    from stream import Source
    from zounds import (ArrayWithUnits, TimeDimension, IdentityDimension, Milliseconds, Picoseconds, TimeSlice,
                        ArrayWithUnitsFeature, HammingIndex, VariableRateTimeSeries, VariableRateTimeSeriesFeature)
    real_open = lmdb.open
    fault = Fault()
    S = {}

    def opened(path, **k):
        env = real_open(path, **k)
        return EnvProxy(env, fault) if 'index.' in path else env
    lmdb.open = opened

    class Pass(ff.Node):
        def __init__(self, needs=None):
            super(Pass, self).__init__(needs=needs)

        def _process(self, data):
            yield data

    class Pass2(Pass):
        pass

    FREQ, DUR = Milliseconds(40), Milliseconds(80)

    def data_of(cmd):
        bits = np.array(cmd['bits'])
        form = cmd['form']
        if form == 'packed':
            bits = np.packbits(bits.astype(bool), axis=-1).view(np.uint64)
        elif form == 'bool':
            bits = bits.astype(bool)
        else:
            bits = bits.astype(np.uint8)
        if cmd['variable']:
            return [VariableRateTimeSeries([(TimeSlice(start=FREQ * i, duration=DUR), b)
                                            for i, b in enumerate(bits)])]
        half = len(bits) // 2
        dims = [TimeDimension(FREQ, DUR), IdentityDimension()]
        return [ArrayWithUnits(x, dims) for x in ((bits[:half], bits[half:]) if half else (bits,))]

    def setup(cmd):
        path = cmd['path']
        for d in ('docs', 'index'):
            os.makedirs(os.path.join(path, d), exist_ok=True)
        kb = ff.StringDelimitedKeyBuilder('|')
        db = ff.LmdbDatabase(os.path.join(path, 'docs'), map_size=10 ** 8, key_builder=kb)
        log = ff.EventLog(path=os.path.join(path, 'log'), channel=ff.InMemoryChannel())

        class Settings(ff.PersistenceSettings):
            id_provider = ff.StaticIdProvider('?')
            key_builder = kb
            database = db
            event_log = log

        class Quiet(ff.PersistenceSettings):
            id_provider = Settings.id_provider
            key_builder = kb
            database = db

        feat = VariableRateTimeSeriesFeature if cmd['variable'] else ArrayWithUnitsFeature

        class Base(ff.BaseModel):
            src = ff.Feature(Source, store=False)
            bits = feat(Pass, needs=src, store=True)
            other = feat(Pass, needs=src, store=True)

        class Base2(ff.BaseModel):
            src = ff.Feature(Source, store=False)
            bits = feat(Pass2, needs=src, store=True)

        class Doc(Base, Settings):
            pass

        class Unlogged(Base, Quiet):
            pass

        class Doc2(Base2, Settings):
            pass
        S.update(Doc=Doc, Doc2=Doc2, Unlogged=Unlogged, log=log, path=path, ids=cmd['ids'], ix={})

    def extra_value(_id, ts):
        return '%s@%d' % (_id, int(ts.start / Picoseconds(1)))

    def handler(cmd):
        op = cmd['op']
        if op == 'setup':
            return setup(cmd)
        if op == 'reset':
            for ix in S.get('ix', {}).values():
                ix.close()
            if 'log' in S:
                S['log'].env.close()
                S['Doc'].database.env.close()
            S.clear()
            return None
        Doc = S['Doc']
        if op == 'process':
            Doc.id_provider.key = cmd['id']
            model = Doc if cmd['how'] == 'process' else S['Unlogged'] if cmd['how'] == 'store' else S['Doc2']
            model.process(src=data_of(cmd))
            return None
        if op == 'open':
            stop = S['stop'] = dict(at=None, how=None, n=0)
            Doc = Doc if not cmd.get('unlogged') else S['Unlogged']

            def tell(doc, ts):
                stop['n'] += 1
                if stop['at'] is not None and stop['n'] > stop['at']:
                    if stop['how'] == 'die':
                        os._exit(9)
                    raise RuntimeError('interrupted')
                return extra_value(doc._id, ts)
            extra = dict(tell=tell) if cmd['extra'] else {}
            S['ix'][cmd['h']] = HammingIndex(Doc, Doc.bits, path=os.path.join(S['path'], 'index'),
                                             listen=cmd.get('listen', False), writeonly=cmd.get('wo', False), **extra)
            return None
        ix = S['ix'][cmd['h']]
        if op == 'close':
            S['ix'].pop(cmd['h']).close()
            return None
        if op in ('catchup', 'add', 'addall'):
            S['stop'].update(at=None, n=0)
            if cmd['how'] in ('raise', 'die'):
                S['stop'].update(at=cmd['at'], how=cmd['how'])
            elif cmd['how'] in ('begin', 'put', 'commit', 'fail'):
                fault.at = 'put' if cmd['how'] == 'fail' else cmd['how']
                left = [cmd['at']]

                def act():
                    if left[0] > 0:
                        left[0] -= 1
                        fault.at, fault.action = ('put' if cmd['how'] == 'fail' else cmd['how']), act
                        return
                    if cmd['how'] == 'fail':
                        raise lmdb.Error('injected')
                    os._exit(9)
                fault.action = act
            try:
                if op == 'catchup':
                    ix._synchronously_process_events()
                elif op == 'add':
                    ix.add(cmd['id'])
                else:
                    ix.add_all()
            finally:
                fault.at = None
                S['stop'].update(at=None)
            return None
        if op == 'live':
            # until everything has arrived
            t = time.time()
            while time.time() - t < cmd['patience']:
                if len(ix) >= cmd['n']:
                    break
                time.sleep(.01)
            time.sleep(.02)
            return None
        if op == 'count':
            return len(ix)
        if op == 'hits':
            S['stop'].update(at=None)
            out, good = [], True
            code = np.random.RandomState(1).randint(0, 2, cmd['width']).astype(np.uint8)
            for hit in ix.search(code, 10 ** 4):
                _id, ts = hit[:2]
                f = ts.start / FREQ
                fine = f == int(f) and ts.duration == DUR and _id in S['ids']
                out.append([S['ids'].index(_id) + 1, int(f) + 1] if fine else [1, 0])
                if len(hit) > 2 and hit[2] != dict(tell=extra_value(_id, ts)):
                    good = False
                if (len(hit) > 2) != bool(ix.extra_data):
                    good = False
            return out, good, len(ix)
    return handler


def run(ctx):
    import zounds.index                 # once, before any worker is forked
    import featureflow
    rng = ctx.rng
    ctx.design('IndexListener')
    gen = ctx.generate('IndexListener', 'IndexListenerGen', limit=ctx.n(150, 2000))
    root = ctx.dir('stores')
    workers = [Worker(make_handler) for _ in range(2)]
    cases = []
    count = [0]

    def history(steps, frames, live=False):
        count[0] += 1
        path = os.path.join(root, 's%d' % count[0])
        os.makedirs(path)
        n = len(frames)
        ids = [rng.choice(['doc%d', 'http://example.com/%d.wav', 'a b%d', 'd\xe9%d']) % i for i in range(n)]
        if rng.random() < .1:
            ids[0] = 'x' * 200
        width = rng.choice([64, 128])
        form = rng.choice(['bool', 'uint8', 'packed'])
        variable = rng.random() < .25
        extra = rng.random() < .7
        contents = [[[rng.randint(0, 1) for _ in range(width)] for _ in range(f)] for f in frames]
        used = [False, False]
        opened = set()
        ops = []

        def call(w, **cmd):
            if not used[w]:
                workers[w].call(dict(op='setup', path=path, ids=ids, variable=variable))
                used[w] = True
            return workers[w].call(cmd)

        def index(w, **k):
            if w not in opened:
                st, r = call(w, op='open', h=1, extra=extra, **k)
                opened.add(w)
                ops.append(dict(op='open', st=st, interrupted=False))

        def check(w):
            index(w)
            st, r = call(w, op='count', h=1)
            ops.append(dict(op='count', st=st, n=r if st == 'ok' else 0, interrupted=False))
            if st == 'ok' and r > 0:
                st, r = call(w, op='hits', h=1, width=width)
                ops.append(dict(op='hits', st=st, interrupted=False, got=r[0] if st == 'ok' else [],
                                extra=r[1] if st == 'ok' else True, n=r[2] if st == 'ok' else 0))

        def indexing(w, op, how, **k):
            index(w)
            st, r = call(w, op=op, h=1, how=how, at=k.pop('at', rng.randint(0, 3)), **k)
            e = dict(op=op, st=st, interrupted=how != 'whole')
            if 'd' in k:
                e['d'] = k['d']
            ops.append(e)
            if st == 'dead':
                used[w] = False
                opened.discard(w)
            elif st != 'ok' and rng.random() < .7:
                # a new instance takes over
                call(w, op='close', h=1)
                opened.discard(w)

        def process(w, d, how='process'):
            st, r = call(w, op='process', id=ids[d], how=how, bits=contents[d], form=form, variable=variable)
            if how != 'version':
                ops.append(dict(op=how, d=d + 1, st=st, interrupted=False))
        processed = set()
        for s in steps:
            w = s.get('w', 0)
            if s['op'] == 'process':
                process(w, s['d'] - 1, s.get('how', 'process'))
                if s.get('how') != 'version':
                    processed.add(s['d'])
            elif s['op'] == 'catchup':
                indexing(w, 'catchup', s['how'], **({'at': s['at']} if 'at' in s else {}))
            elif s['op'] == 'add':
                if s['d'] in processed:
                    indexing(w, 'add', s.get('how', 'whole'), id=ids[s['d'] - 1], d=s['d'])
            elif s['op'] == 'addall':
                if processed and not s.get('mixed'):
                    indexing(w, 'addall', s.get('how', 'whole'))
            elif s['op'] == 'reopen':
                if w in opened:
                    call(w, op='close', h=1)
                    opened.discard(w)
                index(w)
            elif s['op'] == 'both':
                # two processes catch up at the same time
                for x in (0, 1):
                    index(x)
                for x in (0, 1):
                    workers[x].send(dict(op='catchup', h=1, how='whole', at=0))
                for x in (0, 1):
                    for m in workers[x].messages():
                        pass
                    ops.append(dict(op='catchup', st=m[1] if m[0] == 'done' else 'dead', interrupted=False))
            elif s['op'] == 'check':
                check(w)
        check(0)
        # and in the end, everything
        indexing(0, 'catchup', 'whole')
        check(0)
        check(1)
        for w in (0, 1):
            if used[w]:
                workers[w].call(dict(op='reset'))
        shutil.rmtree(path, ignore_errors=True)
        cases.append(dict(frames=frames, ops=ops, what=[ids, width, form, variable, extra]))

    for steps in gen:
        for s in steps:
            s['w'] = rng.choice([0, 0, 1])
            if s['op'] == 'catchup' and s['how'] == 'commit':
                s['how'] = rng.choice(['begin', 'put', 'commit', 'fail'])
        history(steps, [rng.randint(1, 6) for _ in range(2)])
    for _ in range(ctx.n(60, 800)):
        n = rng.randint(1, 4)
        steps = []
        for _ in range(rng.randint(4, 14)):
            op = rng.choice(['process'] * 4 + ['catchup'] * 4 + ['add', 'addall', 'reopen', 'both', 'check', 'check'])
            s = dict(op=op, w=rng.choice([0, 0, 1]))
            if op == 'process':
                s.update(d=rng.randint(1, n), how=rng.choice(['process'] * 5 + ['store', 'version']))
            if op in ('catchup', 'add', 'addall'):
                s['how'] = rng.choice(['whole', 'whole', 'raise', 'raise', 'die', 'begin', 'put', 'commit', 'fail'])
                s['at'] = rng.randint(0, 8)
            if op == 'add':
                s['d'] = rng.randint(1, n)
            steps.append(s)
        # a store may hold documents of which only another version was processed: those cannot be added
        mixed = any(s.get('how') == 'version' for s in steps)
        for s in steps:
            s['mixed'] = mixed
        history(steps, [rng.choice([1, 2, 3, 7]) for _ in range(n)])

    # listening as documents arrive
    def listening():
        count[0] += 1
        path = os.path.join(root, 's%d' % count[0])
        os.makedirs(path)
        n = rng.randint(2, 5)
        frames = [rng.randint(1, 6) for _ in range(n)]
        ids = ['doc%d' % i for i in range(n)]
        extra = rng.random() < .5
        ops = []
        w = workers[0]
        w.call(dict(op='setup', path=path, ids=ids, variable=False))
        before = rng.randint(0, n)

        def process(d):
            st, r = w.call(dict(op='process', id=ids[d], how='process', form='bool', variable=False,
                                bits=[[rng.randint(0, 1) for _ in range(64)] for _ in range(frames[d])]))
            ops.append(dict(op='process', d=d + 1, st=st, interrupted=False))
        for d in range(before):
            process(d)
        if before and rng.random() < .5:
            # some of it is indexed already
            w.call(dict(op='open', h=2, extra=extra))
            st, r = w.call(dict(op='catchup', h=2, how='whole'))
            ops.append(dict(op='catchup', st=st, interrupted=False))
            w.call(dict(op='close', h=2))
        st, r = w.call(dict(op='open', h=1, extra=extra, listen=True))
        ops.append(dict(op='open', st=st, interrupted=False))
        for d in range(before, n):
            process(d)
        st, r = w.call(dict(op='live', h=1, n=sum(frames), patience=10))
        ops.append(dict(op='live', st=st, interrupted=False))
        st, r = w.call(dict(op='count', h=1))
        ops.append(dict(op='count', st=st, n=r if st == 'ok' else 0, interrupted=False))
        st, r = w.call(dict(op='hits', h=1, width=64))
        ops.append(dict(op='hits', st=st, interrupted=False, got=r[0] if st == 'ok' else [],
                        extra=r[1] if st == 'ok' else True, n=r[2] if st == 'ok' else 0))
        w.kill()            # the thread that listens has no end
        # another instance has nothing left to do
        w.call(dict(op='setup', path=path, ids=ids, variable=False))
        w.call(dict(op='open', h=1, extra=extra))
        st, r = w.call(dict(op='catchup', h=1, how='whole'))
        ops.append(dict(op='catchup', st=st, interrupted=False))
        st, r = w.call(dict(op='hits', h=1, width=64))
        ops.append(dict(op='hits', st=st, interrupted=False, got=r[0] if st == 'ok' else [],
                        extra=r[1] if st == 'ok' else True, n=r[2] if st == 'ok' else 0))
        st, r = w.call(dict(op='open', h=3, extra=False, unlogged=True))
        st, r = w.call(dict(op='catchup', h=3, how='whole'))
        ops.append(dict(op='unlogged', st=st, interrupted=False))
        w.call(dict(op='reset'))
        shutil.rmtree(path, ignore_errors=True)
        cases.append(dict(frames=frames, ops=ops, what=[ids, before, extra]))
    for _ in range(ctx.n(8, 80)):
        listening()
    for w in workers:
        w.kill()

    def make_canaries():
        canaries = []
        for case in cases:
            for i, o in enumerate(case['ops']):
                if o['op'] == 'hits' and o['st'] == 'ok' and len(o['got']) > 1 and case['ops'][i - 2]['op'] == 'catchup' \
                        and case['ops'][i - 2]['st'] == 'ok':
                    for f in (lambda g: g[1:], lambda g: g + [g[0]], lambda g: g + [[1, 0]]):
                        d = copy.deepcopy(case)
                        d['ops'] = d['ops'][:i + 1]
                        d['ops'][i]['got'] = f(o['got'])
                        d['ops'][i]['n'] = len(d['ops'][i]['got'])
                        canaries.append(d)
                    break
            if len(canaries) > 8:
                break
        counts = {}
        for case in cases:
            for o in case['ops']:
                k = o['op'] + (' interrupted' if o['st'] != 'ok' else '')
                counts[k] = counts.get(k, 0) + 1
        ctx.extra['operations'] = counts
        return canaries
    ctx.validate('IndexListenerTrace', cases, make_canaries)
