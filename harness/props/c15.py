"""C15: nearest-neighbour searches (NearestSearch.tla)."""
import copy
import os
import shutil
import sys
import threading


def run(ctx):
    import numpy as np
    from zounds import (ArrayWithUnits, TimeDimension, IdentityDimension, Seconds, Milliseconds, TimeSlice, HammingDb,
                        BruteForceSearch, HammingDistanceBruteForceSearch)
    from zounds.index import HammingIndex
    rng = ctx.rng
    ctx.design('NearestSearch')
    gen = ctx.generate('NearestSearch', 'NearestSearchGen', limit=ctx.n(600, 4000))
    root = ctx.dir('dbs')
    cases = []
    count = [0]

    def drop(db):
        db.close()
        for v in list(vars(db).values()):
            if hasattr(v, 'terminate') and hasattr(v, 'map'):
                v.terminate()

    def num(x):
        try:
            return int(bytes(x).decode())
        except (ValueError, TypeError):
            return 10 ** 6

    def randcode(size, near=None):
        if near is not None and rng.random() < .6:
            b = bytearray(near)
            for _ in range(rng.randint(0, 6)):
                b[rng.randrange(size)] ^= 1 << rng.randrange(8)
            return bytes(b)
        return rng.choice([lambda: bytes(rng.randrange(256) for _ in range(size)),
                           lambda: bytes([rng.choice([0, 255])]) * size,
                           lambda: bytes(rng.choice([0, 128, 1]) for _ in range(size)),
                           lambda: bytes(rng.choice(b'abc') for _ in range(size))])()

    def hamming(codes, size, queries, reopen=False, concurrent=False, lazy=False):
        """codes go into a database piece by piece; queries: (code or None, k, sorted, threads)"""
        count[0] += 1
        path = os.path.join(root, 'db%d' % count[0])
        ops, at = [], 0
        db = HammingDb(path, code_size=size)
        other = HammingDb(path, code_size=size) if rng.random() < .3 else None
        cuts = sorted(rng.randint(0, len(codes)) for _ in range(rng.randint(0, 2))) + [len(codes)]

        def search(d, q, k, srt, thr):
            if q is None:
                q, r = d.random_search(k, multithreaded=thr, sort=srt)
            else:
                r = d.search(q, k, multithreaded=thr, sort=srt)
            return q, r

        def event(q, k, srt, st, got, random=False):
            q = q.encode() if isinstance(q, str) else q
            ops.append(dict(op='search', st=st, q=list(q or b''), k=k, sorted=srt, got=got, random=random))
        for cut in cuts:
            st = 'ok'
            for i in range(at, cut):
                r = ctx.call((other if other and rng.random() < .5 else db).append, codes[i], str(i + 1))
                if r[0] != 'ok':
                    st = r[1]
            if cut > at:
                ops.append(dict(op='add', st=st, codes=[list(x) for x in codes[at:cut]]))
            at = cut
            if reopen and rng.random() < .4:
                drop(db)
                db = HammingDb(path, code_size=rng.choice([None, size]))
            for q, k, srt, thr in queries:
                if q is None and not at:
                    continue
                d = other if other and rng.random() < .3 else db

                def go():
                    qq, r = search(d, q, k, srt, thr)
                    return qq, [num(x) for x in r]
                st, r = ctx.call(go)
                event(r[0] if st == 'ok' else q, k, srt, st if st == 'ok' else r, r[1] if st == 'ok' else [],
                      random=q is None)
            if lazy and len(queries) > 1:
                # two searches whose results are taken in turns
                pair = [x for x in rng.sample(queries, 2) if x[0] is not None]
                try:
                    its = [iter(db.search(q, k, multithreaded=thr, sort=srt)) for q, k, srt, thr in pair]
                    got = [[] for _ in its]
                    live = list(range(len(its)))
                    while live:
                        i = live.pop(0)
                        try:
                            got[i].append(num(next(its[i])))
                            live.append(i)
                        except StopIteration:
                            pass
                    for (q, k, srt, thr), g in zip(pair, got):
                        event(q, k, srt, 'ok', g)
                except Exception as e:
                    event(pair[0][0], 1, False, e.__class__.__name__, [])
            if concurrent:
                done = {}

                def one(i, q, k, srt, thr):
                    res = []
                    for _ in range(4):
                        res.append(ctx.call(lambda: [num(x) for x in db.search(q, k, multithreaded=thr, sort=srt)]))
                    done[i] = res
                old = sys.getswitchinterval()
                sys.setswitchinterval(1e-5)
                todo = [(i,) + x for i, x in enumerate(queries) if x[0] is not None]
                ts = [threading.Thread(target=one, args=x) for x in todo]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                sys.setswitchinterval(old)
                for i, q, k, srt, thr in todo:
                    for st, r in done[i]:
                        event(q, k, srt, st if st == 'ok' else r, r if st == 'ok' else [])
        drop(db)
        if other:
            drop(other)
        shutil.rmtree(path, ignore_errors=True)
        cases.append(dict(metric='bits', ops=ops))

    # behaviours of the specification, the byte at any place in a code
    for b in gen:
        size = rng.choice([8, 16, 32])
        place, pad = rng.randrange(size), rng.choice([0, 255, 7])
        wide = lambda x: bytes([pad] * place + [x] + [pad] * (size - place - 1))
        hamming([wide(x) for x in b['stored']], size,
                [(wide(b['query']), b['k'], b['sorted'], b['threads'] > 1)])

    # larger ones
    for _ in range(ctx.n(150, 2000)):
        size = rng.choice([8, 8, 16, 24, 40, 64])
        base = randcode(size)
        n = rng.choice([0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 33, 60])
        codes = []
        for _ in range(n):
            codes.append(rng.choice(codes) if codes and rng.random() < .2 else randcode(size, base))
        queries = []
        for _ in range(rng.randint(1, 4)):
            q = rng.choice(codes) if codes and rng.random() < .4 else randcode(size, base)
            if rng.random() < .1:
                q = 'abcdefgh' * (size // 8)
            if rng.random() < .2:
                q = None
            queries.append((q, rng.choice([1, 1, 2, 3, 5, 10, n, n + 1, max(1, n - 1), 100]), rng.random() < .5,
                            rng.random() < .5))
        hamming(codes, size, queries, reopen=rng.random() < .4, concurrent=rng.random() < .25, lazy=rng.random() < .4)

    # searches over arrays in memory
    def spans(n, f, d):
        return [TimeSlice(start=f * i, duration=d) for i in range(n)]

    def brute(kind, docs, width, queries, metric=None):
        ops, where, rows = [], {}, []
        f, d = Milliseconds(rng.choice([20, 25, 7])), Milliseconds(rng.choice([20, 40]))
        feats = []
        for i, doc in enumerate(docs):
            a = ArrayWithUnits(np.array(doc, dtype=np.uint64 if kind == 'bits' else rng.choice([float, np.int64])),
                               [TimeDimension(f, d), IdentityDimension()])
            feats.append(('doc%d' % i, a))
            for j, ts in enumerate(spans(len(doc), f, d)):
                rows.append(doc[j])
                where['doc%d' % i, int(ts.start / np.timedelta64(1, 'ps')),
                      int(ts.duration / np.timedelta64(1, 'ps'))] = len(rows)

        def asbytes(row):
            return list(np.array(row, dtype=np.uint64).tobytes()) if kind == 'bits' else [int(x) for x in row]
        st, s = ctx.call(lambda: HammingDistanceBruteForceSearch(iter(feats)) if kind == 'bits'
                         else BruteForceSearch(iter(feats), distance_metric=metric))
        ops.append(dict(op='add', st=st if st == 'ok' else s, codes=[asbytes(r) for r in rows]))
        if st == 'ok':
            for q, k in queries:
                def go():
                    r = s.random_search(k) if q is None else \
                        s.search(np.array(q, dtype=np.uint64 if kind == 'bits' else float), k)
                    got = [where.get((_id, int(ts.start / np.timedelta64(1, 'ps')),
                                      int(ts.duration / np.timedelta64(1, 'ps'))), 10 ** 6) for _id, ts in r]
                    return got, np.asarray(r.query).tolist()
                st, r = ctx.call(go)
                ops.append(dict(op='search', st=st if st == 'ok' else r, k=k, sorted=True, random=q is None,
                                q=asbytes(r[1]) if st == 'ok' else [], got=r[0] if st == 'ok' else []))
        cases.append(dict(metric='bits' if kind == 'bits' else metric, ops=ops))
    for _ in range(ctx.n(150, 2000)):
        kind = rng.choice(['bits', 'vectors'])
        width = rng.choice([1, 2, 4])
        hi = 2 ** 64 - 1 if kind == 'bits' else rng.choice([1, 9])
        row = lambda: [rng.choice([0, hi, rng.randint(0, hi)]) for _ in range(width)]
        docs = [[row() for _ in range(rng.randint(1, 8))] for _ in range(rng.randint(1, 4))]
        total = sum(map(len, docs))
        queries = [(rng.choice([None, row(), rng.choice(docs[0])]), rng.choice([1, 2, 3, total, total + 3]))
                   for _ in range(3)]
        brute(kind, docs, width, queries, rng.choice(['euclidean', 'cityblock', 'chebyshev', 'hamming', 'sqeuclidean']))
    for c in cases:
        if c['metric'] == 'sqeuclidean':
            c['metric'] = 'euclidean'          # the same order

    # the forms a query may have
    class Doc(object):
        pass

    class Feat(object):
        key, version = 'k', 'v'
    ops = []
    ix = HammingIndex(Doc(), Feat(), path=os.path.join(root, 'ix'), version='1')
    for _ in range(ctx.n(40, 300)):
        bits = [rng.randint(0, 1) for _ in range(64 * rng.randint(1, 3))]
        packed = bytes(int(''.join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8))
        form = rng.choice(['bytes', 'uint64', 'uint8', 'bool', 'units'])
        f = packed if form == 'bytes' else np.frombuffer(packed, dtype=np.uint64) if form == 'uint64' \
            else np.array(bits, dtype=np.uint8 if form == 'uint8' else bool)
        if form == 'units':
            f = ArrayWithUnits(f, [IdentityDimension()])
        st, r = ctx.call(lambda: bytes(ix.encode_query(f)))
        ops.append(dict(op='encode', st=st if st == 'ok' else r, got=list(r) if st == 'ok' else [], want=list(packed)))
        st, r = ctx.call(lambda: [int(x) for x in ix.decode_query(packed)])
        ops.append(dict(op='encode', st=st if st == 'ok' else r, got=r if st == 'ok' else [], want=bits))
    cases.append(dict(metric='bits', ops=ops))

    def make_canaries():
        canaries = []
        for case in cases:
            for i, o in enumerate(case['ops']):
                if o['op'] == 'search' and o['st'] == 'ok' and o['got'] and not any(x['st'] != 'ok' for x in case['ops']):
                    for f in (lambda g: g[1:], lambda g: g[:-1] + [10 ** 6], lambda g: g[:-1] + [g[0]] if len(g) > 1 else []):
                        d = copy.deepcopy(case)
                        d['ops'] = d['ops'][:i + 1]
                        d['ops'][i]['got'] = f(o['got'])
                        canaries.append(d)
                    break
            if len(canaries) > 12:
                break
        ctx.extra['searches'] = sum(o['op'] == 'search' for c in cases for o in c['ops'])
        return canaries
    ctx.validate('NearestSearchTrace', cases, make_canaries)
