"""C14: the on-disk store of codes (HammingStore.tla)."""
import os
import random
import shutil
import signal
import threading
import time
from workers import Worker

KINDS = ('begin', 'put', 'commit', 'idle')


class Fault(object):
    """what to do at which point of the next write transaction of one environment"""

    def __init__(self):
        self.at = None
        self.action = None

    def reach(self, point):
        if self.at == point:
            self.at, act = None, self.action
            act()


class TxnProxy(object):
    def __init__(self, txn, fault):
        self._t, self._f = txn, fault

    def __getattr__(self, k):
        return getattr(self._t, k)

    def __enter__(self):
        self._t.__enter__()
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            try:
                self._f.reach('put')
            except Exception as e:
                self._t.__exit__(e.__class__, e, None)
                raise
        r = self._t.__exit__(et, ev, tb)
        if et is None:
            self._f.reach('commit')
        return r

    def commit(self):
        try:
            self._f.reach('put')
        except Exception:
            self._t.abort()
            raise
        self._t.commit()
        self._f.reach('commit')


class EnvProxy(object):
    def __init__(self, env, fault):
        self._e, self._f = env, fault

    def __getattr__(self, k):
        return getattr(self._e, k)

    def begin(self, *a, **k):
        t = self._e.begin(*a, **k)
        if not (k.get('write') or len(a) > 2 and a[2]):
            return t
        try:
            self._f.reach('begin')
        except Exception:
            t.abort()
            raise
        return TxnProxy(t, self._f)


def make_handler(send):
    """runs in a worker process"""
    import lmdb
    from zounds.index import hammingdb
    HammingDb = hammingdb.HammingDb
    real_open = lmdb.open
    fault = Fault()
    lmdb.open = lambda *a, **k: EnvProxy(real_open(*a, **k), fault)
    handles = {}

    def drop(db):
        for v in list(vars(db).values()):
            if hasattr(v, 'terminate') and hasattr(v, 'map'):
                v.terminate()

    def contents(db, n, threads=False, sort=False, code=None):
        return [bytes(x).decode() for x in db.search(code, n, multithreaded=threads, sort=sort)]

    def handler(cmd):
        op = cmd['op']
        if op == 'open':
            kw = dict(code_size=cmd['size'] or None, writeonly=cmd['wo'])
            if cmd.get('map_size'):
                kw['map_size'] = cmd['map_size']
            handles[cmd['h']] = HammingDb(cmd['path'], **kw)
            return None
        if op == 'reset':
            for db in handles.values():
                db.close()
                drop(db)
            handles.clear()
            return None
        db = handles[cmd['h']]
        if op == 'append':
            at = cmd.get('at')
            if at:
                def act():
                    if cmd['fail']:
                        raise lmdb.Error('injected')
                    os._exit(9)
                fault.at, fault.action = at, act
            try:
                db.append(cmd['code'], cmd['data'])
            finally:
                fired, fault.at = bool(at) and fault.at is None, None
            return fired
        if op == 'search':
            return contents(db, cmd['n'], cmd.get('threads', False), cmd.get('sort', False), cmd['code'])
        if op == 'len':
            return len(db)
        if op == 'size':
            return db.code_size
        if op == 'setmeta':
            return db.set_metadata(cmd['k'], cmd['v'])
        if op == 'getmeta':
            return db.get_metadata(cmd['k'])
        if op == 'close':
            handles.pop(cmd['h']).close()
            drop(db)
            return None
        if op == 'burst':
            # append everything, telling of each entry once it is stored; search in between
            for code, data in cmd['entries']:
                send(('trying', data))
                db.append(code, data)
                send(('acked', data))
            return None
        if op == 'threads':
            # one thread appends while this one searches
            acked, found, errors = [], [], []

            def run():
                try:
                    for code, data in cmd['entries']:
                        db.append(code, data)
                        acked.append(data)
                except Exception as e:
                    errors.append(e.__class__.__name__)
            import sys
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-5)
            t = threading.Thread(target=run)
            t.start()
            try:
                while True:
                    last = not t.is_alive()
                    before = list(acked)
                    try:
                        got, st = contents(db, 10 ** 6, code=cmd['entries'][0][0]), 'ok'
                    except Exception as e:
                        got, st = [], e.__class__.__name__
                    found.append((st, before, got))
                    if last:
                        break
            finally:
                t.join()
                sys.setswitchinterval(old)
            return acked, found, errors
    return handler


def run(ctx):
    import zounds.index                 # once, before any worker is forked
    rng = ctx.rng
    ctx.design('HammingStore')
    gen = ctx.generate('HammingStore', 'HammingStoreGen', limit=ctx.n(400, 4000))
    root = ctx.dir('stores')
    workers = [Worker(make_handler) for _ in range(3)]
    cases = []
    counter = [0]

    class Case(object):
        """one store; the handles live in one process or in one process each"""

        def __init__(self, separate, map_size=None):
            counter[0] += 1
            self.path = os.path.join(root, 'db%d' % counter[0])
            self.separate = separate
            self.map_size = map_size
            self.ops = []
            self.size = 0
            self.n = 0
            self.codes = {}
            self.open = {}
            self.meta = 0

        def worker(self, h):
            return workers[h - 1] if self.separate else workers[0]

        def others(self, h):
            return [h] if self.separate else [1, 2, 3]

        def new(self, fixed=None):
            self.n += 1
            sz = self.size or 8
            k = rng.randrange(4)
            if k == 0 and self.codes:
                code = rng.choice(list(self.codes.values()))    # the same code again
                code = code if isinstance(code, bytes) else code.encode()
            elif k == 1:
                code = bytes([rng.choice([0, 255])]) * sz
            else:
                code = bytes(rng.randrange(256) for _ in range(sz))
            if rng.random() < .15:
                code = ''.join(rng.choice('abcdefgh\xe9' if rng.random() < .3 else 'abcdefgh') for _ in range(sz))
                code = code.replace('\xe9', 'z') if len(code.encode()) != sz else code
            self.codes[self.n] = code
            data = str(self.n)
            return self.n, code, (data if rng.random() < .5 else data.encode())

        def ev(self, **k):
            self.ops.append(k)

        def do(self, op, h, **k):
            w = self.worker(h)
            if op == 'open':
                st, r = w.call(dict(op='open', h=h, path=self.path, size=k['size'], wo=k['wo'],
                                    map_size=self.map_size))
                self.ev(op='open', h=h, size=k['size'], wo=k['wo'], st=st)
                if st == 'ok':
                    self.open[h] = k['wo']
                    if not self.size:
                        self.size = k['size']
                    st, r = w.call(dict(op='size', h=h))
                    self.ev(op='size', n=r if st == 'ok' else -1)
            elif op == 'append':
                e, code, data = self.new()
                st, r = w.call(dict(op='append', h=h, code=code, data=data))
                if st == 'MapFullError':
                    self.ev(op='failappend', h=h, st=st)
                    del self.codes[e]
                else:
                    self.ev(op='append', h=h, e=e, st=st)
            elif op == 'badappend':
                n = rng.choice([x for x in (0, 1, 7, 8, 9, 15, 16, 17, 24) if x != self.size])
                code = b'x' * n
                if rng.random() < .3:
                    code = '\xe9' * self.size          # as many characters, but more bytes
                st, r = w.call(dict(op='append', h=h, code=code, data='bad'))
                self.ev(op='badappend', h=h, st=st)
            elif op == 'failappend':
                e, code, data = self.new()
                st, r = w.call(dict(op='append', h=h, code=code, data=data, at='put', fail=True))
                del self.codes[e]
                if st == 'ok':
                    self.codes[e] = code
                    self.ev(op='append', h=h, e=e, st=st)       # the fault was not reached
                else:
                    self.ev(op='failappend', h=h, st=st)
            elif op == 'search':
                n = max(1, self.n + 5)
                code = bytes(rng.randrange(256) for _ in range(self.size))
                st, r = w.call(dict(op='search', h=h, code=code, n=n, threads=rng.random() < .3,
                                    sort=rng.random() < .3))
                self.ev(op='search', h=h, st=st,
                        got=[int(x) if x.isdigit() else -1 for x in r] if st == 'ok' else [])
            elif op == 'find':
                if self.open.get(h) is False and self.codes:
                    e = rng.choice(list(self.codes))
                    code = self.codes[e]
                    b = code if isinstance(code, bytes) else code.encode()
                    st, r = w.call(dict(op='search', h=h, code=code if rng.random() < .5 else b, n=1, sort=True))
                    ids = {i for i, v in self.codes.items() if (v if isinstance(v, bytes) else v.encode()) == b}
                    if k.get('sure', True):
                        self.ev(op='find', h=h, st=st, want=True,
                                got=bool(st == 'ok' and r and r[0].isdigit() and int(r[0]) in ids))
            elif op == 'len':
                st, r = w.call(dict(op='len', h=h))
                self.ev(op='len', h=h, st=st, n=r if st == 'ok' else -1)
            elif op == 'setmeta':
                self.meta += 1
                st, r = w.call(dict(op='setmeta', h=h, k=b'm', v=str(self.meta).encode()))
                self.ev(op='setmeta', h=h, st=st, v=self.meta)
            elif op == 'getmeta':
                st, r = w.call(dict(op='getmeta', h=h, k=b'm'))
                self.ev(op='getmeta', h=h, st=st, v=int(r or 0) if st == 'ok' else -1)
            elif op == 'close':
                st, r = w.call(dict(op='close', h=h))
                self.ev(op='close', h=h, st=st)
                self.open.pop(h)
            elif op == 'crash':
                e = 0
                if k['at'] == 'idle':
                    w.kill()
                else:
                    e, code, data = self.new()
                    st, r = w.call(dict(op='append', h=h, code=code, data=data, at=k['at'], fail=False))
                    if st != 'dead':
                        # the point was not reached: the append is done
                        self.ev(op='append', h=h, e=e, st=st)
                        e = 0
                        w.kill()
                self.unsure = getattr(self, 'unsure', set()) | {e}
                for o in self.others(h):
                    if o in self.open:
                        self.open.pop(o)
                        self.ev(op='crash', h=o, e=e if o == h else 0, st='ok')

        def audit(self):
            """every handle still open, then one opened afresh, sees everything"""
            for h in list(self.open):
                self.do('search', h)
                self.do('len', h)
            if self.ops and self.size:
                seen = [o for o in self.ops if o['op'] == 'search' and o['st'] == 'ok']
                if seen:
                    have = set(seen[-1]['got'])
                    for e in getattr(self, 'unsure', set()) - have:
                        self.codes.pop(e, None)
                    for h in list(self.open):
                        self.do('find', h)
            for h in (1, 2, 3):
                if h not in self.open:
                    self.do('open', h, size=self.size if rng.random() < .5 else 0, wo=False)
                    if h in self.open:
                        self.do('search', h)
                        self.do('len', h)
                        self.do('getmeta', h)
                    break

        def finish(self):
            for w in workers if self.separate else workers[:1]:
                if w.proc is not None:
                    w.call(dict(op='reset', h=0))
            shutil.rmtree(self.path, ignore_errors=True)
            if self.ops:
                cases.append(dict(ops=self.ops))

    def follow(steps, separate, map_size=None):
        c = Case(separate, map_size)
        for s in steps:
            h = s['h']
            if s['op'] == 'open':
                if h not in c.open:
                    c.do('open', h, size=s['size'], wo=s['wo'])
            elif h in c.open:
                if s['op'] == 'crash':
                    c.do('crash', h, at=s['at'])
                else:
                    c.do(s['op'], h)
        c.audit()
        c.finish()

    # histories of the specification
    for steps in gen:
        follow(steps, separate=rng.random() < .6)

    # longer ones
    for _ in range(ctx.n(150, 3000)):
        sz = rng.choice([8, 16, 24, 64])
        steps = [dict(op='open', h=1, size=sz, wo=rng.random() < .2)]
        for _ in range(rng.randint(8, 25)):
            h = rng.randint(1, 3)
            k = rng.choice(['open', 'open', 'append', 'append', 'append', 'append', 'badappend', 'failappend', 'search',
                            'search', 'find', 'len', 'close', 'crash', 'setmeta', 'getmeta'])
            s = dict(op=k, h=h)
            if k == 'open':
                s.update(size=rng.choice([0, sz, sz, 8, 16, 12]), wo=rng.random() < .2)
            if k == 'crash':
                s.update(at=rng.choice(KINDS))
            if k == 'find' and any(x['op'] == 'crash' for x in steps):
                continue
            steps.append(s)
        follow(steps, separate=rng.random() < .6)

    # a full disk: appends are rejected, what is stored stays
    for _ in range(ctx.n(3, 20)):
        c = Case(rng.random() < .5, map_size=rng.choice([65536, 131072]))
        c.do('open', 1, size=8, wo=False)
        c.do('open', 2, size=0, wo=False)
        for i in range(1500):
            c.do('append', rng.randint(1, 2))
            if c.ops[-1]['op'] == 'failappend' and sum(o['op'] == 'failappend' for o in c.ops) > 4:
                break
        c.audit()
        c.finish()

    # processes appending at the same time, some of them killed
    def burst(kill):
        c = Case(True)
        sz = rng.choice([8, 16])
        for h in (1, 2, 3):
            c.do('open', h, size=sz, wo=h == 3 and rng.random() < .5)
        for h in (1, 2):
            if rng.random() < .5:
                c.do('append', h)
        alive = [h for h in (1, 2, 3) if h in c.open]
        acked, tried, killed, found, st = [], [], [], [], 'ok'
        plan = {}
        for h in alive:
            plan[h] = [c.new()[:2] for _ in range(rng.randint(3, 40))]
        victim = rng.choice(alive) if kill else None
        for h in alive:
            workers[h - 1].send(dict(op='burst', h=h, entries=[(code, str(e)) for e, code in plan[h]]))
        if victim:
            stop = rng.randint(0, len(plan[victim]) - 1)
            k = 0
            w = workers[victim - 1]
            for m in w.messages():
                if m[0] in ('dead', 'done'):
                    break
                (tried if m[0] == 'trying' else acked).append(int(m[1]))
                k += m[0] == 'acked'
                if k >= stop:
                    time.sleep(rng.choice([0, 0, rng.random() * .002]))
                    os.kill(w.proc.pid, signal.SIGKILL)
                    for m in w.messages():      # what it managed to say
                        if m[0] in ('trying', 'acked'):
                            (tried if m[0] == 'trying' else acked).append(int(m[1]))
                    break
            w.kill()
            killed.append(victim)
            c.open.pop(victim)
        for h in alive:
            if h == victim:
                continue
            for m in workers[h - 1].messages(20 if killed else 60):
                if m[0] in ('trying', 'acked'):
                    (tried if m[0] == 'trying' else acked).append(int(m[1]))
            if killed and m[0] == 'done' and m[1] == 'hang':
                # a process killed between giving back the lock and waking up
                # whoever waits for it: a race of the C library's robust mutexes
                ctx.extra['inconclusive_kills'] = ctx.extra.get('inconclusive_kills', 0) + 1
                for w in workers:
                    w.kill()
                c.open.clear()
                return
            if m[0] != 'done' or m[1] != 'ok':
                st = m[1] if len(m) > 1 else 'dead'
        c.unsure = set(tried) - set(acked)
        for e in list(c.codes):
            if e not in tried and e > 2:
                c.codes.pop(e)
        c.ev(op='burst', st=st, acked=acked, tried=tried, killed=killed, found=[])
        c.audit()
        c.finish()
    for i in range(ctx.n(20, 400)):
        burst(kill=i % 2 == 0)

    # a thread appending to the handle another searches
    def threads():
        c = Case(False)
        c.do('open', 1, size=rng.choice([8, 16]), wo=False)
        for _ in range(rng.randint(1, 3)):
            c.do('append', 1)
        plan = [c.new()[:2] for _ in range(rng.randint(20, 60))]
        st, r = workers[0].call(dict(op='threads', h=1, entries=[(code, str(e)) for e, code in plan]))
        if st != 'ok':
            c.ev(op='burst', st=st, acked=[], tried=[], killed=[], found=[])
        else:
            acked, found, errors = r
            num = lambda xs: [int(x) if x.isdigit() else -1 for x in xs]
            c.ev(op='burst', st=errors[0] if errors else 'ok', acked=num(acked), tried=[e for e, _ in plan], killed=[],
                 found=[dict(st=s, before=num(b), got=num(g)) for s, b, g in found])
        c.audit()
        c.finish()
    for _ in range(ctx.n(10, 200)):
        threads()

    for w in workers:
        w.kill()
    def make_canaries():
        canaries = []
        for case in cases:
            ops = case['ops']
            for i, o in enumerate(ops):
                if o['op'] == 'search' and o['st'] == 'ok' and len(o['got']) > 1:
                    import copy
                    for f in (lambda g: g[1:], lambda g: g + [g[0]], lambda g: g + [10 ** 6]):
                        d = copy.deepcopy(case)
                        d['ops'] = d['ops'][:i + 1]
                        d['ops'][i]['got'] = f(d['ops'][i]['got'])
                        if not any(x['op'] in ('crash', 'burst') for x in d['ops']):
                            canaries.append(d)
            if len(canaries) > 8:
                break
        counts = {}
        for case in cases:
            for o in case['ops']:
                counts[o['op']] = counts.get(o['op'], 0) + 1
        ctx.extra['operations'] = counts
        return canaries
    ctx.validate('HammingStoreTrace', cases, make_canaries)
