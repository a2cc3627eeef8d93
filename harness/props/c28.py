"""C28: the growable buffer (Growable.tla)."""
import copy
import numpy as np


def run(ctx):
    from zounds.nputil import Growable
    rng = ctx.rng
    ctx.design('Growable')
    gen = ctx.generate('Growable', 'GrowableGen', limit=ctx.n(1500, 12000))
    KINDS = [('float64', 'float'), ('float32', 'float'), ('int64', 'int'), ('int16', 'int'), ('uint8', 'int'),
             ('bool', 'bool'), ('object', 'float'), ('float16', 'float'), ('complex64', 'float'), ('record', 'int')]
    REC = np.dtype([('a', 'i4'), ('b', 'i4')])
    cases = []

    def halves(a, w):
        out = []
        for row in a:
            if a.dtype.names:
                out.append([int(row['a']) * 2, int(row['b']) * 2])
                continue
            vals = np.asarray(row).reshape(-1)
            if len(vals) == 1 and w == 1 or len(vals) == w:
                out.append([int(round(float(np.real(v)) * 2)) if v is not None and np.isfinite(float(np.real(v))) and abs(float(np.real(v))) < 10 ** 8
                            else -888 for v in vals])
            else:
                out.append([-777] * len(vals))
        return out

    def one(g):
        name, kind = rng.choice(KINDS)
        rec = name == 'record'
        shape = () if rec else rng.choice([(), (), (1,), (3,), (2, 2), (4,)])
        w = 2 if rec else int(np.prod(shape)) if shape else 1
        dt = REC if rec else np.dtype(name)
        lo = 0 if name in ('uint8', 'bool') else -40

        def val():
            return rng.choice([0, 1, 2, 3, rng.randint(lo, 90), 2 * rng.randint(lo // 2, 45)])

        def py(h):
            return h // 2 if h % 2 == 0 and rng.random() < .5 else h / 2.

        def cast(h):
            if kind == 'int':
                return 2 * int(h / 2.)
            return (2 if h else 0) if kind == 'bool' else h
        init = [[cast(val()) for _ in range(w)] for _ in range(g['phys'])]
        if rec:
            data = np.array([(r[0] // 2, r[1] // 2) for r in init], dtype=dt)
        else:
            flat = [h / 2. for r in init for h in r]
            data = np.array(flat).reshape((g['phys'],) + shape).astype(dt)
        gb = Growable(data, g['pos'], g['rate'] / 100.)
        d = dict(phys=g['phys'], pos=g['pos'], kind=kind, width=w, init=init[:g['pos']], dtype=name, shape=list(shape),
                 rate=g['rate'], ops=[])
        old, oldrows = gb.logical_data, halves(gb.logical_data, w)
        for op in g['ops']:
            n = op['n']
            single = n == 1 and rng.random() < .7
            ev = dict(op='', st='ok', rst='ok', items=[], bad=False, size=-1, rows=[], phys=-1, old=[])
            bad = op['bad'] and not (name == 'object' or n == 0)
            ev['bad'] = bad
            arg = None
            if bad:
                kinds = ['shape', 'text']
                if not single:
                    kinds += ['ragged', 'scalar']
                k = rng.choice(kinds)
                if rec:
                    k = rng.choice(['shape', 'scalar'] if not single else ['shape'])
                if k == 'shape':
                    cell = [0] * (w + 1) if not rec else (1, 2, 3)
                    arg = cell if single else [cell] * n
                    if name == 'bool':
                        arg = np.array(arg)
                    if rec and not single:
                        arg = np.zeros((n, 3))[:, None] + np.zeros((1, 2, 1))
                elif k == 'text':
                    arg = 'some text' if single else ['some text'] * n
                    if name == 'bool':
                        arg = np.zeros((5, 7)) if single else np.zeros((n, 5, 7))
                elif k == 'ragged':
                    arg = [[1, 2]] * (n - 1) + [[1] * 9]
                else:
                    arg = 7
                ev['op'] = k
            else:
                whole = not rec and rng.random() < .3
                items = [[val()] if whole else [val() for _ in range(w)] for _ in range(n)]
                ev['items'] = items
                if rec:
                    for it in items:
                        it[:] = [2 * (h // 2) for h in it]
                    cells = [tuple(h // 2 for h in it) for it in items]
                    arg = cells[0] if single else np.array(cells, dtype=dt)
                elif whole:
                    cells = [py(it[0]) for it in items]
                    arg = cells[0] if single else rng.choice([lambda: cells, lambda: np.array(cells), lambda: tuple(cells)])()
                else:
                    cells = [np.array([h / 2. for h in it]).reshape(shape) for it in items]
                    how = rng.randrange(4)
                    if single:
                        arg = cells[0] if how or shape else py(items[0][0])
                        if how == 2:
                            arg = arg.tolist()
                    else:
                        a = np.array(cells).reshape((n,) + shape)
                        if how == 0:
                            a = a.astype('f4')
                        if how == 1:
                            a = a.astype('f8').tolist()
                        if how == 2 and all(h % 2 == 0 for it in items for h in it):
                            a = a.astype(rng.choice(['i8', 'i2']))
                        if how == 3:
                            a = np.asfortranarray(a)
                        arg = a
                ev['op'] = 'append' if single else 'extend'
            try:
                r = gb.append(arg) if single else gb.extend(arg)
                if r is not gb:
                    ev['st'] = 'ReturnedSomethingElse'
            except Exception as ex:
                ev['st'] = ex.__class__.__name__
                d['err'] = repr(ex)[:200]
            # what was passed in is no longer looked at
            if isinstance(arg, np.ndarray) and arg.dtype.kind == 'f' and arg.size and not bad and name != 'object':
                arg[...] = 33
            try:
                cur = gb.logical_data
                ev['rows'] = halves(cur, w)
                ev['size'] = int(gb.logical_size)
                ev['phys'] = int(gb.physical_size)
                if gb.data.shape[0] != ev['phys'] or gb.data.dtype != dt:
                    ev['rst'] = 'WrongMemory'
                ev['old'] = halves(old, w)
                if g['pos'] <= g['phys']:
                    old = cur
                else:
                    ev['old'] = []
            except Exception as ex:
                ev['rst'] = ex.__class__.__name__
                d['err'] = repr(ex)[:200]
            d['ops'].append(ev)
        cases.append(d)
    for g in gen:
        one(g)
    # longer histories
    for _ in range(ctx.n(150, 3000)):
        phys = rng.choice([0, 1, 2, 10, 33])
        one(dict(phys=phys, pos=rng.randint(0, phys + (2 if rng.random() < .2 else 0)),
                 rate=rng.choice([1, 10, 33, 99, 100, 150, 1000]),
                 ops=[dict(n=rng.choice([0, 1, 1, 1, 2, 3, rng.randint(0, 40)]), bad=rng.random() < .15)
                      for _ in range(rng.randint(5, 40))]))
    def make_canaries():
        can = []
        pool = [k for k in cases if k['ops'] and k['ops'][-1]['rst'] == 'ok' and k['ops'][-1]['rows'] and k['pos'] <= k['phys']]
        for k in rng.sample(pool, 15):
            k = copy.deepcopy(k)
            o = k['ops'][-1]
            m = rng.randrange(4)
            if m == 0:
                o['rows'][rng.randrange(len(o['rows']))][0] += 200
            elif m == 1:
                o['rows'].pop()
            elif m == 2:
                o['size'] += 1
            else:
                o['phys'] = len(o['rows']) - 1 if len(o['rows']) > k['pos'] else 0
                if o['size'] <= k['pos']:
                    o['size'] -= 1
            can.append(k)
        return can
    ctx.validate('GrowableTrace', cases, make_canaries, label='Growable')
