"""C26: statements sent to an application, their answers and links (ReplSession.tla)."""
import copy
import io
import json
import sys
import numpy as np
import featureflow as ff
import soundfile
from webapp import Running, Quiet

UNDEF = -1


def run(ctx):
    with Quiet():
        check(ctx)


def check(ctx):
    import zounds
    from zounds.ui import ZoundsApp, SupervisedTrainingMonitorApp, GanTrainingMonitorApp, TripletEmbeddingMonitorApp
    from zounds.index import SearchResults
    from zounds.segment import TimeSliceFeature
    from matplotlib import pyplot as plt
    plt.style.use('dark_background')
    rng = ctx.rng
    ctx.design('ReplSession')
    gen = [g['ops'] for g in ctx.generate('ReplSession', 'ReplSessionGen')]
    linked = [g for g in gen if any(o['op'] == 'link' for o in g)]
    defined = [g for g in gen if g[0]['op'] == 'set']

    class Same(ff.Node):
        def _process(self, data):
            yield data

    class Settings(ff.PersistenceSettings):
        id_provider = ff.UserSpecifiedIdProvider(key='_id')
        key_builder = ff.StringDelimitedKeyBuilder('|')
        database = ff.InMemoryDatabase(key_builder=key_builder)

    class Document(ff.BaseModel, Settings):
        label = ff.JSONFeature(Same, store=True)
        slices = TimeSliceFeature(Same, store=True)

    for v in range(60):
        spans = [(zounds.TimeSlice(start=zounds.Seconds(0), duration=zounds.Milliseconds(500)), np.zeros(1)),
                 (zounds.TimeSlice(start=zounds.Milliseconds(500), duration=zounds.Seconds(v + 1)), np.zeros(1))]
        Document.process(_id='d/%d' % v, label=dict(value=v), slices=zounds.VariableRateTimeSeries(spans))

    class Trainer(object):
        def register_batch_complete_callback(self, f):
            pass

        def unregister_batch_complete_callback(self, f):
            pass

    PREPARE = b'''import numpy as np
import zounds
from zounds.index import SearchResults

def show(v):
    print(v)
    return v

def tick(n=[]):
    n.append(1)
    raise SyntaxError('tick')

class Odd(object):
    def __init__(self, v):
        self.v = v
    def __str__(self):
        return 'VALUE %d' % self.v

class OddArray(np.ndarray):
    def __str__(self):
        return 'VALUE %d' % self.ravel()[0]

def odd(v, how, Odd=Odd, OddArray=OddArray, np=np):
    if how == 0:
        return Odd(v)
    return np.full([(1, 2, 2, 2), (2, 2, 2), (2, 3, 2)][how - 1], v).view(OddArray)
'''

    def start(kind):
        common = dict(model=Document, visualization_feature=Document.label, audio_feature=Document.label)
        same = True
        names = {}
        if rng.random() < .6:
            names = dict(Document=Document)
            if rng.random() < .5:
                common.update(globals=names, locals=names)
            else:
                common.update(globals=dict(Document=Document), locals=names)
                same = False
        if kind == 'zounds':
            app = ZoundsApp(**common)
        else:
            app = dict(supervised=SupervisedTrainingMonitorApp, gan=GanTrainingMonitorApp, triplet=TripletEmbeddingMonitorApp)[kind](trainer=Trainer(), **common)
        site = Running(app)
        r = say(site, PREPARE)
        if r[0] != 200:
            raise RuntimeError('preparing a session: %s' % (r,))
        return dict(site=site, same=same, docs='Document' in names, kind=kind)

    def say(site, statement):
        r = site.call('POST', '/zounds/repl' + rng.choice(['', '/']), statement)
        try:
            return r[0], json.loads(r[2].decode())
        except ValueError:
            return r[0], dict(error='not json: %r' % r[2][:100])

    # what pictures of arrays look like, from applications of their own
    pictures = {}
    kinds = ['1d', '2d', 'units']

    def array(k, x):
        return dict([('1d', 'np.arange(%s + 2)' % x), ('2d', 'np.arange(%s + 2)[:, None] * np.arange(3)' % x),
                     ('units', 'zounds.ArrayWithUnits(np.arange(%s + 2) * 2., [zounds.TimeDimension(zounds.Seconds(1))])' % x)])[k]

    def open_(site, url):
        return site.call('GET', url + rng.choice(['', '/']))

    ref = start('zounds')
    for k in kinds:
        for v in range(12):
            st, out = say(ref['site'], array(k, v).encode())
            r = open_(ref['site'], out['url']) if 'url' in out else (0, {}, b'')
            pictures[k, r[2]] = v if (k, r[2]) not in pictures else -2
    ref['site'].stop()

    def see(sess, r, how, v):
        """the value that the content of a link shows"""
        ct = r[1].get('content-type', '').split(';')[0]
        if how in kinds:
            return pictures.get((how, r[2]), -2) if ct == 'image/png' else -2
        if how == 'audio':
            try:
                y, sr = soundfile.read(io.BytesIO(r[2]))
            except RuntimeError:
                return -2
            return len(y) // 1000 - 1 if ct == 'audio/ogg' and len(y) % 1000 == 0 and sr == 11025 and abs(abs(y).max() - .5) < .2 else -2
        try:
            d = json.loads(r[2].decode())
        except ValueError:
            return -2
        if how == 'label':
            return d['value'] if ct == 'application/json' and list(d) == ['value'] else -2
        try:
            res = d['results']
            if how == 'slices':
                v = int(round(res[1]['slice']['duration'])) - 1
                if ct != 'application/vnd.zounds.onsets+json' or [x['slice'] for x in res] != [dict(start=0., duration=.5), dict(start=.5, duration=v + 1.)]:
                    return -2
                for x in res:
                    for q in ('audio', 'visualization'):
                        t = sess['site'].call('GET', x[q])
                        if t[0] != 200 or json.loads(t[2].decode()) != dict(value=v):
                            return -2
                return v
            if ct != 'application/vnd.zounds.searchresults+json' or len(res) != 2:
                return -2
            v = int(round(res[0]['slice']['start']))
            want = [dict(start=v, duration=.5), dict(start=.25, duration=v + 1)]
            if any(abs(x['slice'][k] - w[k]) > 1e-9 for x, w in zip(res, want) for k in w):
                return -2
            # the results link to what they are about
            for x, _id in zip(res, (v, 7)):
                for q in ('audio', 'visualization'):
                    t = sess['site'].call('GET', x[q])
                    if t[0] != 200 or json.loads(t[2].decode()) != dict(value=_id):
                        return -2
            return v
        except (KeyError, TypeError, ValueError):
            return -2

    force = []

    def spell(sess, o):
        """the statement, and how its link is to be read"""
        x, k, c = o['v'], o['k'], rng.choice
        same = sess['same']
        op = o['op']
        how = None
        if op == 'set':
            s = c(['{x} = {k}', '{x}={k};', '\n{x} = {k}\n', '  {x} = {k}', 'if True:\n    {x} = {k}', 'for {x} in [0, {k}]: pass', '{x}, z = {k}, 7\r\nz = 8\r\n', '# a comment\n{x} = {k}', '{x} = {k} # "'])
        elif op == 'inc':
            s = c(['{x} += {k}', '{x} = {x} + {k}', 'z = {x}\n{x} = z + {k}'])
        elif op == 'del':
            s = 'del {x}'
        elif op == 'get':
            s = c(['{x}', '({x})', ' {x} ', '{x} # what', '[{x}][0]', '\n{x}', '{x}\r\n', '\t{x} + 0', 'str({x})'] + (['(lambda: {x})()', 'max({x} for _ in [0])'] if same else []))
        elif op == 'print':
            s = c(['print({x})', 'print({x});', 'if True: print({x})', ' print({x}) ', 'import sys; s = sys.stdout.write(str({x}) + "\\n")', 'print({x}, end="\\n")'])
        elif op == 'both':
            s = 'show({x})'
        elif op == 'fail':
            s = c(['{x} = {k}; 1 / 0', '{x} = {k}\nprint("lost")\n1 / 0', 'try:\n    raise ValueError("no")\nexcept ValueError:\n    {x} = {k}\n    1 / 0', 'for {x} in [{k}, 9]: 1 / 0'])
        elif op == 'tick':
            s = c(['tick()', '  tick()', 'print(tick())', 'q = tick()'])
        elif op == 'ticks':
            s = 'len(tick.__defaults__[0])'
        elif op == 'syntax':
            s = c(['x = = 1', 'y = 9\nif', 'print(1', '1 +', 'x = 9; return', 'def', '"', 'x y'])
        elif op == 'exit':
            s = c(['import sys; sys.exit(3)', 'raise SystemExit()', 'x = 1 if raise_ else 2' if False else 'raise SystemExit("x")'])
        elif op == 'odd':
            s = 'odd({x}, %d)' % rng.randrange(4)
        else:
            how = c(kinds + ['audio', 'search'] + (['label', 'slices'] if sess['docs'] else []))
            how = force[0] if force else how
            if how in kinds:
                s = array(how, '{x}')
            elif how == 'audio':
                s = 'zounds.AudioSamples(.5 * np.sin(np.arange(1000 * ({x} + 1)) * .2), zounds.SR11025())'
            elif how == 'search':
                s = 'SearchResults(%s, [("d/%%d" %% {x}, zounds.TimeSlice(zounds.Milliseconds(500), zounds.Seconds({x})))%s, ("d/7", zounds.TimeSlice(zounds.Seconds({x} + 1), zounds.Milliseconds(250)))])' % (c(['b"abc"', 'b"\\xff\\x00"']), '')
                if rng.random() < .3:
                    s = s.replace('Seconds({x})))', 'Seconds({x})), dict(extra=1))')
            else:
                s = 'doc.' + how
        return s.format(x=x, k=k) if how != 'search' else s.replace('{x}', x), how

    cases = []
    apps = ['zounds', 'supervised', 'gan', 'triplet']

    def case(given=None):
        sess = [start(rng.choice(apps) if rng.random() < .4 else 'zounds') for _ in range(2)]
        events, links = [], []
        shadow = [{}, {}]
        ops = []
        if rng.random() < .8:
            ops += [dict(app=a, op='set', v=v, k=rng.choice([1, 3])) for a in (1, 2) for v in ('x', 'y')]
        for _ in range(ctx.n(8, 12)):
            g = rng.choice(rng.choice([gen, linked, defined]))
            swap = rng.random() < .5
            ops += [dict(o, app=3 - o['app'] if swap else o['app']) for o in g]
            if rng.random() < .5:
                ops.append(dict(app=0, op='open', v='', k=0))
        ops += [dict(app=0, op='open', v='', k=-n) for n in range(8, 0, -1)]
        ops = ops if given is None else given
        try:
            for o in ops:
                if o['op'] == 'open':
                    if len(links) < max(1, -o['k']):
                        continue
                    k = len(links) + 1 + o['k'] if o['k'] < 0 else rng.randint(1, len(links))
                    owner = links[k - 1]['app']
                    o = dict(o, k=k, app=owner if rng.random() < .8 else 3 - owner)
                s = sess[o['app'] - 1]
                sh = shadow[o['app'] - 1]
                ev = dict(app=o['app'], op=o['op'], v=o['v'], k=o['k'], st=200, res='', err='', link=False, content=UNDEF, note='')
                if o['op'] == 'open':
                    l = links[o['k'] - 1]
                    r = open_(s['site'], l['url'])
                    ev.update(st=r[0], content=see(s, r, l['how'], 0) if r[0] == 200 else UNDEF, note=l['how'])
                    if r[0] == 200 and l['app'] == o['app'] and r[2] != l['body']:
                        ev.update(content=-2)
                    events.append(ev)
                    continue
                text, how = spell(s, o)
                if how in ('label', 'slices'):
                    # a document by that number is defined first
                    say(s['site'], ('doc = Document("d/%%d" %% %s)' % o['v']).encode())
                    if sh.get(o['v']) is None:
                        text = 'del doc'
                        say(s['site'], b'doc = 1; del doc')
                st, out = say(s['site'], text.encode())
                ev.update(st=st, note=text)
                err = out.get('error')
                if err is not None:
                    ev['err'] = err.strip().splitlines()[-1].split(':')[0].strip() or 'error'
                    if ev['err'] == 'IndentationError':
                        ev['err'] = 'SyntaxError'
                else:
                    ev['res'] = out.get('result', 'none')
                if 'url' in out:
                    r = open_(s['site'], out['url'])
                    ev['link'] = True
                    if how is not None:
                        ct = r[1].get('content-type', '').split(';')[0]
                        ev['content'] = see(s, r, how, 0) if r[0] == 200 and ct == out.get('contentType') else -2
                        links.append(dict(app=o['app'], url=out['url'], how=how, body=r[2]))
                if o['op'] == 'link' and err is None:
                    n = sh.get(o['v'])
                    env = dict(np=np, zounds=zounds)
                    want = {'1d': lambda: str(eval(array('1d', n), env)), '2d': lambda: str(eval(array('2d', n), env)), 'units': lambda: str(eval(array('units', n), env)),
                            'label': lambda: str(dict(value=n))}.get(how)
                    if want is None or n is not None and ev['res'] == want():
                        ev['res'] = 'LINK'
                # what the harness needs to know to spell statements
                if o['op'] in ('set', 'fail'):
                    sh[o['v']] = o['k']
                elif o['op'] == 'inc' and sh.get(o['v']) is not None:
                    sh[o['v']] += o['k']
                elif o['op'] == 'del':
                    sh[o['v']] = None
                events.append(ev)
                if any(v is not None and v > 9 for v in sh.values()):
                    # pictures are known up to here
                    v = [k for k in sh if sh[k] is not None and sh[k] > 9][0]
                    ops_ = dict(app=o['app'], op='set', v=v, k=0, st=0, res='', err='', link=False, content=UNDEF, note='')
                    st, out = say(s['site'], ('%s = 0' % v).encode())
                    ops_.update(st=st, res=out.get('result', 'none'), err='error' if 'error' in out else '')
                    sh[v] = 0
                    events.append(ops_)
        finally:
            for x in sess:
                x['site'].stop()
        cases.append(dict(events=events, apps=[x['kind'] for x in sess], same=[x['same'] for x in sess]))
    stdout = sys.stdout
    # many links, all of which stay
    for how, many in (('1d', 40), ('audio', 60), ('search', ctx.n(150, 1500))):
        force[:] = [how]
        ops = []
        for n in range(many):
            ops += [dict(app=1, op='set', v='x', k=rng.randrange(6)), dict(app=1, op='link', v='x', k=0)]
        case(ops + [dict(app=0, op='open', v='', k=-n) for n in range(many, 0, -1)])
    force[:] = []
    for _ in range(ctx.n(110, 900)):
        case()
        if sys.stdout is not stdout:
            sys.stdout = stdout
            raise RuntimeError('the standard output was not given back')

    def make_canaries():
        can = []

        def some(f, **kw):
            for x in cases:
                for n, ev in enumerate(x['events']):
                    if all(ev[k] == v for k, v in kw.items()):
                        x = copy.deepcopy(x)
                        f(x['events'][n])
                        return can.append(x)
        some(lambda e: e.update(res='5'), op='get', err='')
        some(lambda e: e.update(res='', err='NameError', st=400), op='get', err='')
        some(lambda e: e.update(err='', st=200), op='fail')
        some(lambda e: e.update(st=200), op='fail')
        some(lambda e: e.update(content=e['content'] + 1), op='link', link=True)
        some(lambda e: e.update(link=False), op='link', link=True)
        some(lambda e: e.update(content=e['content'] + 1), op='open', st=200)
        some(lambda e: e.update(st=404), op='open', st=200)
        some(lambda e: e.update(st=200), op='open', st=404)
        some(lambda e: e.update(res='7'), op='ticks')
        return can
    ctx.validate('ReplSessionTrace', cases, make_canaries, label='ReplSession')
    n = {}
    for x in cases:
        for e in x['events']:
            n[e['op']] = n.get(e['op'], 0) + 1
    ctx.extra['statements'] = n
