"""C10: reading stored compressed audio (CompressedRead.tla)."""
import copy
import io
import numpy as np
from props.c09 import encode, runs_of

MOD = 60000


def run(ctx):
    import soundfile as sf
    import featureflow as ff
    from zounds import (TimeSlice, Picoseconds, Seconds, Milliseconds, OggVorbis, OggVorbisFeature, audio_sample_rate,
                        simple_in_memory_settings)
    from zounds.soundfile.ogg_vorbis import OggVorbisWrapper
    rng = ctx.rng
    ctx.design('CompressedRead')
    gen = ctx.generate('CompressedRead', 'CompressedReadGen', limit=ctx.n(400, 4000))
    cases = []

    def ramp(n, ch):
        x = (np.arange(n) % MOD - 30000).astype(np.int16)
        return np.stack([x, -x], 1) if ch == 2 else x

    class Reader(object):
        """how the samples of a sound are recognised"""

        def __init__(self, raw, ref=None):
            self.ref = ref
            self.w = OggVorbisWrapper(io.BytesIO(raw))

        def runs(self, y):
            y = np.asarray(y, dtype=np.float64)
            if not len(y):
                return []
            if self.ref is not None:
                a = y[0] if y.ndim == 1 else y[0, 0]
                r = self.ref if self.ref.ndim == 1 else self.ref[:, 0]
                for p in np.where(r == a)[0]:
                    part = self.ref[p:p + len(y)]
                    if part.shape == y.shape and np.all(part == y):
                        return [[int(p), len(y)]]
                return [[-1, len(y)]]
            if y.ndim == 2:
                if not np.all(y[:, 0] == -y[:, 1]):
                    return [[-1, len(y)]]
                y = y[:, 0]
            return runs_of(np.round(y * 32768 + 30000).astype(np.int64), MOD)

    def case(raw, n, ch, sr, ops, ref=None, what=None):
        """ops: ('span', start ps, duration ps), ('open', start), ('whole',), ('iter',), ('chunk', j, count)"""
        f = int(audio_sample_rate(sr).frequency / Picoseconds(1))
        chunk = 10 ** 12 // f
        r = Reader(raw, ref)
        its, out = [], []

        def note(op, fn, s=0, d=0, j=0):
            ev = dict(op=op, s=list(divmod(s, f)), d=list(divmod(d, f)), j=j, st='ok', got=[0, 0], runs=[],
                      sr=sr, ch=ch)
            try:
                y = fn()
                ev['sr'], ev['ch'] = int(y.samples_per_second), int(y.channels)
                ev['runs'] = r.runs(y)
                ev['got'] = [ev['runs'][0][0] if len(y) else 0, len(y)]
            except StopIteration:
                ev['op'] = 'stop'
            except Exception as ex:
                ev['st'] = ex.__class__.__name__
            out.append(ev)
            return ev
        for o in ops:
            if o[0] == 'span':
                d = o[2]
                kind = rng.randrange(3)
                if kind == 0 and o[1] % 10 ** 9 == 0 and d % 10 ** 9 == 0:
                    ts = TimeSlice(start=Milliseconds(o[1] // 10 ** 9), duration=Milliseconds(d // 10 ** 9))
                else:
                    ts = TimeSlice(start=Picoseconds(o[1]), duration=Picoseconds(d))
                ev = note('span', lambda: r.w[ts], o[1], d)
            elif o[0] == 'open':
                ev = note('open', lambda: r.w[TimeSlice(start=Picoseconds(o[1]))], o[1])
            elif o[0] == 'whole':
                ts = TimeSlice() if rng.random() < .5 else slice(None)
                ev = note('whole', lambda: r.w[ts])
            elif o[0] == 'iter':
                its.append(r.w.iter_chunks())
                out.append(dict(op='iter', s=[0, 0], d=[0, 0], j=0, st='ok', got=[0, 0], runs=[], sr=sr, ch=ch))
            elif its:
                j = min(o[1], len(its))
                for _ in range(o[2]):
                    ev = note('chunk', lambda: next(its[j - 1]), j=j)
                    if ev['op'] == 'stop' or ev['st'] != 'ok':
                        break
            if out[-1]['st'] != 'ok':
                break
        return dict(n=n, p=f, chunk=chunk, mod=MOD if ref is None else 2 ** 30, sr=sr, ch=ch, ops=out,
                    what=what or [])

    def plain(n, sr, ch, ops, sub='PCM_16'):
        raw = encode(ramp(n, ch), sr, *sub)
        cases.append(case(raw, n, ch, sr, ops, what=list(sub)))

    RATES = [11025, 16000, 22050, 44100, 48000, 96000]
    # behaviours of the model, one unit of its time is half a second
    for g in gen:
        sr = rng.choice([11025, 16000, 22050])
        f = int(audio_sample_rate(sr).frequency / Picoseconds(1))
        half = (10 ** 12 // f) // 2
        extra = rng.choice([-1, 0, 0, 1])
        n = max(0, g['n'] * half + (extra if g['n'] else 0))

        def ps(t):
            return t[0] * half * f + [0, rng.choice([1, f // 2, f - 1])][t[1]]
        ops = []
        for o in g['ops']:
            if o['op'] == 'span':
                ops.append(('span', ps(o['s']), ps(o['d'])))
            elif o['op'] == 'open':
                ops.append(('open', ps(o['s'])))
            elif o['op'] == 'iter':
                ops.append(('iter',))
            else:
                ops.append(('chunk', o['s'][0], 1))
        plain(n, sr, rng.choice([1, 2]), ops, rng.choice([('WAV', 'PCM_16'), ('WAV', 'PCM_16'), ('AIFF', 'PCM_16')]))

    def span(n, f):
        x = rng.random()
        end = n * f
        if x < .3:
            s, d = rng.randint(0, n + 5) * f, rng.randint(0, n + 5) * f
        elif x < .6:
            s, d = rng.randint(0, 3000) * 10 ** 9, rng.choice([10, 25, 100, 1000, 1001]) * 10 ** 9
        elif x < .8:
            s, d = rng.randint(0, end + f), rng.randint(0, end + f)
        else:
            s, d = rng.randint(0, n) * f + rng.choice([-1, 0, 1]), rng.randint(0, 20) * f + rng.choice([-1, 0, 1])
        return max(0, s), max(0, d)

    def script(n, f):
        ops, its = [], 0
        for _ in range(rng.randint(1, 8)):
            x = rng.random()
            if x < .5:
                ops.append(('span',) + span(n, f))
            elif x < .6:
                ops.append(('open', span(n, f)[0]))
            elif x < .7:
                ops.append(('whole',))
            elif x < .8:
                its += 1
                ops.append(('iter',))
            elif its:
                ops.append(('chunk', rng.randint(1, its), rng.randint(1, 3)))
        if rng.random() < .4:
            # consecutive spans
            s, d = span(n, f)[0] // 2, rng.choice([10, 7, 23, 250]) * 10 ** 9
            for _ in range(12):
                ops.append(('span', s, d))
                s += d
        return ops
    for _ in range(ctx.n(250, 4000)):
        sr, ch = rng.choice(RATES), rng.choice([1, 2])
        n = rng.choice([1, 2, 10, rng.randint(1, 3 * sr), sr, 2 * sr, 2 * sr + 1, sr - 1])
        f = int(audio_sample_rate(sr).frequency / Picoseconds(1))
        plain(n, sr, ch, script(n, f), rng.choice([('WAV', 'PCM_16'), ('AIFF', 'PCM_16')]))
    # long sounds: a second is not a whole number of picosecond-rounded periods
    for sr, secs in ctx.n([(96000, 172)], [(96000, 172), (96000, 400), (44100, 560), (48000, 1320)]):
        n = sr * secs + rng.randint(0, 3)
        f = int(audio_sample_rate(sr).frequency / Picoseconds(1))
        ops = [('iter',), ('chunk', 1, secs + 5)] + [('span',) + (rng.randint(0, secs) * 10 ** 12, 10 ** 12)
                                                    for _ in range(10)] + [('open', (n - 3) * f)]
        plain(n, sr, 1, ops, ('WAV', 'PCM_16'))
    # compressed with loss: what the whole file decodes to, read in order (libsndfile cannot seek in it exactly)
    for _ in range(ctx.n(12, 100)):
        sr, ch = rng.choice([11025, 22050, 44100]), rng.choice([1, 2])
        n = rng.choice([sr, rng.randint(2000, 4 * sr), rng.randint(2000, 12 * sr)])
        r = np.random.RandomState(rng.randrange(10 ** 6))
        raw = encode((r.uniform(-1, 1, (n, ch) if ch == 2 else n) * 9000).astype(np.int16), sr, 'OGG', 'VORBIS')
        ref = sf.read(io.BytesIO(raw))[0]
        if len(ref) != n:
            continue
        k = rng.randrange(3)
        if k == 0:
            ops = [('whole',)]
        elif k == 1:
            ops = [('iter',), ('chunk', 1, 20)]
        else:
            d = rng.choice([7, 10, 333, 2500]) * 10 ** 9
            ops = [('span', i * d, d) for i in range(15)]
        cases.append(case(raw, n, ch, sr, ops, ref, ['OGG', 'VORBIS']))

    # compressing a stream of bytes
    def encoded(n, sr, ch, fmt, sub, chunksize):
        t = np.arange(n + 64)
        r = np.random.RandomState(rng.randrange(10 ** 6))
        x = np.convolve(r.uniform(-.5, .5, n + 64), np.hanning(9) / 4., 'same')[:n]
        raw = encode(np.stack([x, -x], 1) if ch == 2 else x, sr, fmt, sub)

        @simple_in_memory_settings
        class Doc(ff.BaseModel):
            raw = ff.ByteStreamFeature(ff.ByteStream, chunksize=chunksize, store=False)
            ogg = OggVorbisFeature(OggVorbis, needs=raw, store=True)
        ev = dict(op='encoded', s=[0, 0], d=[0, 0], j=0, st='ok', got=[0, 0], runs=[], sr=sr, ch=ch)
        f = int(audio_sample_rate(sr).frequency / Picoseconds(1))
        ref = sf.read(io.BytesIO(raw))[0]
        try:
            _id = Doc.process(raw=io.BytesIO(raw))
            y = Doc(_id).ogg[TimeSlice()]
            ev['sr'], ev['ch'] = int(y.samples_per_second), int(y.channels)
            y, ref = [np.asarray(q)[:, 0] if np.ndim(q) == 2 else np.asarray(q) for q in (y, ref)]
            if fmt == 'OGG':
                ok = len(y) == len(ref) and np.all(y == ref)
            else:
                ok = True
                for a in range(0, len(y) - 512, 2048):
                    w = y[a:a + 2048]
                    cc = [np.dot(w[8:-8], ref[a + 8 + l:a + len(w) - 8 + l])
                          if len(ref[a + 8 + l:a + len(w) - 8 + l]) == len(w) - 16 else -1 for l in range(-8, 9)]
                    ok = ok and int(np.argmax(cc)) == 8
            ev['runs'] = [[0 if ok else -1, len(y)]] if len(y) else []
            ev['got'] = [0 if ok else -1, len(y)]
        except Exception as ex:
            ev['st'] = ex.__class__.__name__
            ev['err'] = repr(ex)
        cases.append(dict(n=len(ref), p=f, chunk=1, mod=2 ** 30, sr=sr, ch=ch, ops=[ev],
                          what=[fmt, sub, chunksize, len(raw)]))
    for _ in range(ctx.n(16, 150)):
        sr, ch = rng.choice([11025, 22050, 44100]), rng.choice([1, 2])
        n = rng.choice([sr, rng.randint(2000, 4 * sr), rng.randint(2000, 30 * sr)])
        fmt = rng.choice([('WAV', 'PCM_16'), ('WAV', 'FLOAT'), ('AIFF', 'PCM_16'), ('OGG', 'VORBIS')])
        encoded(n, sr, ch, fmt[0], fmt[1], rng.choice([5000, rng.randint(2000, 100000), 10 ** 6]))
    def make_canaries():
        can = []
        pool = [k for k in cases if all(o['st'] == 'ok' for o in k['ops']) and any(o['got'][1] for o in k['ops'])]
        for k in rng.sample(pool, 12):
            k = copy.deepcopy(k)
            o = rng.choice([o for o in k['ops'] if o['got'][1]])
            m = rng.randrange(4)
            if m == 0:
                o['got'][0] += 1
            elif m == 1:
                o['got'][1] += 1
            elif m == 2:
                o['sr'] += 1
            else:
                o['runs'].append([0, 1])
            can.append(k)
        return can
    ctx.validate('CompressedReadTrace', cases, make_canaries)
