"""C27: audio sample arrays (AudioBuffer.tla)."""
import copy
import io
import numpy as np


def run(ctx):
    from zounds import (AudioSamples, SR96000, SR48000, SR44100, SR22050, SR16000, SR11025, TimeSlice,
                        Picoseconds, SampleRate, Seconds)
    rng = ctx.rng
    ctx.design('AudioBuffer')
    gen = ctx.generate('AudioBuffer', 'AudioBufferGen', limit=ctx.n(1000, 3000))
    RATES = [SR96000, SR48000, SR44100, SR22050, SR16000, SR11025]
    UNIT = 64          # values are integers / (32768 * UNIT)

    def build(frames, ch, sr, dtype, column):
        x = np.array(frames, dtype=np.float64).reshape((len(frames), ch)) / (32768. * UNIT)
        if ch == 1 and not column:
            x = x[:, 0]
        return AudioSamples(x.astype(dtype), sr)

    def frames_of(a):
        y = np.asarray(a, dtype=np.float64) * 32768 * UNIT
        y = y[:, None] if y.ndim == 1 else y
        return [[int(round(v)) if abs(v - round(v)) < 1e-9 else 10 ** 8 for v in row] for row in y]

    def value():
        return rng.choice([0, 1, -1, rng.randint(-200, 200), rng.randint(-200, 200)]) * UNIT

    def case(names, n):
        sr = rng.choice(RATES)()
        dtype = rng.choice(['float32', 'float64'])
        ch = rng.choice([1, 2])
        start = [[value() for _ in range(ch)] for _ in range(n)]
        ops = []
        state = dict(a=None, f=start, ch=ch)

        def note(op, k, fn, j=0, other=None):
            ev = dict(op=op, k=k, j=j, st='ok', audio=True, sr=0, ch=0, res=[], other=other or [])
            try:
                a = fn()
                ev['audio'] = isinstance(a, AudioSamples)
                ev['res'] = frames_of(a)
                if ev['audio']:
                    ev['sr'] = int(a.samplerate)
                    ev['ch'] = int(a.channels)
                    if a.ndim == 2 and a.shape[1] != ev['ch'] or a.ndim == 1 and ev['ch'] != 1:
                        ev['ch'] = -1
                    td = a.dimensions[0]
                    if td.frequency != sr.frequency or td.duration != sr.frequency:
                        ev['sr'] = -1
                    # the end of the samples is the end of the last one
                    if len(a) and a.end != len(a) * sr.frequency:
                        ev['sr'] = -2
            except Exception as ex:
                ev['st'] = ex.__class__.__name__
                a = None
            ops.append(ev)
            if op != 'refuse' and a is not None and ev['audio']:
                state.update(a=a, f=ev['res'], ch=ev['ch'])
            return a is not None and ev['audio']
        if not note('new', 0, lambda: build(start, ch, sr, dtype, rng.random() < .3)):
            names = []
        for name, k in names:
            a, f, c = state['a'], state['f'], state['ch']
            span = sr.frequency * k
            if name == 'mono' and c == 2 and any((x + y) % 2 for x, y in f):
                continue
            if name == 'encode' and any(v % UNIT or abs(v) >= 32767 * UNIT for x in f for v in x):
                continue
            if any(abs(v) > 10 ** 7 for x in f for v in x):
                break
            if name == 'stereo':
                ok = note('stereo', 0, lambda: a.stereo)
            elif name == 'mono':
                ok = note('mono', 0, lambda: a.mono)
            elif name == 'pad':
                if k == -1:
                    ok = note('pad', int(Seconds(1) / sr.frequency), lambda: a.pad_with_silence())
                else:
                    ok = note('pad', k, lambda: a.pad_with_silence(span))
            elif name == 'silence_like':
                ok = note('silence_like', k, lambda: a.silence_like(span))
            elif name == 'silence':
                j = rng.choice([1, 2])
                ok = note('silence', k, lambda: AudioSamples.silence(sr, span, channels=j), j=j)
            elif name == 'mix':
                o = [[value() for _ in range(c)] for _ in f]
                b = np.array(o, dtype=np.float64).reshape(a.shape) / (32768. * UNIT)
                kind = rng.randrange(2)
                ok = note('mix', 0, lambda: a + (AudioSamples(b.astype(a.dtype), sr) if kind else b), other=o)
            elif name == 'join':
                o = [[value() for _ in range(c)] for _ in range(k)]
                b = AudioSamples((np.array(o, dtype=np.float64) / (32768. * UNIT))
                                 .reshape((k,) + a.shape[1:]).astype(a.dtype), sr)
                kind = rng.randrange(2)
                ok = note('join', 0, (lambda: a.concatenate(b)) if kind else (lambda: AudioSamples.concat([a, b])),
                          other=o)
            elif name == 'cut':
                k = min(k, len(f))
                j = rng.randint(k, len(f))
                kind = rng.randrange(3)
                if kind == 0 and j > k:
                    fn = lambda: a[TimeSlice(start=sr.frequency * k, duration=sr.frequency * (j - k))]
                elif kind == 1:
                    j = len(f)
                    fn = lambda: a[TimeSlice(start=sr.frequency * k)]
                else:
                    fn = lambda: a[k:j]
                ok = note('cut', k, fn, j=j)
            elif name == 'encode':
                fmt, sub = rng.choice([('WAV', 'PCM_16'), ('WAV', 'PCM_16'), ('WAV', 'FLOAT'), ('AIFF', 'PCM_16'),
                                       ('FLAC', 'PCM_16')])
                if fmt == 'FLAC' and not f:
                    continue
                ok = note('encode', 0, lambda: AudioSamples.from_file(a.encode(fmt=fmt, subtype=sub)))
            else:
                other = rng.choice([r for r in RATES if r().samples_per_second != sr.samples_per_second])()
                kind = rng.randrange(2)
                b = np.zeros(a.shape)
                note('refuse', 0, (lambda: a + AudioSamples(b, other)) if kind else
                     (lambda: AudioSamples(b, SampleRate(other.frequency * 7, other.frequency * 7))))
                ok = True
            if not ok:
                break
        return dict(start=start, ch=ch, sr=int(sr), ops=ops, dtype=dtype)
    cases = [case([(o['op'], o['k']) for o in g['ops']], rng.choice([0, 1, 2, 5])) for g in gen]
    names = ['stereo', 'mono', 'pad', 'silence_like', 'silence', 'mix', 'join', 'cut', 'encode', 'refuse']
    for _ in range(ctx.n(1500, 20000)):
        cases.append(case([(rng.choice(names), rng.choice([0, 1, 2, 5, 13])) for _ in range(rng.randint(1, 6))],
                          rng.choice([1, 1, 2, 3, 20])))
    for _ in range(ctx.n(4, 30)):
        cases.append(case([('pad', -1), (rng.choice(names[:3]), 2)], 4))
    def make_canaries():
        can = []
        pool = [k for k in cases if all(o['st'] == 'ok' for o in k['ops']) and k['ops'][-1]['res']]
        for k in rng.sample(pool, 10):
            k = copy.deepcopy(k)
            o = k['ops'][-1]
            m = rng.randrange(3)
            if m == 0:
                o['res'][-1][-1] += 1
            elif m == 1:
                o['res'].append(o['res'][-1])
            else:
                o['sr'] = 1
            can.append(k)
        return can
    ctx.validate('AudioBufferTrace', cases, make_canaries)
