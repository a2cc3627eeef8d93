"""C11: overlap-add synthesis (OverlapAdd.tla)."""
import copy
import numpy as np
from stream import Source, Recorder, run_graph


def run(ctx):
    from zounds import (AudioSamples, ArrayWithUnits, TimeDimension, IdentityDimension, SlidingWindow, SampleRate,
                        OggVorbisWindowingFunc, FFT, DCT, DCTIV, MDCT, FFTSynthesizer, DCTSynthesizer,
                        DCTIVSynthesizer, MDCTSynthesizer, WindowedAudioSynthesizer, SineSynthesizer,
                        NoiseSynthesizer, SilenceSynthesizer, TickSynthesizer, audio_sample_rate, Picoseconds,
                        Milliseconds, HalfLapped)
    rng = ctx.rng
    ctx.design('OverlapAdd')
    gen = ctx.generate('OverlapAdd', 'OverlapAddGen', limit=ctx.n(600, 2000))
    RATES = [11025, 16000, 22050, 44100, 48000, 96000]
    cases = []

    def base(w, h, k, sr, **kw):
        d = dict(w=w, h=h, k=k, sr=sr, ms=0, x=[], tol=0, each=False, ops=[])
        d.update(kw)
        cases.append(d)
        return d

    def result(d, how, fn, frm=None, count=None, scale=1):
        ev = dict(op='result', how=how, st='ok', audio=True, sr=0, n=0, out=[])
        ev['from'] = frm or 0
        try:
            y = fn()
            ev['audio'] = isinstance(y, AudioSamples)
            ev['n'] = len(y)
            ev['sr'] = int(y.samples_per_second) if ev['audio'] else 0
            v = np.asarray(y, dtype=np.float64)[ev['from']:]
            v = v[:count] if count else v
            if how != 'generate':
                v = np.clip(v * scale, -1e9, 1e9)
                ev['out'] = [int(round(float(q))) if np.isfinite(q) else 10 ** 9 for q in v]
        except Exception as ex:
            ev['st'] = ex.__class__.__name__
            ev['err'] = repr(ex)[:200]
        d['ops'].append(ev)

    def add(frames, w, h, sr):
        sr_ = audio_sample_rate(sr)
        d = base(w, h, len(frames), sr)
        d['ops'] = [dict(op='frame', f=list(f)) for f in frames]
        dims = [TimeDimension(sr_.frequency * h, sr_.frequency * w), IdentityDimension()]
        arr = ArrayWithUnits(np.array(frames, dtype=rng.choice(['float64', 'float32'])).reshape((-1, w)), dims)
        result(d, 'add', lambda: WindowedAudioSynthesizer().synthesize(arr))
    for g in gen:
        add(g['frames'], g['w'], g['h'], rng.choice(RATES))
    for _ in range(ctx.n(400, 5000)):
        w = rng.choice([1, 2, 3, 5, 8, 13, 21])
        h = rng.choice([1, 2, 3, rng.randint(1, 30), w, max(1, w // 2)])
        add([[rng.randint(-99, 99) for _ in range(w)] for _ in range(rng.randint(1, 9))], w, h, rng.choice(RATES))

    def windows(x, w, h, sr, nodes_of):
        """cut a signal, in several chunks, into windows and transform them"""
        sr_ = audio_sample_rate(sr)
        chunks, i = [], 0
        while i < len(x):
            n = rng.choice([len(x), rng.randint(w, 5 * w)])
            chunks.append(AudioSamples(x[i:i + n], sr_))
            i += n
        src = Source()
        win = SlidingWindow(SampleRate(sr_.frequency * h, sr_.frequency * w), wfunc=nodes_of[0], needs=src)
        t = nodes_of[1](win) if nodes_of[1] else win
        rec = Recorder(needs=t)
        nodes = dict(src=src, win=win, rec=rec)
        if nodes_of[1]:
            nodes['t'] = t
        run_graph(nodes, dict(src=chunks))
        got = [g for g in rec.got if len(g)]
        return got[0] if len(got) == 1 else ArrayWithUnits.concat(got)

    ogg = OggVorbisWindowingFunc
    PAIRS = {
        'FFT': ((ogg, lambda n: FFT(needs=n)), lambda: FFTSynthesizer(), False),
        'MDCT': ((ogg, lambda n: MDCT(needs=n)), lambda: MDCTSynthesizer(), False),
        'DCT with a window': ((ogg, lambda n: DCT(needs=n)), lambda: DCTSynthesizer(windowing_func=ogg()), False),
        'DCT': ((None, lambda n: DCT(needs=n)), lambda: DCTSynthesizer(), True),
        'DCTIV': ((None, lambda n: DCTIV(needs=n)), lambda: DCTIVSynthesizer(), True),
        'plain windows': ((None, None), lambda: WindowedAudioSynthesizer(), True),
    }

    def round_trip(name, n, w, h, sr):
        (wf, node), synth, each = PAIRS[name]
        r = np.random.RandomState(rng.randrange(10 ** 6))
        x = r.randint(-20000, 20000, n)
        # the transforms compute with floats: one part in twenty thousand is plenty to tell samples apart
        d = base(w, h, 0, sr, tol=0 if name == 'plain windows' else 2, each=each)
        try:
            f = windows(x.astype(np.float64), w, h, sr, (wf() if wf else None, node))
        except Exception as ex:
            d['ops'] = [dict(op='result', how=name, st=ex.__class__.__name__, err=repr(ex)[:200])]
            return
        d['k'] = len(f)
        d['what'] = [name, n]
        frm = rng.choice([0, rng.randint(0, max(0, len(x) - 200))])
        # the end is padded with silence
        pad = np.concatenate([x, np.zeros(2 * w + 2 * h, dtype=int)])
        count = min(200, max(0, (len(f) - 1) * h + w - frm))
        d['x'] = [int(v) for v in pad[frm:frm + count]]
        result(d, name, lambda: synth().synthesize(f), frm, count)
        if len(d['ops'][-1]['out']) < count and d['ops'][-1]['st'] == 'ok':
            d['ops'][-1]['n'] = -1
    for _ in range(ctx.n(200, 2500)):
        name = rng.choice(sorted(PAIRS))
        sr = rng.choice(RATES)
        each = PAIRS[name][2]
        if each:
            w = rng.choice([1, 2, 3, 8, 33, 64, 501])
            h = rng.choice([w, max(1, w // 2), max(1, w // 3), rng.randint(1, 2 * w)])
            if name != 'plain windows':
                w = max(4, w)
        else:
            # windows whose squared halves add up to one (up to 2e-5)
            h = rng.choice([32, 64, 100, 512, 1024])
            w = 2 * h
        round_trip(name, rng.choice([w, w + h, w + 2 * h + 1, rng.randint(w, 12 * w + h)]), w, h, sr)

    def half_lapped(name, sr):
        """the scheme of windows that is described at 44.1 kHz"""
        sr_ = audio_sample_rate(sr)
        scheme = HalfLapped()
        h, w = [int(round(q / sr_.frequency)) for q in (scheme.frequency, scheme.duration)]
        return w, h
    for _ in range(ctx.n(6, 60)):
        sr = rng.choice([11025, 22050, 44100, 48000])
        w, h = half_lapped('FFT', sr)
        if w == 2 * h:
            round_trip('FFT', rng.randint(w, 8 * w), w, h, sr)
    for _ in range(ctx.n(300, 3000)):
        sr = rng.choice(RATES)
        ms = rng.choice([1, 7, 10, 20, 100, 250, 333, 500, 570, 1000, 1234, rng.randint(1, 3000), rng.randint(1, 9999)])
        d = base(1, 1, 0, sr, ms=ms)
        k = rng.randrange(5)
        sr_ = audio_sample_rate(sr)
        fr = [rng.choice([440., 220., 110., 261.6, 1000., rng.uniform(20, 5000)]) for _ in range(rng.randint(1, 4))]
        if k <= 1:
            result(d, 'generate', lambda: SineSynthesizer(sr_).synthesize(Milliseconds(ms), fr))
        elif k == 2:
            result(d, 'generate', lambda: NoiseSynthesizer(sr_).synthesize(Milliseconds(ms)))
        elif k == 3:
            result(d, 'generate', lambda: SilenceSynthesizer(sr_).synthesize(Milliseconds(ms)))
        else:
            result(d, 'generate', lambda: TickSynthesizer(sr_).synthesize(Milliseconds(ms), Milliseconds(rng.randint(20, 400))))
        d['what'] = [k, ms]
    def make_canaries():
        can = []
        pool = [k for k in cases if k['ops'][-1]['st'] == 'ok']
        for k in rng.sample([k for k in pool if k['ops'][-1]['out'] and k['ops'][-1]['how'] == 'add'], 5):
            k = copy.deepcopy(k)
            o = k['ops'][-1]
            o['out'][rng.randrange(len(o['out']))] += 1
            can.append(k)
        for k in rng.sample(pool, 6):
            k = copy.deepcopy(k)
            o = k['ops'][-1]
            if rng.random() < .5:
                o['n'] += 1
            else:
                o['sr'] += 1
            can.append(k)
        for k in rng.sample([k for k in pool if len(k['ops'][-1]['out']) > 80 and k['k'] > 6 and not k['each']], 3):
            k = copy.deepcopy(k)
            o = k['ops'][-1]
            o['out'] = o['out'][1:] + [5]
            o['from'] = k['w'] - k['h']
            can.append(k)
        return can
    ctx.validate('OverlapAddTrace', cases, make_canaries)
