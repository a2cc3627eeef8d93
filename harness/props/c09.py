"""C09: streamed decoding of audio files (ByteFeed.tla)."""
import copy
import io
import numpy as np
from core import ints
from stream import Recorder


def encode(x, sr, fmt, sub):
    import soundfile as sf
    b = io.BytesIO()
    with sf.SoundFile(b, 'w', sr, x.shape[1] if x.ndim > 1 else 1, sub, format=fmt) as f:
        for i in range(0, len(x), 50000):
            f.write(x[i:i + 50000])
    return b.getvalue()


def runs_of(ids, modulo):
    """[start, length] of the runs of consecutive numbers"""
    ids = np.asarray(ids)
    if not len(ids):
        return []
    brk = np.where((np.diff(ids) != 1) & (np.diff(ids) != 1 - modulo))[0] + 1
    edges = [0] + list(brk) + [len(ids)]
    out = [[int(ids[a]), int(z - a)] for a, z in zip(edges[:-1], edges[1:])]
    return out[:20]


def run(ctx):
    import featureflow as ff
    import soundfile as sf
    from featureflow import ByteStream, ByteStreamFeature
    from featureflow.extractor import Graph
    from zounds import AudioStream, AudioSamplesFeature, MetaData, AudioMetaDataEncoder, resampled, \
        audio_sample_rate, ChunkSizeBytes, Milliseconds
    from zounds.soundfile.audiostream import MemoryBuffer
    from zounds.util import simple_in_memory_settings
    rng = ctx.rng
    ctx.design('ByteFeed')
    gen = ctx.generate('ByteFeed', 'ByteFeedGen', limit=ctx.n(600, 808))
    MOD = 60000
    cases = []

    def buffer_case(total, max_size, script):
        """script: ('w', m) / ('r', k) / ('len',) / ('seek', p)"""
        data = bytes(i % 251 for i in range(total))
        buf = MemoryBuffer(total, max_size=max_size)
        ops, wr, rd, base = [], 0, 0, 0
        for s in script:
            op = dict(op=s[0], m=s[1] if len(s) > 1 else 0, st='ok', res=0, got=[])
            try:
                if s[0] == 'w':
                    op['res'] = buf.write(data[wr:wr + s[1]])
                    wr += s[1]
                    base = rd
                elif s[0] == 'r':
                    if s[1] >= 0 and rng.random() < .5:
                        into = bytearray(s[1])
                        op['got'] = list(into[:buf.readinto(into)])
                    else:
                        op['got'] = list(buf.read(s[1]))
                    rd += len(op['got'])
                elif s[0] == 'len':
                    buf.seek(0, 2)
                    op['res'] = buf.tell()
                    op['m'] = rd
                    buf.seek(rd, 0)
                elif s[0] == 'tell':
                    op['res'] = buf.tell()
                else:
                    op['m'] = base + int(s[1] * (wr - base))
                    buf.seek(op['m'], 0)
                    rd = op['m']
            except Exception as ex:
                op['st'] = ex.__class__.__name__
            ops.append(op)
            if op['st'] != 'ok':
                break
        return dict(kind='buffer', n=total, ops=ops, max_size=max_size, modulo=1, sr=0, ch=0)
    for g in gen:
        script, total = [], g['n'] * g['b']
        for m in g['chunks']:
            script += [('w', m), ('r', g['want'] * g['b'])]
        script += [('r', rng.choice([-1, total]))]
        cases.append(buffer_case(total, g['mx'], script))
    for _ in range(ctx.n(600, 6000)):
        total = rng.choice([1, 5, 40, 700])
        mx = rng.choice([0, 1, 5, 30, 10000])
        script, left, got = [], total, 0
        while left or rng.random() < .7:
            x = rng.random()
            if left and x < .5:
                m = rng.randint(1, min(left, rng.choice([1, 7, 300])))
                script.append(('w', m))
                left -= m
            elif x < .9:
                script.append(('r', rng.choice([0, 1, 2, 3, 17, 200, -1])))
            elif x < .96:
                script.append(('seek', rng.random()))
                if rng.random() < .5:
                    script.append(('tell',))
            else:
                script.append(('len',))
        script.append(('r', -1))
        cases.append(buffer_case(total, mx, script))

    def stream_case(fmt, sub, sr, ch, n, chunk, mono, how='node'):
        exact = fmt not in ('OGG',)
        i = np.arange(n)
        if fmt in ('OGG', 'FLAC'):
            r = np.random.RandomState(rng.randrange(10 ** 6))
            x = (r.uniform(-1, 1, (n, ch)) * 9000).astype(np.int16)
            if ch == 1:
                x = x[:, 0]
        else:
            x = (i % MOD - 30000).astype(np.int16)
            if ch == 2:
                x = np.stack([x, x if mono else -x], 1)
        if sub in ('FLOAT', 'DOUBLE'):
            raw = encode(x / 32768., sr, fmt, sub)
        elif sub in ('PCM_24', 'PCM_32'):
            raw = encode(x.astype(np.int32) << 16, sr, fmt, sub)
        else:
            raw = encode(x, sr, fmt, sub)
        ref = None
        if fmt in ('OGG', 'FLAC'):
            ref = sf.read(io.BytesIO(raw))[0]
            if len(ref) != n:
                return None
            if ch == 2 and mono:
                ref = (ref[:, 0] + ref[:, 1]) / 2
        state = dict(pos=0)

        def runs(samples):
            y = np.asarray(samples, dtype=np.float64)
            if not len(y):
                return []
            if ref is not None:
                want = ref[state['pos']:state['pos'] + len(y)]
                good = want.shape == y.shape and np.allclose(want, y, atol=1e-6)
                p = state['pos']
                state['pos'] += len(y)
                return [[p % MOD if good else -1, len(y)]]
            if y.ndim == 2:
                if y.shape[1] == 2 and not np.all(y[:, 0] == -y[:, 1]):
                    return [[-1, len(y)]]
                y = y[:, 0]
            v = y * 32768 + 30000
            k = np.round(v)
            if not np.all(k == v):
                return [[-1, len(y)]]
            return runs_of(k.astype(np.int64), MOD)
        sizes = [min(chunk, len(raw) - a) for a in range(0, len(raw), chunk)]
        ops = []

        def note(samples, m):
            ops.append(dict(m=m, st='ok', runs=runs(samples), sr=int(samples.samples_per_second),
                            ch=int(samples.channels)))
        try:
            if how == 'node':
                bs = ByteStream(chunksize=chunk)
                node = AudioStream(sum_to_mono=mono, needs=bs)
                rec = Recorder(needs=node)
                Graph(bs=bs, node=node, rec=rec).process(bs=io.BytesIO(raw))
                for g in rec.got:
                    note(g, 1)
                ops.append(dict(m=0, st='ok', runs=[], sr=0, ch=0))
            else:
                if how == 'resampled':
                    base = resampled(chunksize_bytes=chunk, resample_to=audio_sample_rate(sr), store_resampled=True)

                    @simple_in_memory_settings
                    class Doc(base):
                        pass
                    _id = Doc.process(meta=io.BytesIO(raw))
                    note(Doc(_id).resampled, 0)
                else:
                    @simple_in_memory_settings
                    class Doc2(ff.BaseModel):
                        raw = ByteStreamFeature(ByteStream, chunksize=chunk, store=False)
                        pcm = AudioSamplesFeature(AudioStream, sum_to_mono=mono, needs=raw, store=True)
                    _id = Doc2.process(raw=io.BytesIO(raw))
                    note(Doc2(_id).pcm, 0)
        except Exception as ex:
            ops.append(dict(m=0, st=ex.__class__.__name__, runs=[], sr=0, ch=0, err=repr(ex)[:300]))
        return dict(kind='stream', n=n, modulo=MOD, sr=sr, ch=1 if mono else ch, ops=ops,
                    file=[fmt, sub, ch, len(raw), chunk, mono, how])
    plain = [('WAV', 'PCM_16'), ('WAV', 'PCM_16'), ('WAV', 'PCM_24'), ('WAV', 'FLOAT'), ('WAV', 'DOUBLE'),
             ('WAV', 'PCM_32'), ('AIFF', 'PCM_16'), ('WAVEX', 'PCM_16')]

    def add(*a, **kw):
        k = stream_case(*a, **kw)
        if k is not None:
            cases.append(k)
    for _ in range(ctx.n(70, 600)):
        fmt, sub = rng.choice(plain)
        sr = rng.choice([11025, 22050, 44100, 16000, 48000, 96000])
        n = rng.choice([1, 100, rng.randint(1, 3 * 11025), rng.randint(1, 150000)])
        chunk = rng.choice([rng.randint(200, 5000), rng.randint(5000, 60000), rng.randint(20000, 800000)])
        add(fmt, sub, sr, rng.choice([1, 2]), n, chunk, rng.random() < .5,
            how=rng.choice(['node', 'node', 'node', 'doc']))
    for _ in range(ctx.n(6, 40)):
        add('WAV', 'PCM_16', rng.choice([11025, 22050]), rng.choice([1, 2]), rng.randint(1, 100000),
            rng.randint(10000, 300000), True, how='resampled')
    # compressed files, in chunks as long as the smallest the node is meant for
    for i in range(ctx.n(8, 60)):
        sr, ch = rng.choice([11025, 22050]), rng.choice([1, 2])
        secs = rng.choice([1, 15, 40])
        add('FLAC', 'PCM_16', sr, ch, secs * sr + rng.randint(0, sr), rng.randint(8, 20) * sr * 2 * ch,
            rng.random() < .5)
        add('OGG', 'VORBIS', sr, ch, rng.choice([3, 20, 60]) * sr + rng.randint(0, sr),
            rng.randint(5000, 200000), rng.random() < .5)
    # more bytes than the buffer holds on to
    for i in range(ctx.n(2, 10)):
        add('WAV', rng.choice(['PCM_16', 'PCM_24']), 44100, 2, rng.randint(3000000, 3400000),
            int(ChunkSizeBytes(audio_sample_rate(44100), Milliseconds(rng.randint(2000, 20000)))) + rng.randint(0, 3),
            rng.random() < .5)
    def make_canaries():
        can = []
        pool = [k for k in cases if k['kind'] == 'stream' and all(o['st'] == 'ok' for o in k['ops'])]
        for k in rng.sample(pool, 8):
            k = copy.deepcopy(k)
            o = next(o for o in k['ops'] if o['runs'])
            m = rng.randrange(3)
            if m == 0:
                o['runs'] = o['runs'][1:]
            elif m == 1:
                o['runs'][0][1] += 1
            else:
                o['sr'] += 1
            can.append(k)
        pool = [k for k in cases if k['kind'] == 'buffer' and all(o['st'] == 'ok' for o in k['ops'])
                and any(o['got'] for o in k['ops'])]
        for k in rng.sample(pool, 5):
            k = copy.deepcopy(k)
            o = next(o for o in k['ops'] if o['got'])
            o['got'][0] += 1
            can.append(k)
        return can
    ctx.validate('ByteFeedTrace', cases, make_canaries)
