"""C30: note names and numbers (NoteNames.tla)."""
import copy
import re
import numpy as np

CLASSES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']


def run(ctx):
    from zounds.util import midi_to_note, note_to_midi, midi_instrument
    rng = ctx.rng
    ctx.design('NoteNames')
    gen = ctx.generate('NoteNames', 'NoteNamesGen', limit=ctx.n(300, 4096))
    KINDS = [int, int, float, np.int64, np.int16, np.float64, np.float32, np.uint8, np.int8]
    cases = []

    def blank(op, n):
        return dict(op=op, n=n, st=True, name='', text='', out=0, kind='')

    def name(n):
        kind = rng.choice(KINDS)
        if kind is np.uint8 and not 0 <= n < 256 or kind is np.int8 and not -128 <= n < 128:
            kind = int
        ev = blank('name', n)
        if issubclass(kind, np.integer) and not np.iinfo(kind).min <= n <= np.iinfo(kind).max \
                or issubclass(kind, np.floating) and int(kind(n)) != n:
            kind = int      # the kind cannot hold this number
        ev['kind'] = kind.__name__
        try:
            text = midi_to_note(kind(n))
            ev['text'] = text
            ev['name'] = re.match(r'[^-\d]*', text).group(0)
        except Exception as ex:
            ev.update(st=False, text=repr(ex))
        return ev

    def number(pc, octave, text=None):
        ev = blank('number', octave)
        ev['name'] = CLASSES[pc]
        ev['text'] = text or '%s%d' % (CLASSES[pc], octave)
        try:
            out = note_to_midi(ev['text'])
            if int(out) != out:
                raise ValueError(repr(out))
            ev['out'] = int(out)
        except Exception as ex:
            ev.update(st=False, text=ev['text'] + ' ' + repr(ex))
        return ev

    def bad(text):
        ev = blank('bad', 0)
        ev['name'] = text
        try:
            ev['out'] = int(note_to_midi(text))
        except Exception as ex:
            ev.update(st=False)
        return ev

    def instrument(n, arg=None):
        ev = blank('instrument', n)
        try:
            text = midi_instrument(n if arg is None else arg)
            if not (isinstance(text, str) and text.strip()):
                raise ValueError(repr(text))
            ev['text'] = text.strip().lower()
        except Exception as ex:
            ev.update(st=False, text='')
        return ev

    def back(n, events):
        """the name the code gave to a number is a note whose number is asked for"""
        ev = name(n)
        events.append(ev)
        events.append(number(n % 12, n // 12, ev['text'] if ev['st'] else None))

    for walk in gen:
        n = rng.randint(-30, 150)
        events = []
        back(n, events)
        for step in walk:
            n += step
            back(n, events)
        cases.append(dict(events=events))
    whole = []
    for n in range(-60, 400):
        back(n, whole)
    cases.append(dict(events=whole))
    cases.append(dict(events=[number(pc, o) for o in range(-12, 140) for pc in range(12)]))
    cases.append(dict(events=[x for n in [10 ** 6, 2 ** 20, 12 * 10 ** 5 - 1, -12 * 10 ** 5] for x in [name(n), number(n % 12, n // 12)]]))
    cases.append(dict(events=[bad(t) for t in ['H4', 'E#4', 'B#3', '', '4', 'C', 'F#', 'X', '#4', 'C4.5', 'C##', '-1', 'CD', 'C#x', 'c']]))
    order = list(range(128))
    rng.shuffle(order)
    inst = [instrument(n) for n in range(128)] + [instrument(n, rng.choice(KINDS[:6])(n)) for n in order]
    inst += [instrument(n) for n in (-1, 128, 1000, -128)]
    cases.append(dict(events=inst))

    def make_canaries():
        out = []

        def add(k, what):
            c = copy.deepcopy(cases[k])
            what(c['events'])
            out.append(c)
        add(0, lambda ev: ev[0].update(text=ev[0]['text'] + '0'))
        add(0, lambda ev: ev[1].update(out=ev[1]['out'] + 12))
        add(0, lambda ev: ev[2].update(st=False))
        k = len(cases)
        add(k - 2, lambda ev: ev[0].update(st=True))
        add(k - 1, lambda ev: ev[5].update(text=ev[6]['text']))
        add(k - 1, lambda ev: ev[-1].update(st=True))
        return out
    ctx.extra['questions'] = sum(len(c['events']) for c in cases)
    ctx.validate('NoteNamesTrace', cases, make_canaries, label='note names')
