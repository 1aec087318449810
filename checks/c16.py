"""C16: MIDI numbers and note names are the same thing."""
from symz import shadow, wire
from symz.harness import Harness
from symz.worlds import world_b

NAMES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']


def parts(w, note):
    """the name and the octave of a note"""
    k = 2 if note[1] == '#' else 1
    return note[:k], (shadow.sym_int if w.symbolic else int)(note[k:])


def to_note(w):
    """every number has the note of its place in its octave"""
    n = w.int('n', -10 ** 9, 10 ** 9)
    name, octave = parts(w, w.z('util.midi.midi_to_note')(n))
    i = NAMES.index(name)
    w.check(w.And(octave * 12 + i == n), 'octave and place')
    back = w.z('util.midi.note_to_midi')(w.z('util.midi.midi_to_note')(n))
    w.check(back == n, 'and back')


def to_midi(w, i):
    o = w.int('octave', -10 ** 8, 10 ** 8)
    note = NAMES[i] + str(o)
    f, g = w.z('util.midi.note_to_midi'), w.z('util.midi.midi_to_note')
    w.check(f(note) == o * 12 + i, 'number of the note')
    name, octave = parts(w, g(f(note)))
    w.check(name == NAMES[i], 'name')
    w.check(octave == o, 'octave')


HARNESSES = [
    Harness('to_note', to_note, world_b, bounds='numbers up to 10^9 in size'),
    Harness('to_midi', to_midi, world_b, [(i,) for i in range(12)],
            bounds='octaves up to 10^8 in size'),
]
ASSUMPTIONS = []
