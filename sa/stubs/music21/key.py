"""Model of music21.key (analysed, never run)."""
from music21.base import Music21Object
from music21.pitch import Pitch


class KeyException(Exception):
    pass


class KeySignatureException(Exception):
    pass


_majors = {'C': 0, 'G': 1, 'D': 2, 'A': 3, 'E': 4, 'B': 5, 'F#': 6, 'C#': 7, 'F': -1, 'B-': -2, 'E-': -3, 'A-': -4, 'D-': -5,
           'G-': -6, 'C-': -7}
_modes = {'major': 0, 'ionian': 0, 'mixolydian': -1, 'dorian': -2, 'minor': -3, 'aeolian': -3, 'phrygian': -4, 'locrian': -5,
          'lydian': 1}


def _majors_of(name):
    for n in _majors:
        if n == name:
            return _majors[n]
    return None


class KeySignature(Music21Object):
    classSortOrder = 2

    def __init__(self, sharps=0, **keywords):
        super().__init__(**keywords)
        self._sharps = sharps
        self._altered = []
        self.accidentalsApplyOnlyToOctave = False

    @property
    def sharps(self):
        return self._sharps

    @sharps.setter
    def sharps(self, v):
        self._sharps = v

    @property
    def alteredPitches(self):
        if self._altered:
            return self._altered
        order = ['F', 'C', 'G', 'D', 'A', 'E', 'B']
        if self._sharps is None or self._sharps == 0:
            return []
        if self._sharps > 0:
            return [Pitch(order[i] + '#') for i in range(self._sharps)]
        return [Pitch(order[6 - i] + '-') for i in range(-self._sharps)]

    @alteredPitches.setter
    def alteredPitches(self, v):
        self._altered = [Pitch(x) if isinstance(x, str) else x for x in v]
        self._sharps = None

    def accidentalByStep(self, step):
        for p in self.alteredPitches:
            if p.step.lower() == step.lower():
                return p.accidental
        return None

    @property
    def isNonTraditional(self):
        return self._sharps is None and len(self._altered) > 0

    def transpose(self, value, *, inPlace=False):
        f = (value.semitones * 7) % 12
        best = None
        for k in (f, f - 12):
            s = self._sharps + k
            p = Pitch('C4')
            q = value.transposePitch(p)
            if _majors_of(q.name) == k:
                best = s
        new = best if best is not None else self._sharps + (f if f <= 6 else f - 12)
        if new > 7:
            new = new - 12
        if new < -7:
            new = new + 12
        if inPlace:
            self._sharps = new
            return None
        return KeySignature(new)

    def asKey(self, mode=None, tonic=None):
        for n in _majors:
            for m in _modes:
                if (mode is None or m == mode) and _majors[n] + _modes[m] == self._sharps:
                    return Key(n, m)
        raise KeyException(mode)


class Key(KeySignature):
    def __init__(self, tonic=None, mode=None, **keywords):
        if tonic is None:
            tonic = 'C'
        if isinstance(tonic, Pitch):
            tonic = tonic.name
        if mode is None:
            mode = 'minor' if tonic[0].islower() else 'major'
        else:
            mode = mode.lower()
        name = tonic[0].upper() + tonic[1:].replace('b', '-')
        self._mode = mode
        self.tonic = Pitch(name)
        base = 0
        for n in _majors:
            if n == name:
                base = _majors[n]
        super().__init__(base + _modes[mode], **keywords)

    @property
    def mode(self):
        return self._mode

    @mode.setter
    def mode(self, v):
        self._mode = v

    @property
    def tonicPitchNameWithCase(self):
        return self.tonic.name.lower() if self._mode == 'minor' else self.tonic.name
