"""Model of music21.interval (analysed, never run)."""
import enum


class Specifier(enum.IntEnum):
    PERFECT = 1
    MAJOR = 2
    MINOR = 3
    AUGMENTED = 4
    DIMINISHED = 5
    DBLAUG = 6
    DBLDIM = 7


class GenericInterval:
    def __init__(self, value='unison', **keywords):
        self.value = value

    def transposePitch(self, p, *, inPlace=False):
        from music21.pitch import Pitch
        num = p.diatonicNoteNum - 1 + (self.value - 1 if self.value > 0 else self.value + 1)
        q = p if inPlace else Pitch()
        q._step = 'CDEFGAB'[num % 7]
        q._octave = None if p._octave is None else num // 7
        if inPlace:
            return None
        q._accidental = p._accidental
        return q


class ChromaticInterval:
    def __init__(self, semitones=0, **keywords):
        self.semitones = semitones


_size = [0, 2, 4, 5, 7, 9, 11]


def _natural(steps):
    """semitones of the perfect or major interval of so many steps upwards"""
    return 12 * (steps // 7) + _size[steps % 7]


class Interval:
    def __init__(self, arg0=None, arg1=None, *, noteStart=None, noteEnd=None, **keywords):
        self.noteStart = noteStart
        self.noteEnd = noteEnd
        if isinstance(arg0, str):
            spec = ''
            while arg0 and not (arg0[0].isdigit() or arg0[0] == '-'):
                spec = spec + arg0[0]
                arg0 = arg0[1:]
            v = int(arg0)
            down = v < 0
            n = (-v if down else v) - 1
            semi = _natural(n)
            perfect = n % 7 in (0, 3, 4)
            if spec == 'm':
                semi = semi - 1
            elif spec == 'A':
                semi = semi + 1
            elif spec == 'd':
                semi = semi - (1 if perfect else 2)
            self._steps = -n if down else n
            self.semitones = -semi if down else semi
        elif arg0 is not None and arg1 is not None:
            from music21.pitch import Pitch
            p0 = arg0 if isinstance(arg0, Pitch) else arg0.pitch
            p1 = arg1 if isinstance(arg1, Pitch) else arg1.pitch
            self._steps = p1.diatonicNoteNum - p0.diatonicNoteNum
            self.semitones = int(p1.ps - p0.ps)
        elif isinstance(arg0, tuple):
            self._steps = arg0[0]
            self.semitones = arg0[1]
        else:
            self._steps = 0
            self.semitones = 0

    @property
    def generic(self):
        return GenericInterval(self._steps + (1 if self._steps >= 0 else -1))

    @property
    def chromatic(self):
        return ChromaticInterval(self.semitones)

    @property
    def specifier(self):
        n = self._steps if self._steps >= 0 else -self._steps
        semi = self.semitones if self._steps >= 0 else -self.semitones
        diff = semi - _natural(n)
        if n % 7 in (0, 3, 4):
            return {0: Specifier.PERFECT, 1: Specifier.AUGMENTED, -1: Specifier.DIMINISHED, 2: Specifier.DBLAUG, -2: Specifier.DBLDIM}[diff]
        return {0: Specifier.MAJOR, -1: Specifier.MINOR, 1: Specifier.AUGMENTED, -2: Specifier.DIMINISHED, 2: Specifier.DBLAUG,
                -3: Specifier.DBLDIM}[diff]

    @property
    def name(self):
        s = {Specifier.PERFECT: 'P', Specifier.MAJOR: 'M', Specifier.MINOR: 'm', Specifier.AUGMENTED: 'A', Specifier.DIMINISHED: 'd',
             Specifier.DBLAUG: 'AA', Specifier.DBLDIM: 'dd'}[self.specifier]
        n = self._steps if self._steps >= 0 else -self._steps
        return s + str(n + 1)

    @property
    def directedName(self):
        n = self.name
        if self._steps < 0:
            k = 2 if n[1] in 'Ad' else 1
            return n[:k] + '-' + n[k:]
        return n

    @property
    def semiSimpleName(self):
        return self.name

    def reverse(self):
        return Interval((-self._steps, -self.semitones))

    def transposePitch(self, p, *, reverse=False, inPlace=False, maxAccidental=4):
        from music21.pitch import Pitch
        steps = -self._steps if reverse else self._steps
        semi = -self.semitones if reverse else self.semitones
        num = p.diatonicNoteNum - 1 + steps
        q = p if inPlace else Pitch()
        ps = p.ps + semi
        q._step = 'CDEFGAB'[num % 7]
        q._octave = None if p._octave is None else num // 7
        nat = (num // 7 + 1) * 12 + [0, 2, 4, 5, 7, 9, 11][num % 7]
        alter = ps - nat
        if alter == 0:
            q._accidental = None
        else:
            from music21.pitch import Accidental
            q._accidental = Accidental(alter)
        if inPlace:
            return None
        return q

    def transposeNote(self, n):
        return n


def intervalFromGenericAndChromatic(gInt, cInt):
    g = gInt.value if isinstance(gInt, GenericInterval) else gInt
    c = cInt.semitones if isinstance(cInt, ChromaticInterval) else cInt
    return Interval((g - 1 if g > 0 else g + 1, c))


def notesToInterval(n1, n2=None):
    return Interval(n1, n2)
