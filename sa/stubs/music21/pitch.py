"""Model of music21.pitch (analysed, never run)."""
from music21.style import StyleMixin, TextStyle

_alters = {'natural': 0.0, 'sharp': 1.0, 'double-sharp': 2.0, 'triple-sharp': 3.0, 'quadruple-sharp': 4.0, 'flat': -1.0,
           'double-flat': -2.0, 'triple-flat': -3.0, 'quadruple-flat': -4.0, 'half-sharp': 0.5, 'one-and-a-half-sharp': 1.5,
           'half-flat': -0.5, 'one-and-a-half-flat': -1.5}
_mods = {'natural': '', 'sharp': '#', 'double-sharp': '##', 'triple-sharp': '###', 'quadruple-sharp': '####', 'flat': '-',
         'double-flat': '--', 'triple-flat': '---', 'quadruple-flat': '----', 'half-sharp': '~',
         'one-and-a-half-sharp': '#~', 'half-flat': '`', 'one-and-a-half-flat': '-`'}
_aliases = {'n': 'natural', 'is': 'sharp', 'isis': 'double-sharp', 'isisis': 'triple-sharp', 'b': 'flat', 'bb': 'double-flat',
            'es': 'flat', 'eses': 'double-flat', 'quarter-sharp': 'half-sharp', 'quarter-flat': 'half-flat'}
STEPREF = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
STEP_TO_DNN_OFFSET = {'C': 0, 'D': 1, 'E': 2, 'F': 3, 'G': 4, 'A': 5, 'B': 6}


accidentalNameToModifier = {
    'natural': '',
    'sharp': '#',
    'double-sharp': '##',
    'triple-sharp': '###',
    'quadruple-sharp': '####',
    'flat': '-',
    'double-flat': '--',
    'triple-flat': '---',
    'quadruple-flat': '----',
    'half-sharp': '~',
    'one-and-a-half-sharp': '#~',
    'half-flat': '`',
    'one-and-a-half-flat': '-`',
}


modifierToAccidentalName = {v: k for k, v in accidentalNameToModifier.items()}

alternateNameToAccidentalName = {
    'n': 'natural', 'is': 'sharp', 'isis': 'double-sharp', 'isisis': 'triple-sharp', 'isisisis': 'quadruple-sharp', 'es': 'flat',
    'b': 'flat', 'eses': 'double-flat', 'eseses': 'triple-flat', 'eseseses': 'quadruple-flat', 'quarter-sharp': 'half-sharp',
    'ih': 'half-sharp', 'semisharp': 'half-sharp', 'three-quarter-sharp': 'one-and-a-half-sharp',
    'three-quarters-sharp': 'one-and-a-half-sharp', 'isih': 'one-and-a-half-sharp', 'sesquisharp': 'one-and-a-half-sharp',
    'quarter-flat': 'half-flat', 'eh': 'half-flat', 'semiflat': 'half-flat', 'three-quarter-flat': 'one-and-a-half-flat',
    'three-quarters-flat': 'one-and-a-half-flat', 'eseh': 'one-and-a-half-flat', 'sesquiflat': 'one-and-a-half-flat'}


def isValidAccidentalName(name):
    return name in accidentalNameToModifier or name in modifierToAccidentalName or name in alternateNameToAccidentalName


def standardizeAccidentalName(name):
    if name in accidentalNameToModifier:
        return name
    if name in modifierToAccidentalName:
        return modifierToAccidentalName[name]
    if name in alternateNameToAccidentalName:
        return alternateNameToAccidentalName[name]
    raise AccidentalException(name)


class PitchException(Exception):
    pass


class AccidentalException(PitchException):
    pass


class Accidental(StyleMixin):
    _styleClass = TextStyle

    def __init__(self, specifier='natural', *, name=None, alter=None, **keywords):
        self._style = None
        self._editorial = None
        self._displayType = 'normal'
        self._displayStatus = None
        self.displayStyle = 'normal'
        self.displaySize = 'full'
        self.displayLocation = 'normal'
        self._name = ''
        self._modifier = ''
        self._alter = 0.0
        self.set(name if name is not None else specifier)

    def set(self, name, *, allowNonStandardValue=False):
        if isinstance(name, str):
            if name.lower() in _alters:
                name = name.lower()
            elif name in _aliases:
                name = _aliases[name]
            else:
                found = None
                for k in _mods:
                    if _mods[k] == name and name != '':
                        found = k
                if found is None:
                    if name == '':
                        found = 'natural'
                    else:
                        raise AccidentalException(name)
                name = found
        else:
            found = None
            for k in _alters:
                if _alters[k] == name:
                    found = k
            if found is None:
                raise AccidentalException(name)
            name = found
        self._name = name
        self._alter = _alters[name]
        self._modifier = _mods[name]

    def __eq__(self, other):
        if not isinstance(other, Accidental):
            return False
        return self._name == other._name

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, v):
        self.set(v)

    @property
    def alter(self):
        return self._alter

    @property
    def modifier(self):
        return self._modifier

    @property
    def fullName(self):
        return self._name

    @property
    def displayType(self):
        return self._displayType

    @displayType.setter
    def displayType(self, v):
        if v not in ('normal', 'always', 'never', 'unless-repeated', 'even-tied', 'if-absolutely-necessary'):
            raise AccidentalException(v)
        self._displayType = v

    @property
    def displayStatus(self):
        return self._displayStatus

    @displayStatus.setter
    def displayStatus(self, v):
        self._displayStatus = v


class Microtone:
    def __init__(self, cents=0):
        self.cents = cents


class Pitch:
    def __init__(self, name=None, *, step=None, octave=None, accidental=None, **keywords):
        self.groups = []
        self._step = 'C'
        self._octave = None
        self._accidental = None
        self.spellingIsInferred = False
        self._client = None
        self.id = None
        if name is not None:
            self.name = name
        if step is not None:
            self.step = step
        if octave is not None:
            self._octave = octave
        if accidental is not None:
            if isinstance(accidental, Accidental):
                self._accidental = accidental
            else:
                self._accidental = Accidental(accidental)

    def __eq__(self, other):
        if not isinstance(other, Pitch):
            return False
        return (self._octave == other._octave and self._step == other._step and self._accidental == other._accidental)

    @property
    def step(self):
        return self._step

    @step.setter
    def step(self, v):
        v = v.upper()
        if v not in STEPREF:
            raise PitchException(v)
        self._step = v

    @property
    def octave(self):
        return self._octave

    @octave.setter
    def octave(self, v):
        self._octave = None if v is None else int(v)

    @property
    def implicitOctave(self):
        return 4 if self._octave is None else self._octave

    @property
    def accidental(self):
        return self._accidental

    @accidental.setter
    def accidental(self, v):
        if v is None or isinstance(v, Accidental):
            self._accidental = v
        else:
            self._accidental = Accidental(v)

    @property
    def alter(self):
        return 0.0 if self._accidental is None else self._accidental.alter

    @property
    def name(self):
        if self._accidental is None:
            return self._step
        return self._step + self._accidental.modifier

    @name.setter
    def name(self, v):
        v = v.strip()
        step = v[0]
        rest = v[1:]
        acc = ''
        while rest and rest[0] in '#-n~`b':
            acc = acc + rest[0]
            rest = rest[1:]
        self.step = step
        if acc:
            self._accidental = Accidental(acc)
        if rest:
            self._octave = int(rest)

    @property
    def nameWithOctave(self):
        if self._octave is None:
            return self.name
        return self.name + str(self._octave)

    @property
    def diatonicNoteNum(self):
        return STEP_TO_DNN_OFFSET[self._step] + 1 + 7 * self.implicitOctave

    @diatonicNoteNum.setter
    def diatonicNoteNum(self, v):
        self._octave = (v - 1) // 7
        for k in STEP_TO_DNN_OFFSET:
            if STEP_TO_DNN_OFFSET[k] == (v - 1) % 7:
                self._step = k

    @property
    def ps(self):
        return (self.implicitOctave + 1) * 12 + STEPREF[self._step] + self.alter

    @property
    def midi(self):
        return int(self.ps)

    @property
    def pitchClass(self):
        return int(self.ps) % 12

    @property
    def microtone(self):
        return Microtone(0)

    def transpose(self, value, *, inPlace=False):
        if isinstance(value, (str, int)):
            from music21.interval import Interval
            value = Interval(value) if isinstance(value, str) else Interval((0, value))
        return value.transposePitch(self, inPlace=inPlace)
