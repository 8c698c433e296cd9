"""Model of music21.instrument (analysed, never run): names only; no instrument database."""
from music21.base import Music21Object


class InstrumentException(Exception):
    pass


class Instrument(Music21Object):
    classSortOrder = -25

    def __init__(self, instrumentName=None, **keywords):
        super().__init__(**keywords)
        self.partId = None
        self.partName = None
        self.partAbbreviation = None
        self.printPartName = None
        self.printPartAbbreviation = None
        self.instrumentId = None
        self._instrumentName = instrumentName
        self._instrumentAbbreviation = None
        self.midiProgram = None
        self.midiChannel = None
        self.instrumentSound = None
        self.lowestNote = None
        self.highestNote = None
        self.transposition = None

    @property
    def instrumentName(self):
        return self._instrumentName

    @instrumentName.setter
    def instrumentName(self, v):
        self._instrumentName = v

    @property
    def instrumentAbbreviation(self):
        return self._instrumentAbbreviation

    @instrumentAbbreviation.setter
    def instrumentAbbreviation(self, v):
        self._instrumentAbbreviation = v


class KeyboardInstrument(Instrument):
    pass


class Piano(KeyboardInstrument):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Piano'
        self._instrumentAbbreviation = 'Pno'


class Organ(Instrument):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Organ'
        self._instrumentAbbreviation = 'Org'


class PipeOrgan(Organ):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Pipe Organ'


class StringInstrument(Instrument):
    pass


class Violin(StringInstrument):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Violin'
        self._instrumentAbbreviation = 'Vln'


class Viola(StringInstrument):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Viola'
        self._instrumentAbbreviation = 'Vla'


class WoodwindInstrument(Instrument):
    pass


class Flute(WoodwindInstrument):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Flute'
        self._instrumentAbbreviation = 'Fl'


class Vocalist(Instrument):
    pass


class Soprano(Vocalist):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Soprano'
        self._instrumentAbbreviation = 'S'


class Alto(Vocalist):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Alto'
        self._instrumentAbbreviation = 'A'


class Tenor(Vocalist):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Tenor'
        self._instrumentAbbreviation = 'T'


class Bass(Vocalist):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Bass'
        self._instrumentAbbreviation = 'B'


class Violoncello(StringInstrument):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Violoncello'
        self._instrumentAbbreviation = 'Vc'


class Clarinet(WoodwindInstrument):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Clarinet'
        self._instrumentAbbreviation = 'Cl'


class Oboe(WoodwindInstrument):
    def __init__(self, **keywords):
        super().__init__(**keywords)
        self._instrumentName = 'Oboe'
        self._instrumentAbbreviation = 'Ob'


class Percussion(Instrument):
    pass


def fromString(instrumentString, *, language='all'):
    for c in (Piano, Violin, Viola, Flute, PipeOrgan, Organ, Soprano, Alto, Tenor, Bass, Violoncello, Clarinet, Oboe):
        i = c()
        if i.instrumentName.lower() == instrumentString.lower():
            return i
    raise InstrumentException(instrumentString)
