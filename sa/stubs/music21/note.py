"""Model of music21.note (analysed, never run)."""
from music21.base import Music21Object
from music21.style import NoteStyle, TextStylePlacement, StyleMixin
from music21.duration import Duration
from music21.pitch import Pitch
from music21.beam import Beams
from music21.tie import Tie
from music21.interval import Interval

noteheadTypeNames = ('arrow down', 'arrow up', 'back slashed', 'circle dot', 'circle-x', 'circled', 'cluster', 'cross', 'diamond',
                     'do', 'fa', 'inverted triangle', 'la', 'left triangle', 'mi', 'none', 'normal', 'other', 're',
                     'rectangle', 'slash', 'slashed', 'so', 'square', 'ti', 'triangle', 'x')
stemDirectionNames = ('double', 'down', 'noStem', 'none', 'unspecified', 'up')


class LyricException(Exception):
    pass


class NoteException(Exception):
    pass


class NotRestException(NoteException):
    pass


class Lyric(StyleMixin):
    _styleClass = TextStylePlacement

    def __init__(self, text='', number=1, *, applyRaw=False, syllabic=None, identifier=None, **keywords):
        self._style = None
        self._editorial = None
        self._identifier = identifier
        self._number = number
        self._text = ''
        self._syllabic = None
        self.components = None
        self.elisionBefore = ' '
        if text is not None and text != '':
            self.setTextAndSyllabic(text, applyRaw)
        if syllabic is not None:
            self._syllabic = syllabic

    @property
    def isComposite(self):
        return self.components is not None

    @property
    def text(self):
        if self.components is None:
            return self._text
        out = ''
        first = True
        for c in self.components:
            if not first:
                out = out + c.elisionBefore
            out = out + c.text
            first = False
        return out

    @text.setter
    def text(self, v):
        self._text = v
        self.components = None

    @property
    def syllabic(self):
        if self.components is not None:
            return 'composite'
        return self._syllabic

    @syllabic.setter
    def syllabic(self, v):
        if v not in (None, 'begin', 'single', 'end', 'middle', 'composite'):
            raise LyricException(v)
        self._syllabic = v

    @property
    def identifier(self):
        if self._identifier is None:
            return self._number
        return self._identifier

    @identifier.setter
    def identifier(self, v):
        self._identifier = v

    @property
    def number(self):
        return self._number

    @number.setter
    def number(self, v):
        self._number = v

    @property
    def rawText(self):
        first = self if self.components is None else self.components[0]
        last = self if self.components is None else self.components[-1]
        out = self.text
        if first.syllabic in ('middle', 'end'):
            out = '-' + out
        if last.syllabic in ('begin', 'middle'):
            out = out + '-'
        return out

    def setTextAndSyllabic(self, rawText, applyRaw=False):
        if not isinstance(rawText, str):
            rawText = str(rawText)
        if applyRaw:
            self._text = rawText
            self._syllabic = 'single'
        elif rawText.startswith('-') and rawText.endswith('-') and len(rawText) > 2:
            self._text = rawText[1:-1]
            self._syllabic = 'middle'
        elif rawText.startswith('-') and len(rawText) > 1:
            self._text = rawText[1:]
            self._syllabic = 'end'
        elif rawText.endswith('-') and len(rawText) > 1:
            self._text = rawText[:-1]
            self._syllabic = 'begin'
        else:
            self._text = rawText
            self._syllabic = 'single'


class GeneralNote(Music21Object):
    isNote = False
    isRest = False
    isChord = False
    isUnpitched = False
    _styleClass = NoteStyle

    def __init__(self, *, duration=None, lyric=None, quarterLength=None, **keywords):
        if duration is None:
            if quarterLength is not None:
                duration = Duration(quarterLength)
            else:
                duration = Duration(1.0)
        super().__init__(duration=duration, **keywords)
        self.lyrics = []
        self.expressions = []
        self.articulations = []
        self.tie = None
        if lyric is not None:
            self.lyrics.append(Lyric(lyric))

    @property
    def isGrace(self):
        return self._duration.isGrace

    @property
    def lyric(self):
        if not self.lyrics:
            return None
        return self.lyrics[0].text

    def addLyric(self, text, lyricNumber=None, *, applyRaw=False, lyricIdentifier=None):
        n = len(self.lyrics) + 1 if lyricNumber is None else lyricNumber
        self.lyrics.append(Lyric(text, n, applyRaw=applyRaw, identifier=lyricIdentifier))

    @property
    def fullName(self):
        return 'note'

    def getGrace(self, *, appoggiatura=False, inPlace=False):
        if inPlace:
            e = self
        else:
            import copy
            e = copy.deepcopy(self)
        e._duration = e._duration.getGraceDuration(appoggiatura=appoggiatura)
        if inPlace:
            return None
        return e

    @property
    def pitches(self):
        return ()


class NotRest(GeneralNote):
    def __init__(self, beams=None, **keywords):
        super().__init__(**keywords)
        self._notehead = 'normal'
        self._noteheadFill = None
        self._noteheadParenthesis = False
        self._stemDirection = 'unspecified'
        self._volume = None
        self.beams = Beams() if beams is None else beams
        self._storedInstrument = None
        self._chordAttached = None

    @property
    def stemDirection(self):
        return self._stemDirection

    @stemDirection.setter
    def stemDirection(self, v):
        if v is None:
            v = 'unspecified'
        if v not in stemDirectionNames:
            raise NotRestException(v)
        self._stemDirection = v

    @property
    def notehead(self):
        return self._notehead

    @notehead.setter
    def notehead(self, v):
        if v in ('none', None, ''):
            self._notehead = None
        elif v not in noteheadTypeNames:
            raise NotRestException(v)
        else:
            self._notehead = v

    @property
    def noteheadFill(self):
        return self._noteheadFill

    @noteheadFill.setter
    def noteheadFill(self, v):
        if v in (True, False, None):
            self._noteheadFill = v
        elif v in ('yes', 'filled'):
            self._noteheadFill = True
        elif v in ('no', 'notfilled'):
            self._noteheadFill = False
        else:
            raise NotRestException(v)

    @property
    def noteheadParenthesis(self):
        return self._noteheadParenthesis

    @noteheadParenthesis.setter
    def noteheadParenthesis(self, v):
        self._noteheadParenthesis = v

    @property
    def storedInstrument(self):
        return self._storedInstrument


class Note(NotRest):
    isNote = True

    def transpose(self, value, *, inPlace=False):
        if inPlace:
            self.pitch.transpose(value, inPlace=True)
            return None
        import copy
        n = copy.deepcopy(self)
        n.pitch.transpose(value, inPlace=True)
        return n

    def __init__(self, pitch=None, *, name=None, nameWithOctave=None, **keywords):
        super().__init__(**keywords)
        if pitch is not None:
            if isinstance(pitch, Pitch):
                self.pitch = pitch
            else:
                self.pitch = Pitch(pitch)
        else:
            self.pitch = Pitch(nameWithOctave or name or 'C4')

    @property
    def name(self):
        return self.pitch.name

    @name.setter
    def name(self, v):
        self.pitch.name = v

    @property
    def nameWithOctave(self):
        return self.pitch.nameWithOctave

    @property
    def step(self):
        return self.pitch.step

    @step.setter
    def step(self, v):
        self.pitch.step = v

    @property
    def octave(self):
        return self.pitch.octave

    @octave.setter
    def octave(self, v):
        self.pitch.octave = v

    @property
    def pitches(self):
        return (self.pitch,)


class Unpitched(NotRest):
    isUnpitched = True

    def __init__(self, displayName=None, **keywords):
        super().__init__(**keywords)
        self.displayStep = 'B'
        self.displayOctave = 4
        if displayName:
            p = Pitch(displayName)
            self.displayStep = p.step
            self.displayOctave = p.octave

    def displayPitch(self):
        return Pitch(self.displayStep + str(self.displayOctave))

    @property
    def displayName(self):
        return self.displayStep + str(self.displayOctave)


class Rest(GeneralNote):
    isRest = True
    name = 'rest'

    def __init__(self, length=None, *, stepShift=0, fullMeasure='auto', **keywords):
        if length is not None:
            if isinstance(length, str):
                keywords['duration'] = Duration(type=length)
            else:
                keywords['quarterLength'] = length
        super().__init__(**keywords)
        self.stepShift = stepShift
        self.fullMeasure = fullMeasure
