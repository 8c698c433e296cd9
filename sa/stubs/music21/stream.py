"""Model of music21.stream (analysed, never run): containers of elements at offsets, sorted by offset and class order."""
from music21.base import Music21Object
from music21.style import StreamStyle
from music21.common.numberTools import opFrac
from music21.duration import Duration
from music21.spanner import Spanner, SpannerBundle


class StreamException(Exception):
    pass


class StreamIterator:
    def __init__(self, items, owner=None):
        self._items = items
        self._owner = owner

    def __iter__(self):
        return iter(self._items)

    def __len__(self):
        return len(self._items)

    def __bool__(self):
        return len(self._items) > 0

    def __getitem__(self, k):
        if isinstance(k, (int, slice)):
            return self._items[k]
        return self.getElementsByClass(k)

    def __contains__(self, e):
        for x in self._items:
            if x is e:
                return True
        return False

    def first(self):
        return self._items[0] if self._items else None

    def last(self):
        return self._items[-1] if self._items else None

    def getElementsByClass(self, classFilterList):
        if not isinstance(classFilterList, (list, tuple, set)):
            classFilterList = [classFilterList]
        return StreamIterator([e for e in self._items if e.isClassOrSubclass(classFilterList)], self._owner)

    def getElementsNotOfClass(self, classFilterList):
        if not isinstance(classFilterList, (list, tuple, set)):
            classFilterList = [classFilterList]
        return StreamIterator([e for e in self._items if not e.isClassOrSubclass(classFilterList)], self._owner)

    def getElementsByOffset(self, offsetStart, offsetEnd=None, *, includeEndBoundary=True, mustFinishInSpan=False,
                            mustBeginInSpan=True, includeElementsThatEndAtStart=True):
        if offsetEnd is None:
            offsetEnd = offsetStart
        out = []
        for e in self._items:
            o = self._owner.elementOffset(e) if e in self._owner else e.offset
            if offsetStart <= o and (o < offsetEnd or (includeEndBoundary and o == offsetEnd)):
                out.append(e)
        return StreamIterator(out, self._owner)

    def stream(self):
        s = Stream()
        for e in self._items:
            s._items.append((e.getOffsetInHierarchy(self._owner), e, len(s._items)))
        return s

    def getElementAtOrBefore(self, offset, classList=None):
        best = None
        at = None
        for e in self._items:
            o = self._owner.elementOffset(e) if e in self._owner else e.offset
            if o <= offset and (at is None or o > at) and (classList is None or e.isClassOrSubclass(classList)):
                best = e
                at = o
        return best

    def getElementsByOffsetInHierarchy(self, offsetStart, offsetEnd=None, *, includeEndBoundary=True, mustFinishInSpan=False,
                                       mustBeginInSpan=True, includeElementsThatEndAtStart=True):
        if offsetEnd is None:
            offsetEnd = offsetStart
        out = []
        for e in self._items:
            o = e.getOffsetInHierarchy(self._owner)
            if offsetStart <= o and (o < offsetEnd or (includeEndBoundary and o == offsetEnd)):
                out.append(e)
        return StreamIterator(out, self._owner)

    @property
    def notes(self):
        return self.getElementsByClass('NotRest')

    @property
    def notesAndRests(self):
        return self.getElementsByClass('GeneralNote')


class Stream(Music21Object):
    isStream = True
    isMeasure = False
    _styleClass = StreamStyle

    def __init__(self, givenElements=None, **keywords):
        super().__init__(**keywords)
        self._items = []
        self.isSorted = True
        self.autoSort = True
        self.isFlat = True
        self.definesExplicitSystemBreaks = False
        self.definesExplicitPageBreaks = False
        self._atSoundingPitch = 'unknown'
        self._staffLines = None
        if givenElements is not None:
            if isinstance(givenElements, Music21Object):
                givenElements = [givenElements]
            append = True
            for e in givenElements:
                if e.offset != 0.0:
                    append = False
            if append:
                together = True
                for e in givenElements:
                    if not e.isStream or 'Measure' in e.classes or 'Score' in e.classes:
                        together = False
                if together:
                    append = False
            for e in givenElements:
                if append:
                    self.append(e)
                else:
                    self.insert(e.offset, e)

    def __bool__(self):
        return len(self._items) > 0

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(self.elements)

    def __contains__(self, e):
        for x in self._items:
            if x[1] is e:
                return True
        return False

    def __getitem__(self, k):
        if isinstance(k, (int, slice)):
            return self.elements[k]
        if isinstance(k, str):
            return StreamIterator([e for e in self._flatAll() if k in e.classes], self)
        return StreamIterator([e for e in self._flatAll() if e.isClassOrSubclass([k])], self)

    @property
    def elements(self):
        out = sorted(self._items, key=lambda x: (x[0], x[1].priority, x[1].classSortOrder,
                                                 0 if x[1].duration.isGrace else 1, x[2]))
        return [x[1] for x in out]

    def _within(self, site):
        if self is site:
            return True
        for s in self._sites:
            if s is site or s._within(site):
                return True
        return False

    def elementOffset(self, e, returnSpecial=False):
        for x in self._items:
            if x[1] is e:
                return x[0]
        from music21.sites import SitesException
        raise SitesException('not here')

    def setElementOffset(self, e, offset, **keywords):
        self._items = [(opFrac(offset), x[1], x[2]) if x[1] is e else x for x in self._items]

    def coreInsert(self, offset, element, *, ignoreSort=False, setActiveSite=True):
        self._items.append((opFrac(offset), element, len(self._items)))
        element._sites.append(self)
        element.activeSite = self

    def coreAppend(self, element, *, setActiveSite=True):
        self.coreInsert(self.highestTime, element)

    def coreElementsChanged(self, **keywords):
        pass

    def coreSetElementOffset(self, e, offset, **keywords):
        self.setElementOffset(e, offset)

    def insert(self, offsetOrItem, itemOrNone=None, *, ignoreSort=False, setActiveSite=True):
        if itemOrNone is None:
            self.coreInsert(offsetOrItem._offset, offsetOrItem)
        else:
            self.coreInsert(offsetOrItem, itemOrNone)

    def append(self, others):
        if not isinstance(others, (list, tuple)):
            others = [others]
        for e in others:
            self.coreAppend(e)

    def insertAndShift(self, offset, e=None):
        self.insert(offset, e)

    def remove(self, target, **keywords):
        self._items = [x for x in self._items if x[1] is not target]
        target._sites = [s for s in target._sites if s is not self]
        if target.activeSite is self:
            target.activeSite = None

    def replace(self, target, replacement, **keywords):
        self._items = [(x[0], replacement, x[2]) if x[1] is target else x for x in self._items]
        target._sites = [s for s in target._sites if s is not self]
        replacement._sites.append(self)
        replacement.activeSite = self

    @property
    def highestTime(self):
        h = 0.0
        for x in self._items:
            e = opFrac(x[0] + x[1].duration.quarterLength)
            if e > h:
                h = e
        return h

    @property
    def highestOffset(self):
        h = 0.0
        for x in self._items:
            if x[0] > h:
                h = x[0]
        return h

    @property
    def lowestOffset(self):
        return 0.0

    @property
    def duration(self):
        if self._items:
            return Duration(self.highestTime)
        return self._duration

    @duration.setter
    def duration(self, v):
        self._duration = v

    @property
    def quarterLength(self):
        return self.duration.quarterLength

    def _flatAll(self):
        out = []
        for e in self.elements:
            out.append(e)
            if e.isStream:
                for x in e._flatAll():
                    out.append(x)
        return out

    def recurse(self, **keywords):
        return StreamIterator(self._flatAll(), self)

    def iter(self):
        return StreamIterator(self.elements, self)

    def flatten(self, retainContainers=False):
        s = Stream()
        for e in self._flatAll():
            if not e.isStream:
                s._items.append((e.getOffsetInHierarchy(self), e, len(s._items)))
        return s

    def getElementsByClass(self, classFilterList):
        return StreamIterator(self.elements, self).getElementsByClass(classFilterList)

    def getElementsNotOfClass(self, classFilterList):
        return StreamIterator(self.elements, self).getElementsNotOfClass(classFilterList)

    def getElementsByOffset(self, offsetStart, offsetEnd=None, **keywords):
        return StreamIterator(self.elements, self).getElementsByOffset(offsetStart, offsetEnd, **keywords)

    def getElementAtOrBefore(self, offset, classList=None):
        return StreamIterator(self.elements, self).getElementAtOrBefore(offset, classList)

    def getTimeSignatures(self, *, searchContext=True, returnDefault=True, recurse=True, sortByCreationTime=True):
        found = [e for e in (self._flatAll() if recurse else self.elements) if 'TimeSignature' in e.classes]
        return StreamIterator(found, self).stream()

    def getElementById(self, elementId):
        for e in self._flatAll():
            if e.id == elementId:
                return e
        return None

    def index(self, el):
        i = 0
        for e in self.elements:
            if e is el:
                return i
            i = i + 1
        raise StreamException('not here')

    @property
    def notes(self):
        return self.getElementsByClass('NotRest')

    @property
    def notesAndRests(self):
        return self.getElementsByClass('GeneralNote')

    @property
    def voices(self):
        return self.getElementsByClass('Voice')

    @property
    def parts(self):
        return self.getElementsByClass('Part')

    @property
    def spanners(self):
        return self.getElementsByClass('Spanner')

    @property
    def spannerBundle(self):
        return SpannerBundle([e for e in self._flatAll() if isinstance(e, Spanner)])

    @property
    def atSoundingPitch(self):
        return self._atSoundingPitch

    @atSoundingPitch.setter
    def atSoundingPitch(self, v):
        self._atSoundingPitch = v

    @property
    def staffLines(self):
        return 5 if self._staffLines is None else self._staffLines

    @staffLines.setter
    def staffLines(self, v):
        self._staffLines = v

    def getInstrument(self, **keywords):
        return self.getElementsByClass('Instrument').first()

    def hasVoices(self):
        return len(self.voices) > 0

    def toWrittenPitch(self, *, ottavasToSounding=False, inPlace=False, preserveAccidentalDisplay=False):
        for s in [self] + [x for x in self._flatAll() if isinstance(x, Stream)]:
            if s is self and self._atSoundingPitch is True:
                self._transposeByInstrument(True)
        for s in [self] + [x for x in self._flatAll() if isinstance(x, Stream)]:
            s._atSoundingPitch = False
        for o in self._flatAll():
            if 'Ottava' in o.classes:
                if ottavasToSounding:
                    o.performTransposition()
                else:
                    o.undoTransposition()
        return None

    def _transposeByInstrument(self, reverse):
        insts = [i for i in self._flatAll() if 'Instrument' in i.classes]
        starts = [i.getOffsetInHierarchy(self) for i in insts]
        for k in range(len(insts)):
            trans = insts[k].transposition
            if trans is None:
                continue
            if reverse:
                trans = trans.reverse()
            for e in self._flatAll():
                if 'Note' not in e.classes and 'Chord' not in e.classes and 'KeySignature' not in e.classes:
                    continue
                if 'ChordSymbol' in e.classes:
                    continue
                t = e.getOffsetInHierarchy(self)
                if t >= starts[k] and (k + 1 == len(insts) or t < starts[k + 1]):
                    e.transpose(trans, inPlace=True)

    def coreCopyAsDerivation(self, methodName, **keywords):
        return self

    def isWellFormedNotation(self):
        return True

    def toSoundingPitch(self, *, inPlace=False, preserveAccidentalDisplay=False):
        if self._atSoundingPitch is False:
            self._transposeByInstrument(False)
        for s in [self] + [x for x in self._flatAll() if isinstance(x, Stream)]:
            s._atSoundingPitch = True
        for o in self._flatAll():
            if 'Ottava' in o.classes:
                o.performTransposition()
        return None

    def _at0(self, cls):
        for x in self._items:
            if x[0] == 0 and cls in x[1].classes:
                return x[1]
        return None

    @property
    def clef(self):
        return self._at0('Clef')

    @clef.setter
    def clef(self, v):
        old = self._at0('Clef')
        if old is not None:
            self.remove(old)
        if v is not None:
            self.insert(0, v)

    @property
    def timeSignature(self):
        return self._at0('TimeSignature')

    @timeSignature.setter
    def timeSignature(self, v):
        old = self._at0('TimeSignature')
        if old is not None:
            self.remove(old)
        if v is not None:
            self.insert(0, v)

    @property
    def keySignature(self):
        return self._at0('KeySignature')

    @keySignature.setter
    def keySignature(self, v):
        old = self._at0('KeySignature')
        if old is not None:
            self.remove(old)
        if v is not None:
            self.insert(0, v)


class Voice(Stream):
    classSortOrder = 5


class Measure(Stream):
    isMeasure = True

    def __init__(self, *args, number=0, **keywords):
        super().__init__(*args, **keywords)
        self.number = 0
        self.numberSuffix = None
        self.showNumber = None
        self._left = None
        self._right = None
        self.paddingLeft = 0.0
        self.paddingRight = 0.0
        self.layoutWidth = None
        self.clefIsNew = False
        if isinstance(number, str):
            self.setMeasureNumber(number)
        else:
            self.number = number

    def setMeasureNumber(self, v):
        digits = ''
        rest = ''
        for c in str(v):
            if c.isdigit() and not rest:
                digits = digits + c
            else:
                rest = rest + c
        self.number = int(digits) if digits else 0
        self.numberSuffix = rest if rest else None

    def measureNumberWithSuffix(self):
        return str(self.number) + (self.numberSuffix or '')

    @property
    def leftBarline(self):
        return self._left

    @leftBarline.setter
    def leftBarline(self, v):
        if isinstance(v, str):
            from music21.bar import Barline
            v = Barline(v)
        if self._left is not None:
            self.remove(self._left)
        self._left = v
        if v is not None:
            v.location = 'left'
            self.insert(0.0, v)

    @property
    def rightBarline(self):
        return self._right

    @rightBarline.setter
    def rightBarline(self, v):
        if isinstance(v, str):
            from music21.bar import Barline
            v = Barline(v)
        if self._right is not None:
            old = self._right
            old._sites = [s for s in old._sites if s is not self]
        self._right = v
        if v is not None:
            v.location = 'right'
            v._sites.append(self)
            v.activeSite = self

    def elementOffset(self, e, returnSpecial=False):
        if e is self._right:
            return self.highestTime
        return super().elementOffset(e, returnSpecial)

    def bestTimeSignature(self):
        return self.timeSignature


class Part(Stream):
    def __init__(self, *args, **keywords):
        super().__init__(*args, **keywords)
        self._partName = None
        self._partAbbreviation = None

    @property
    def partName(self):
        if self._partName is not None:
            return self._partName
        for e in self.getElementsByClass('Instrument'):
            n = e.partName if e.partName is not None else e.instrumentName
            if n is not None:
                return n
        return None

    @partName.setter
    def partName(self, v):
        self._partName = v

    @property
    def partAbbreviation(self):
        if self._partAbbreviation is not None:
            return self._partAbbreviation
        for e in self.getElementsByClass('Instrument'):
            n = e.partAbbreviation if e.partAbbreviation is not None else e.instrumentAbbreviation
            if n is not None:
                return n
        return None

    @partAbbreviation.setter
    def partAbbreviation(self, v):
        self._partAbbreviation = v


class PartStaff(Part):
    pass


class System(Stream):
    pass


class Score(Stream):
    @property
    def metadata(self):
        return self.getElementsByClass('Metadata').first()

    @metadata.setter
    def metadata(self, v):
        old = self.getElementsByClass('Metadata').first()
        if old is not None:
            self.remove(old)
        if v is not None:
            self.insert(0, v)


class Opus(Stream):
    @property
    def scores(self):
        return self.getElementsByClass('Score')
