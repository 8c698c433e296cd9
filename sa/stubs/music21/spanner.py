"""Model of music21.spanner (analysed, never run)."""
from music21.base import Music21Object
from music21.style import LineStyle, TextStyle


class SpannerException(Exception):
    pass


class SpannerAnchor(Music21Object):
    pass


class _Storage:
    def __init__(self, owner):
        self.owner = owner

    @property
    def elements(self):
        return tuple(self.owner._spanned)

    def remove(self, e):
        self.owner._spanned = [x for x in self.owner._spanned if x is not e]
        e._spannerSites = [x for x in e._spannerSites if x is not self.owner]

    def __iter__(self):
        return iter(self.owner._spanned)

    def __len__(self):
        return len(self.owner._spanned)


class Spanner(Music21Object):
    def __init__(self, *spannedElements, **keywords):
        super().__init__(**keywords)
        self._spanned = []
        self.completeStatus = False
        self.fillElementTypes = []
        self.idLocal = None
        self.idSpanner = None
        for e in spannedElements:
            if isinstance(e, (list, tuple)):
                self.addSpannedElements(e)
            else:
                self.addSpannedElements(e)

    def addSpannedElements(self, spannedElements, *others, **keywords):
        if not isinstance(spannedElements, (list, tuple)):
            spannedElements = [spannedElements]
        for e in list(spannedElements) + list(others):
            if e is None:
                continue
            if not self.hasSpannedElement(e):
                self._spanned.append(e)
                e._spannerSites.append(self)

    @property
    def spannerStorage(self):
        return _Storage(self)

    def hasSpannedElement(self, e):
        for x in self._spanned:
            if x is e:
                return True
        return False

    def __contains__(self, e):
        return self.hasSpannedElement(e)

    def __len__(self):
        return len(self._spanned)

    def __iter__(self):
        return iter(list(self._spanned))

    def __bool__(self):
        return True

    def __getitem__(self, i):
        return self._spanned[i]

    def getSpannedElements(self):
        return list(self._spanned)

    def getSpannedElementsByClass(self, classFilterList):
        if not isinstance(classFilterList, (list, tuple)):
            classFilterList = [classFilterList]
        return [x for x in self._spanned if x.isClassOrSubclass(classFilterList)]

    def getSpannedElementIds(self):
        return [id(x) for x in self._spanned]

    def replaceSpannedElement(self, old, new):
        self._spanned = [new if x is old else x for x in self._spanned]
        old._spannerSites = [x for x in old._spannerSites if x is not self]
        new._spannerSites.append(self)

    def getFirst(self):
        return self._spanned[0] if self._spanned else None

    def getLast(self):
        return self._spanned[-1] if self._spanned else None

    def isFirst(self, e):
        return self.getFirst() is e

    def isLast(self, e):
        return self.getLast() is e

    def fill(self, searchStream=None, *, includeEndBoundary=False, mustFinishInSpan=False, mustBeginInSpan=True,
             includeElementsThatEndAtStart=False):
        if searchStream is None or len(self._spanned) == 0:
            return
        first = self._spanned[0]
        last = self._spanned[-1]
        t0 = first.getOffsetInHierarchy(searchStream)
        t1 = last.getOffsetInHierarchy(searchStream) + last.duration.quarterLength
        if first is not last:
            self._spanned = [first]
        for e in searchStream._flatAll():
            if e is first or e is last:
                continue
            if not e.isClassOrSubclass(self.fillElementTypes):
                continue
            t = e.getOffsetInHierarchy(searchStream)
            if t0 <= t and t < t1:
                self._spanned.append(e)
                e._spannerSites.append(self)
        if first is not last:
            self._spanned.append(last)


class Slur(Spanner):
    _styleClass = LineStyle

    def __init__(self, *spannedElements, **keywords):
        super().__init__(*spannedElements, **keywords)
        self.placement = None
        self.lineType = None


class MultiMeasureRest(Spanner):
    pass


class RepeatBracket(Spanner):
    def __init__(self, *spannedElements, number=None, overrideDisplay=None, **keywords):
        super().__init__(*spannedElements, **keywords)
        self._number = ''
        self.overrideDisplay = overrideDisplay
        if number is not None:
            self.number = number

    @property
    def number(self):
        return self._number

    @number.setter
    def number(self, v):
        self._number = '' if v is None else str(v)


class Ottava(Spanner):
    def __init__(self, *spannedElements, type='8va', transposing=True, placement='above', **keywords):
        super().__init__(*spannedElements, **keywords)
        from music21.note import NotRest
        from music21.stream import Stream
        self._type = type
        self.placement = placement
        self.transposing = transposing
        self.fillElementTypes = [NotRest]

    @property
    def type(self):
        return self._type

    @type.setter
    def type(self, v):
        self._type = v

    def performTransposition(self):
        if not self.transposing:
            return
        self.transposing = False
        self._shift(1)

    def undoTransposition(self):
        if self.transposing:
            return
        self.transposing = True
        self._shift(-1)

    def _shift(self, sign):
        n = {8: 1, 15: 2, 22: 3}[self.shiftMagnitude()]
        up = 1 if self.shiftDirection() == 'up' else -1
        for e in self._spanned:
            if 'Unpitched' in e.classes or 'PercussionChord' in e.classes:
                continue
            if hasattr(e, 'pitches'):
                for p in e.pitches:
                    p.octave = p.implicitOctave + sign * up * n

    def shiftDirection(self, reverse=False):
        up = 'va' in self._type or 'ma' in self._type
        if reverse:
            up = not up
        return 'up' if up else 'down'

    def shiftMagnitude(self):
        if '8' in self._type:
            return 8
        if '15' in self._type:
            return 15
        return 22


class Line(Spanner):
    def __init__(self, *spannedElements, lineType='solid', tick='down', **keywords):
        super().__init__(*spannedElements, **keywords)
        self.lineType = lineType
        self.startTick = tick
        self.endTick = tick


class Glissando(Spanner):
    def __init__(self, *spannedElements, lineType='wavy', label=None, **keywords):
        super().__init__(*spannedElements, **keywords)
        self.lineType = lineType
        self.label = label


class StaffLines(Spanner):
    pass


class SpannerBundle:
    def __init__(self, spanners=None):
        self._storage = [] if spanners is None else spanners
        self._cache = {}

    def __iter__(self):
        return iter(self._storage)

    def __len__(self):
        return len(self._storage)

    def __getitem__(self, i):
        return self._storage[i]

    def append(self, sp):
        self._storage.append(sp)
        self._cache = {}

    def remove(self, sp):
        self._storage = [x for x in self._storage if x is not sp]

    def getByIdLocal(self, idLocal):
        key = 'idLocal-' + str(idLocal)
        if key not in self._cache or self._cache[key] is None:
            self._cache[key] = [x for x in self._storage if x.idLocal == idLocal]
        return SpannerBundle(self._cache[key])

    def getBySpannedElement(self, e):
        return SpannerBundle([x for x in self._storage if x.hasSpannedElement(e)])

    def getByClass(self, c):
        return SpannerBundle([x for x in self._storage if x.isClassOrSubclass([c])])
