"""Model of music21.duration (analysed, never run): a duration is a type with dots and tuplets, or a sum of such components."""
from fractions import Fraction
from music21.common.numberTools import opFrac

typeToDuration = {'duplex-maxima': 64.0, 'maxima': 32.0, 'longa': 16.0, 'breve': 8.0, 'whole': 4.0, 'half': 2.0, 'quarter': 1.0,
                  'eighth': 0.5, '16th': 0.25, '32nd': 0.125, '64th': 0.0625, '128th': 0.03125, '256th': 0.015625,
                  '512th': 0.0078125, '1024th': 0.00390625, '2048th': 0.001953125, 'zero': 0.0}
typeFromNumDict = {1.0: 'whole', 2.0: 'half', 4.0: 'quarter', 8.0: 'eighth', 16.0: '16th', 32.0: '32nd', 64.0: '64th',
                   128.0: '128th', 256.0: '256th', 512.0: '512th', 1024.0: '1024th', 0.0: 'zero', 0.5: 'breve', 0.25: 'longa',
                   0.125: 'maxima', 0.0625: 'duplex-maxima'}
ordinalTypeFromNum = ['duplex-maxima', 'maxima', 'longa', 'breve', 'whole', 'half', 'quarter', 'eighth', '16th', '32nd', '64th',
                      '128th', '256th', '512th', '1024th', '2048th']


class DurationException(Exception):
    pass


class TupletException(Exception):
    pass


def convertTypeToQuarterLength(t, dots=0, tuplets=None, dotGroups=None):
    if t not in typeToDuration:
        raise DurationException(t)
    q = typeToDuration[t]
    total = q
    for _ in range(dots):
        q = q / 2
        total = total + q
    if tuplets:
        for tp in tuplets:
            total = opFrac(total * tp.tupletMultiplier())
    return total


def convertQuarterLengthToType(q):
    for t in typeToDuration:
        if typeToDuration[t] == q:
            return t
    raise DurationException(q)


def convertTypeToNumber(t):
    for k in typeFromNumDict:
        if typeFromNumDict[k] == t:
            return k
    raise DurationException(t)


def quarterLengthToClosestType(q):
    if q in typeToDuration.values():
        return convertQuarterLengthToType(q), True
    best = None
    for t in ordinalTypeFromNum:
        if typeToDuration[t] <= q:
            best = t
            break
    if best is None:
        raise DurationException(q)
    return best, False


class DurationTuple:
    def __init__(self, type, dots, quarterLength):
        self.type = type
        self.dots = dots
        self.quarterLength = quarterLength

    def __eq__(self, other):
        if not isinstance(other, DurationTuple):
            return False
        return self.type == other.type and self.dots == other.dots and self.quarterLength == other.quarterLength

    @property
    def ordinal(self):
        return ordinalTypeFromNum.index(self.type)

    def augmentOrDiminish(self, m):
        return durationTupleFromQuarterLength(opFrac(self.quarterLength * m))


def durationTupleFromTypeDots(durType='quarter', dots=0):
    return DurationTuple(durType, dots, convertTypeToQuarterLength(durType, dots))


def durationTupleFromQuarterLength(q=1.0):
    q = opFrac(q)
    for t in ordinalTypeFromNum:
        base = typeToDuration[t]
        if base <= q:
            total = base
            d = base
            for dots in range(5):
                if total == q:
                    return DurationTuple(t, dots, q)
                d = d / 2
                total = total + d
            break
    if q == 0:
        return DurationTuple('zero', 0, 0.0)
    return DurationTuple('inexpressible', 0, q)


class Tuplet:
    def __init__(self, numberNotesActual=3, numberNotesNormal=2, durationActual=None, durationNormal=None, *, tupletId=0,
                 nestedLevel=1, type=None, bracket=True, placement='above', tupletActualShow='number',
                 tupletNormalShow=None, **keywords):
        self.tupletId = tupletId
        self.nestedLevel = nestedLevel
        self.numberNotesActual = numberNotesActual
        self.numberNotesNormal = numberNotesNormal
        if isinstance(durationActual, str):
            durationActual = durationTupleFromTypeDots(durationActual, 0)
        if isinstance(durationNormal, str):
            durationNormal = durationTupleFromTypeDots(durationNormal, 0)
        if isinstance(durationActual, tuple):
            durationActual = durationTupleFromTypeDots(durationActual[0], durationActual[1])
        if isinstance(durationNormal, tuple):
            durationNormal = durationTupleFromTypeDots(durationNormal[0], durationNormal[1])
        if durationActual is None and durationNormal is not None:
            durationActual = durationNormal
        if durationNormal is None and durationActual is not None:
            durationNormal = durationActual
        self.durationActual = durationActual
        self.durationNormal = durationNormal
        self.type = type
        self.bracket = bracket
        self.placement = placement
        self.tupletActualShow = tupletActualShow
        self.tupletNormalShow = tupletNormalShow
        self.frozen = False

    def __eq__(self, other):
        if not isinstance(other, Tuplet):
            return False
        return (self.numberNotesActual == other.numberNotesActual and self.numberNotesNormal == other.numberNotesNormal
                and self.durationActual == other.durationActual and self.durationNormal == other.durationNormal
                and self.type == other.type and self.bracket == other.bracket and self.placement == other.placement)

    def tupletMultiplier(self):
        if self.durationActual is None or self.durationNormal is None:
            return opFrac(Fraction(self.numberNotesNormal, self.numberNotesActual))
        return opFrac(self.totalTupletLength() / (self.numberNotesActual * self.durationActual.quarterLength))

    def totalTupletLength(self):
        return opFrac(self.numberNotesNormal * self.durationNormal.quarterLength)

    def setDurationType(self, durType, dots=0):
        self.durationActual = durationTupleFromTypeDots(durType, dots)
        self.durationNormal = durationTupleFromTypeDots(durType, dots)

    def setRatio(self, actual, normal):
        self.numberNotesActual = actual
        self.numberNotesNormal = normal

    def augmentOrDiminish(self, m):
        return Tuplet(self.numberNotesActual, self.numberNotesNormal)


def _decompose(q):
    """-> list of components, tuple of tuplets"""
    q = opFrac(q)
    if q == 0:
        return [DurationTuple('zero', 0, 0.0)], ()
    one = durationTupleFromQuarterLength(q)
    if one.type != 'inexpressible':
        return [one], ()
    f = Fraction(q)
    for actual, normal in ((3, 2), (5, 4), (7, 4), (7, 8), (11, 8), (13, 8), (15, 8), (17, 16), (9, 8), (19, 16)):
        if f.denominator % actual == 0:
            d = durationTupleFromQuarterLength(opFrac(f * actual / normal))
            if d.type != 'inexpressible' and d.dots == 0:
                plain = durationTupleFromTypeDots(d.type, 0)
                return [d], (Tuplet(actual, normal, plain, plain),)
    for actual, normal in ((3, 2), (5, 4), (7, 4), (7, 8), (11, 8), (13, 8), (15, 8), (17, 16), (9, 8), (19, 16)):
        if f.denominator % actual == 0:
            d = durationTupleFromQuarterLength(opFrac(f * actual / normal))
            if d.type != 'inexpressible':
                plain = durationTupleFromTypeDots(d.type, 0)
                return [d], (Tuplet(actual, normal, plain, plain),)
    # several components tied together
    out = []
    rest = f
    for t in ordinalTypeFromNum:
        base = Fraction(typeToDuration[t])
        while base <= rest:
            out.append(DurationTuple(t, 0, opFrac(base)))
            rest = rest - base
    if rest != 0:
        return [DurationTuple('inexpressible', 0, q)], ()
    return out, ()


class Duration:
    isGrace = False

    def __init__(self, typeOrDuration=None, *, type=None, quarterLength=None, dots=0, durationTuple=None, components=None,
                 client=None, **keywords):
        self.linked = True
        self._qtrLength = 0.0
        self._components = []
        self._tuplets = ()
        self.expressionIsInferred = False
        self.client = client
        if typeOrDuration is not None:
            if isinstance(typeOrDuration, str):
                type = typeOrDuration
            elif isinstance(typeOrDuration, DurationTuple):
                durationTuple = typeOrDuration
            else:
                quarterLength = typeOrDuration
        if durationTuple is not None:
            self.addDurationTuple(durationTuple)
        if components is not None:
            for c in components:
                self.addDurationTuple(c)
        if type is not None:
            self._components = [durationTupleFromTypeDots(type, dots or 0)]
            self._update()
        elif quarterLength is not None:
            self.quarterLength = quarterLength

    def __eq__(self, other):
        if not isinstance(other, Duration):
            return False
        return (self.type == other.type and self.dots == other.dots and self.quarterLength == other.quarterLength
                and self._tuplets == other._tuplets and self.isGrace == other.isGrace)

    def _update(self):
        if self.linked:
            total = 0.0
            for c in self._components:
                total = opFrac(total + c.quarterLength)
            for tp in self._tuplets:
                total = opFrac(total * tp.tupletMultiplier())
            self._qtrLength = total

    @property
    def quarterLength(self):
        return self._qtrLength

    @quarterLength.setter
    def quarterLength(self, v):
        v = opFrac(v)
        if self.linked:
            self._components, self._tuplets = _decompose(v)
        self._qtrLength = v

    @property
    def quarterLengthNoTuplets(self):
        total = 0.0
        for c in self._components:
            total = total + c.quarterLength
        return total

    @property
    def components(self):
        return tuple(self._components)

    @components.setter
    def components(self, v):
        self._components = list(v)
        self._update()

    @property
    def isComplex(self):
        return len(self._components) > 1

    @property
    def type(self):
        if len(self._components) == 1:
            return self._components[0].type
        if len(self._components) > 1:
            return 'complex'
        return 'zero'

    @type.setter
    def type(self, v):
        if v not in typeToDuration and v != 'inexpressible':
            raise ValueError(v)
        dots = self._components[0].dots if self._components else 0
        self._components = [durationTupleFromTypeDots(v, dots)]
        self._update()

    @property
    def dots(self):
        if len(self._components) == 1:
            return self._components[0].dots
        return 0

    @dots.setter
    def dots(self, v):
        if len(self._components) == 1:
            self._components = [durationTupleFromTypeDots(self._components[0].type, v)]
            self._update()

    @property
    def dotGroups(self):
        return (self.dots,)

    @property
    def ordinal(self):
        return ordinalTypeFromNum.index(self.type)

    @property
    def fullName(self):
        return self.type

    @property
    def tuplets(self):
        return self._tuplets

    @tuplets.setter
    def tuplets(self, v):
        self._tuplets = tuple(v)
        self._update()

    def appendTuplet(self, tp):
        self._tuplets = self._tuplets + (tp,)
        self._update()

    def addDurationTuple(self, d, **keywords):
        if isinstance(d, DurationTuple):
            self._components.append(d)
        elif isinstance(d, Duration):
            for c in d.components:
                self._components.append(c)
        elif isinstance(d, str):
            self._components.append(durationTupleFromTypeDots(d, 0))
        else:
            self._components.append(durationTupleFromQuarterLength(d))
        self._update()

    def aggregateTupletMultiplier(self):
        m = 1.0
        for tp in self._tuplets:
            m = opFrac(m * tp.tupletMultiplier())
        return m

    def augmentOrDiminish(self, m, retainComponents=False):
        return Duration(opFrac(self._qtrLength * m))

    def clear(self):
        self._components = []
        self._tuplets = ()
        self._update()

    def getGraceDuration(self, appoggiatura=False):
        if appoggiatura:
            g = AppoggiaturaDuration(1)
        else:
            g = GraceDuration(1)
        g._components = list(self._components)
        g._tuplets = self._tuplets
        g.linked = False
        g._qtrLength = 0.0
        return g


class GraceDuration(Duration):
    isGrace = True

    def __init__(self, typeOrDuration=None, **keywords):
        super().__init__(typeOrDuration, **keywords)
        self.linked = False
        self._qtrLength = 0.0
        self.stealTimePrevious = None
        self.stealTimeFollowing = None
        self.slash = True
        self.makeTime = False


class AppoggiaturaDuration(GraceDuration):
    def __init__(self, typeOrDuration=None, **keywords):
        super().__init__(typeOrDuration, **keywords)
        self.slash = False
        self.makeTime = True
