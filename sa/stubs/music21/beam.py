"""Model of music21.beam (analysed, never run)."""
from music21.style import StyleMixin, BeamStyle


beamableDurationTypes = ('eighth', '16th', '32nd', '64th', '128th', '256th', '512th', '1024th', '2048th')


class BeamException(Exception):
    pass


class Beam(StyleMixin):
    _styleClass = BeamStyle

    def __init__(self, type=None, direction=None, number=None, **keywords):
        self._style = None
        self._editorial = None
        self.type = type
        self.direction = direction
        self.independentAngle = None
        self.number = number
        self.id = None


class Beams:
    def __init__(self):
        self.beamsList = []
        self.feathered = False
        self.id = None

    def __len__(self):
        return len(self.beamsList)

    def __iter__(self):
        return iter(self.beamsList)

    def append(self, type='start', direction=None):
        if isinstance(type, Beam):
            b = type
        else:
            b = Beam(type, direction)
        b.number = len(self.beamsList) + 1
        self.beamsList.append(b)

    def fill(self, level=None, type=None):
        self.beamsList = []
        names = {'eighth': 1, '8th': 1, 1: 1, '16th': 2, 2: 2, '32nd': 3, 3: 3, '64th': 4, 4: 4, '128th': 5, 5: 5,
                 '256th': 6, 6: 6, '512th': 7, 7: 7, '1024th': 8, 8: 8}
        for i in range(names[level]):
            b = Beam()
            b.number = i + 1
            self.beamsList.append(b)
        if type is not None:
            self.setAll(type)

    def setAll(self, type, direction=None):
        for b in self.beamsList:
            b.type = type
            b.direction = direction

    def setByNumber(self, number, type, direction=None):
        if number not in self.getNumbers():
            raise IndexError(number)
        for b in self.beamsList:
            if b.number == number:
                b.type = type
                b.direction = direction

    def getByNumber(self, number):
        for b in self.beamsList:
            if b.number == number:
                return b
        raise IndexError(number)

    def getTypes(self):
        return [b.type for b in self.beamsList]

    def getTypeByNumber(self, number):
        b = self.getByNumber(number)
        if b.direction is None:
            return b.type
        return b.type + '-' + b.direction

    def getNumbers(self):
        return [b.number for b in self.beamsList]
